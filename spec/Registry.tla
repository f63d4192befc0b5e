------------------------------ MODULE Registry ------------------------------
(* The list of namespaces: a set of records [o, name, msp, df], o being the identity of the
   namespace object; the copy on disk has no identities. Every operation happens at once.
   C18, C19. Limits and factors are opaque, "0" as a limit stands for the default. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Objects, NameSet, Limits, Factors

VARIABLES reg, disk
rvars == <<reg, disk>>

Norm(m) == IF m = "0" THEN "1000" ELSE m
Rec(o, n, m, d) == [o |-> o, name |-> n, msp |-> Norm(m), df |-> d]
Strip(R) == {[name |-> r.name, msp |-> r.msp, df |-> r.df] : r \in R}
Taken(R, n) == \E r \in R : r.name = n
Of(R, n) == CHOOSE r \in R : r.name = n

(* what an operation op would do: op is a record [op, name, new, msp, df]; o is the identity
   a new namespace gets *)
Possible(R, op) ==
    CASE op.op = "create" -> ~Taken(R, op.name)
      [] op.op = "update" -> Taken(R, op.name) /\ (op.new = op.name \/ ~Taken(R, op.new))
      [] op.op = "delete" -> Taken(R, op.name)
      [] OTHER -> FALSE
Result(R, op, o) ==
    CASE op.op = "create" -> R \cup {Rec(o, op.name, op.msp, op.df)}
      [] op.op = "update" -> (R \ {Of(R, op.name)}) \cup {Rec(Of(R, op.name).o, op.new, op.msp, op.df)}
      [] op.op = "delete" -> R \ {Of(R, op.name)}

Init == reg = {} /\ disk = {}
(* a change happens in memory and on disk, or not at all *)
Change(op, o) == /\ Possible(reg, op)
                 /\ op.op = "create" => \A r \in reg : r.o # o
                 /\ reg' = Result(reg, op, o) /\ disk' = Strip(reg')
Refuse == UNCHANGED rvars
(* the process dies in the middle of an operation: it was saved or not *)
Die(op, o) == /\ reg' = {}
              /\ \/ disk' = disk
                 \/ Possible(reg, op) /\ disk' = Strip(Result(reg, op, o))
(* a service started on the directory *)
Restore(ids) == disk' = disk /\ reg' = {[o |-> ids[r], name |-> r.name, msp |-> r.msp, df |-> r.df] : r \in disk}

Ops == [op : {"create"}, name : NameSet, new : {""}, msp : Limits, df : Factors]
       \cup [op : {"update"}, name : NameSet, new : NameSet, msp : Limits, df : Factors]
       \cup [op : {"delete"}, name : NameSet, new : {""}, msp : {""}, df : {""}]
Next == \/ \E op \in Ops, o \in Objects : Change(op, o) \/ Die(op, o)
        \/ Refuse
        \/ \E ids \in [disk -> Objects] : (\A a, b \in disk : ids[a] = ids[b] => a = b) /\ Restore(ids)
Spec == Init /\ [][Next]_rvars

(* no two share a name, in memory and on disk; no two are the same object *)
UniqueNames == /\ Cardinality({r.name : r \in reg}) = Cardinality(reg)
               /\ Cardinality({r.name : r \in disk}) = Cardinality(disk)
UniqueObjects == Cardinality({r.o : r \in reg}) = Cardinality(reg)
InStep == reg # {} => disk = Strip(reg)
=============================================================================
