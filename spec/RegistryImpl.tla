---------------------------- MODULE RegistryImpl ----------------------------
(* How the service does it: callers take a lock, look, write the new list to a temporary
   file, put it in the place of the old one, and only then change the list; an update changes
   the namespace first and takes it back when saving fails. The process can die between (and
   inside) any of these steps, writing can fail. Refines Registry; readers see it between. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Objects, NameSet, Limits, Factors, Procs, MaxOps

VARIABLES pc, todo, lock, mem, tmp, file, old, alive, n, saw
vars == <<pc, todo, lock, mem, tmp, file, old, alive, n, saw>>
R == INSTANCE Registry WITH reg <- {}, disk <- {}

Nobody == 0
None == [op |-> "none", name |-> "", new |-> "", msp |-> "", df |-> ""]
Torn == {[name |-> "torn", msp |-> "", df |-> ""]}

Init == /\ pc = [p \in Procs |-> "idle"] /\ todo = [p \in Procs |-> None] /\ lock = Nobody
        /\ mem = {} /\ tmp = Torn /\ file = {} /\ old = {} /\ alive = TRUE /\ n = 0
        /\ saw = [p \in Procs |-> {}]

Call(p, op) == /\ alive /\ pc[p] = "idle" /\ n < MaxOps /\ n' = n + 1
               /\ pc' = [pc EXCEPT ![p] = "called"] /\ todo' = [todo EXCEPT ![p] = op]
               /\ UNCHANGED <<lock, mem, tmp, file, old, alive, saw>>
Lock(p) == /\ alive /\ pc[p] = "called" /\ lock = Nobody
           /\ IF R!Possible(mem, todo[p]) THEN lock' = p /\ pc' = [pc EXCEPT ![p] = "locked"] /\ old' = mem
              ELSE lock' = lock /\ pc' = [pc EXCEPT ![p] = "idle"] /\ old' = old
           /\ UNCHANGED <<todo, mem, tmp, file, alive, n, saw>>
Fresh == CHOOSE o \in Objects : \A r \in mem : r.o # o
NewList(p) == R!Result(old, todo[p], Fresh)
(* an update works on the namespace itself *)
Prepare(p) == /\ alive /\ pc[p] = "locked"
              /\ mem' = (IF todo[p].op = "update" THEN NewList(p) ELSE mem)
              /\ pc' = [pc EXCEPT ![p] = "write"]
              /\ UNCHANGED <<todo, lock, tmp, file, old, alive, n, saw>>
Write(p) == /\ alive /\ pc[p] = "write"
            /\ \/ tmp' = R!Strip(NewList(p)) /\ pc' = [pc EXCEPT ![p] = "rename"]
               \/ tmp' = Torn /\ pc' = [pc EXCEPT ![p] = "failed"]
            /\ UNCHANGED <<todo, lock, mem, file, old, alive, n, saw>>
Rename(p) == /\ alive /\ pc[p] = "rename"
             /\ \/ file' = tmp /\ tmp' = Torn /\ pc' = [pc EXCEPT ![p] = "saved"]
                \/ UNCHANGED <<file, tmp>> /\ pc' = [pc EXCEPT ![p] = "failed"]
             /\ UNCHANGED <<todo, lock, mem, old, alive, n, saw>>
Commit(p) == /\ alive /\ pc[p] = "saved"
             /\ mem' = (IF todo[p].op = "update" THEN mem ELSE NewList(p))
             /\ lock' = Nobody /\ pc' = [pc EXCEPT ![p] = "idle"] /\ todo' = [todo EXCEPT ![p] = None]
             /\ UNCHANGED <<tmp, file, old, alive, n, saw>>
Undo(p) == /\ alive /\ pc[p] = "failed" /\ mem' = old
           /\ lock' = Nobody /\ pc' = [pc EXCEPT ![p] = "idle"] /\ todo' = [todo EXCEPT ![p] = None]
           /\ UNCHANGED <<tmp, file, old, alive, n, saw>>
(* a reader: atomic under the lock *)
Look(p) == /\ alive /\ pc[p] = "idle" /\ lock = Nobody /\ saw' = [saw EXCEPT ![p] = mem]
           /\ UNCHANGED <<pc, todo, lock, mem, tmp, file, old, alive, n>>
Die == /\ alive /\ alive' = FALSE
       /\ tmp' \in {tmp, Torn}
       /\ pc' = [p \in Procs |-> "idle"] /\ todo' = [p \in Procs |-> None] /\ lock' = Nobody
       /\ mem' = {} /\ UNCHANGED <<file, old, n, saw>>
(* loading the list assigns new objects *)
Assign(S) == CHOOSE f \in [S -> Objects] : \A a, b \in S : f[a] = f[b] => a = b
Restart == /\ ~alive /\ alive' = TRUE
           /\ mem' = {[o |-> Assign(file)[r], name |-> r.name, msp |-> r.msp, df |-> r.df] : r \in file}
           /\ UNCHANGED <<pc, todo, lock, tmp, file, old, n, saw>>

Next == \/ \E p \in Procs : \/ \E op \in R!Ops : Call(p, op)
                            \/ Lock(p) \/ Prepare(p) \/ Write(p) \/ Rename(p) \/ Commit(p) \/ Undo(p) \/ Look(p)
        \/ Die \/ Restart
Spec == Init /\ [][Next]_vars

(* seen from outside a change happens when the file is replaced *)
Saved(p) == pc[p] = "saved" /\ todo[p].op # "update"
RegOf == IF ~alive THEN {}
         ELSE IF lock = Nobody THEN mem
         ELSE IF pc[lock] = "saved" THEN NewList(lock) ELSE old
Abs == INSTANCE Registry WITH reg <- RegOf, disk <- file
Refines == Abs!Spec
Unique == Abs!UniqueNames /\ Abs!UniqueObjects
NeverTorn == file # Torn
LookedAt == \A p \in Procs : \A a, b \in saw[p] : a.name = b.name => a = b
InMemory == (alive /\ lock = Nobody) => R!Strip(mem) = file
=============================================================================
