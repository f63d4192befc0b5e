------------------------------- MODULE Server -------------------------------
(* The server process: where it listens, how it ends, what it serves after a restart. C24.
   reg: the namespaces certainly registered; maybe: changes the process was performing when it
   was killed, a set of [old, new]: old the name updated ("" for a creation), new a record. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NameSet, Limits

VARIABLES proc, reg, maybe
svars == <<proc, reg, maybe>>

DefaultHost == "localhost"
DefaultPort == 8080
(* the address from the environment; a port is given as [k, v], k: "number", "unset", "junk" *)
Host(h) == IF h = "" THEN DefaultHost ELSE h
Port(p) == IF p.k = "number" /\ p.v >= 0 THEN p.v ELSE DefaultPort

Rec(n, m) == [name |-> n, msp |-> IF m = "0" THEN "1000" ELSE m]
Taken(R, n) == \E r \in R : r.name = n
Of(R, n) == CHOOSE r \in R : r.name = n
Apply(R, c) == IF c.old = "" THEN (IF Taken(R, c.new.name) THEN R ELSE R \cup {c.new})
               ELSE IF ~Taken(R, c.old) \/ (c.new.name # c.old /\ Taken(R, c.new.name)) THEN R
               ELSE (R \ {Of(R, c.old)}) \cup {c.new}
(* what performing some of the changes, in some order, can lead to *)
RECURSIVE Outcomes(_, _)
Outcomes(R, C) == {R} \cup UNION {Outcomes(Apply(R, c), C \ {c}) : c \in C}

Init == proc = "down" /\ reg = {} /\ maybe = {}
(* with a free address it listens there and serves what was registered *)
Start(seen) == /\ proc = "down" /\ seen \in Outcomes(reg, maybe)
               /\ proc' = "up" /\ reg' = seen /\ maybe' = {}
CannotListen == proc = "down" /\ UNCHANGED svars
(* the saved registry is there but cannot be read: it ends, rather than start without it *)
CannotLoad == proc = "down" /\ UNCHANGED svars
Create(n, m) == /\ proc = "up" /\ ~Taken(reg, n) /\ reg' = reg \cup {Rec(n, m)} /\ UNCHANGED <<proc, maybe>>
Update(n, x, m) == /\ proc = "up" /\ Taken(reg, n) /\ (x = n \/ ~Taken(reg, x))
                   /\ reg' = (reg \ {Of(reg, n)}) \cup {Rec(x, m)} /\ UNCHANGED <<proc, maybe>>
Refuse == proc = "up" /\ UNCHANGED svars
RECURSIVE ApplyAll(_, _)
ApplyAll(R, C) == IF C = {} THEN R ELSE LET c == CHOOSE c \in C : TRUE IN ApplyAll(Apply(R, c), C \ {c})
(* a signal: no new connections, requests in progress (changes of different names) are completed *)
Stop(C) == proc = "up" /\ proc' = "down" /\ reg' = ApplyAll(reg, C) /\ UNCHANGED maybe
(* killed while it was performing changes *)
Kill(C) == proc = "up" /\ proc' = "down" /\ maybe' = C /\ UNCHANGED reg

Recs == {Rec(n, m) : n \in NameSet, m \in Limits}
Changes == [old : NameSet \cup {""}, new : Recs]
Next == \/ \E S \in Outcomes(reg, maybe) : Start(S)
        \/ CannotListen \/ CannotLoad \/ Refuse
        \/ \E n \in NameSet, m \in Limits : Create(n, m)
        \/ \E n, x \in NameSet, m \in Limits : Update(n, x, m)
        \/ \E c \in Changes : Apply(reg, c) # reg /\ Stop({c})
        \/ Stop({})
        \/ \E c \in Changes, d \in Changes : Kill({c, d})
Spec == Init /\ [][Next]_svars

Unique == \A a, b \in reg : a.name = b.name => a = b
(* a restart loses nothing that was not being changed *)
Kept == [][(proc = "down" /\ proc' = "up") =>
             \A r \in reg : r \in reg' \/ \E c \in maybe : c.old = r.name]_svars
Settled == proc = "up" => maybe = {}
=============================================================================
