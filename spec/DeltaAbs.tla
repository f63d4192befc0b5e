------------------------------ MODULE DeltaAbs ------------------------------
(* Delta with the number of records hidden and the lost memory of a dead process forgotten:
   the target of the refinement of DeltaImpl. *)
EXTENDS Integers, FiniteSets
CONSTANTS Pairs
VARIABLES mode, flushed, new, since
avars == <<mode, flushed, new, since>>
None == [p \in Pairs |-> 0]
NoneSince == [p \in Pairs |-> {}]
Answers == [p \in Pairs |-> IF new[p] # 0 THEN new[p] ELSE flushed[p]]
Init == mode = "closed" /\ flushed = None /\ new = None /\ since = NoneSince
Open == mode = "closed" /\ mode' = "open" /\ UNCHANGED <<flushed, new, since>>
Add(o, p) == /\ mode = "open" /\ new' = [new EXCEPT ![p] = o]
             /\ since' = [since EXCEPT ![p] = @ \cup {o}] /\ UNCHANGED <<mode, flushed>>
Persist == mode = "open" /\ flushed' = Answers /\ new' = None /\ since' = NoneSince
Flush == Persist /\ mode' = mode
\* a close is a flush followed by giving up the handle
Close == mode = "open" /\ new = None /\ mode' = "closed" /\ UNCHANGED <<flushed, new, since>>
Crash == mode' = "down" /\ new' = None /\ UNCHANGED <<flushed, since>>
Recover == /\ mode = "down" /\ mode' = "open"
           /\ \A p \in Pairs : flushed'[p] \in {flushed[p]} \cup since[p]
           /\ new' = None /\ since' = NoneSince
Next == \/ Open \/ Flush \/ Close \/ Crash \/ Recover
        \/ \E o \in {1, 2}, p \in Pairs : Add(o, p)
Spec == Init /\ [][Next]_avars
=============================================================================
