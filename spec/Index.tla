------------------------------- MODULE Index --------------------------------
(* The index storage as its user sees it (C09, C10). Values are 1, 2, ...; 0: no entry. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Ids

VARIABLES
    mode,     \* "closed" cleanly, "open", "down": neither
    map,      \* contents of the open storage
    saved,    \* contents as of the last clean close
    may       \* after a crash or failure: what a later open may yield, if it is not refused

ivars == <<mode, map, saved, may>>
Empty == [i \in Ids |-> 0]
Init == mode = "closed" /\ map = Empty /\ saved = Empty /\ may = {}

Open == /\ mode = "closed" /\ mode' = "open" /\ map' = saved /\ UNCHANGED <<saved, may>>
Put(i, v) == mode = "open" /\ map' = [map EXCEPT ![i] = v] /\ UNCHANGED <<mode, saved, may>>
Remove(i) == Put(i, 0)
Close == /\ mode = "open" /\ mode' = "closed" /\ saved' = map /\ UNCHANGED <<map, may>>

(* the process dies or an operation of the file fails *)
CrashOpen == mode = "open" /\ mode' = "down" /\ may' = {} /\ UNCHANGED <<map, saved>>
CrashOpening == mode = "closed" /\ mode' = "down" /\ may' = {saved} /\ UNCHANGED <<map, saved>>
CrashClosing == mode = "open" /\ mode' = "down" /\ may' = {saved, map} /\ UNCHANGED <<map, saved>>
CrashAgain == mode = "down" /\ UNCHANGED ivars

(* afterwards *)
Refuse == mode = "down" /\ UNCHANGED ivars
Survive(m) == /\ mode = "down" /\ m \in may
              /\ mode' = "open" /\ map' = m /\ saved' = m /\ may' = {}
-----------------------------------------------------------------------------
CONSTANT Vals
Next == \/ Open \/ Close \/ CrashOpen \/ CrashOpening \/ CrashClosing \/ Refuse
        \/ \E i \in Ids : Remove(i) \/ (\E v \in Vals : Put(i, v))
        \/ \E m \in may : Survive(m)
Spec == Init /\ [][Next]_ivars
(* contents only change by puts and removes of one id, or by going back to a saved state *)
Steps == [][ /\ (mode = "open" /\ mode' = "open") => Cardinality({i \in Ids : map'[i] # map[i]}) <= 1
             /\ (mode = "closed" /\ mode' = "open") => map' = saved
             /\ (mode = "down" /\ mode' = "open") => map' \in {saved, map} ]_ivars
=============================================================================
