------------------------------- MODULE Engine -------------------------------
(* Namespaces over one data directory: started, used, stopped cleanly, or cut off by the
   death of the process at any moment, starting and stopping included. C17.
   Delta: as in Delta.tla, answers 0 (none), 1 (added), 2 (removed); an operation is durable
   once flushed. Index: identifiers to values, 0 is none; durable after a clean stop only. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Names, Pairs, Ids, Values

VARIABLES
    up,             \* is the namespace started?
    flushed, since, \* durable operations, and those issued after them
    cur,            \* what the delta storage answers
    idx,            \* what the index storage answers
    shut            \* how it went down: "clean", "unclean", "between" (while starting or stopping)
evars == <<up, flushed, since, cur, idx, shut>>

Zero(S) == [x \in S |-> 0]
Init == /\ up = [n \in Names |-> FALSE]
        /\ flushed = [n \in Names |-> Zero(Pairs)] /\ cur = flushed
        /\ since = [n \in Names |-> [p \in Pairs |-> {}]]
        /\ idx = [n \in Names |-> Zero(Ids)]
        /\ shut = [n \in Names |-> "clean"]

(* a start brings back every flushed operation; ops issued later may or may not have made it *)
DeltaBack(n, d) == \A p \in Pairs : d[p] \in {flushed[n][p]} \cup since[n][p]
IndexBack(n, x) == CASE shut[n] = "clean" -> x = idx[n]
                     [] shut[n] = "unclean" -> x = Zero(Ids)
                     [] OTHER -> x \in {idx[n], Zero(Ids)}
Start(n, d, x) == /\ ~up[n] /\ DeltaBack(n, d) /\ IndexBack(n, x)
                  /\ up' = [up EXCEPT ![n] = TRUE]
                  /\ flushed' = [flushed EXCEPT ![n] = d] /\ cur' = [cur EXCEPT ![n] = d]
                  /\ since' = [since EXCEPT ![n] = [p \in Pairs |-> {}]]
                  /\ idx' = [idx EXCEPT ![n] = x]
                  /\ UNCHANGED shut
(* a start that fails because a file operation did (kind: "read", "seek", "write") leaves
   everything for the next one; only a failed write can leave the index marked *)
StartFails(n, kind) == /\ ~up[n]
                       /\ shut' = [shut EXCEPT ![n] = IF kind = "write" /\ @ = "clean" THEN "between" ELSE @]
                       /\ UNCHANGED <<up, flushed, since, cur, idx>>
Add(n, p, o) == /\ up[n]
                /\ cur' = [cur EXCEPT ![n][p] = o] /\ since' = [since EXCEPT ![n][p] = @ \cup {o}]
                /\ UNCHANGED <<up, flushed, idx, shut>>
Flush(n) == /\ up[n]
            /\ flushed' = [flushed EXCEPT ![n] = cur[n]]
            /\ since' = [since EXCEPT ![n] = [p \in Pairs |-> {}]]
            /\ UNCHANGED <<up, cur, idx, shut>>
Put(n, i, v) == up[n] /\ idx' = [idx EXCEPT ![n][i] = v] /\ UNCHANGED <<up, flushed, since, cur, shut>>
Stop(n) == /\ up[n] /\ up' = [up EXCEPT ![n] = FALSE]
           /\ flushed' = [flushed EXCEPT ![n] = cur[n]]
           /\ since' = [since EXCEPT ![n] = [p \in Pairs |-> {}]]
           /\ shut' = [shut EXCEPT ![n] = "clean"] /\ UNCHANGED <<cur, idx>>
(* the process dies; the namespaces in S were being started or stopped *)
Crash(S) == /\ up' = [n \in Names |-> FALSE]
            /\ shut' = [n \in Names |-> IF up[n] THEN (IF n \in S THEN "between" ELSE "unclean")
                                        ELSE IF n \in S /\ shut[n] = "clean" THEN "between" ELSE shut[n]]
            /\ UNCHANGED <<flushed, since, cur, idx>>

Deltas == [Pairs -> 0..2]
Indices == [Ids -> Values \cup {0}]
Next == \E n \in Names :
          \/ \E d \in Deltas, x \in Indices : Start(n, d, x)
          \/ \E p \in Pairs, o \in 1..2 : Add(n, p, o)
          \/ Flush(n) \/ Stop(n)
          \/ \E k \in {"read", "write"} : StartFails(n, k)
          \/ \E i \in Ids, v \in Values \cup {0} : Put(n, i, v)
          \/ \E S \in SUBSET Names : Crash(S)
Spec == Init /\ [][Next]_evars

(* a flushed operation survives until it is superseded *)
Durable == [][\A n \in Names : ~up[n] /\ up'[n] =>
                 \A p \in Pairs : since[n][p] = {} => cur'[n][p] = flushed[n][p]]_evars
(* no operation on one namespace is seen in another *)
Apart == [][\E n \in Names : \A m \in Names \ {n} : (up[m] /\ up'[m]) =>
              cur'[m] = cur[m] /\ idx'[m] = idx[m] /\ flushed'[m] = flushed[m]]_evars
NeverBoth == \A n \in Names : up[n] => \A p \in Pairs : cur[n][p] \in {flushed[n][p]} \cup since[n][p]
=============================================================================
