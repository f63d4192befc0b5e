------------------------------- MODULE Delta --------------------------------
(* The delta storage as its user sees it (C03, C04, C05, C07, C08).
   A pair stands for a user and an item. Operations: 0 none, 1 add, 2 remove. *)
EXTENDS Integers, Sequences, FiniteSets, Functions

CONSTANTS Pairs, UserOf(_)

VARIABLES
    mode,      \* "closed" cleanly, "open", or "down": died without being closed
    flushed,   \* answers as of the last completed flush or close
    new,       \* operations added since, still to be flushed: the last one of each pair
    since,     \* all operations added since the last completed flush, per pair
    recs       \* recs[p] = <<a, r>>: how many records of p are in the file, by operation

dvars == <<mode, flushed, new, since, recs>>

None == [p \in Pairs |-> 0]
NoneSince == [p \in Pairs |-> {}]
NoRecs == [p \in Pairs |-> <<0, 0>>]

Init == /\ mode = "closed" /\ flushed = None /\ new = None /\ since = NoneSince
        /\ recs = NoRecs

Answers == [p \in Pairs |-> IF new[p] # 0 THEN new[p] ELSE flushed[p]]

FileCount(r) == FoldFunction(LAMBDA x, a : a + x[1] + x[2], 0, r)
NewCount == Cardinality({p \in Pairs : new[p] # 0})
Count == FileCount(recs) + NewCount
Users == Cardinality({UserOf(p) : p \in {q \in Pairs : Answers[q] # 0}})
SizeOf(n) == 14 + 18 * n

Written == [p \in Pairs |-> CASE new[p] = 1 -> <<recs[p][1] + 1, recs[p][2]>>
                              [] new[p] = 2 -> <<recs[p][1], recs[p][2] + 1>>
                              [] OTHER -> recs[p]]

Open == mode = "closed" /\ mode' = "open" /\ UNCHANGED <<flushed, new, since, recs>>

Add(o, p) == /\ mode = "open"
             /\ new' = [new EXCEPT ![p] = o]
             /\ since' = [since EXCEPT ![p] = @ \cup {o}]
             /\ UNCHANGED <<mode, flushed, recs>>

Persist == /\ flushed' = Answers /\ recs' = Written /\ new' = None /\ since' = NoneSince
Flush == mode = "open" /\ Persist /\ UNCHANGED mode
Close == mode = "open" /\ Persist /\ mode' = "closed"

(* A flush or close that reports an error changes nothing the user relies on. It may have
   failed after everything was written: then the operations count as flushed for additions
   that follow, but are not promised to survive a crash yet. *)
Fail == /\ mode = "open" /\ UNCHANGED mode
        /\ \/ UNCHANGED <<flushed, new, since, recs>>
           \/ /\ flushed' = Answers /\ recs' = Written /\ new' = None
              /\ since' = [p \in Pairs |-> IF new[p] = 0 THEN since[p] ELSE since[p] \cup {flushed[p]}]

(* The process dies. In the middle of a close the file may already be complete and
   unmarked, in the middle of opening it may be unmarked still: the recovery below covers
   both, because then there is nothing to choose. *)
Crash == mode \in {"open", "closed"} /\ mode' = "down" /\ UNCHANGED <<flushed, new, since, recs>>

(* What a recovery may bring back for a pair *)
Candidates(p) == {flushed[p]} \cup since[p]

Recover(f, r) ==
    /\ mode = "down"
    /\ \A p \in Pairs : f[p] \in Candidates(p)
    /\ mode' = "open" /\ flushed' = f /\ recs' = r
    /\ new' = None /\ since' = NoneSince
-----------------------------------------------------------------------------
Ops == {1, 2}
MaxRecs == 3
RecSets == [Pairs -> (0..MaxRecs) \X (0..MaxRecs)]
(* records and answers of a file agree *)
Coherent(f, r) == \A p \in Pairs : /\ (f[p] = 0 <=> r[p] = <<0, 0>>)
                                   /\ (f[p] # 0 => r[p][f[p]] > 0)
Next == \/ Open \/ Flush \/ Close \/ Fail \/ Crash
        \/ \E o \in Ops, p \in Pairs : Add(o, p)
        \/ \E f \in [Pairs -> 0..2], r \in RecSets : Coherent(f, r) /\ Recover(f, r)
Spec == Init /\ [][Next]_dvars

TypeOK == /\ mode \in {"closed", "open", "down"}
          /\ flushed \in [Pairs -> 0..2] /\ new \in [Pairs -> 0..2]
          /\ since \in [Pairs -> SUBSET (0..2)]
(* C03/C04 sanity of the specification itself *)
Sound == /\ Coherent(flushed, recs)
         /\ \A p \in Pairs : new[p] # 0 => since[p] # {}
         /\ \A p \in Pairs : new[p] # 0 => new[p] \in since[p]
         /\ (mode = "closed" => new = None)
         /\ Users <= Count
(* no step but an addition or a crash changes an answer *)
Stable == [][ mode = "open" /\ mode' # "down" => \/ Answers' = Answers
                                  \/ \E o \in Ops, p \in Pairs : Answers' = [Answers EXCEPT ![p] = o] ]_dvars
(* what was flushed is there after any crash, unless newer operations were added *)
Durable == [][ mode = "down" /\ mode' = "open" =>
                 \A p \in Pairs : since[p] = {} => flushed'[p] = flushed[p] ]_dvars
Bound == \A p \in Pairs : recs[p][1] <= MaxRecs /\ recs[p][2] <= MaxRecs
=============================================================================
