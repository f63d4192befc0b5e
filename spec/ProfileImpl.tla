---------------------------- MODULE ProfileImpl -----------------------------
(* Profiles as the code represents them: two arrays kept sorted with the helpers of
   SortedArray. Refines Profile. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Profiles, Items
VARIABLES likes, dislikes

S == INSTANCE SortedArray WITH arr <- <<>>, Values <- Items, MaxLen <- 0

Without(a, v) == LET i == S!AlgoFind(a, v) IN IF i >= 0 THEN S!RemoveAt(a, i) ELSE a
Upd(f, p, a) == [f EXCEPT ![p] = a]

Init == likes = [p \in Profiles |-> <<>>] /\ dislikes = [p \in Profiles |-> <<>>]
Like(p, i) == /\ likes' = Upd(likes, p, S!AlgoPut(likes[p], i))
              /\ dislikes' = Upd(dislikes, p, Without(dislikes[p], i))
Dislike(p, i) == /\ dislikes' = Upd(dislikes, p, S!AlgoPut(dislikes[p], i))
                 /\ likes' = Upd(likes, p, Without(likes[p], i))
Unlike(p, i) == likes' = Upd(likes, p, Without(likes[p], i)) /\ UNCHANGED dislikes
Undislike(p, i) == dislikes' = Upd(dislikes, p, Without(dislikes[p], i)) /\ UNCHANGED likes
RemoveItem(p, i) == /\ likes' = Upd(likes, p, Without(likes[p], i))
                    /\ dislikes' = Upd(dislikes, p, Without(dislikes[p], i))
Next == \E p \in Profiles, i \in Items :
            \/ Like(p, i) \/ Dislike(p, i) \/ Unlike(p, i) \/ Undislike(p, i)
            \/ RemoveItem(p, i)
Spec == Init /\ [][Next]_<<likes, dislikes>>

Opinion(p, i) == IF S!AlgoFind(likes[p], i) >= 0 THEN "L"
                 ELSE IF S!AlgoFind(dislikes[p], i) >= 0 THEN "D" ELSE "U"
P == INSTANCE Profile WITH op <- [p \in Profiles |-> [i \in Items |-> Opinion(p, i)]]
Refines == P!Spec
Shape == \A p \in Profiles : /\ S!Strict(likes[p]) /\ S!Strict(dislikes[p])
                             /\ {likes[p][k] : k \in 1..Len(likes[p])}
                                  \cap {dislikes[p][k] : k \in 1..Len(dislikes[p])} = {}
=============================================================================
