---------------------------- MODULE RecDbFileMC -----------------------------
(* The reading of entries (RecDbFile) against their writing, over small entries. *)
EXTENDS RecDbFile, SequencesExt
CONSTANT MaxItems
VARIABLES nl, nd, spare, fill
vars == <<nl, nd, spare, fill>>
Init == nl = 0 /\ nd = 0 /\ spare = 0 /\ fill = 0
Next == /\ nl' \in 0..MaxItems /\ nd' \in 0..MaxItems /\ spare' \in 0..9 /\ fill' \in {0, 1, 255}
Spec == Init /\ [][Next]_vars
N4(n) == <<0, 0, n \div 256, n % 256>>
Id(k) == [i \in 1..8 |-> IF fill = 0 THEN 0 ELSE (fill * k + i) % 256]
E == [bad |-> FALSE, cap |-> 21 + 8 * (nl + nd) + spare, del |-> fill % 2, user |-> Id(9),
      likes |-> [k \in 1..nl |-> Id(k)], dislikes |-> [k \in 1..nd |-> Id(k + 3)]]
Written(e, cap) == N4(cap) \o <<e.del>> \o e.user \o N4(Len(e.likes)) \o FlattenSeq(e.likes)
                   \o N4(Len(e.dislikes)) \o FlattenSeq(e.dislikes) \o [k \in 1..spare |-> fill]
W == Written(E, E.cap)
(* an entry reads back as it was written, wherever it lies, whatever follows *)
RoundTrip == /\ EntryAt(W, 0) = E
             /\ EntryAt(<<7, 7, 7>> \o W \o <<1, 2>>, 3) = E
Tight == \A c \in 0..(20 + 8 * (nl + nd)) : EntryAt(Written(E, c), 0) = Bad
CutIsBad == \A k \in 0..(Len(W) - 1) : EntryAt(SubSeq(W, 1, k), 0) = Bad
=============================================================================
