-------------------------------- MODULE Mark --------------------------------
(* The mark of a file (delta, index, database) that is in use: one byte, set and read by
   whoever has the file open, in the middle of whatever else they do with it. *)
EXTENDS Integers, Sequences

CONSTANTS At,      \* offset of the mark
          Bytes    \* values of a byte

VARIABLES B, pos   \* contents, position of the handle
mvars == <<B, pos>>

Marked == B[At + 1] # 0
Mark(on) == B' = [B EXCEPT ![At + 1] = IF on THEN 1 ELSE 0] /\ UNCHANGED pos
Ask(a) == a = Marked /\ UNCHANGED mvars
Move(p) == p \in 0..Len(B) /\ pos' = p /\ UNCHANGED B
(* an operation of the file failed on the way: reported; the position is lost *)
MarkFails(on, p) == /\ B' = B \/ B' = [B EXCEPT ![At + 1] = IF on THEN 1 ELSE 0]
                    /\ pos' = p
AskFails(p) == pos' = p /\ UNCHANGED B

Init == B \in [1..(At + 2) -> Bytes] /\ pos = 0
Next == \/ \E on \in BOOLEAN : Mark(on) \/ Ask(on)
        \/ \E p \in 0..Len(B) : Move(p) \/ AskFails(p) \/ \E on \in BOOLEAN : MarkFails(on, p)
Spec == Init /\ [][Next]_mvars

OnlyTheMark == [][\A k \in DOMAIN B : k # At + 1 => B'[k] = B[k]]_mvars
Last == [][\A on \in BOOLEAN : Mark(on) => Marked' = on]_mvars
=============================================================================
