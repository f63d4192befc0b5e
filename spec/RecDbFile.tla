----------------------------- MODULE RecDbFile ------------------------------
(* The database file as bytes (C13, C14): what it says, and where it stops making sense. *)
EXTENDS Integers, Sequences

Big == 1000000000      \* stands for every number too large for any file here
BE(s) == IF s[1] > 50 THEN Big ELSE ((s[1] * 256 + s[2]) * 256 + s[3]) * 256 + s[4]
Magic == <<82, 69, 67, 68, 66>>
Like == <<76, 73, 75, 69, 32, 32, 32, 32>>
HeadLen == 19
Empty == Magic \o <<1>> \o Like \o <<0>> \o <<0, 0, 0, 0>>
NumEntries(b) == BE(SubSeq(b, 16, 19))
Locked(b) == b[15] # 0
Min(x, y) == IF x < y THEN x ELSE y

Bad == [bad |-> TRUE]
Items(b, o, n) == [k \in 1..n |-> SubSeq(b, o + 8 * (k - 1) + 1, o + 8 * k)]
(* the entry at offset o, or Bad *)
EntryAt(b, o) ==
    LET left == Len(b) - o IN
    IF left < 21 THEN Bad ELSE
    LET cap == BE(SubSeq(b, o + 1, o + 4))
        nl == BE(SubSeq(b, o + 14, o + 17))
    IN IF cap < 21 \/ cap > left \/ nl > (cap - 21) \div 8 THEN Bad ELSE
       LET nd == BE(SubSeq(b, o + 18 + 8 * nl, o + 21 + 8 * nl))
       IN IF nd > (cap - 21 - 8 * nl) \div 8 THEN Bad
          ELSE [bad |-> FALSE, cap |-> cap, del |-> b[o + 5], user |-> SubSeq(b, o + 6, o + 13),
                likes |-> Items(b, o + 17, nl), dislikes |-> Items(b, o + 21 + 8 * nl, nd)]
=============================================================================
