------------------------------ MODULE MemFile -------------------------------
(* The in-memory file (C22): a growable byte array with one position. *)
EXTENDS Integers, Sequences

VARIABLES data, pos, closed
mfvars == <<data, pos, closed>>

Init0(d) == data = d /\ pos = 0 /\ closed = FALSE

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Avail == Len(data) - pos

(* err: "none", "eof" or "err" *)
Read(n, got, err) ==
    /\ UNCHANGED <<data, closed>>
    /\ IF closed THEN err = "err" /\ got = <<>> /\ pos' = pos
       ELSE IF n = 0 THEN got = <<>> /\ pos' = pos /\ (err = "none" \/ (err = "eof" /\ Avail = 0))
       ELSE IF Avail = 0 THEN err = "eof" /\ got = <<>> /\ pos' = pos
       ELSE /\ err = "none"
            /\ Len(got) \in 1..Min(n, Avail)
            /\ got = SubSeq(data, pos + 1, pos + Len(got))
            /\ pos' = pos + Len(got)

Overwrite(d, p, b) == SubSeq(d, 1, p) \o b \o SubSeq(d, p + Len(b) + 1, Len(d))

Write(b, n, err) ==
    /\ UNCHANGED closed
    /\ IF closed THEN err = "err" /\ UNCHANGED <<data, pos>>
       ELSE /\ err = "none" /\ n = Len(b)
            /\ data' = Overwrite(data, pos, b)
            /\ pos' = pos + Len(b)

Target(off, whence) == CASE whence = 0 -> off [] whence = 1 -> pos + off
                         [] whence = 2 -> Len(data) + off [] OTHER -> -1
(* far: the offset stands for one far beyond every file *)
Seek(off, whence, far, r, err) ==
    /\ UNCHANGED <<data, closed>>
    /\ LET t == Target(off, whence)
           ok == ~closed /\ ~far /\ 0 <= t /\ t <= Len(data)
       IN IF ok THEN err = "none" /\ r = t /\ pos' = t
                ELSE err = "err" /\ pos' = pos

Zeros(n) == [i \in 1..n |-> 0]
Truncate(n, err) ==
    /\ UNCHANGED closed
    /\ IF closed \/ n < 0 THEN err = "err" /\ UNCHANGED <<data, pos>>
       ELSE /\ err = "none"
            /\ data' = IF n <= Len(data) THEN SubSeq(data, 1, n) ELSE data \o Zeros(n - Len(data))
            /\ pos' = Min(pos, n)

Close(err) == UNCHANGED <<data, pos>> /\ closed' = TRUE /\ (~closed => err = "none")

PosOK == 0 <= pos /\ pos <= Len(data)
=============================================================================
