----------------------------- MODULE IndexFile ------------------------------
(* The index file as bytes (C10): which files have to be refused as corrupted. *)
EXTENDS Integers, Sequences, TraceLib
P == <<82, 69, 67, 73, 68, 88>>
HeadLen == 12
PrefixOK(b) == \A i \in 1..6 : i <= Len(b) => b[i] = P[i]
Marked(b) == Len(b) >= HeadLen /\ b[8] # 0
Big(b) == b[9] # 0 \/ b[10] # 0
Count(b) == 256 * b[11] + b[12]
Truncated(b) == Len(b) > 0 /\ (Len(b) < HeadLen \/ Big(b) \/ Len(b) < HeadLen + 16 * Count(b))
Good(b) == Len(b) >= HeadLen /\ PrefixOK(b) /\ b[7] = 1 /\ ~Marked(b) /\ ~Truncated(b)
Step(e) == /\ e.e = "open"
           /\ (PrefixOK(e.img) /\ (Marked(e.img) \/ Truncated(e.img))) => ~e.ok /\ e.corrupted /\ e.same
           /\ Good(e.img) => e.ok
           /\ ~e.ok => e.same
TraceInit == TidInit
TraceNext == HasEvent /\ Step(Event) /\ Advance
=============================================================================
