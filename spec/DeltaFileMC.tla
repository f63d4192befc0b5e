---------------------------- MODULE DeltaFileMC -----------------------------
(* Every file over a small alphabet, with a format of the same shape and shorter fields. *)
EXTENDS DeltaFile, TLC
CONSTANTS MaxLen
VARIABLE b
Init == b = <<>>
Next == \E x \in 0..(Base - 1) : Len(b) < MaxLen /\ b' = Append(b, x)
Spec == Init /\ [][Next]_b
R == Recovered(b)
Idempotent == Recovered(R) = R
WellFormed == Good(R) /\ ~Bad(R) /\ Len(R) = HeadLen + Len(Kept(b)) * EntryLen
KeepsAll == Good(b) => R = b
OrderKept == LET all == [k \in 1..Chunks(b) |-> Chunk(b, k)]
             IN \E f \in [1..Len(Kept(b)) -> 1..Len(all)] :
                   /\ \A i \in DOMAIN f : Kept(b)[i] = all[f[i]]
                   /\ \A i, j \in DOMAIN f : i < j => f[i] < f[j]
Disjoint == ~(Good(b) /\ Bad(b))
(* what a crash while the file was open leaves is never taken for good *)
MarkedIsBad == Bad(Opened(R))
(* What is on disk while a recovery rewrites the file: the first n bytes of the result, marked as
   open, and what was there behind them. Between entries, that is an allowed end of a failed
   recovery, and the next recovery keeps everything. *)
Mid(n) == LET new == Opened(R) IN SubSeq(new, 1, n) \o SubSeq(b, n + 1, Len(b))
Interrupted == \A n \in {HeadLen + k * EntryLen : k \in 0..Len(Kept(b))} :
                  n <= Len(b) => RecoverFailed(b, Mid(n)) /\ (HeadOK(b) => Keeps(b, Recovered(Mid(n))))
(* so does a failed recovery of what a failed recovery left *)
Again == \A n \in {HeadLen + k * EntryLen : k \in 0..Len(Kept(b))} :
            n <= Len(b) /\ HeadOK(b) => Effect(Kept(b)) = Effect(Kept(Recovered(Mid(n))))
FailedOpen == /\ OpenFailed(b, b) /\ OpenFailed(b, Opened(b))
              /\ Good(b) => ~OpenFailed(b, <<>>) /\ ~OpenFailed(b, SubSeq(b, 1, HeadLen - 1))
PfxMC == <<2>>
=============================================================================
