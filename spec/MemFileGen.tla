----------------------------- MODULE MemFileGen -----------------------------
(* Exhaustive check of MemFile with read-your-writes against a second, naive model (a
   function from offsets to bytes), and behaviours for replay. *)
EXTENDS MemFile, TLC, Json, FiniteSets
CONSTANTS N, MaxSize, Big
VARIABLES hist, naive
gvars == <<data, pos, closed, hist, naive>>

Op(o) == hist' = Append(hist, o)
Rec(e, n, w) == [e |-> e, n |-> n, w |-> w]
Bytes(n) == [i \in 1..n |-> 1 + ((Len(hist) * 7 + i) % 250)]
GInit == Init0(<<>>) /\ hist = <<>> /\ naive = [i \in {} |-> 0]
Sizes == IF Big THEN {0, 1, 2, 3, 7, 99, 100, 101, 250} ELSE {0, 1, 3}
GRead == \E n \in Sizes : Read(n, SubSeq(data, pos + 1, pos + Min(n, IF closed THEN 0 ELSE Avail)),
                               IF closed THEN "err" ELSE IF n > 0 /\ Avail = 0 THEN "eof" ELSE "none")
                          /\ Op(Rec("read", n, 0)) /\ UNCHANGED naive
GWrite == \E n \in Sizes : /\ (closed \/ pos + n <= MaxSize)
                           /\ Write(Bytes(n), n, IF closed THEN "err" ELSE "none") /\ Op(Rec("write", n, 0))
                           /\ naive' = IF closed THEN naive
                                       ELSE [i \in (DOMAIN naive) \cup (pos + 1)..(pos + n) |->
                                             IF i \in (pos + 1)..(pos + n) THEN Bytes(n)[i - pos] ELSE naive[i]]
Offs == IF Big THEN {-101, -3, -1, 0, 1, 2, 5, 64, 100, 200} ELSE {-2, -1, 0, 1, 2}
GSeek == \E o \in Offs, w \in 0..2 :
            LET t == Target(o, w)
                ok == ~closed /\ 0 <= t /\ t <= Len(data)
            IN Seek(o, w, FALSE, t, IF ok THEN "none" ELSE "err") /\ Op(Rec("seek", o, w)) /\ UNCHANGED naive
GTrunc == \E n \in (Sizes \cup {-1, 2, 4}) : /\ n <= MaxSize
                           /\ Truncate(n, IF closed \/ n < 0 THEN "err" ELSE "none") /\ Op(Rec("truncate", n, 0))
                           /\ naive' = IF closed \/ n < 0 THEN naive
                                       ELSE [i \in 1..n |-> IF i \in DOMAIN naive THEN naive[i] ELSE 0]
GClose == Close("none") /\ Op(Rec("close", 0, 0)) /\ UNCHANGED naive /\ (Len(hist) >= N - 2)
End == /\ Len(hist) = N
       /\ PrintT("GEN " \o ToJson(hist))
       /\ hist' = Append(hist, Rec("end", 0, 0))
       /\ UNCHANGED <<data, pos, closed, naive>>
GNext == End \/ (Len(hist) < N /\ (GRead \/ GWrite \/ GSeek \/ GTrunc \/ GClose))

Agrees == PosOK /\ DOMAIN naive = 1..Len(data) /\ \A i \in 1..Len(data) : data[i] = naive[i]
(* nothing changes after a close *)
Frozen == [][closed => data' = data /\ pos' = pos /\ closed']_gvars
=============================================================================
