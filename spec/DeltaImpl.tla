----------------------------- MODULE DeltaImpl ------------------------------
(* How the storage does it: the header, every record and the mark are written one after the
   other, a process can die between any two of those writes (or inside one) and a flush can
   fail at any of them; recovery rewrites the file in place while it stays marked.
   Refines Delta (property Refines): C03, C05, C08 at the level of the protocol. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Pairs, UserOf(_), MaxRecords

VARIABLES
    \* the file
    head,     \* "none", "torn" or "ok"
    lock, n,  \* mark and count of the header
    file,     \* records <<pair, op>>; Junk for a torn one
    \* the process
    pc, cache, newd, todo, off,
    tmp,      \* what recovery writes back
    \* what the user may rely on
    mode, flushed, since
vars == <<head, lock, n, file, pc, cache, newd, todo, off, tmp, mode, flushed, since>>
fvars == <<head, lock, n, file>>
gvars == <<mode, flushed, since>>

Junk == <<-1, 0>>
None == [p \in Pairs |-> 0]
NoneSince == [p \in Pairs |-> {}]
Last(s, p) == LET i == {k \in 1..Len(s) : s[k][1] = p}
              IN IF i = {} THEN 0 ELSE s[CHOOSE k \in i : \A j \in i : j <= k][2]
Sel(s) == SelectSeq(s, LAMBDA r : r # Junk)

Init == /\ head = "none" /\ lock = FALSE /\ n = 0 /\ file = <<>>
        /\ pc = "down" /\ cache = <<>> /\ newd = <<>> /\ todo = {} /\ off = 0 /\ tmp = <<>>
        /\ mode = "closed" /\ flushed = None /\ since = NoneSince

Put(f, i, r) == IF i <= Len(f) THEN [f EXCEPT ![i] = r] ELSE Append(f, r)

(* opening *)
Opened == /\ pc' = "idle" /\ lock' = TRUE /\ newd' = <<>> /\ UNCHANGED <<todo, off, tmp>>
          /\ mode' = "open" /\ since' = NoneSince
Create == /\ pc = "down" /\ head = "none"
          /\ head' \in {"torn", "ok"} /\ lock' = FALSE /\ n' = 0 /\ file' = <<>>
          /\ pc' = IF head' = "ok" THEN "created" ELSE "down"
          /\ UNCHANGED <<cache, newd, todo, off, tmp>>
          /\ mode' = IF head' = "ok" THEN mode ELSE "down"
          /\ UNCHANGED <<flushed, since>>
OpenPlain == /\ pc \in {"down", "created"} /\ head = "ok" /\ ~lock /\ Len(file) >= n
             /\ cache' = SubSeq(file, 1, n)
             /\ Opened /\ UNCHANGED <<head, n, file>>
             /\ flushed' = [p \in Pairs |-> Last(cache', p)]
(* recovery, for marked or torn files *)
StartRecovery == /\ pc = "down" /\ (head = "torn" \/ (head = "ok" /\ lock))
                 /\ tmp' = (IF head = "ok" THEN Sel(file) ELSE <<>>)
                 /\ off' = 0 /\ pc' = "rec"
                 /\ head' = "ok" /\ lock' = TRUE /\ n' = Len(tmp') /\ file' = (IF head = "ok" THEN file ELSE <<>>)
                 /\ UNCHANGED <<cache, newd, todo>> /\ mode' = "down" /\ UNCHANGED <<flushed, since>>
RecWrite == /\ pc = "rec" /\ off < Len(tmp)
            /\ file' = Put(file, off + 1, tmp[off + 1]) /\ off' = off + 1
            /\ UNCHANGED <<head, lock, n, pc, cache, newd, todo, tmp, mode, flushed, since>>
RecTruncate == /\ pc = "rec" /\ off = Len(tmp)
               /\ file' = SubSeq(file, 1, Len(tmp)) /\ pc' = "recdone"
               /\ UNCHANGED <<head, lock, n, cache, newd, todo, off, tmp, mode, flushed, since>>
RecUnlock == /\ pc = "recdone" /\ lock' = FALSE /\ pc' = "down"
             /\ UNCHANGED <<head, n, file, cache, newd, todo, off, tmp, mode, flushed, since>>

Add(o, p) == /\ pc = "idle"
             /\ newd' = (IF \E k \in 1..Len(newd) : newd[k][1] = p
                         THEN [k \in 1..Len(newd) |-> IF newd[k][1] = p THEN <<p, o>> ELSE newd[k]]
                         ELSE Append(newd, <<p, o>>))
             /\ since' = [since EXCEPT ![p] = @ \cup {o}]
             /\ UNCHANGED <<head, lock, n, file, pc, cache, todo, off, tmp, mode, flushed>>
(* flush: header, then the records in any order, then bookkeeping *)
Begin(k) == /\ pc = "idle" /\ Len(cache) + Len(newd) <= MaxRecords
            /\ lock' = TRUE /\ n' = Len(cache) + Len(newd)
            /\ todo' = {newd[i] : i \in 1..Len(newd)} /\ off' = Len(cache) /\ pc' = k
            /\ UNCHANGED <<head, file, cache, newd, tmp, mode, flushed, since>>
WriteRec == /\ pc \in {"flush", "close"} /\ todo # {}
            /\ \E r \in todo : /\ todo' = todo \ {r}
                               /\ file' = Put(file, off + 1, r)
            /\ off' = off + 1
            /\ UNCHANGED <<head, lock, n, pc, cache, newd, tmp, mode, flushed, since>>
Flushed == /\ cache' = cache \o newd /\ newd' = <<>>
           /\ flushed' = [p \in Pairs |-> Last(cache', p)] /\ since' = NoneSince
EndFlush == /\ pc = "flush" /\ todo = {} /\ Flushed /\ pc' = "idle"
            /\ UNCHANGED <<head, lock, n, file, todo, off, tmp, mode>>
(* the bookkeeping of a close takes effect before the file is unmarked *)
EndClose == /\ pc = "close" /\ todo = {} /\ Flushed /\ pc' = "unlock"
            /\ UNCHANGED <<head, lock, n, file, todo, off, tmp, mode>>
Unlock == /\ pc = "unlock" /\ lock' = FALSE /\ pc' = "down" /\ mode' = "closed"
          /\ UNCHANGED <<head, n, file, cache, newd, todo, off, tmp, flushed, since>>
(* a file operation fails: what is at the place of the next record may be torn *)
FailAt == /\ pc \in {"flush", "close", "unlock"}
          /\ (file' = file \/ (pc # "unlock" /\ todo # {} /\ file' = Put(file, off + 1, Junk)))
          /\ pc' = "idle"
          /\ UNCHANGED <<head, lock, n, cache, newd, todo, off, tmp, mode, flushed, since>>
Crash == /\ pc # "down"
         /\ (file' = file \/ (pc \in {"flush", "close"} /\ todo # {} /\ file' = Put(file, off + 1, Junk))
                          \/ (pc = "rec" /\ off < Len(tmp) /\ file' = Put(file, off + 1, Junk)
                              /\ off + 1 <= Len(file) /\ file[off + 1] # tmp[off + 1]))
         /\ pc' = "down" /\ cache' = <<>> /\ newd' = <<>> /\ todo' = {} /\ off' = 0 /\ tmp' = <<>>
         /\ mode' = "down" /\ UNCHANGED <<head, lock, n, flushed, since>>

Ops == {1, 2}
Next == \/ Create \/ OpenPlain \/ StartRecovery \/ RecWrite \/ RecTruncate \/ RecUnlock
        \/ \E o \in Ops, p \in Pairs : Add(o, p)
        \/ Begin("flush") \/ Begin("close") \/ WriteRec \/ EndFlush \/ EndClose \/ Unlock
        \/ FailAt \/ Crash
Spec == Init /\ [][Next]_vars

(* the abstract state *)
NewOf == [p \in Pairs |-> IF mode = "open" /\ \E k \in 1..Len(newd) : newd[k][1] = p THEN Last(newd, p) ELSE 0]
CountOf(s, p, o) == Cardinality({k \in 1..Len(s) : s[k] = <<p, o>>})

(* C03 *)
AnswersRight == mode = "open" => \A p \in Pairs :
                   flushed[p] = Last(cache, p)
(* C07 *)
MarkedWhileOpen == mode = "open" => head = "ok" /\ lock
CleanUnmarked == mode = "closed" /\ pc = "down" /\ head # "none" => head = "ok" /\ ~lock /\ Len(file) = n
(* the recovery, started at any moment, brings back what must be *)
Back == IF head # "ok" THEN <<>> ELSE IF lock THEN Sel(file) ELSE SubSeq(file, 1, n)
Durable == \A p \in Pairs : Last(Back, p) \in {flushed[p]} \cup since[p]
NeverShort == (head = "ok" /\ ~lock) => Len(file) >= n /\ \A k \in 1..n : file[k] # Junk
(* C08: a completed flush leaves each record exactly once *)
Exactly == pc = "idle" /\ mode = "open" =>
              LET s == SubSeq(file, 1, Len(cache))
              IN \A p \in Pairs, o \in Ops : CountOf(s, p, o) = CountOf(cache, p, o)
Bound == Len(file) <= MaxRecords + 1

(* Refinement: every step is a step of Delta seen from outside (records hidden) *)
Abs == INSTANCE DeltaAbs WITH new <- [p \in Pairs |-> IF mode = "closed" THEN 0 ELSE NewOf[p]]
Refines == Abs!Spec
=============================================================================
