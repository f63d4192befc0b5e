----------------------------- MODULE IndexImpl ------------------------------
(* How the index storage does it: header, entries and the mark are written one after the
   other; a process can die, and an operation can fail, between any two of the writes. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Ids, Vals, MaxLen

VARIABLES
    head,         \* "none" (empty file), "torn", "ok"
    lock, n, file, \* mark, count, entries <<id, value>> (Junk: torn one)
    pc, mem, todo, off,
    mode, saved, may \* what Index keeps; map is mem
vars == <<head, lock, n, file, pc, mem, todo, off, mode, saved, may>>
Junk == <<-1, 0>>
Empty == [i \in Ids |-> 0]
Put(f, i, r) == IF i <= Len(f) THEN [f EXCEPT ![i] = r] ELSE Append(f, r)
Load == [i \in Ids |-> LET ks == {k \in 1..n : k <= Len(file) /\ file[k][1] = i}
                       IN IF ks = {} THEN 0 ELSE file[CHOOSE k \in ks : \A j \in ks : j <= k][2]]
Init == /\ head = "none" /\ lock = FALSE /\ n = 0 /\ file = <<>>
        /\ pc = "down" /\ mem = Empty /\ todo = {} /\ off = 0
        /\ mode = "closed" /\ saved = Empty /\ may = {}

Broken == head = "torn" \/ (head = "ok" /\ (lock \/ Len(file) < n \/ \E k \in 1..n : file[k] = Junk))

Create == /\ pc = "down" /\ head = "none"
          /\ \/ /\ head' = "torn" /\ mode' = "down" /\ may' = {saved} /\ UNCHANGED <<pc, mem, lock, saved>>
             \/ /\ head' = "ok" /\ lock' = TRUE /\ pc' = "idle" /\ mem' = Empty
                /\ mode' = "open" /\ may' = {} /\ UNCHANGED saved
          /\ UNCHANGED <<n, file, todo, off>>
OpenFile == /\ pc = "down" /\ head = "ok" /\ ~Broken
            /\ pc' = "loading" /\ mem' = Load
            /\ UNCHANGED <<head, lock, n, file, todo, off, mode, saved, may>>
Mark == /\ pc = "loading" /\ lock' = TRUE /\ pc' = "idle"
        /\ mode' = "open" /\ saved' = mem /\ may' = {}
        /\ UNCHANGED <<head, n, file, mem, todo, off>>
Refuse == pc = "down" /\ Broken /\ UNCHANGED vars
Change == /\ pc = "idle" /\ \E i \in Ids, v \in Vals \cup {0} : mem' = [mem EXCEPT ![i] = v]
          /\ UNCHANGED <<head, lock, n, file, pc, todo, off, mode, saved, may>>
Begin == /\ pc = "idle" /\ pc' = "entries" /\ off' = 0
         /\ todo' = {<<i, mem[i]>> : i \in {j \in Ids : mem[j] # 0}}
         /\ UNCHANGED <<head, lock, n, file, mem, mode, saved, may>>
WriteEntry == /\ pc = "entries" /\ todo # {}
              /\ \E r \in todo : file' = Put(file, off + 1, r) /\ todo' = todo \ {r}
              /\ off' = off + 1 /\ UNCHANGED <<head, lock, n, pc, mem, mode, saved, may>>
WriteHead == /\ pc = "entries" /\ todo = {} /\ n' = off /\ lock' = TRUE /\ pc' = "unlock"
             /\ UNCHANGED <<head, file, mem, todo, off, mode, saved, may>>
Unlock == /\ pc = "unlock" /\ lock' = FALSE /\ pc' = "down" /\ mode' = "closed" /\ saved' = mem
          /\ UNCHANGED <<head, n, file, mem, todo, off, may>>
(* death, or a failure reported to the user: the same for the file *)
Stop == /\ pc # "down"
        /\ \/ file' = file \/ (pc = "entries" /\ todo # {} /\ file' = Put(file, off + 1, Junk))
        /\ pc' = "down" /\ mode' = "down" /\ todo' = {} /\ off' = 0
        /\ may' = (CASE pc = "idle" -> {} [] pc = "loading" -> {mem} [] OTHER -> {saved, mem})
        /\ mem' = mem /\ UNCHANGED <<head, lock, n, saved>>
Next == Create \/ OpenFile \/ Mark \/ Refuse \/ Change \/ Begin \/ WriteEntry \/ WriteHead \/ Unlock \/ Stop
Spec == Init /\ [][Next]_vars
Bound == Len(file) <= MaxLen

(* C10 *)
MarkedWhileOpen == mode = "open" => head = "ok" /\ lock
NeverMixed == (head = "ok" /\ ~Broken) => Load \in {saved, mem} \cup may
CleanOpens == (mode = "closed" /\ head # "none" /\ pc = "down") => ~Broken /\ Load = saved
AfterCrash == (mode = "down" /\ pc = "down" /\ head = "ok" /\ ~Broken) => Load \in may
(* every step is one of Index *)
I == INSTANCE Index WITH map <- mem
Refines == I!Init /\ [][ \/ I!Next \/ UNCHANGED <<mode, saved, may>>
                         \/ (mode = "closed" /\ mode' = "down") \/ (pc = "loading") ]_vars
=============================================================================
