------------------------------ MODULE RecDbGen ------------------------------
(* Behaviours of RecDb for replay, and its own properties, with entries reduced to
   <<capacity, size, version>>. *)
EXTENDS RecDb, TLC, Json, FiniteSets
CONSTANTS N, NE, Record
VARIABLES hist
gvars == <<entries, pos, raw, hist>>
CapG(e) == e[1]
NeedG(e) == e[2]
Log(o) == hist' = IF Record THEN Append(hist, o) ELSE <<Len(hist)>>
R(e, k, kind) == [e |-> e, k |-> k, kind |-> kind]
GInit == /\ entries = [k \in 1..NE |-> <<10 + k, 5 + k, 0>>] /\ pos = 0
         /\ raw = [k \in 0..NE |-> 0] /\ hist = <<>>
Ver == IF Record THEN 1 ELSE 1
GRead == Read(HasNext, IF HasNext THEN entries[pos + 1] ELSE 0) /\ Log(R("next", 0, ""))
GRewind == Rewind /\ Log(R("rewind", 0, ""))
New(kind) == LET c == IF pos = 0 THEN 11 ELSE entries[pos][1]
                 v == IF pos = 0 THEN 1 ELSE 1 - entries[pos][3]
             IN CASE kind = "small" -> <<c, 1, v>> [] kind = "full" -> <<c, c, v>>
                  [] kind = "deleted" -> <<c, 2, v>> [] kind = "big" -> <<c, c + 1, v>>
                  [] kind = "wider" -> <<c + 1, 1, v>> [] OTHER -> <<c - 1, 1, v>>
GSet == \E kind \in {"small", "full", "deleted", "big", "wider", "narrower"} :
           LET new == New(kind) IN
           Rewrite(new, Fits(new), new[3]) /\ Log(R("set", pos, kind))
End == Record /\ Len(hist) = N /\ PrintT("GEN " \o ToJson(hist)) /\ Log(R("end", 0, "")) /\ UNCHANGED rvars
GNext == End \/ ((~Record \/ Len(hist) < N) /\ (GRead \/ GRewind \/ GSet))

(* C12: a rewrite changes one entry at most, the one read last; the number of entries, their
   capacities and the position stay *)
OneOnly == [][ /\ Len(entries') = Len(entries)
               /\ \A k \in 1..NE : entries'[k] # entries[k] => k = pos /\ pos' = pos
               /\ \A k \in 1..NE : entries'[k][1] = entries[k][1] /\ entries'[k][2] <= entries'[k][1]
               /\ \A k \in 0..NE : raw'[k] # raw[k] => k = pos /\ k > 0 ]_gvars
(* C11: positions advance one by one and never beyond the end *)
Orderly == [][pos' \in {0, pos, pos + 1} /\ pos' <= NE]_gvars
=============================================================================
