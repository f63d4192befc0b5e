----------------------------- MODULE EngineGen ------------------------------
(* Histories of namespaces over one directory for replay. Nondeterministic outcomes of
   starts do not matter here: the driver records what happened. *)
EXTENDS Engine, TLC, Json
CONSTANT N
VARIABLE hist
Log(e, n, a, b) == hist' = Append(hist, [e |-> e, n |-> n, a |-> a, b |-> b])
Last2 == IF hist = <<>> THEN "" ELSE hist[Len(hist)].e
GStart == \E n \in Names : Start(n, flushed[n], IF shut[n] = "clean" THEN idx[n] ELSE Zero(Ids)) /\ Log("start", n, 0, 0)
GFail == \E n \in Names, k \in 1..12, b \in 0..2 :
            StartFails(n, <<"read", "seek", "write">>[b + 1]) /\ Log("startfault", n, k, b)
GAdd == \E n \in Names, p \in Pairs, o \in 1..2 : Add(n, p, o) /\ Log("add", n, p, o)
GFlush == \E n \in Names : since[n] # [p \in Pairs |-> {}] /\ Flush(n) /\ Log("flush", n, 0, 0)
GPut == \E n \in Names, i \in Ids, v \in Values \cup {0} : Put(n, i, v) /\ Log("put", n, i, v)
GStop == \E n \in Names : Stop(n) /\ Log("stop", n, 0, 0)
GCrash == (\E n \in Names : up[n]) /\ Crash({}) /\ Log("crash", 0, 0, 0)
End == Len(hist) = N /\ PrintT("GEN " \o ToJson(hist)) /\ Log("end", 0, 0, 0) /\ UNCHANGED evars
GInit == Init /\ hist = <<>>
GNext == End \/ (Len(hist) < N /\ (GStart \/ (hist # <<>> /\ RandomElement(1..20) = 1 /\ GFail) \/ GAdd \/ GFlush \/ GPut \/ GStop \/ GCrash))
=============================================================================
