------------------------------ MODULE IndexGen ------------------------------
EXTENDS Index, TLC, Json
CONSTANTS N, Kind
VARIABLE hist
gvars == <<mode, map, saved, may, hist>>
Log(o) == hist' = Append(hist, o)
R(e, p, v) == [e |-> e, p |-> p, v |-> v]
GInit == Init /\ hist = <<>>
GOpen == Open /\ Log(R("open", 0, 0))
GPut == \E i \in Ids, v \in Vals : Put(i, v) /\ Log(R("put", i, v))
GRemove == \E i \in Ids : Remove(i) /\ Log(R("remove", i, 0))
GClose == Close /\ Log(R("close", 0, 0))
GCrash == Kind = "crash" /\ CrashOpen /\ Log(R("crash", 0, 0))
GRefuse == Refuse /\ Log(R("open", 0, 0)) /\ hist[Len(hist)].e # "open"
End == Len(hist) = N /\ PrintT("GEN " \o ToJson(hist)) /\ Log(R("end", 0, 0)) /\ UNCHANGED ivars
GNext == \/ End
         \/ /\ Len(hist) < N
            /\ GOpen \/ GPut \/ GRemove \/ GClose \/ GCrash \/ GRefuse
            /\ TRUE
=============================================================================
