------------------------------ MODULE DeltaGen ------------------------------
(* Histories of the delta storage for replay. Kinds of histories:
   "clean": open, open with recovery, add, flush, close
   "crash": death of the process between two operations as well, and plain opens afterwards
   "inner": for the enumeration of crash points (the driver crashes inside the operations) *)
EXTENDS Delta, TLC, Json
CONSTANTS N, Kind, MaxPer
VARIABLE hist
gvars == <<mode, flushed, new, since, recs, hist>>

UserId(p) == p
Log(o) == hist' = Append(hist, o)
R(e, p, o) == [e |-> e, p |-> p, o |-> o]
OpenKinds == IF Kind = "inner" THEN {"openr"} ELSE {"open", "openr"}
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)].e

GOpen == \E e \in OpenKinds : Open /\ Log(R(e, 0, 0))
GAdd == \E o \in {1, 2}, p \in Pairs : /\ Add(o, p) /\ Log(R("add", p, o))
                                       /\ Cardinality({k \in 1..Len(hist) : hist[k].e = "add"}) < MaxPer
GFlush == Flush /\ Log(R("flush", 0, 0)) /\ Last # "flush"
GClose == Close /\ Log(R("close", 0, 0))
(* between operations everything added since the last flush is lost *)
GCrash == Kind = "crash" /\ mode = "open" /\ Crash /\ Log(R("crash", 0, 0))
GRefused == mode = "down" /\ UNCHANGED dvars /\ Log(R("open", 0, 0)) /\ Last # "open"
GRecover == Recover(flushed, recs) /\ Log(R("openr", 0, 0))
End == /\ Len(hist) = N
       /\ PrintT("GEN " \o ToJson(hist))
       /\ Log(R("end", 0, 0)) /\ UNCHANGED dvars
GInit == Init /\ hist = <<>>
GNext == End \/ (Len(hist) < N /\ (GOpen \/ GAdd \/ GFlush \/ GClose \/ GCrash \/ GRefused \/ GRecover))
=============================================================================
