---------------------------- MODULE NamespaceGen ----------------------------
(* Scripts for a namespace: what callers, owner and storage do, in which order. A burst is
   concurrent: calls, and possibly a stop, a cancellation or a start among them. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Sizes
VARIABLES hist, up, halt
gvars == <<hist, up, halt>>

Log(o) == hist' = Append(hist, o)
B(n, with) == [e |-> "burst", n |-> n, with |-> with]
O(e, n) == [e |-> e, n |-> n, with |-> ""]
LastIs(x) == hist # <<>> /\ hist[Len(hist)].e = x

Burst == \E n \in Sizes, w \in {"", "stop", "cancel", "stops"} :
            Log(B(n, w)) /\ up' = up /\ halt' = (halt \/ w # "")
StartIn == ~up /\ \E n \in Sizes, w \in {"start", "starts", "startstop"} :
             Log(B(n, w)) /\ up' = TRUE /\ halt' = (halt \/ w = "startstop")
StartOp == ~up /\ Log(O("start", 0)) /\ up' = TRUE /\ halt' = halt
StartBad == ~up /\ \E k \in 1..6 : Log(O("startbad", k)) /\ UNCHANGED <<up, halt>>
Again == up /\ ~LastIs("start") /\ Log(O("start", 0)) /\ UNCHANGED <<up, halt>>
StopOp == Log(O("stop", 0)) /\ up' = up /\ halt' = TRUE
CancelOp == ~halt /\ Log(O("cancel", 0)) /\ up' = up /\ halt' = TRUE
Settle == ~LastIs("settle") /\ Log(O("settle", 0)) /\ UNCHANGED <<up, halt>>
Wait == ~LastIs("settle") /\ ~LastIs("wait") /\ Log(O("wait", 0)) /\ UNCHANGED <<up, halt>>
Permit == ~LastIs("permit") /\ \E k \in {1, 2, 50} : Log(O("permit", k)) /\ UNCHANGED <<up, halt>>

End == Len(hist) = N /\ PrintT("GEN " \o ToJson(hist)) /\ Log(O("end", 0)) /\ UNCHANGED <<up, halt>>
GInit == hist = <<>> /\ up = FALSE /\ halt = FALSE
GNext == End \/ (Len(hist) < N /\ (Burst \/ StartIn \/ StartOp \/ StartBad \/ Again \/ StopOp \/ CancelOp
                                     \/ Settle \/ Wait \/ Permit))
=============================================================================
