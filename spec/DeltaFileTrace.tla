--------------------------- MODULE DeltaFileTrace ---------------------------
(* Recovery and opening of arbitrary files by the real code against DeltaFile. *)
EXTENDS DeltaFile, TraceLib

PrefixBytes == <<82, 69, 67, 68, 69, 76, 84, 65>>

Failed(e) == LET inuse == e.img # <<>> /\ (~HeadOK(e.img) \/ Marked(e.img))
             IN IF e.e = "recover" \/ (e.e = "openr" /\ inuse) THEN RecoverFailed(e.img, e.after)
                ELSE OpenFailed(e.img, e.after)

Step(e) ==
    CASE "faulted" \in DOMAIN e /\ e.faulted /\ ~e.ok -> Failed(e)
      [] e.e = "recover" -> (* C06 *)
           e.ok /\ e.after = Recovered(e.img) /\ e.again = e.after
      [] e.e = "open" ->    (* C07 *)
           /\ Bad(e.img) => ~e.ok
           /\ (Good(e.img) \/ e.img = <<>>) => e.ok /\ e.after = Opened(e.img)
                                               /\ e.count = (IF e.img = <<>> THEN 0 ELSE Count(e.img))
           /\ ~e.ok => e.after = e.img
      [] e.e = "openr" ->   (* C07: like a plain open if nothing is to be recovered; C06 else *)
           /\ (Good(e.img) \/ e.img = <<>>) => e.ok /\ e.after = Opened(e.img)
                                               /\ e.count = (IF e.img = <<>> THEN 0 ELSE Count(e.img))
           /\ (HeadOK(e.img) /\ Marked(e.img)) =>
                 e.ok /\ e.after = Opened(Recovered(e.img)) /\ e.count = Len(Kept(e.img))
      [] OTHER -> FALSE

TraceInit == TidInit
TraceNext == HasEvent /\ Step(Event) /\ Advance
=============================================================================
