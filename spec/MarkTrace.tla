----------------------------- MODULE MarkTrace ------------------------------
(* Recorded settings and readings of the mark of real files against Mark. *)
EXTENDS Mark, TraceLib

Step(e) ==
    CASE e.e = "move"   -> Move(e.p)
      [] e.faulted /\ ~e.ok ->
                           IF e.e = "asked" THEN AskFails(e.pos) ELSE MarkFails(e.e = "lock", e.pos)
      [] e.e = "lock"   -> e.ok /\ Mark(TRUE)
      [] e.e = "unlock" -> e.ok /\ Mark(FALSE)
      [] e.e = "asked"  -> e.ok /\ Ask(e.a)
      [] OTHER -> FALSE

TraceInit == TidInit /\ B = Traces[tid].img /\ pos = 0
TraceNext == /\ HasEvent /\ Step(Event) /\ Advance
             /\ B' = Event.data /\ pos' = Event.pos
=============================================================================
