----------------------------- MODULE NamesTrace -----------------------------
EXTENDS Names, TraceLib
Step(e) ==
    CASE e.e = "name" -> /\ e.accepted <=> ValidName(e.s)
                         /\ e.accepted => e.kept
      [] e.e = "type" -> /\ e.accepted <=> ValidType(e.s)
                         /\ e.accepted => e.kept
      [] e.e = "liketype" -> e.kept
      [] OTHER -> FALSE
TraceInit == TidInit
TraceNext == HasEvent /\ Step(Event) /\ Advance
=============================================================================
