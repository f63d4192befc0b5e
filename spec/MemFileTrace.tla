---------------------------- MODULE MemFileTrace ----------------------------
EXTENDS MemFile, TraceLib

Step(e) ==
    CASE e.e = "read"     -> Read(e.n, e.got, e.err)
      [] e.e = "write"    -> Write(e.buf, e.r, e.err)
      [] e.e = "seek"     -> Seek(e.n, e.w, e.far, e.r, e.err)
      [] e.e = "truncate" -> Truncate(e.n, e.err)
      [] e.e = "close"    -> Close(e.err)
      [] OTHER -> FALSE

TraceInit == TidInit /\ Init0(Traces[tid].init)
(* after every step: the contents, the length and the position the code reports *)
TraceNext == /\ HasEvent
             /\ Step(Event)
             /\ (Event.e # "close" /\ ~closed') => /\ Event.data = data'
                                                  /\ Event.len = Len(data')
                                                  /\ Event.pos = pos'
             /\ Advance
=============================================================================
