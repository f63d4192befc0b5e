----------------------------- MODULE RecDbTrace -----------------------------
(* Recorded iterations over real databases against RecDb. *)
EXTENDS RecDb, TraceLib

CapT(x) == x.cap
NeedT(x) == 5 + 16 + 8 * (Len(x.likes) + Len(x.dislikes))
At(e, k) == e.raw[k + 1]
RawOf(s) == [k \in 0..(Len(s) - 1) |-> s[k + 1]]
Has(e, k) == k \in DOMAIN e

Step(e) ==
    CASE e.faulted /\ ~e.ok -> IF e.e = "set" /\ Fits(e.entry) THEN RewriteFails(At(e, pos)) ELSE Fails
      [] e.e = "new"    -> (* refused files never become iterators *)
                           /\ IF e.want = "good" THEN e.ok ELSE ~e.ok /\ (e.want = "locked" => e.corrupted)
                           /\ UNCHANGED rvars
      [] e.e = "next"   -> Read(e.ok, IF e.ok THEN e.entry ELSE 0)
      [] e.e = "rewind" -> e.ok /\ Rewind
      [] e.e = "set"    -> Rewrite(e.entry, e.ok, IF pos > 0 THEN At(e, pos) ELSE 0)
      [] OTHER -> FALSE

Sees(e) == /\ Has(e, "raw") => RawOf(e.raw) = raw'
           /\ Has(e, "has") => e.has = (pos' < Len(entries'))

TraceInit == TidInit /\ entries = Traces[tid].entries /\ pos = 0 /\ raw = RawOf(Traces[tid].raw)
TraceNext == HasEvent /\ Step(Event) /\ Sees(Event) /\ Advance
=============================================================================
