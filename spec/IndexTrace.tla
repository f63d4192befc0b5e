----------------------------- MODULE IndexTrace -----------------------------
EXTENDS Index, TraceLib

Has(e, k) == k \in DOMAIN e
NI == Traces[tid].ni
Of(seq) == [i \in Ids |-> IF i < NI THEN seq[i + 1] ELSE 0]
PutAll(kv) == /\ mode = "open" /\ UNCHANGED <<mode, saved, may>>
              /\ map' = FoldLeft(LAMBDA f, x : [f EXCEPT ![x[1]] = x[2]], map, kv)

OpenEvent(e) ==
    IF e.ok THEN \/ mode = "closed" /\ Open
                 \/ Survive(Of(e.ans))
    ELSE IF e.faulted THEN CrashOpening \/ CrashAgain
    ELSE mode = "down" /\ e.corrupted /\ e.same /\ Refuse

Step(e) ==
    CASE e.e = "open"   -> OpenEvent(e)
      [] e.e = "put"    -> e.ok /\ Put(e.p, e.v)
      [] e.e = "remove" -> e.ok /\ Remove(e.p)
      [] e.e = "puts"   -> e.ok /\ PutAll(e.kv)
      [] e.e = "close"  -> IF e.ok THEN Close ELSE e.faulted /\ CrashClosing
      [] e.e = "look"   -> mode = "open" /\ UNCHANGED ivars
      [] e.e = "crash"  -> CASE Has(e, "during") /\ e.during = "close" -> CrashClosing
                             [] Has(e, "during") /\ e.during = "open" -> CrashOpening \/ CrashAgain
                             [] OTHER -> CrashOpen \/ (mode = "closed" /\ CrashOpening) \/ CrashAgain
      [] OTHER -> FALSE

Sees(e) == /\ Has(e, "ans") => Of(e.ans) = map'
           /\ (On("C10") /\ Has(e, "locked")) => /\ (mode' = "open" => e.locked = 1)
                                                /\ (mode' = "closed" => e.locked = 0)

TraceInit == TidInit /\ Init
TraceNext == HasEvent /\ Step(Event) /\ Sees(Event) /\ Advance
=============================================================================
