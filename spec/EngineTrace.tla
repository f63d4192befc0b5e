---------------------------- MODULE EngineTrace -----------------------------
(* Recorded histories of real namespaces over real directories against Engine. *)
EXTENDS Engine, TraceLib

FunP(seq) == [p \in Pairs |-> seq[p + 1]]
FunI(seq) == [i \in Ids |-> seq[i + 1]]
Has(e, k) == k \in DOMAIN e

Step(e) ==
    CASE e.e = "start" -> IF e.ok THEN Start(e.n, FunP(e.d), FunI(e.x))
                          ELSE Has(e, "fault") /\ StartFails(e.n, e.fault)
      [] e.e = "add"   -> Add(e.n, e.a, e.b)
      [] e.e = "flush" -> e.ok /\ Flush(e.n)
      [] e.e = "put"   -> e.ok /\ Put(e.n, e.a, e.b)
      [] e.e = "stop"  -> e.ok /\ Stop(e.n)
      (* n: the namespace that was being started or stopped, 0 if none *)
      [] e.e = "crash" -> Crash({e.n} \cap Names)
      [] OTHER -> FALSE

(* what every started namespace answers after the step, and the files there are: only those
   of namespaces started so far, none outside of the directory *)
Sees(e) ==
    /\ Has(e, "all") => \A s \in Range(e.all) : FunP(s.d) = cur'[s.n] /\ FunI(s.x) = idx'[s.n]
    /\ Has(e, "files") => /\ \A f \in Range(e.files) : f[1] \in Range(e.begun) \cup Range(e.maybe)
                          /\ \A n \in Range(e.begun) : \A k \in {".delta", ".index", ".recdb"} : <<n, k>> \in Range(e.files)
                          /\ e.stray = <<>>

TraceInit == TidInit /\ Init
TraceNext == HasEvent /\ Step(Event) /\ Sees(Event) /\ Advance
=============================================================================
