---------------------------- MODULE DeltaTrace ------------------------------
(* Recorded executions of the real delta storage against Delta. *)
EXTENDS Delta, TraceLib

(* a close failed when the file was already complete and unmarked *)
VARIABLE gone

UserId(p) == p
NP == Traces[tid].np
All == 0..(NP - 1)
Of(seq) == [p \in Pairs |-> IF p < NP THEN seq[p + 1] ELSE 0]
OfRecs(seq) == [p \in Pairs |-> IF p < NP THEN seq[p + 1] ELSE <<0, 0>>]
UsersOf(S) == Cardinality({Traces[tid].upos[p + 1] : p \in S})
Has(e, k) == k \in DOMAIN e

AddAll(ops) ==
    /\ mode = "open"
    /\ new' = FoldLeft(LAMBDA f, x : [f EXCEPT ![x[2]] = x[1]], new, ops)
    /\ since' = FoldLeft(LAMBDA f, x : [f EXCEPT ![x[2]] = @ \cup {x[1]}], since, ops)
    /\ UNCHANGED <<mode, flushed, recs>>

(* an operation that met an injected fault reports an error and changes nothing *)
Faulty(e, ok) == IF e.faulted THEN ~e.ok /\ Fail ELSE e.ok /\ ok

Step(e) ==
    CASE e.e = "open"  -> IF mode = "closed" THEN e.ok /\ Open
                          ELSE mode = "down" /\ UNCHANGED dvars /\ (On("C07") => ~e.ok /\ e.same)
      [] e.e = "openr" -> IF mode = "closed" THEN e.ok /\ Open
                          ELSE e.ok /\ Recover(Of(e.ans), OfRecs(e.recs))
      [] e.e = "add"   -> Add(e.o, e.p)
      [] e.e = "adds"  -> AddAll(e.ops)
      [] e.e = "flush" -> Faulty(e, Flush)
      [] e.e = "close" -> Faulty(e, Close)
      [] e.e = "crash" -> (Crash \/ (mode = "down" /\ UNCHANGED dvars))
      [] e.e = "look"  -> mode = "open" /\ UNCHANGED dvars
      [] e.e = "probe" -> /\ UNCHANGED dvars
                          /\ e.ok
                          /\ \A p \in All : e.ans[p + 1] \in Candidates(p)
      [] OTHER -> FALSE

Sees(e) ==
    /\ (Has(e, "ans") /\ e.e # "probe" /\ (On("C03") \/ On("C05") \/ On("C08"))) =>
          \A p \in All : e.ans[p + 1] = Answers'[p]
    /\ (Has(e, "ans") /\ e.e # "probe" /\ On("C04")) =>
          /\ e.count = Count'
          /\ e.users = UsersOf({p \in All : Answers'[p] # 0})
          /\ NewCount' = 0 => e.size = e.fsize /\ e.fsize = SizeOf(Count')
    /\ (Has(e, "fsize") /\ On("C04") /\ mode' = "closed") => e.fsize = SizeOf(Count')
    /\ (Has(e, "locked") /\ On("C07")) =>
          CASE mode' = "open" -> e.locked = 1
            [] mode' = "closed" -> e.locked = 0
            [] OTHER -> TRUE
    /\ (Has(e, "recs") /\ On("C08") /\ e.e \in {"flush", "close"}) =>
          IF e.ok THEN e.sound /\ OfRecs(e.recs) = recs' /\ (mode' = "open" => e.locked = 1)
          ELSE \/ e.locked = 1
               \/ e.e = "close" /\ e.sound /\ OfRecs(e.recs) = Written
               \/ gone /\ e.sound /\ OfRecs(e.recs) \in {recs, Written}

(* a trace may start with a file found damaged: a recovery may bring anything then *)
Found == /\ mode = "down" /\ flushed = None /\ new = None /\ recs = NoRecs
         /\ since = [p \in Pairs |-> IF p < NP THEN {1, 2} ELSE {}]
TraceInit == TidInit /\ gone = FALSE /\ IF Traces[tid].found THEN Found ELSE Init
TraceNext == /\ HasEvent /\ Step(Event) /\ Sees(Event) /\ Advance
             /\ gone' = IF Has(Event, "locked") THEN Event.locked = 0 /\ (gone \/ (Event.e = "close" /\ ~Event.ok))
                        ELSE gone
=============================================================================
