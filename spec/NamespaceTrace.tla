--------------------------- MODULE NamespaceTrace ---------------------------
(* Recorded executions of real namespaces against Namespace. *)
EXTENDS Namespace, TraceLib

VARIABLE what   \* what was called: request -> <<kind, user, item>>

MaxN == FoldLeft(LAMBDA a, t : IF t.n > a THEN t.n ELSE a, 0, Traces)
RequestsT == 1..MaxN
Has(e, k) == k \in DOMAIN e

Called(x) == {r \in DOMAIN what : what[r] = x}
(* the requests that may be behind the actions the storage was given together: which of
   several equal requests it is does not show before they are answered *)
Behind(acts) ==
    FoldLeft(LAMBDA S, a : TLCEval({ss \in UNION {{Append(s, r) : r \in {x \in Called(a) : rq[x] = "waiting" /\ \A i \in 1..Len(s) : s[i] # x}} : s \in S} : TRUE}),
             {<<>>}, acts)

Step(e) ==
    CASE e.e = "call"   -> Call(e.r)
      [] e.e = "take"   -> \E s \in Behind(e.acts) : Take(s)
      [] e.e = "answer" -> \E r \in Called(e.act) : Answer(r, e.a)
      (* the storage answers everything, the driver does not know how *)
      [] e.e = "auto"   -> /\ (\A r \in batch : rq[r] = "taken") = TRUE
                           /\ rq' = [r \in Requests |-> IF r \in batch THEN "answered" ELSE rq[r]]
                           /\ ans' = [r \in Requests |-> IF r \in batch THEN 1 ELSE ans[r]]
                           /\ UNCHANGED <<lifecycle, store, grp, now, seen, batch>>
      [] e.e = "done"   -> Done(e.ok)
      [] e.e = "ret"    -> Return(e.r, e.a)
      [] e.e = "start"  -> IF e.ok THEN Start
                           ELSE StartFails /\ (On("C16") => e.left = <<>> /\ e.twice = <<>> /\ e.files = 0)
      [] e.e = "stop"   -> Halt
      [] e.e = "cancel" -> Cancel
      [] e.e = "close"  -> CloseStore(e.s)
      [] e.e = "tick"   -> Tick
      [] e.e = "settle" -> /\ UNCHANGED nvars
                           /\ On("C15") => RequestsSettled
                           /\ (On("C15") /\ batch = {}) => e.pending = 0
                           /\ On("C16") => StoresSettled
                           /\ (On("C16") /\ \A s \in Stores : store[s] # "open") => e.files = 0
      [] OTHER -> FALSE

TraceInit == TidInit /\ Init /\ what = <<>>
TraceNext == /\ HasEvent /\ Step(Event) /\ Advance
             /\ what' = IF Event.e = "call" THEN Append(what, Event.act) ELSE what
=============================================================================
