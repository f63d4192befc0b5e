----------------------------- MODULE Namespace ------------------------------
(* A namespace: requests are queued, handed in batches to the storage by one worker and
   answered; stopping (or cancelling the context) refuses what is left and releases the
   storages. C15, C16.

   Answers are numbers: 0 is "no answer", positive ones succeed, negative ones are errors of
   the storage. A request the namespace gives up ends with an error of its own. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Requests
Stores == {"delta", "index", "like"}

VARIABLES
    started,    \* a start succeeded
    halted,     \* it was told to stop
    cancelled,  \* its context was cancelled
    store,      \* state of every storage: "no", "open", "closed"
    rq,         \* "idle", "waiting", "taken", "answered", "failed", "returned"
    ans,        \* what the storage answered
    grp,        \* requests of a group are concurrent, groups are submitted one after another
    now, seen,  \* current group, group of the last request handed to the storage
    batch       \* requests the storage is processing, {} when idle
nvars == <<started, halted, cancelled, store, rq, ans, grp, now, seen, batch>>
lifecycle == <<started, halted, cancelled>>

Init == /\ started = FALSE /\ halted = FALSE /\ cancelled = FALSE
        /\ store = [s \in Stores |-> "no"]
        /\ rq = [r \in Requests |-> "idle"] /\ ans = [r \in Requests |-> 0]
        /\ grp = [r \in Requests |-> 0] /\ now = 0 /\ seen = 0 /\ batch = {}

Call(r) == /\ rq[r] = "idle"
           /\ rq' = [rq EXCEPT ![r] = "waiting"] /\ grp' = [grp EXCEPT ![r] = now]
           /\ UNCHANGED <<lifecycle, store, ans, now, seen, batch>>
(* everything called so far has been submitted *)
Tick == now' = now + 1 /\ UNCHANGED <<lifecycle, store, rq, ans, grp, seen, batch>>

(* whether a start after (or during) a stop succeeds is left open: if it does, the stop holds *)
Start == /\ ~started /\ started' = TRUE
         /\ store' = [s \in Stores |-> "open"]
         /\ UNCHANGED <<halted, cancelled, rq, ans, grp, now, seen, batch>>
(* a refused or failed start leaves nothing behind *)
StartFails == UNCHANGED nvars
Halt == halted' = TRUE /\ UNCHANGED <<started, cancelled, store, rq, ans, grp, now, seen, batch>>
Cancel == cancelled' = TRUE /\ UNCHANGED <<started, halted, store, rq, ans, grp, now, seen, batch>>
Ending == halted \/ cancelled

\* "= TRUE": TLC evaluates the conjunction instead of walking it recursively as part of the action
Nondecreasing(s) == (\A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]) = TRUE
Take(s) == /\ started /\ batch = {} /\ s # <<>>
           /\ \A x \in Stores : store[x] = "open"
           /\ Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
           /\ (\A i \in 1..Len(s) : rq[s[i]] = "waiting" /\ grp[s[i]] >= seen) = TRUE
           /\ Nondecreasing([i \in 1..Len(s) |-> grp[s[i]]])
           /\ seen' = grp[s[Len(s)]]
           /\ batch' = {s[i] : i \in 1..Len(s)}
           /\ rq' = [r \in Requests |-> IF r \in batch' THEN "taken" ELSE rq[r]]
           /\ UNCHANGED <<lifecycle, store, ans, grp, now>>
Answer(r, a) == /\ r \in batch /\ rq[r] = "taken" /\ a # 0
                /\ rq' = [rq EXCEPT ![r] = "answered"] /\ ans' = [ans EXCEPT ![r] = a]
                /\ UNCHANGED <<lifecycle, store, grp, now, seen, batch>>
(* the storage is through with the batch, or gave up *)
Done(ok) == /\ batch # {}
            /\ ok => (\A r \in batch : rq[r] # "taken") = TRUE
            /\ rq' = [r \in Requests |-> IF r \in batch /\ rq[r] = "taken" THEN "failed" ELSE rq[r]]
            /\ batch' = {}
            /\ UNCHANGED <<lifecycle, store, ans, grp, now, seen>>
(* a request returns: a = 0 is an error of the namespace *)
Return(r, a) == /\ \/ rq[r] = "answered" /\ a = ans[r]
                   \/ rq[r] = "failed" /\ a = 0
                   \/ rq[r] = "waiting" /\ a = 0 /\ (halted \/ (started /\ cancelled))
                /\ rq' = [rq EXCEPT ![r] = "returned"]
                /\ UNCHANGED <<lifecycle, store, ans, grp, now, seen, batch>>
CloseStore(s) == /\ store[s] = "open" /\ Ending /\ batch = {}
                 /\ store' = [store EXCEPT ![s] = "closed"]
                 /\ UNCHANGED <<lifecycle, rq, ans, grp, now, seen, batch>>

(* nothing is left to happen by itself; a storage may still be busy *)
RequestsSettled == (batch = {} /\ (started \/ halted)) =>
                      (\A r \in Requests : rq[r] \in {"idle", "returned"}) = TRUE
StoresSettled == /\ (batch = {} /\ started /\ Ending) => \A s \in Stores : store[s] = "closed"
                 /\ ~(started /\ Ending) => \A s \in Stores : store[s] # "closed"
Settled == RequestsSettled /\ StoresSettled

Seqs(S) == UNION {{s \in [1..n -> S] : \A i, j \in 1..n : i # j => s[i] # s[j]} : n \in 1..Cardinality(S)}
Next == \/ \E r \in Requests : Call(r) \/ (\E a \in {-1, 1} : Answer(r, a)) \/ (\E a \in {-1, 0, 1} : Return(r, a))
        \/ Tick \/ Start \/ StartFails \/ Halt \/ Cancel
        \/ \E s \in Seqs(Requests) : Take(s)
        \/ \E ok \in BOOLEAN : Done(ok)
        \/ \E s \in Stores : CloseStore(s)
Spec == Init /\ [][Next]_nvars

OnlyOnce == [][\A r \in Requests : rq[r] = "returned" => rq'[r] = "returned"]_nvars
NothingAfter == (\E s \in Stores : store[s] = "closed") => batch = {}
=============================================================================
