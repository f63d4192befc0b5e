--------------------------- MODULE NamespaceImpl ----------------------------
(* How the namespace does it: a bounded channel of requests, one worker, reply channels
   (mutations: buffered; reads: rendezvous), a quit and a stopped channel. Every channel
   operation is a step. Refines Namespace; and whenever nothing can happen by itself every
   request has been answered and every storage released. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Requests, Reads, Cap, MaxTicks

Stores == {"delta", "index", "like"}
VARIABLES
    cpc,     \* callers: "idle", "called", "sending", "replying", "done"
    sendq,   \* callers blocked on the full channel, in order
    chan,    \* the channel
    err,     \* what is in the error channel of the request: 0 nothing, 9 the namespace's error
    wpc,     \* worker: "none", "top", "wait", "fill", "proc", "closing", "gone"
    got, todo, \* requests taken, those the storage has yet to answer
    quit, gone, cancelled, started, opened,
    store, out, hans, hfail, htaken, now, grp, seen
ivars == <<cpc, sendq, chan, err, wpc, got, todo, quit, gone, cancelled, started, opened,
           store, out, hans, hfail, htaken, now, grp, seen>>
Rng(s) == {s[i] : i \in 1..Len(s)}

Init == /\ cpc = [r \in Requests |-> "idle"] /\ sendq = <<>> /\ chan = <<>>
        /\ err = [r \in Requests |-> 0] /\ wpc = "none" /\ got = <<>> /\ todo = <<>>
        /\ quit = FALSE /\ gone = FALSE /\ cancelled = FALSE /\ started = FALSE /\ opened = 0
        /\ store = [s \in Stores |-> "no"] /\ out = [r \in Requests |-> -9]
        /\ hans = [r \in Requests |-> 0] /\ hfail = {} /\ htaken = {}
        /\ now = 0 /\ grp = [r \in Requests |-> 0] /\ seen = 0

(* callers *)
Call(r) == /\ cpc[r] = "idle" /\ cpc' = [cpc EXCEPT ![r] = "called"] /\ grp' = [grp EXCEPT ![r] = now]
           /\ UNCHANGED <<sendq, chan, err, wpc, got, todo, quit, gone, cancelled, started, opened,
                          store, out, hans, hfail, htaken, now, seen>>
Refuse(r) == /\ cpc[r] \in {"called", "sending"} /\ (quit \/ gone)
             /\ cpc' = [cpc EXCEPT ![r] = "done"] /\ out' = [out EXCEPT ![r] = 0]
             /\ sendq' = SelectSeq(sendq, LAMBDA x : x # r)
             /\ UNCHANGED <<chan, err, wpc, got, todo, quit, gone, cancelled, started, opened,
                            store, hans, hfail, htaken, now, grp, seen>>
(* a stop between the check and the send may go unnoticed, hence no condition on quit *)
Send(r) == /\ cpc[r] = "called"
           /\ IF Len(chan) < Cap THEN chan' = Append(chan, r) /\ sendq' = sendq /\ cpc' = [cpc EXCEPT ![r] = "replying"]
              ELSE sendq' = Append(sendq, r) /\ chan' = chan /\ cpc' = [cpc EXCEPT ![r] = "sending"]
           /\ UNCHANGED <<err, wpc, got, todo, quit, gone, cancelled, started, opened,
                          store, out, hans, hfail, htaken, now, grp, seen>>
Finish(r, a) == cpc' = [cpc EXCEPT ![r] = "done"] /\ out' = [out EXCEPT ![r] = a]
FromErr(r) == IF err[r] = 9 THEN 0 ELSE err[r]
Reply(r) == /\ cpc[r] = "replying" /\ err[r] # 0 /\ Finish(r, FromErr(r))
            /\ UNCHANGED <<sendq, chan, err, wpc, got, todo, quit, gone, cancelled, started, opened,
                           store, hans, hfail, htaken, now, grp, seen>>
Abandon(r) == /\ cpc[r] = "replying" /\ gone /\ Finish(r, IF err[r] # 0 THEN FromErr(r) ELSE 0)
              /\ UNCHANGED <<sendq, chan, err, wpc, got, todo, quit, gone, cancelled, started, opened,
                             store, hans, hfail, htaken, now, grp, seen>>

(* lifecycle *)
StartOk == /\ ~started /\ ~quit /\ started' = TRUE /\ wpc' = "top"
           /\ store' = [s \in Stores |-> "open"]
           /\ UNCHANGED <<cpc, sendq, chan, err, got, todo, quit, gone, cancelled, opened,
                          out, hans, hfail, htaken, now, grp, seen>>
(* the stage at which a start fails: what it opened it closes again *)
StartFails == ~started /\ UNCHANGED ivars
Stop == /\ ~quit /\ quit' = TRUE /\ gone' = (gone \/ ~started)
        /\ UNCHANGED <<cpc, sendq, chan, err, wpc, got, todo, cancelled, started, opened,
                       store, out, hans, hfail, htaken, now, grp, seen>>
Cancel == /\ ~cancelled /\ cancelled' = TRUE
          /\ UNCHANGED <<cpc, sendq, chan, err, wpc, got, todo, quit, gone, started, opened,
                         store, out, hans, hfail, htaken, now, grp, seen>>

(* worker *)
W(pc) == wpc' = pc /\ UNCHANGED <<err, quit, gone, cancelled, started, opened, out, now, grp>>
History == <<hans, hfail, htaken, seen>>
(* a receive makes room for the first blocked sender *)
Receive == /\ chan # <<>>
           /\ got' = Append(got, Head(chan))
           /\ IF sendq = <<>> THEN chan' = Tail(chan) /\ UNCHANGED <<sendq, cpc>>
              ELSE /\ chan' = Append(Tail(chan), Head(sendq)) /\ sendq' = Tail(sendq)
                   /\ cpc' = [cpc EXCEPT ![Head(sendq)] = "replying"]
Top == /\ wpc = "top"
       /\ \/ (quit \/ cancelled) /\ W("closing") /\ UNCHANGED <<cpc, sendq, chan, got, todo, store, History>>
          \/ ~(quit \/ cancelled) /\ W("wait") /\ UNCHANGED <<cpc, sendq, chan, got, todo, store, History>>
Wait == /\ wpc = "wait"
        /\ \/ (quit \/ cancelled) /\ W("closing") /\ UNCHANGED <<cpc, sendq, chan, got, todo, store, History>>
           \/ Receive /\ W("pause") /\ UNCHANGED <<todo, store, History>>
(* what is queued when the pause ends is taken; todo holds how many *)
Pause == /\ wpc = "pause"
         /\ \/ (quit \/ cancelled) /\ W("closing") /\ UNCHANGED <<cpc, sendq, chan, got, todo, store, History>>
            \/ W("fill") /\ todo' = [i \in 1..Len(chan) |-> 0] /\ UNCHANGED <<cpc, sendq, chan, got, store, History>>
Fill == /\ wpc = "fill"
        /\ IF todo # <<>> THEN Receive /\ todo' = Tail(todo) /\ W("fill") /\ UNCHANGED <<store, History>>
           ELSE /\ W("proc") /\ todo' = got /\ htaken' = htaken \cup Rng(got)
                /\ seen' = grp[got[Len(got)]]
                /\ UNCHANGED <<cpc, sendq, chan, got, store, hans, hfail>>
(* the storage answers the next request *)
StorageAnswers ==
    /\ wpc = "proc" /\ todo # <<>>
    /\ LET r == Head(todo) IN
       /\ \E a \in {-1, 1} :
             IF r \in Reads /\ a = 1
             THEN /\ cpc[r] = "replying" /\ hans' = [hans EXCEPT ![r] = a]
                  /\ cpc' = [cpc EXCEPT ![r] = "done"] /\ out' = [out EXCEPT ![r] = a] /\ err' = err
             ELSE /\ hans' = [hans EXCEPT ![r] = a] /\ err' = [err EXCEPT ![r] = a] /\ UNCHANGED <<cpc, out>>
       /\ todo' = Tail(todo)
    /\ UNCHANGED <<sendq, chan, wpc, got, quit, gone, cancelled, started, opened, store, hfail, htaken, now, grp, seen>>
StorageDone == /\ wpc = "proc" /\ todo = <<>> /\ W("top") /\ got' = <<>>
               /\ UNCHANGED <<cpc, sendq, chan, todo, store, History>>
(* it gives up: whoever has no answer yet gets the error *)
StorageFails == /\ wpc = "proc"
                /\ wpc' = "top" /\ got' = <<>> /\ todo' = <<>>
                /\ err' = [r \in Requests |-> IF r \in Rng(got) /\ err[r] = 0 THEN 9 ELSE err[r]]
                /\ hfail' = hfail \cup {r \in Rng(got) : hans[r] = 0}
                /\ UNCHANGED <<cpc, sendq, chan, quit, gone, cancelled, started, opened,
                               store, out, hans, htaken, now, grp, seen>>
CloseNext == /\ wpc = "closing"
             /\ \/ \E s \in Stores :
                     /\ store[s] = "open"
                     /\ s = "delta" => store["index"] = "closed"
                     /\ s = "like" => store["delta"] = "closed"
                     /\ store' = [store EXCEPT ![s] = "closed"] /\ W("closing")
                     /\ UNCHANGED <<cpc, sendq, chan, got, todo, History>>
                \/ /\ \A s \in Stores : store[s] = "closed"
                   /\ wpc' = "none" /\ gone' = TRUE /\ got' = <<>>
                   /\ UNCHANGED <<cpc, sendq, chan, err, todo, quit, cancelled, started, opened,
                                  store, out, hans, hfail, htaken, now, grp, seen>>
(* the observer: everything called has got as far as it can *)
Tick == /\ now < MaxTicks /\ \A r \in Requests : cpc[r] # "called"
        /\ now' = now + 1
        /\ UNCHANGED <<cpc, sendq, chan, err, wpc, got, todo, quit, gone, cancelled, started, opened,
                       store, out, hans, hfail, htaken, grp, seen>>

Callers == \E r \in Requests : Refuse(r) \/ Send(r) \/ Reply(r) \/ Abandon(r)
Worker == Top \/ Wait \/ Pause \/ Fill \/ CloseNext
Storage == StorageAnswers \/ StorageDone
Outside == (\E r \in Requests : Call(r)) \/ StartOk \/ StartFails \/ Stop \/ Cancel \/ StorageFails \/ Tick
Next == Callers \/ Worker \/ Storage \/ Outside
Spec == Init /\ [][Next]_ivars
        /\ \A r \in Requests : WF_ivars(Refuse(r) \/ Send(r)) /\ WF_ivars(Reply(r) \/ Abandon(r))
        /\ WF_ivars(Worker) /\ WF_ivars(Storage)

(* the abstract state *)
RqOf(r) == CASE cpc[r] = "idle" -> "idle"
             [] cpc[r] = "done" -> "returned"
             [] hans[r] # 0 -> "answered"
             [] r \in hfail -> "failed"
             [] r \in htaken -> "taken"
             [] OTHER -> "waiting"
N == INSTANCE Namespace WITH
        halted <- quit, rq <- [r \in Requests |-> RqOf(r)], ans <- hans,
        batch <- IF wpc = "proc" THEN Rng(got) ELSE {}
(* the rendezvous of a read answers and returns in one step *)
Hand == \E r \in Requests :
           /\ RqOf(r) = "taken" /\ cpc'[r] = "done" /\ hans'[r] # 0 /\ out'[r] = hans'[r]
           /\ UNCHANGED <<quit, cancelled, started, store, grp, now, seen>>
           /\ \A x \in Requests \ {r} : RqOf(x)' = RqOf(x) /\ hans'[x] = hans[x]
Refines == N!Init /\ [][N!Next \/ Hand]_(N!nvars)
(* what a request returned is what the abstract machine lets it return *)
RightAnswer == \A r \in Requests : cpc[r] = "done" =>
                  \/ out[r] = hans[r] /\ hans[r] # 0
                  \/ out[r] = 0 /\ hans[r] = 0 /\ (r \in hfail \/ (r \notin htaken /\ (quit \/ (started /\ cancelled))))

(* nothing left to happen by itself: the settled conditions hold *)
Quiet == ~ENABLED Callers /\ ~ENABLED Worker /\ ~ENABLED Storage
SettledWhenQuiet == Quiet => N!Settled
Nothing == N!NothingAfter
(* nobody waits forever *)
Answered == \A r \in Requests : (cpc[r] # "idle" /\ (started \/ quit)) ~> cpc[r] = "done"
Released == (started /\ (quit \/ cancelled)) ~> \A s \in Stores : store[s] = "closed"
=============================================================================
