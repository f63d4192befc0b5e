----------------------------- MODULE ServerGen ------------------------------
(* Runs of the server for replay: N steps. present: names there for certain; pool: what is
   left to create. A start comes with an environment class h (host), p (port), v (how given). *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N, K, Hosts, Ports
VARIABLES hist, up
gvars == <<hist, up>>

S(e, a, b, c) == [e |-> e, a |-> a, b |-> b, c |-> c]
GInit == hist = <<>> /\ up = FALSE
Do(s, u) == hist' = Append(hist, s) /\ up' = u
GNext == \/ Len(hist) < N /\ ~up /\ \E h \in Hosts, p \in Ports, v \in 1..3 : Do(S("start", h, p, v), p = 1 /\ h \notin 6..8)
         \/ Len(hist) < N /\ up /\ \/ \E a \in 1..K : Do(S("create", a, 0, 0), up)
                                   \/ \E a, b \in 1..K : Do(S("update", a, b, 0), up)
                                   \/ \E sig \in 1..3, n \in 0..3 : Do(S("stop", sig, n, 0), FALSE)
                                   \/ \E n \in 0..5, w \in 1..3 : Do(S("kill", n, w, 0), FALSE)
         \/ Len(hist) = N /\ PrintT("GEN " \o ToJson(hist)) /\ hist' = Append(hist, S("end", 0, 0, 0)) /\ UNCHANGED up
=============================================================================
