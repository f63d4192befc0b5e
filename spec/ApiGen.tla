------------------------------- MODULE ApiGen -------------------------------
(* Sequences of requests for replay: N requests, each with a class for every part. With Full,
   every combination of classes is one request of its own; otherwise at most two parts of a
   request are unusual (class 1 is usual). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Draw, N, Methods, Paths, Forms, Names, Types, Msps, Dfs, Full
VARIABLE hist

Parts(r) == <<r.f, r.t, r.l, r.d>>
Unusual(r) == Cardinality({i \in 1..4 : Parts(r)[i] # 1})
All == [m : Methods, p : Paths, f : Forms, n : Names, t : Types, l : Msps, d : Dfs]
Requests == {r \in All : (r.m \in {"GET", "LIST"} => (r.n = 1 /\ Unusual(r) = 0))
                         /\ (r.m \in {"LIST", "POST"} => r.p = 1)
                         /\ (r.f # 1 => (r.t = 1 /\ r.l = 1 /\ r.d = 1))
                         /\ (~Full => Unusual(r) <= 1)}
(* one drawn at random *)
Drawn(h) ==
    LET u == RandomElement(1..(6 + 0 * Len(h)))
        m == RandomElement(IF h = <<>> THEN Methods ELSE Methods)
        x == m \in {"POST", "PUT"}
        Part(i, S) == IF x /\ u = i THEN RandomElement(S) ELSE 1
    IN [m |-> m, p |-> (IF m \in {"GET", "PUT"} THEN RandomElement(Paths) ELSE 1), n |-> (IF x THEN RandomElement(Names) ELSE 1),
        f |-> Part(1, Forms), t |-> Part(2, Types), l |-> Part(3, Msps), d |-> Part(4, Dfs)]
GInit == hist = <<>>
GNext == \/ Len(hist) < N /\ \E r \in (IF Draw THEN {Drawn(hist)} ELSE Requests) : hist' = Append(hist, r)
         \/ Len(hist) = N /\ PrintT("GEN " \o ToJson(hist)) /\ hist' = Append(hist, [end |-> TRUE])
=============================================================================
