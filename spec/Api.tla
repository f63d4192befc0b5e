-------------------------------- MODULE Api ---------------------------------
(* The HTTP API over the list of namespaces: which requests are accepted, and what is
   answered. C20.
   A request is [m, path, body]; a path and a field have a kind k, text fields the text s and
   its characters c, limits the text s ("0" stands for the default), factors thousandths v
   and their text s. *)
EXTENDS Registry

Lower == 97..122
Upper == 65..90
Digit == 48..57
(* names the API gives *)
GoodName(c) == c # <<>> /\ c[1] \in Lower /\ \A i \in DOMAIN c : c[i] \in Lower \cup Digit
(* names of namespaces: Names.tla *)
AnyName(c) == /\ c # <<>> /\ c[1] \in Lower \cup Upper
              /\ \A i \in DOMAIN c : c[i] \in Lower \cup Upper \cup Digit \cup {45, 95}

Body(b) == b.form = "object"
NameOk(b) == b.name.k = "text" /\ GoodName(b.name.c)
TypeOk(b) == b.type.k = "text" /\ b.type.s = "like"
LimitOk(b) == b.msp.k \in {"absent", "natural"}
FactorOk(b) == b.df.k = "number" /\ b.df.v >= 0 /\ b.df.v <= 1000
Limit(b) == IF b.msp.k = "natural" THEN b.msp.s ELSE "0"

Creates(r) == [op |-> "create", name |-> r.body.name.s, new |-> "", msp |-> Limit(r.body), df |-> r.body.df.s]
Updates(r) == [op |-> "update", name |-> r.path.s, new |-> r.body.name.s, msp |-> Limit(r.body), df |-> r.body.df.s]

Accepted(r) ==
    IF r.m = "POST"
    THEN Body(r.body) /\ NameOk(r.body) /\ TypeOk(r.body) /\ LimitOk(r.body) /\ FactorOk(r.body) /\ Possible(reg, Creates(r))
    ELSE Body(r.body) /\ NameOk(r.body) /\ LimitOk(r.body) /\ FactorOk(r.body) /\ Possible(reg, Updates(r))

Out(x) == [name |-> x.name, type |-> "like", msp |-> x.msp]
(* the statuses and the content a request may be answered with, in the state after it *)
Answers(r) ==
    CASE r.m = "POST" -> IF Accepted(r) THEN {201} ELSE 400..499
      [] r.m = "PUT"  -> IF Accepted(r) THEN {200} ELSE 400..499
      [] r.m = "LIST" -> {200}
      [] r.m = "GET"  -> IF Taken(reg, r.path.s) THEN {200}
                         ELSE IF ~AnyName(r.path.c) THEN {400}
                         ELSE IF GoodName(r.path.c) THEN {404} ELSE {400, 404}
Content(r) ==
    CASE r.m \in {"POST", "PUT"} -> IF Accepted(r) THEN {Out(Of(reg', r.body.name.s))} ELSE {}
      [] r.m = "LIST" -> {Out(x) : x \in reg}
      [] r.m = "GET"  -> {Out(x) : x \in {y \in reg : y.name = r.path.s}}

Serve(r, o) ==
    CASE r.m = "POST" -> IF Accepted(r) THEN Change(Creates(r), o) ELSE Refuse
      [] r.m = "PUT"  -> IF Accepted(r) THEN Change(Updates(r), o) ELSE Refuse
      [] OTHER -> Refuse

(* Requests sent all at once that do not depend on each other: creations of new namespaces,
   updates that keep the name of distinct ones, reads of others. They are all accepted, in
   whatever order they take effect; a listing shows some of the changes. ids are the identities
   that the new ones get. *)
Elems(s) == {s[i] : i \in DOMAIN s}
Sent(rs, m) == {r \in Elems(rs) : r.m = m}
Independent(rs) ==
    /\ \A i, j \in DOMAIN rs : rs[i].m \in {"POST", "PUT"} /\ rs[j].m = rs[i].m /\ rs[i].body.name.s = rs[j].body.name.s => i = j
    /\ \A r \in Elems(rs) : CASE r.m \in {"POST", "PUT"} -> Accepted(r) /\ (r.m = "PUT" => r.path.s = r.body.name.s)
                              [] OTHER -> TRUE
    /\ \A r \in Sent(rs, "GET") : \A x \in Sent(rs, "POST") \cup Sent(rs, "PUT") : x.body.name.s # r.path.s
Burst(rs, ids) ==
    LET changed == {r.path.s : r \in Sent(rs, "PUT")}
    IN  /\ reg' = {x \in reg : x.name \notin changed}
                  \cup {Rec(Of(reg, r.path.s).o, r.path.s, Limit(r.body), r.body.df.s) : r \in Sent(rs, "PUT")}
                  \cup {Rec(ids[r.body.name.s], r.body.name.s, Limit(r.body), r.body.df.s) : r \in Sent(rs, "POST")}
        /\ disk' = Strip(reg')
Between(R, A, B) == LET old == {Out(x) : x \in A}  new == {Out(x) : x \in B}
                    IN  old \cap new \subseteq R /\ R \subseteq old \cup new

(* ---- on its own: requests over small alphabets *)
Text(c, s) == [k |-> "text", c |-> c, s |-> s]
Names_ == {Text(<<97>>, "a"), Text(<<98>>, "b"), Text(<<65>>, "A"), Text(<<>>, ""), [k |-> "absent", c |-> <<>>, s |-> ""]}
Types_ == {Text(<<>>, "like"), Text(<<>>, "x"), [k |-> "absent", c |-> <<>>, s |-> ""]}
Limits_ == {[k |-> "natural", s |-> "0"], [k |-> "natural", s |-> "5"], [k |-> "negative", s |-> "-1"], [k |-> "absent", s |-> ""]}
Factors_ == {[k |-> "number", v |-> 0, s |-> "0"], [k |-> "number", v |-> 1000, s |-> "1"], [k |-> "number", v |-> 1001, s |-> "1.001"],
             [k |-> "number", v |-> -1, s |-> "-0.001"], [k |-> "absent", v |-> 0, s |-> ""]}
Bodies_ == [form : {"object", "bad"}, name : Names_, type : Types_, msp : Limits_, df : Factors_]
Requests_ == [m : {"POST", "PUT"}, path : {Text(<<97>>, "a"), Text(<<98>>, "b"), Text(<<65>>, "A")}, body : Bodies_]
ApiNext == \E r \in Requests_, o \in Objects : Serve(r, o)
ApiSpec == Init /\ [][ApiNext]_rvars
OnlyGood == \A x \in reg : x.name \in {"a", "b"} /\ x.msp \in {"5", "1000"} /\ x.df \in {"0", "1"}
(* an API request does nothing that is not an operation on the list *)
IsRegistry == Spec
=============================================================================
