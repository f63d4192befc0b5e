---------------------------- MODULE ServerTrace -----------------------------
(* Recorded runs of the real server process against Server. *)
EXTENDS Server, TraceLib

Where(h, v6) == CASE h \in {"localhost", "127.0.0.1"} -> {"127.0.0.1"}
              [] h \in {"::1", "[::1]"} -> IF v6 THEN {"::1"} ELSE {}
              [] h = "127.0.0.2" -> {"127.0.0.2"}
              [] h = "0.0.0.0" -> {"127.0.0.1", "127.0.0.2"}
              [] OTHER -> {}
Addresses(e) == {<<h, Port(e.port)>> : h \in Where(Host(e.host), e.v6)}
(* all IPv4 addresses may include those of IPv6 *)
Extra(e) == IF Host(e.host) = "0.0.0.0" THEN {<<"::1", Port(e.port)>>} ELSE {}
CanListen(e) == Addresses(e) # {} /\ Port(e.port) <= 65535 /\ Addresses(e) \cap Range(e.busy) = {}
Seen(e) == Len(e.seen) = Cardinality(Range(e.seen))
Set(s) == {s[i] : i \in DOMAIN s}
Chg(c) == [old |-> c.old, new |-> Rec(c.name, c.msp)]

Step(e) ==
    CASE e.e = "config" -> /\ UNCHANGED svars /\ e.kept
                           /\ e.gothost = IF e.host # "" THEN e.host ELSE IF e.defaults THEN e.dhost ELSE DefaultHost
                           /\ e.gotport = IF e.port.k = "number" /\ e.port.v >= 0 THEN e.port.v
                                          ELSE IF e.defaults THEN e.dport ELSE DefaultPort
                           /\ e.address = (IF e.gothost \in {"::1", "fe80::1"} THEN "[" \o e.gothost \o "]" ELSE e.gothost) \o ":" \o ToString(e.gotport)
      [] e.e = "start" /\ e.damage # "" -> e.out = "exit" /\ e.code # 0 /\ e.at = <<>> /\ e.intact /\ CannotLoad
      [] e.e = "start" -> IF CanListen(e)
                          THEN e.out = "up" /\ Range(e.at) \ Extra(e) = Addresses(e) /\ Seen(e) /\ Start(Range(e.seen))
                          ELSE e.out = "exit" /\ e.code # 0 /\ e.at = <<>> /\ CannotListen
      [] e.e = "create" -> IF Taken(reg, e.name) THEN e.status \in 400..499 /\ Refuse ELSE e.status = 201 /\ Create(e.name, e.msp)
      [] e.e = "update" -> IF Taken(reg, e.name) /\ (e.new = e.name \/ ~Taken(reg, e.new))
                           THEN e.status = 200 /\ Update(e.name, e.new, e.msp) ELSE e.status \in 400..499 /\ Refuse
      (* the driver was too slow to complete its requests *)
      [] e.e = "stop" /\ e.late ->
                         LET done == {Chg(c) : c \in {x \in Range(e.news) : x.status \in {200, 201}}}
                             open == {Chg(c) : c \in {x \in Range(e.news) : x.status = 0}}
                         IN /\ e.ended /\ e.code \in {0, 1} /\ ~e.open
                            /\ \A x \in Range(e.news) : x.status \in {0, IF x.old = "" THEN 201 ELSE 200}
                            /\ proc = "up" /\ proc' = "down" /\ reg' = ApplyAll(reg, done) /\ maybe' = open
      [] e.e = "stop" -> /\ e.ended /\ e.code = 0 /\ e.refused /\ ~e.open
                         /\ \A x \in Range(e.news) : x.status = IF x.old = "" THEN 201 ELSE 200
                         /\ Stop({Chg(x) : x \in Range(e.news)})
      [] e.e = "kill" -> LET done == {Chg(c) : c \in {x \in Range(e.changes) : x.status \in {200, 201}}}
                             open == {Chg(c) : c \in {x \in Range(e.changes) : x.status = 0}}
                         IN /\ \A x \in Range(e.changes) : x.status \in {0, IF x.old = "" THEN 201 ELSE 200}
                            /\ proc = "up" /\ proc' = "down" /\ reg' = ApplyAll(reg, done) /\ maybe' = open
      [] OTHER -> FALSE

TraceInit == TidInit /\ Init
TraceNext == /\ HasEvent /\ Step(Event) /\ Advance
             /\ Event.e \in {"create", "update"} => Seen(Event) /\ Range(Event.seen) = reg'
=============================================================================
