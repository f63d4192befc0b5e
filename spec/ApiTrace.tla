------------------------------ MODULE ApiTrace ------------------------------
(* Recorded sequences of real HTTP requests against Api. C20. *)
EXTENDS Api, TraceLib

Full(m) == [o |-> m.o, name |-> m.name, msp |-> m.msp, df |-> m.df]
(* the namespace that is new in the list *)
Fresh(e) == LET F == {m.o : m \in Range(e.mem)} \ {x.o : x \in reg} IN IF F = {} THEN 0 ELSE CHOOSE o \in F : TRUE
Sees(e) == /\ Len(e.mem) = Cardinality(reg')
           /\ {Full(m) : m \in Range(e.mem)} = reg'
           /\ \A m \in Range(e.mem) : m.type = "like"
           /\ UniqueNames'
Step(e) ==
    CASE e.e = "begin" -> reg' = {Full(m) : m \in Range(e.mem)} /\ disk' = Strip(reg')
      \* what it does is on disk, and a service started there has it
      [] e.e = "restart" ->
            LET os(n) == {m.o : m \in {x \in Range(e.mem) : x.name = n}}
            IN  /\ Restore([r \in disk |-> IF os(r.name) = {} THEN 0 ELSE CHOOSE o \in os(r.name) : TRUE])
                /\ (\A m \in Range(e.mem), x \in reg : m.o # x.o) = TRUE
      \* the change cannot be saved, perhaps
      [] e.e = "http" /\ e.fault /\ e.status \in 400..599 /\ e.r.m \in {"POST", "PUT"} -> Refuse /\ e.out = <<>>
      [] e.e = "http"  -> /\ Serve(e.r, Fresh(e))
                          /\ e.status \in Answers(e.r)
                          /\ Len(e.out) = Cardinality(Content(e.r))
                          /\ Range(e.out) = Content(e.r)
      [] e.e = "burst" ->
            LET rs == [i \in DOMAIN e.rs |-> e.rs[i].r]
                new == {m \in Range(e.mem) : ~Taken(reg, m.name)}
            IN  /\ Independent(rs) = TRUE
                /\ {r.body.name.s : r \in Sent(rs, "POST")} = {m.name : m \in new}
                /\ Burst(rs, [n \in {m.name : m \in new} |-> (CHOOSE m \in new : m.name = n).o])
                /\ (\A i \in DOMAIN e.rs :
                       /\ e.rs[i].status \in Answers(rs[i])
                       /\ IF rs[i].m = "LIST" THEN Between(Range(e.rs[i].out), reg, reg')
                          ELSE Len(e.rs[i].out) = Cardinality(Content(rs[i])) /\ Range(e.rs[i].out) = Content(rs[i])) = TRUE
      [] OTHER -> FALSE

TraceInit == TidInit /\ Init
TraceNext == HasEvent /\ Step(Event) /\ Sees(Event) /\ Advance
=============================================================================
