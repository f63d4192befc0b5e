-------------------------- MODULE RegistryLinTrace --------------------------
(* Recorded concurrent use of the real service: is there a sequential history of Registry,
   consistent with real time, in which every call has the result it had? C18.
   A call is recorded with its result; it takes effect at a moment before its return. *)
EXTENDS Registry, TraceLib

VARIABLE pend   \* positions of the calls that have not taken effect

Call(p) == Steps(tid)[p]
Distinct(s) == \A a, b \in DOMAIN s : s[a] = s[b] => a = b
IdOf(e) == IF e.o = -1 THEN 1000 + e.i ELSE e.o
Refused(e) == ~e.ok /\ e.o = 0 /\ (e.status = 0 \/ (e.status >= 400 /\ e.status < 500))

(* what an answer over HTTP shows of a set of namespaces *)
Shown(R) == {[name |-> r.name, type |-> "like", msp |-> r.msp] : r \in R}
Shows(e, R) == e.o = -1 => Range(e.body) = Shown(R) /\ Len(e.body) = Cardinality(R)
Changed(e) == {r \in reg' : r.name = IF e.op.op = "update" THEN e.op.new ELSE e.op.name}

Effect(e) ==
    CASE e.op.op = "create" -> IF e.ok THEN Change(e.op, IdOf(e)) /\ Shows(e, Changed(e)) ELSE Refused(e) /\ ~Possible(reg, e.op) /\ Refuse
      [] e.op.op = "update" -> IF e.ok THEN /\ Change(e.op, IdOf(e)) /\ Shows(e, Changed(e))
                                              /\ (e.o = -1 \/ e.o = Of(reg, e.op.name).o)
                               ELSE Refused(e) /\ ~Possible(reg, e.op) /\ Refuse
      [] e.op.op = "delete" -> IF e.ok THEN Change(e.op, 0) ELSE Refused(e) /\ ~Possible(reg, e.op) /\ Refuse
      [] e.op.op = "lookup" -> /\ IF Taken(reg, e.op.name)
                                  THEN e.ok /\ (e.o = -1 \/ e.o = Of(reg, e.op.name).o)
                                  ELSE e.o = 0
                               /\ Shows(e, {r \in reg : r.name = e.op.name})
                               /\ Refuse
      [] e.op.op = "list"   -> /\ e.ok /\ Refuse
                               /\ IF e.o = -1
                                  THEN Shows(e, reg)
                                  ELSE /\ Distinct(e.list) /\ Range(e.list) = {r.o : r \in reg}
                                       /\ e.later = e.list
      [] OTHER -> FALSE

(* calls take effect as late as possible: some call is about to return *)
Lin == /\ HasEvent /\ Event.e = "ret"
       /\ \E p \in pend : Call(p).i = Event.i
       /\ \E p \in pend : Effect(Call(p)) /\ pend' = pend \ {p}
       /\ UNCHANGED <<tid, l>>

Attrs(m) == [name |-> m.name, msp |-> m.msp, df |-> m.df]
Final(e) == /\ pend = {}
            /\ Len(e.mem) = Cardinality(reg)
            /\ {Attrs(m) : m \in Range(e.mem)} = Strip(reg)
            /\ ~e.http => \A m \in Range(e.mem) : \E r \in reg : r.o = m.o /\ r.name = m.name
            /\ Len(e.disk) = Cardinality(disk)
            /\ {Attrs(m) : m \in Range(e.disk)} = disk
Step(e) ==
    CASE e.e = "call"  -> pend' = pend \cup {l} /\ UNCHANGED rvars
      [] e.e = "ret"   -> (\A p \in pend : Call(p).i # e.i) /\ UNCHANGED <<pend, reg, disk>>
      [] e.e = "final" -> Final(e) /\ UNCHANGED <<pend, reg, disk>>
      [] OTHER -> FALSE

TraceInit == TidInit /\ Init /\ pend = {}
TraceNext == Lin \/ (HasEvent /\ Step(Event) /\ Advance)
=============================================================================
