--------------------------- MODULE RegistryTrace ----------------------------
(* Recorded histories of the real service and its file, with saves that fail, processes that
   die while saving, and restarts, against Registry. C19. *)
EXTENDS Registry, TraceLib

Attrs(m) == [name |-> m.name, msp |-> m.msp, df |-> m.df]
Full(m) == [o |-> m.o, name |-> m.name, msp |-> m.msp, df |-> m.df]
Loaded(e) == disk' = disk /\ reg' = {Full(m) : m \in Range(e.mem)}
DieTo(D, e) == disk' = D /\ reg' = {Full(m) : m \in Range(e.mem)}

(* namespaces with fresh names, created one by one and looked at together *)
Many(e) == LET names == {x.op.name : x \in Range(e.many)}
           IN /\ \A x \in Range(e.many) : x.ok /\ x.op.op = "create"
              /\ Cardinality(names) = Len(e.many) /\ names \cap {r.name : r \in reg} = {}
              /\ reg' = reg \cup {Rec(x.o, x.op.name, x.op.msp, x.op.df) : x \in Range(e.many)}
              /\ disk' = Strip(reg')

(* the namespaces deleted so far *)
VARIABLE gone
Step(e) ==
    CASE e.e = "op" -> IF e.ok THEN /\ Change(e.op, e.o)
                                    /\ e.op.op = "update" => e.o = Of(reg, e.op.name).o
                       ELSE Refuse /\ (e.fault \/ ~Possible(reg, e.op))
      [] e.e = "many" -> Many(e)
      [] e.e = "save" -> Refuse /\ (e.ok \/ e.fault)
      (* what is there cannot be read: nothing changes *)
      [] e.e = "badload" -> IF e.ok THEN e.kind \in {"files", "dir"} /\ Loaded(e) ELSE Refuse
      [] e.e = "load" -> e.ok /\ Loaded(e)
      [] e.e = "restart" -> Loaded(e)
      [] e.e = "crash" ->
           IF e.ended
           THEN IF e.ok THEN Possible(reg, e.op) /\ DieTo(Strip(Result(reg, e.op, 0)), e)
                ELSE ~Possible(reg, e.op) /\ DieTo(disk, e)
           ELSE \/ DieTo(disk, e)
                \/ Possible(reg, e.op) /\ DieTo(Strip(Result(reg, e.op, 0)), e)
      (* a deletion stops the namespace; those that are registered are not stopped *)
      [] e.e = "stopped" -> /\ Refuse
                            /\ gone \subseteq Range(e.stopped)
                            /\ {r.o : r \in reg} \cap Range(e.stopped) = {}
      [] OTHER -> FALSE
Goes(e) == gone' = IF e.e = "op" /\ e.ok /\ e.op.op = "delete" THEN gone \cup {Of(reg, e.op.name).o} ELSE gone

Sees(e) == /\ Len(e.mem) = Cardinality(reg') /\ {Full(m) : m \in Range(e.mem)} = reg'
           /\ Strip(reg') = disk' /\ UniqueNames' /\ UniqueObjects'
           /\ Len(e.disk) = Cardinality(disk') /\ {Attrs(m) : m \in Range(e.disk)} = disk'
           /\ \A m \in Range(e.mem) \cup Range(e.disk) : m.type = "like"
           /\ e.loaded \/ (~e.file /\ disk' = {})

TraceInit == TidInit /\ Init /\ gone = {}
TraceNext == HasEvent /\ Step(Event) /\ Goes(Event) /\ Sees(Event) /\ Advance
=============================================================================
