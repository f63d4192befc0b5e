------------------------------ MODULE TraceLib ------------------------------
(* Trace validation: which recorded executions are behaviours of a specification?
   A module <M>Trace extends this one and its specification, and defines Step(e): the
   recorded event e is an allowed step. Every trace is explored as far as some behaviour
   of the specification explains it; the furthest position reached is kept in a TLC
   register per trace and reported at the end (workers = 1). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
Prop == IOEnv.VF_PROP

Steps(t) == Traces[t].steps
Event == Steps(tid)[l]
HasEvent == l <= Len(Steps(tid))
Advance == l' = l + 1 /\ tid' = tid

TidInit == /\ tid \in 1..Len(Traces)
           /\ l = 1
           /\ TLCSet(tid, 1)

(* CONSTRAINT *)
Reach == IF l > TLCGet(tid) THEN TLCSet(tid, l) ELSE TRUE

(* POSTCONDITION *)
Verdict ==
    LET bad == SelectSeq([t \in 1..Len(Traces) |-> <<t, TLCGet(t)>>],
                         LAMBDA x : x[2] <= Len(Steps(x[1])))
    IN PrintT("VERDICT " \o ToJson([n |-> Len(Traces), rejected |-> bad]))

(* Is a property among those the current check decides? *)
On(p) == Prop = p \/ Prop = "ALL"
=============================================================================
