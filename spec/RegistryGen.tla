---------------------------- MODULE RegistryGen -----------------------------
(* Histories of the registry for replay: N steps over names 1..K, every step an operation,
   one that is to fail or to be cut off, or a restart. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N, K, How
VARIABLES hist, present
gvars == <<hist, present>>

Step(e, op, a, b) == [e |-> e, op |-> op, a |-> a, b |-> b]
Names == 1..K
GInit == hist = <<>> /\ present = {}
(* the outcome of a step that is cut off is not known; assume the change was lost *)
Do(e, op, a, b, P) == /\ hist' = Append(hist, Step(e, op, a, b))
                      /\ present' = IF e = "op" THEN P ELSE present
Steps == \E e \in How :
           \/ \E a \in Names : Do(e, "create", a, 0, present \cup {a})
           \/ \E a \in present, b \in Names :
                Do(e, "update", a, b, IF b \in present /\ b # a THEN present ELSE (present \ {a}) \cup {b})
           \/ \E a \in Names : a \notin present /\ Do(e, "update", a, a, present)
           \/ \E a \in Names : Do(e, "delete", a, 0, present \ {a})
Others == \/ Do("restart", "none", 0, 0, present) \/ Do("load", "none", 0, 0, present)
          \/ Do("save", "none", 0, 0, present) \/ Do("badsave", "none", 0, 0, present)
          \/ \E a \in Names : Do("bad", "create", a, 0, present)
GNext == \/ Len(hist) < N /\ Steps
         \/ Len(hist) < N /\ N > 3 /\ Others
         \/ Len(hist) = N /\ PrintT("GEN " \o ToJson(hist)) /\ hist' = Append(hist, Step("end", "none", 0, 0))
            /\ UNCHANGED present
=============================================================================
