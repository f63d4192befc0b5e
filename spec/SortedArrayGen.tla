--------------------------- MODULE SortedArrayGen ---------------------------
EXTENDS SortedArray, TLC, Json
CONSTANTS N
VARIABLE hist
GInit == Init /\ hist = <<>>
Op(o) == hist' = Append(hist, o)
GStep == /\ Len(hist) < N
         /\ \/ \E v \in Values : \/ Insert(v) /\ Op([e |-> "insert", v |-> v, i |-> 0])
                                 \/ Put(v) /\ Op([e |-> "put", v |-> v, i |-> 0])
            \/ \E i \in 0..(MaxLen - 1) : Remove(i) /\ Op([e |-> "removeat", v |-> 0, i |-> i])
            \/ \E v \in Values, q \in {"find", "closest"} :
                 UNCHANGED arr /\ Op([e |-> q, v |-> v, i |-> 0])
(* The last step prints the behaviour: once per behaviour, chosen successors only *)
End == /\ Len(hist) = N
       /\ PrintT("GEN " \o ToJson(hist))
       /\ hist' = Append(hist, [e |-> "end", v |-> 0, i |-> 0])
       /\ UNCHANGED arr
GNext == GStep \/ End
(* every ascending array, with every single operation on it *)
Arrays == {a \in UNION {[1..n -> Values] : n \in 0..MaxLen} : Sorted(a)}
EInit == arr \in Arrays /\ hist = <<>>
ENext == FALSE /\ UNCHANGED <<arr, hist>>
EEmit == PrintT("GEN " \o ToJson(arr))
=============================================================================
