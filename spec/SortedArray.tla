---------------------------- MODULE SortedArray -----------------------------
(* Sorted-array helpers (C23): what each helper may return, and (Algo...) how the code
   finds it, checked here to agree on every array within the bounds. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Values, MaxLen
VARIABLE arr

Sorted(a) == \A i \in 1..(Len(a) - 1) : a[i] <= a[i + 1]
Strict(a) == \A i \in 1..(Len(a) - 1) : a[i] < a[i + 1]
Count(a, v) == Cardinality({i \in 1..Len(a) : a[i] = v})
Has(a, v) == \E i \in 1..Len(a) : a[i] = v
Dist(x, y) == IF x < y THEN y - x ELSE x - y

(* Allowed results; indices are 0-based as in the code, -1 is "not found" *)
FindOK(a, v, idx) == IF Has(a, v) THEN idx \in 0..(Len(a) - 1) /\ a[idx + 1] = v ELSE idx = -1
ClosestOK(a, v, idx) ==
    IF a = <<>> THEN idx = -1
    ELSE idx \in 0..(Len(a) - 1) /\ \A i \in 1..Len(a) : Dist(a[idx + 1], v) <= Dist(a[i], v)
InsertedOK(a, v, b) == /\ Sorted(b) /\ Len(b) = Len(a) + 1
                       /\ \A x \in {a[i] : i \in 1..Len(a)} \cup {b[i] : i \in 1..Len(b)} \cup {v} :
                            Count(b, x) = Count(a, x) + (IF x = v THEN 1 ELSE 0)
(* the same for ascending arrays: there is one ascending array with these elements *)
Upto(a, v) == Cardinality({i \in 1..Len(a) : a[i] <= v})
InsertedOKAt(a, v, b) == b = SubSeq(a, 1, Upto(a, v)) \o <<v>> \o SubSeq(a, Upto(a, v) + 1, Len(a))
PutOKAt(a, v, b) == IF Has(a, v) THEN b = a ELSE InsertedOKAt(a, v, b)
PutOK(a, v, b) == IF Has(a, v) THEN b = a ELSE InsertedOK(a, v, b)
RemoveAt(a, i) == SubSeq(a, 1, i) \o SubSeq(a, i + 2, Len(a))
RemovedOK(a, i, b) == b = RemoveAt(a, i)
InsertAt(a, i, v) == SubSeq(a, 1, i) \o <<v>> \o SubSeq(a, i + 1, Len(a))
(* the first element that is equal *)
IndexOK(a, v, idx) == IF Has(a, v) THEN idx \in 0..(Len(a) - 1) /\ a[idx + 1] = v /\ \A i \in 1..idx : a[i] # v
                                   ELSE idx = -1
UnorderedOK(a, i, b) == /\ Len(b) = Len(a) - 1
                        /\ \A x \in {a[k] : k \in 1..Len(a)} \cup {b[k] : k \in 1..Len(b)} :
                             Count(b, x) = Count(a, x) - (IF x = a[i + 1] THEN 1 ELSE 0)
-----------------------------------------------------------------------------
(* The algorithms of the code, transcribed *)
RECURSIVE FindLoop(_, _, _, _)
FindLoop(a, v, lo, hi) ==
    IF lo >= hi THEN -1
    ELSE LET m == (lo + hi) \div 2
         IN IF v = a[m + 1] THEN m
            ELSE IF v < a[m + 1] THEN (IF hi = m THEN -1 ELSE FindLoop(a, v, lo, m))
            ELSE (IF lo = m THEN -1 ELSE FindLoop(a, v, m, hi))
AlgoFind(a, v) ==
    IF a = <<>> THEN -1
    ELSE IF a[Len(a)] = v THEN Len(a) - 1
    ELSE IF a[1] = v THEN 0
    ELSE FindLoop(a, v, 0, Len(a) - 1)

RECURSIVE ClosestLoop(_, _, _, _, _)
ClosestLoop(a, v, lo, hi, best) ==
    IF lo >= hi THEN best
    ELSE LET m == (lo + hi) \div 2
             nb == IF Dist(a[m + 1], v) < Dist(a[best + 1], v) THEN m ELSE best
         IN IF v = a[m + 1] THEN m
            ELSE IF v < a[m + 1] THEN (IF hi = m THEN nb ELSE ClosestLoop(a, v, lo, m, nb))
            ELSE (IF lo = m THEN nb ELSE ClosestLoop(a, v, m, hi, nb))
AlgoClosest(a, v) ==
    IF a = <<>> THEN -1
    ELSE LET best == IF Dist(a[Len(a)], v) < Dist(a[1], v) THEN Len(a) - 1 ELSE 0
         IN IF a[best + 1] = v THEN best ELSE ClosestLoop(a, v, 0, Len(a) - 1, best)

RECURSIVE Up(_, _, _)
Up(a, i, v) == IF i < Len(a) /\ a[i + 1] <= v THEN Up(a, i + 1, v) ELSE i
RECURSIVE Down(_, _, _)
Down(a, i, v) == IF i > 0 /\ a[i] > v THEN Down(a, i - 1, v) ELSE i
AlgoInsertNear(a, i, v) == InsertAt(a, Down(a, Up(a, i, v), v), v)
AlgoInsert(a, v) == IF a = <<>> THEN <<v>> ELSE AlgoInsertNear(a, AlgoClosest(a, v), v)
AlgoPut(a, v) ==
    IF a = <<>> THEN <<v>>
    ELSE LET i == AlgoClosest(a, v) IN IF a[i + 1] = v THEN a ELSE AlgoInsertNear(a, i, v)
-----------------------------------------------------------------------------
UnorderedOKFast(a, i, b) ==
    IF Strict(a) THEN /\ Len(b) = Len(a) - 1
                      /\ {b[k] : k \in 1..Len(b)} = {a[k] : k \in 1..Len(a)} \ {a[i + 1]}
                 ELSE UnorderedOK(a, i, b)
Init == arr = <<>>
Insert(v) == Len(arr) < MaxLen /\ arr' = AlgoInsert(arr, v)
Put(v)    == Len(arr) < MaxLen /\ arr' = AlgoPut(arr, v)
Remove(i) == i < Len(arr) /\ arr' = RemoveAt(arr, i)
Next == \/ \E v \in Values : Insert(v) \/ Put(v)
        \/ \E i \in 0..(MaxLen - 1) : Remove(i)
Spec == Init /\ [][Next]_arr

Ordered == Sorted(arr)
AlgosOK == \A v \in Values :
    /\ FindOK(arr, v, AlgoFind(arr, v))
    /\ ClosestOK(arr, v, AlgoClosest(arr, v))
    /\ InsertedOK(arr, v, AlgoInsert(arr, v))
    /\ PutOK(arr, v, AlgoPut(arr, v))
    /\ InsertedOKAt(arr, v, AlgoInsert(arr, v))
    /\ PutOKAt(arr, v, AlgoPut(arr, v))
    /\ \A i \in 0..(Len(arr) - 1) : UnorderedOK(arr, i, RemoveAt(arr, i)) /\ UnorderedOKFast(arr, i, RemoveAt(arr, i))
=============================================================================
