-------------------------- MODULE SortedArrayTrace --------------------------
EXTENDS SortedArray, TraceLib

TValues == {}
Search(e) ==
    CASE e.e = "find"    -> FindOK(arr, e.v, e.r)
      [] e.e = "closest" -> ClosestOK(arr, e.v, e.r)
      [] e.e = "indexof" -> IndexOK(arr, e.v, e.r)
      [] OTHER -> FALSE
(* b: the array the code returned or left behind *)
Step(e) ==
    CASE e.e = "init"    -> arr' = e.b /\ Sorted(e.b)
      [] e.e \in {"find", "closest", "indexof"} -> (Search(e) = TRUE) /\ arr' = arr /\ e.b = arr
      [] e.e = "many"    -> ((\A k \in 1..Len(e.q) : Search(e.q[k])) = TRUE) /\ arr' = arr /\ e.b = arr
      [] e.e = "insertat" -> e.b = InsertAt(arr, e.i, e.v) /\ arr' = e.b
      [] e.e = "insert"  -> InsertedOKAt(arr, e.v, e.b) /\ arr' = e.b
      [] e.e = "put"     -> PutOKAt(arr, e.v, e.b) /\ arr' = e.b
      [] e.e = "removeat" -> RemovedOK(arr, e.i, e.b) /\ arr' = e.b
      [] e.e = "remove"  -> UnorderedOKFast(arr, e.i, e.b) /\ arr' = <<>>
      [] OTHER -> FALSE

TraceInit == TidInit /\ Init
TraceNext == HasEvent /\ Step(Event) /\ Advance
=============================================================================
