---------------------------- MODULE ProfileTrace ----------------------------
EXTENDS Profile, TraceLib

(* The list reads as exactly the set, ascending *)
Lists(s, S) == /\ \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
               /\ {s[k] : k \in 1..Len(s)} = S

(* What the driver saw of profile p after a step *)
ObsOK(o, p) ==
    /\ Lists(o.likes, {i \in Items : op'[p][i] = "L"})
    /\ Lists(o.dislikes, {i \in Items : op'[p][i] = "D"})
    /\ \A i \in 1..Len(o.q) :
         o.q[i] = (CASE op'[p][i - 1] = "L" -> 1 [] op'[p][i - 1] = "D" -> -1 [] OTHER -> 0)

(* v approximates 'scale' times the percentage within one hundredth of a percent *)
Abs(x) == IF x < 0 THEN -x ELSE x
SimOK(e) ==
    LET f == IF e.tiny THEN TinyFactor(e.p, e.q) ELSE <<e.a, e.b>>
        n == SimNum(e.p, e.q, f[1], f[2])  d == SimDen(e.p, e.q, f[1], f[2])
    IN  /\ e.finite /\ e.inrange
        /\ IF d = 0 THEN e.v = 0 ELSE Abs(e.v * d - n * e.scale) <= 2 * d

Step(e) ==
    CASE e.e = "like"      -> Like(e.p, e.i)
      [] e.e = "dislike"   -> Dislike(e.p, e.i)
      [] e.e = "unlike"    -> Unlike(e.p, e.i)
      [] e.e = "undislike" -> Undislike(e.p, e.i)
      [] e.e = "remove"    -> RemoveItem(e.p, e.i)
      (* a profile that comes with many opinions: all of them at once *)
      [] e.e = "have"      -> op' = [op EXCEPT ![e.p] = [i \in Items |->
                                       IF i \in ToSet(e.l) THEN "L"
                                       ELSE IF i \in ToSet(e.d) THEN "D" ELSE "U"]]
      [] e.e = "sim"       -> SimOK(e) /\ UNCHANGED op
      [] OTHER -> FALSE

TraceInit == TidInit /\ Init
TraceNext == /\ HasEvent
             /\ Step(Event)
             /\ \A p \in 1..Len(Event.obs) : ObsOK(Event.obs[p], p - 1) = TRUE
             /\ Advance
=============================================================================
