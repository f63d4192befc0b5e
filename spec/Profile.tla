------------------------------ MODULE Profile -------------------------------
(* Profiles of likes and dislikes (properties C01, C02): what a user can observe.
   Abstract state: the opinion each profile has on each item. *)
EXTENDS Integers, FiniteSets

CONSTANTS Profiles, Items

VARIABLE op     \* op[p][i]: "L" liked, "D" disliked, "U" unknown

Init == op = [p \in Profiles |-> [i \in Items |-> "U"]]

Set(p, i, o) == op' = [op EXCEPT ![p][i] = o]

Like(p, i)      == Set(p, i, "L")
Dislike(p, i)   == Set(p, i, "D")
(* unlike withdraws a like only, undislike a dislike only *)
Unlike(p, i)    == Set(p, i, IF op[p][i] = "L" THEN "U" ELSE op[p][i])
Undislike(p, i) == Set(p, i, IF op[p][i] = "D" THEN "U" ELSE op[p][i])
RemoveItem(p, i) == Set(p, i, "U")

Next == \E p \in Profiles, i \in Items :
            \/ Like(p, i) \/ Dislike(p, i) \/ Unlike(p, i) \/ Undislike(p, i)
            \/ RemoveItem(p, i)

Spec == Init /\ [][Next]_op

Likes(p)    == {i \in Items : op[p][i] = "L"}
Dislikes(p) == {i \in Items : op[p][i] = "D"}

Qualify(p, i) == CASE op[p][i] = "L" -> 1 [] op[p][i] = "D" -> -1 [] OTHER -> 0

(* Similarity with dislike factor a/b, as the fraction SimNum/SimDen of a percentage *)
Common(A, B) == Cardinality(A \cap B)
All(A, B)    == Cardinality(A \cup B)
SimNum(p, q, a, b) == 100 * (b * Common(Likes(p), Likes(q)) + a * Common(Dislikes(p), Dislikes(q)))
SimDen(p, q, a, b) == b * All(Likes(p), Likes(q)) + a * All(Dislikes(p), Dislikes(q))
(* an infinitesimal factor: dislikes count only where no likes do *)
TinyFactor(p, q) == IF Likes(p) \cup Likes(q) = {} THEN <<1, 1>> ELSE <<0, 1>>
-----------------------------------------------------------------------------
TypeOK == op \in [Profiles -> [Items -> {"L", "D", "U"}]]

(* One opinion per item; operations on a profile change that profile and that item only *)
OneOpinion == \A p \in Profiles : Likes(p) \cap Dislikes(p) = {}
Local == [][ \A p, q \in Profiles, i, j \in Items :
                (op'[p][i] # op[p][i] /\ op'[q][j] # op[q][j]) => (p = q /\ i = j) ]_op

(* Consequences of the similarity formula that C02 states, for all pairs and factors a/b *)
Factors == {<<0, 1>>, <<1, 4>>, <<1, 2>>, <<3, 4>>, <<1, 1>>}
SimLaws ==
    \A p, q \in Profiles : \A f \in Factors :
        LET n == SimNum(p, q, f[1], f[2])  d == SimDen(p, q, f[1], f[2])
        IN  /\ n = SimNum(q, p, f[1], f[2]) /\ d = SimDen(q, p, f[1], f[2])
            /\ 0 <= n /\ n <= 100 * d
            /\ (d = 0 => n = 0)
            /\ (op[p] = op[q] /\ d > 0 => n = 100 * d)
            /\ (Likes(p) \cap Likes(q) = {} /\ Dislikes(p) \cap Dislikes(q) = {} => n = 0)
            (* the infinitesimal factor lies between 0 and every other one *)
            /\ LET t == TinyFactor(p, q)  tn == SimNum(p, q, t[1], t[2])  td == SimDen(p, q, t[1], t[2])
                    zn == SimNum(p, q, 0, 1)  zd == SimDen(p, q, 0, 1)
                IN  zd > 0 => tn * zd = zn * td
            /\ (f[1] = 0 => d = f[2] * All(Likes(p), Likes(q)))
=============================================================================
