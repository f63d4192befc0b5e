--------------------------- MODULE ProfileLives ----------------------------
(* Long lives of large profiles. The history goes through periods, drawn at random: lists
   grow or shrink, at their ends, around the items of the other list, or anywhere. *)
EXTENDS ProfileGen
CONSTANT Period

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Size == Cardinality(Items)
Edges(S) == IF S = {} THEN {} ELSE {MaxOf(S), MinOf(S)}
(* the items next to the ends of both lists, and the ends *)
Around(p) == {i \in UNION {{e - 1, e, e + 1} : e \in Edges(Likes(p)) \cup Edges(Dislikes(p))} : i \in Items}
Known(p) == Likes(p) \cup Dislikes(p)
First(S, e) == IF S = {} THEN {e} ELSE S
Candidates(p, how, last) ==
    CASE how = "up"    -> {(last + 1) % Size}
      [] how = "down"  -> {(last + Size - 1) % Size}
      [] how = "ends"  -> First(Edges(Likes(p)) \cup Edges(Dislikes(p)), last)
      [] how = "around" -> First(Around(p), last)
      [] how = "top"   -> First(IF Known(p) = {} THEN {} ELSE {MaxOf(Known(p))}, last)
      [] how = "low"   -> First(IF Known(p) = {} THEN {} ELSE {MinOf(Known(p))}, last)
      [] how = "known" -> First(Known(p), last)
      [] OTHER         -> Items
Names == <<"like", "like", "like", "dislike", "dislike", "dislike", "unlike", "undislike", "remove">>
Moods == {<<1, 3>>, <<4, 6>>, <<1, 6>>, <<1, 9>>, <<7, 9>>, <<9, 9>>, <<4, 9>>, <<4, 7>>}
Grow  == {<<1, 3>>, <<4, 6>>, <<1, 6>>}
Hows  == {"up", "down", "ends", "around", "top", "low", "known", "any"}
(* kept in the history: who, how and in which mood the current period goes *)
VARIABLE mode
bvars == <<op, hist, mode>>
(* periods of growth alternate with others *)
NewMode == LET m == RandomElement(IF (Len(hist) \div Period) % 2 = 0 THEN Grow ELSE Moods)
               h == RandomElement(IF (Len(hist) \div Period) % 2 = 0 THEN {"up", "down", "any"} ELSE Hows)
               p == RandomElement(Profiles)
               s == RandomElement(Items)
               mix == RandomElement({TRUE, FALSE})
           IN [m |-> m, how |-> h, p |-> p, last |-> s, mix |-> mix]
BStep == /\ Len(hist) < N
         /\ \E md \in {IF Len(hist) % Period = 0 THEN NewMode ELSE mode} :
            \E how \in {IF md.mix /\ RandomElement(1..3) = 1 THEN RandomElement(Hows) ELSE md.how} :
            \E i \in {RandomElement(Candidates(md.p, how, md.last))} :
            \E name \in {Names[RandomElement(md.m[1]..md.m[2])]} :
               /\ mode' = [md EXCEPT !.last = IF how = md.how THEN i ELSE md.last]
               /\ CASE name = "like" -> Like(md.p, i)
                    [] name = "dislike" -> Dislike(md.p, i)
                    [] name = "unlike" -> Unlike(md.p, i)
                    [] name = "undislike" -> Undislike(md.p, i)
                    [] OTHER -> RemoveItem(md.p, i)
               /\ Op(name, md.p, i)
BNext == BStep \/ (End /\ UNCHANGED mode)
BInit == GInit /\ mode = [m |-> <<1, 1>>, how |-> "", p |-> 0, last |-> 0, mix |-> FALSE]
=============================================================================
