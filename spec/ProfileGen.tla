----------------------------- MODULE ProfileGen -----------------------------
(* Behaviours of Profile, printed for replay on the real code *)
EXTENDS Profile, Sequences, TLC, Json
CONSTANTS N
VARIABLE hist
gvars == <<op, hist>>

Op(name, p, i) == hist' = Append(hist, [e |-> name, p |-> p, i |-> i])
GInit == Init /\ hist = <<>>
(* The last step prints the behaviour: once per behaviour, chosen successors only *)
End == /\ Len(hist) = N
       /\ PrintT("GEN " \o ToJson(hist))
       /\ hist' = Append(hist, [e |-> "end", p |-> 0, i |-> 0])
       /\ UNCHANGED op
GStep == /\ Len(hist) < N
         /\ \E p \in Profiles, i \in Items :
            \/ Like(p, i) /\ Op("like", p, i)
            \/ Dislike(p, i) /\ Op("dislike", p, i)
            \/ Unlike(p, i) /\ Op("unlike", p, i)
            \/ Undislike(p, i) /\ Op("undislike", p, i)
            \/ RemoveItem(p, i) /\ Op("remove", p, i)
GNext == GStep \/ End
=============================================================================
