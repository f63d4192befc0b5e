------------------------------ MODULE NamesGen ------------------------------
EXTENDS Names, TLC, Json, FiniteSets
CONSTANTS N, Alphabet
VARIABLE str
GInit == str = <<>>
GNext == Len(str) < N /\ \E c \in Alphabet : str' = Append(str, c)
Emit == PrintT("GEN " \o ToJson(str))
Laws == ValidName(str) => Safe(str) /\ Letter(str[1])
(* a name stays valid when a valid tail character is appended *)
Extends == [][ValidName(str) => (ValidName(str') <=> TailChar(str'[Len(str')]))]_str
=============================================================================
