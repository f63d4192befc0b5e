------------------------------- MODULE Names --------------------------------
(* Namespace names and types (C21). A string is a sequence of code points (bytes that are
   not UTF-8 count as code points >= 10^7). *)
EXTENDS Integers, Sequences

Letter(c) == c \in 65..90 \/ c \in 97..122
Digit(c)  == c \in 48..57
TailChar(c)   == Letter(c) \/ Digit(c) \/ c = 45 \/ c = 95      \* '-' and '_'
ValidName(s) == /\ Len(s) > 0
                /\ Letter(s[1])
                /\ \A i \in 1..Len(s) : TailChar(s[i])
Like == <<108, 105, 107, 101>>
ValidType(s) == s = Like

(* what makes the names safe as file names: no separator, no dot, no control character *)
Safe(s) == \A i \in 1..Len(s) : s[i] \notin {0, 46, 47, 92, 58} /\ s[i] >= 32 /\ s[i] < 128
=============================================================================
