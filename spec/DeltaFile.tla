----------------------------- MODULE DeltaFile ------------------------------
(* The delta file as bytes (C06, C07): which files are in use, malformed or good, and what
   recovery makes of any file. *)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS
    Prefix,      \* sequence of bytes every file starts with
    Version,
    CountLen,    \* bytes of the entry count in the header
    BodyLen,     \* bytes of user and item in an entry
    OpCodes,     \* bytes that are operations
    Base         \* number of values of a byte

PL == Len(Prefix)
HeadLen == PL + 2 + CountLen
EntryLen == 1 + BodyLen + 1

PrefixOK(b) == Len(b) >= PL /\ SubSeq(b, 1, PL) = Prefix
HeadOK(b) == PrefixOK(b) /\ Len(b) >= HeadLen
Marked(b) == b[PL + 2] # 0

(* big-endian count; -1 stands for more than any file here can hold *)
RECURSIVE Num(_, _)
Num(s, k) == IF k = 0 THEN 0 ELSE s[k] + Base * Num(s, k - 1)
Count(b) == LET s == SubSeq(b, PL + 3, HeadLen)
            IN IF \E i \in 1..(CountLen - 3) : s[i] # 0 THEN -1
               ELSE LET t == SubSeq(s, (IF CountLen > 3 THEN CountLen - 2 ELSE 1), CountLen)
                    IN Num(t, Len(t))
RECURSIVE Digits(_, _)
Digits(n, k) == IF k = 0 THEN <<>> ELSE Append(Digits(n \div Base, k - 1), n % Base)

Chunks(b) == IF Len(b) < HeadLen THEN 0 ELSE (Len(b) - HeadLen) \div EntryLen
Chunk(b, k) == SubSeq(b, HeadLen + (k - 1) * EntryLen + 1, HeadLen + k * EntryLen)
Sum(s) == FoldLeft(LAMBDA a, x : (a + x) % Base, 0, s)
SoundEntry(c) == c[1] \in OpCodes /\ Sum(SubSeq(c, 1, EntryLen - 1)) = c[EntryLen]

Kept(b) == IF ~HeadOK(b) THEN <<>>
           ELSE SelectSeq([k \in 1..Chunks(b) |-> Chunk(b, k)], SoundEntry)

(* FlattenSeq(entries), in time that grows with the length only *)
Flat(entries) == [i \in 1..(Len(entries) * EntryLen) |->
                     entries[((i - 1) \div EntryLen) + 1][((i - 1) % EntryLen) + 1]]
File(entries) == Prefix \o <<Version, 0>> \o Digits(Len(entries), CountLen) \o Flat(entries)
Recovered(b) == File(Kept(b))

(* exactly as a close leaves it *)
Good(b) == /\ HeadOK(b) /\ ~Marked(b) /\ b[PL + 1] = Version
           /\ Count(b) >= 0 /\ Len(b) = HeadLen + Count(b) * EntryLen
           /\ \A k \in 1..Chunks(b) : SoundEntry(Chunk(b, k))
(* a plain open must refuse it *)
Bad(b) == /\ b # <<>>
          /\ \/ ~HeadOK(b) \/ Marked(b)
             \/ Count(b) < 0 \/ Len(b) < HeadLen + Count(b) * EntryLen

MarkAs(b, m) == [b EXCEPT ![PL + 2] = m]
(* what an open leaves behind: b itself, marked *)
Opened(b) == MarkAs(IF b = <<>> THEN File(<<>>) ELSE b, 1)

(* A recovery or an open during which a file operation fails either does all of its work, or
   reports it. Then nothing is lost: the file is untouched, or already complete, or it can still
   be seen that it is to be recovered, and a recovery will find the same operations in effect. *)
Effect(cs) == LET keys == {SubSeq(cs[k], 2, EntryLen - 1) : k \in DOMAIN cs}
              IN [x \in keys |-> LET last == CHOOSE k \in DOMAIN cs : /\ SubSeq(cs[k], 2, EntryLen - 1) = x
                                                                    /\ \A j \in (k + 1)..Len(cs) : SubSeq(cs[j], 2, EntryLen - 1) # x
                                 IN cs[last][1]]
Keeps(a, b) == LET old == Effect(Kept(a)) new == Effect(Kept(b))
               IN \A x \in DOMAIN old : x \in DOMAIN new /\ new[x] = old[x]
RecoverFailed(b, after) ==
    \/ after \in {b, Recovered(b), Opened(Recovered(b))}
    \/ HeadOK(after) /\ Marked(after) /\ (HeadOK(b) => Keeps(b, after))
    \/ ~HeadOK(b) /\ ~HeadOK(after)
OpenFailed(b, after) ==
    \/ after \in {b, Opened(b)}
    \/ b = <<>> /\ Len(after) <= HeadLen /\ SubSeq(File(<<>>), 1, Len(after)) = after
=============================================================================
