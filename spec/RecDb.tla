------------------------------- MODULE RecDb --------------------------------
(* A recommendation database being iterated (C11, C12). *)
EXTENDS Integers, Sequences

CONSTANTS Cap(_),   \* capacity of an entry
          Need(_)   \* bytes an entry takes without spare ones

VARIABLES entries,  \* contents, in file order
          pos,      \* entries read since the start or the last rewind
          raw       \* raw[k]: what the bytes of entry k are like; raw[0]: the header

rvars == <<entries, pos, raw>>

HasNext == pos < Len(entries)

Next0 == pos' = pos + 1 /\ UNCHANGED <<entries, raw>>
(* a read yields the next entry, or an error when none is left *)
Read(ok, got) == IF HasNext THEN ok /\ got = entries[pos + 1] /\ Next0
                 ELSE ~ok /\ UNCHANGED rvars
Rewind == pos' = 0 /\ UNCHANGED <<entries, raw>>

Fits(new) == pos > 0 /\ Cap(new) = Cap(entries[pos]) /\ Need(new) <= Cap(new)
(* r: the bytes of the rewritten entry *)
Rewrite(new, ok, r) ==
    IF Fits(new) THEN /\ ok /\ entries' = [entries EXCEPT ![pos] = new]
                      /\ raw' = [raw EXCEPT ![pos] = r] /\ UNCHANGED pos
    ELSE ~ok /\ UNCHANGED rvars
(* An operation of the file fails: this is reported, the iterator stays where it is. Only a
   rewrite can have changed something, its entry, which it is up to a repeated rewrite to mend. *)
Fails == UNCHANGED rvars
RewriteFails(r) == pos > 0 /\ raw' = [raw EXCEPT ![pos] = r] /\ UNCHANGED <<entries, pos>>
=============================================================================
