--------------------------- MODULE RecDbFileTrace ---------------------------
(* Reading files sound and malformed (C14), creating files and planning entries (C13). *)
EXTENDS RecDbFile, TraceLib

VARIABLES off,   \* offset of the entry to be read next
          done,  \* entries read
          B,     \* contents
          last   \* offset and capacity of the entry read last
Want == EntryAt(B, off)
fvars == <<off, done, B, last>>
Same(x, y) == /\ x.cap = y.cap /\ x.del = y.del /\ x.user = y.user
              /\ x.likes = y.likes /\ x.dislikes = y.dislikes
NeedOf(e) == 21 + 8 * (e.nl + e.nd)

Step(e) ==
    CASE e.e = "next" ->
           /\ IF done < NumEntries(B) /\ ~Want.bad
              THEN /\ e.ok /\ Same(e.entry, Want) /\ off' = off + Want.cap /\ done' = done + 1
                   /\ last' = [off |-> off, cap |-> Want.cap] /\ UNCHANGED B
              ELSE ~e.ok /\ UNCHANGED fvars
           /\ e.alloc <= 400000 + 100 * Len(B)
           /\ e.has = (done' < NumEntries(B))
      [] e.e = "rewind" -> /\ e.ok /\ off' = HeadLen /\ done' = 0 /\ UNCHANGED <<B, last>>
                           /\ e.has = (0 < NumEntries(B))
      [] e.e = "set" ->     (* of the entry before a malformed one, or after it *)
           /\ B' = e.file /\ UNCHANGED <<off, done, last>>
           /\ IF done > 0 /\ e.entry.cap = last.cap /\ 21 + 8 * (Len(e.entry.likes) + Len(e.entry.dislikes)) <= last.cap
              THEN /\ e.ok /\ Len(e.file) = Len(B)
                   /\ SubSeq(e.file, 1, last.off) = SubSeq(B, 1, last.off)
                   /\ SubSeq(e.file, last.off + last.cap + 1, Len(B)) = SubSeq(B, last.off + last.cap + 1, Len(B))
                   /\ Same(e.entry, EntryAt(e.file, last.off))
              ELSE ~e.ok /\ e.file = B
           /\ e.has = (done < NumEntries(B))
      [] e.e = "create" -> (* in a stream, or as a file: bytes, and iterated at once *)
           /\ e.ok /\ e.bytes = Empty /\ e.iter /\ ~e.has /\ UNCHANGED fvars
      [] e.e = "openfile" -> (* of a file that is there *)
           /\ e.ok /\ e.bytes = B /\ e.seen = B /\ UNCHANGED fvars
      [] e.e = "openold" -> (* damaged: refused or not, it is left as it is *)
           /\ e.bytes = B /\ (e.ok => e.seen = B) /\ UNCHANGED fvars
      [] e.e = "plan" ->
           /\ e.size = NeedOf(e) /\ e.wrote = e.size   \* capacity = predicted size suffices
           /\ e.capacity >= e.size /\ e.wrotecap = e.capacity
           /\ e.readback /\ e.tight   \* same profile again, both times; one byte less is refused
           /\ UNCHANGED fvars
      [] OTHER -> FALSE

TraceInit == /\ TidInit /\ off = HeadLen /\ done = 0 /\ B = Traces[tid].img
             /\ last = [off |-> 0, cap |-> 0]
TraceNext == HasEvent /\ Step(Event) /\ Advance
=============================================================================
