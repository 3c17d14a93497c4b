---------------------------- MODULE StringTableFS ---------------------------
(* How the table is kept in two files, and what a crash leaves of it.        *)
(*                                                                           *)
(* A string goes to the data file, then its entry (where it starts there) to *)
(* the index file. Both files have a buffer in the process, written out when *)
(* the next string is added, when it is closed, or whenever it is full; the  *)
(* buffer of the data file is always written out before that of the index.   *)
(* Ordered = FALSE drops that last sentence, and then a crash can leave      *)
(* an entry of a string that is not there.                                   *)
EXTENDS Integers, Sequences

CONSTANTS Strings, MaxLen, MaxData, Ordered

VARIABLES data, index,      \* the files: sequence of strings; sequence of positions in data
          dbuf, ibuf,       \* what is in the buffers
          names,            \* the table as its users see it
          durable,          \* what must be there after a crash
          up
vars == <<data, index, dbuf, ibuf, names, durable, up>>

Init == data = <<>> /\ index = <<>> /\ dbuf = <<>> /\ ibuf = <<>> /\ names = <<>> /\ durable = 0 /\ up = TRUE

\* the table read from the files
Load == [i \in 1..Len(index) |-> IF index[i] <= Len(data) THEN data[index[i]] ELSE "?"]

Add(s) ==
  /\ up /\ Len(names) < MaxLen /\ Len(data) + Len(dbuf) < MaxData /\ s \notin {names[i] : i \in 1..Len(names)}
  /\ dbuf' = Append(dbuf, s)
  /\ ibuf' = Append(ibuf, Len(data) + Len(dbuf) + 1)
  /\ names' = Append(names, s)
  /\ UNCHANGED <<data, index, durable, up>>
FlushData == up /\ dbuf # <<>> /\ data' = data \o dbuf /\ dbuf' = <<>> /\ UNCHANGED <<index, ibuf, names, durable, up>>
FlushIndex ==
  /\ up /\ ibuf # <<>>
  /\ Ordered => dbuf = <<>>
  /\ index' = index \o ibuf /\ ibuf' = <<>> /\ durable' = Len(index')
  /\ UNCHANGED <<data, dbuf, names, up>>
Crash == up /\ up' = FALSE /\ dbuf' = <<>> /\ ibuf' = <<>> /\ UNCHANGED <<data, index, names, durable>>
Open == ~up /\ up' = TRUE /\ names' = Load /\ durable' = Len(Load) /\ UNCHANGED <<data, index, dbuf, ibuf>>
Next == (\E s \in Strings : Add(s)) \/ FlushData \/ FlushIndex \/ Crash \/ Open
Spec == Init /\ [][Next]_vars

\* what is read after a crash is a prefix of what was there, at least as long as what was written out
Recovered == /\ Len(Load) <= Len(names) /\ Load = SubSeq(names, 1, Len(Load))
             /\ Len(Load) >= durable
\* every step is one of StringTable (a crash and reopening loses an unwritten tail, never more)
A == INSTANCE StringTable
Refines == [][\/ names' = names
              \/ \E s \in Strings : A!GetId(s, Len(names))
              \/ ~up /\ names' = SubSeq(names, 1, Len(names')) /\ Len(names') >= durable]_vars
=============================================================================
