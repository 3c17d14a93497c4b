----------------------------- MODULE StringTable ----------------------------
(* The table of strings: every distinct string has one number, for ever.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE names      \* names[i] is the string with number i - 1

Range(s) == {s[i] : i \in 1..Len(s)}
IdOf(s) == (CHOOSE i \in 1..Len(names) : names[i] = s) - 1
Known(s) == s \in Range(names)

\* asking for the number of a string: a new one gets the next number
GetId(s, id) ==
  IF Known(s) THEN id = IdOf(s) /\ UNCHANGED names
  ELSE id = Len(names) /\ names' = Append(names, s)

\* asking for the string of a number in use
GetString(id, s) == (id < Len(names) => s = names[id + 1]) /\ UNCHANGED names

\* Several callers at once, each asking for the strings of its list, one after the other: the answers
\* are those of some order of all the calls. New numbers are given out in order, so such an order
\* exists if every new number k has a caller that got only smaller numbers before its first k.
AtOnce(lists, ids) ==
  LET base == Len(names)
      Calls == UNION {{<<t, i>> : i \in 1..Len(lists[t])} : t \in 1..Len(lists)}
      got == UNION {Range(ids[t]) : t \in 1..Len(ids)}
      fresh == {k \in got : k >= base}
      one == [k \in fresh |-> CHOOSE c \in Calls : ids[c[1]][c[2]] = k]
      name == [k \in fresh |-> lists[one[k][1]][one[k][2]]]
  IN /\ \A t \in 1..Len(lists) : Len(ids[t]) = Len(lists[t])
     /\ fresh = base..(base + Cardinality(fresh) - 1)
     /\ \A c \in Calls : LET k == ids[c[1]][c[2]] IN
          k >= 0 /\ lists[c[1]][c[2]] = IF k < base THEN names[k + 1] ELSE name[k]
     /\ \A k \in fresh : name[k] \notin Range(names)
     /\ Cardinality({name[k] : k \in fresh}) = Cardinality(fresh)
     /\ \A k \in fresh : \E t \in 1..Len(lists) :
          /\ k \in Range(ids[t])
          /\ LET i == CHOOSE i \in 1..Len(ids[t]) : ids[t][i] = k /\ \A j \in 1..(i - 1) : ids[t][j] # k
             IN \A j \in 1..(i - 1) : ids[t][j] < k
     /\ names' = names \o [i \in 1..Cardinality(fresh) |-> name[base + i - 1]]

\* many new strings, one after the other
Fill(list, ids) ==
  /\ Cardinality(Range(list)) = Len(list) /\ Range(list) \cap Range(names) = {}
  /\ ids = [i \in 1..Len(list) |-> Len(names) + i - 1]
  /\ names' = names \o list

\* the new strings of a list, in order
RECURSIVE New(_, _)
New(list, seen) ==
  IF list = <<>> THEN <<>>
  ELSE IF Head(list) \in seen THEN New(Tail(list), seen)
  ELSE <<Head(list)>> \o New(Tail(list), seen \cup {Head(list)})

\* a process that adds the strings of a list and may be ended at any moment: when the table is opened
\* again it has what it had, and then the first few of the new strings (all, if the process was not ended)
Crash(list, ended, all) ==
  LET new == New(list, Range(names)) IN
  /\ \E n \in 0..Len(new) : all = names \o SubSeq(new, 1, n) /\ (~ended => n = Len(new))
  /\ names' = all

-----------------------------------------------------------------------------
Distinct == \A i, j \in 1..Len(names) : names[i] = names[j] => i = j
Stable == [][Len(names') >= Len(names) /\ SubSeq(names', 1, Len(names)) = names]_names
=============================================================================
