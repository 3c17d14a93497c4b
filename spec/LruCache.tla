------------------------------ MODULE LruCache ------------------------------
(* The least-recently-used cache (core/src/utils/LruCache.hpp).              *)
(* q holds the entries <<key, value>>, the most recently used one first.     *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cap, q

lruVars == <<cap, q>>

Keys(s) == {s[i][1] : i \in 1..Len(s)}
Without(s, k) == SelectSeq(s, LAMBDA e : e[1] # k)
Entry(s, k) == s[CHOOSE i \in 1..Len(s) : s[i][1] = k]

New(c) == cap' = c /\ q' = <<>>

Put(k, v) ==
  /\ LET t == <<<<k, v>>>> \o Without(q, k)
     IN q' = IF Len(t) > cap THEN SubSeq(t, 1, cap) ELSE t
  /\ UNCHANGED cap

\* reading an entry, and promoting it, make it the most recently used one; peeking does not
Use(k) ==
  /\ q' = IF k \in Keys(q) THEN <<Entry(q, k)>> \o Without(q, k) ELSE q
  /\ UNCHANGED cap

Clear == q' = <<>> /\ UNCHANGED cap

Value(k) == IF k \in Keys(q) THEN Entry(q, k)[2] ELSE -1

TypeOK == Len(q) <= cap /\ Cardinality(Keys(q)) = Len(q)
=============================================================================
