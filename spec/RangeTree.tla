------------------------------ MODULE RangeTree -----------------------------
(***************************************************************************)
(* The interval tree of the client: a bag of values, each with a range of  *)
(* keys, ordered by a comparer given with the tree. Queries look at what   *)
(* the tree was built from the last time; it is built again before a query *)
(* unless that was switched off.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Le(keys, a, b) == IF keys = "reverse" THEN a >= b ELSE a <= b
From(i) == i[1]
To(i) == i[2]

New(keys) == [keys |-> keys, items |-> <<>>, built |-> <<>>, sync |-> TRUE, auto |-> TRUE]

Ordered(s, i) == Le(s.keys, From(i), To(i))
Add(s, i) == IF Ordered(s, i) THEN [s EXCEPT !.items = Append(@, i), !.sync = FALSE] ELSE s
Has(s, i) == \E k \in DOMAIN s.items : s.items[k] = i
DropFirst(q, i) == LET k == CHOOSE k \in DOMAIN q : q[k] = i /\ \A j \in 1..(k - 1) : q[j] # i
                   IN [j \in 1..(Len(q) - 1) |-> IF j < k THEN q[j] ELSE q[j + 1]]
Remove(s, i) == IF Has(s, i) THEN [s EXCEPT !.items = DropFirst(@, i), !.sync = FALSE] ELSE s
Clear(s) == [s EXCEPT !.items = <<>>, !.built = <<>>, !.sync = TRUE]
Rebuild(s) == [s EXCEPT !.built = s.items, !.sync = TRUE]
Touch(s) == IF s.auto /\ ~s.sync THEN Rebuild(s) ELSE s

Meets(s, i, f, t) == Le(s.keys, From(i), t) /\ Le(s.keys, f, To(i))
\* what a query for f..t finds, each item as often as it is there
Found(s, i, f, t) == IF Meets(s, i, f, t) THEN Cardinality({k \in DOMAIN s.built : s.built[k] = i}) ELSE 0
AnswerOf(s, f, t, out) ==
  /\ \A k \in DOMAIN out : Cardinality({j \in DOMAIN out : out[j] = out[k]}) = Found(s, out[k], f, t)
  /\ \A k \in DOMAIN s.built : Meets(s, s.built[k], f, t) => \E j \in DOMAIN out : out[j] = s.built[k]

\* the ends of what is there: the least and the greatest key of any range; keys' default when there is nothing
Least(s) == IF s.built = <<>> THEN 0
            ELSE LET k == CHOOSE k \in DOMAIN s.built : \A j \in DOMAIN s.built : Le(s.keys, From(s.built[k]), From(s.built[j]))
                 IN From(s.built[k])
Greatest(s) == IF s.built = <<>> THEN 0
               ELSE LET k == CHOOSE k \in DOMAIN s.built : \A j \in DOMAIN s.built : Le(s.keys, To(s.built[j]), To(s.built[k]))
                    IN To(s.built[k])
=============================================================================
