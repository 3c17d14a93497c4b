----------------------------- MODULE RangeTreeMC ----------------------------
(***************************************************************************)
(* The tree itself: split at the median of all ends, what spans it stays   *)
(* in the node. For every bag of ranges the walk gives what RangeTree says.*)
(***************************************************************************)
EXTENDS RangeTree, TLC
CONSTANTS Keys, Most, Orders
VARIABLES s

Median(keys, q) ==
  LET ends == 1..(2 * Len(q))
      e(k) == IF k <= Len(q) THEN From(q[k]) ELSE To(q[k - Len(q)])
      before(k) == Cardinality({j \in ends : (Le(keys, e(j), e(k)) /\ e(j) # e(k)) \/ (e(j) = e(k) /\ j < k)})
  IN e(CHOOSE k \in ends : before(k) = Len(q))

RECURSIVE Sub(_, _)
Sub(q, keep) == IF q = <<>> THEN <<>>
                ELSE LET r == Sub(Tail(q), Tail(keep)) IN IF Head(keep) THEN <<Head(q)>> \o r ELSE r

Lt(keys, a, b) == ~Le(keys, b, a)
RECURSIVE Tree(_, _)
Tree(keys, q) ==
  IF q = <<>> THEN [empty |-> TRUE]
  ELSE LET c == Median(keys, q)
           left == Sub(q, [k \in DOMAIN q |-> Lt(keys, To(q[k]), c)])
           right == Sub(q, [k \in DOMAIN q |-> Lt(keys, c, From(q[k]))])
           mid == Sub(q, [k \in DOMAIN q |-> ~Lt(keys, To(q[k]), c) /\ ~Lt(keys, c, From(q[k]))])
       IN [empty |-> FALSE, center |-> c, mid |-> mid, left |-> Tree(keys, left), right |-> Tree(keys, right)]

RECURSIVE Walk(_, _, _, _)
Walk(keys, t, f, g) ==
  IF t.empty THEN <<>>
  ELSE Sub(t.mid, [k \in DOMAIN t.mid |-> Le(keys, From(t.mid[k]), g) /\ Le(keys, f, To(t.mid[k]))])
       \o (IF Lt(keys, f, t.center) THEN Walk(keys, t.left, f, g) ELSE <<>>)
       \o (IF Lt(keys, t.center, g) THEN Walk(keys, t.right, f, g) ELSE <<>>)

RECURSIVE High(_, _)
High(keys, t) ==    \* ranges kept in the node may reach further than those right of it
  LET m == CHOOSE k \in DOMAIN t.mid : \A j \in DOMAIN t.mid : Le(keys, To(t.mid[j]), To(t.mid[k]))
      r == IF t.right.empty THEN To(t.mid[m]) ELSE High(keys, t.right)
  IN IF Le(keys, r, To(t.mid[m])) THEN To(t.mid[m]) ELSE r

Items == {i \in Keys \X Keys \X {1} : TRUE}
Init == s \in {New(k) : k \in Orders}
Next == \/ \E i \in Items : Len(s.items) < Most /\ s' = Add(s, i)
        \/ \E i \in Items : Has(s, i) /\ s' = Remove(s, i)
        \/ s' = Clear(s) \/ s' = Rebuild(s) \/ s' = Touch(s)
        \/ s' = [s EXCEPT !.auto = ~@]
Spec == Init /\ [][Next]_s

Walks == LET t == Tree(s.keys, s.built)
         IN \A f, g \in Keys : Le(s.keys, f, g) => AnswerOf(s, f, g, Walk(s.keys, t, f, g))
Ends == s.built # <<>> => LET t == Tree(s.keys, s.built) IN t.mid # <<>> /\ High(s.keys, t) = Greatest(s)
Synced == s.sync => s.built = s.items
=============================================================================
