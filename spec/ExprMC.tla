-------------------------------- MODULE ExprMC -------------------------------
(* All expressions of at most MaxOps operators over a few operands: laws of their values, and the
   expressions themselves, for replay. *)
EXTENDS Expr, Json
CONSTANTS MaxOps
VARIABLE e
Operands == {[k |-> "num", n |-> 2, d |-> 1, s |-> ""], [k |-> "num", n |-> -1, d |-> 2, s |-> ""],
             [k |-> "str", n |-> 0, d |-> 1, s |-> "10"], [k |-> "tag", n |-> 0, d |-> 1, s |-> "a"],
             [k |-> "tag", n |-> 0, d |-> 1, s |-> "none"]}
tags == <<<<"a", "2.5">>>>
Init == \E o \in Operands : e = [first |-> o, rest |-> <<>>]
Next == Len(e.rest) < MaxOps /\ \E o \in Operands, op \in {"+", "-", "*", "/"} :
          e' = [e EXCEPT !.rest = Append(@, [op |-> op, o |-> o])]
Spec == Init /\ [][Next]_e
\* from left to right: the last operator is applied to all that precedes
LeftToRight == e.rest # <<>> =>
  LET n == Len(e.rest)
      before == EvalNum([e EXCEPT !.rest = SubSeq(@, 1, n - 1)], tags)
      o == e.rest[n]
  IN EvalNum(e, tags) = Apply(before, o.op, NumOf(o.o, tags))
Lowest == LET f == EvalNum(e, tags) IN f = Unknown \/ (f[2] > 0 /\ Reduce(f) = f)
Undone == LET f == EvalNum(e, tags) IN f # Unknown => Apply(Apply(f, "+", <<5, 2>>), "-", <<5, 2>>) = f
Emit == PrintT("@@" \o ToJson(e))
=============================================================================
