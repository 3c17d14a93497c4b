------------------------------ MODULE ExprTrace ------------------------------
EXTENDS Expr, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, decl    \* decl: key -> what is declared for it
Init == l = 1 /\ decl = <<>>
Of(k) == IF k \in DOMAIN decl THEN decl[k] ELSE [k |-> "none"]
IsFraction(r) == r \notin {"nan", "inf", "-inf", "refused", "inexact"}
Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "ss.new" -> decl' = <<>>
       [] e.ev = "ss.load" -> e.ok /\ decl' = [k \in {e.decls[i][1] : i \in DOMAIN e.decls} |->
                                                e.decls[CHOOSE i \in DOMAIN e.decls : e.decls[i][1] = k][2]]
       [] e.ev = "ss.value" ->
            /\ UNCHANGED decl
            /\ CASE e.as = "text" -> e.res = AsText(Of(e.k), e.el.tags)
                 [] e.as = "num" -> SameNumber(AsNumber(Of(e.k), e.el.tags, <<1, 1>>), e.res)
                 [] e.as = "rel" -> SameNumber(AsNumber(Of(e.k), e.el.tags, e.size), e.res)
                 [] e.as = "box" -> SameNumber(AsNumber(Of(e.k), e.el.tags, e.size), e.res)
                 [] e.as = "metres" -> SameNumber(Mul(<<Of(e.k).n, Of(e.k).d>>, <<1000, 1>>), e.res)
Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, decl>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
