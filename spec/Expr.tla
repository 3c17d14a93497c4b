-------------------------------- MODULE Expr --------------------------------
(* Declared values: plain text, numbers, metres, percents and expressions
       eval("operand op operand op ...")
   which are computed from left to right, whatever the operators. Numbers are fractions <<n, d>>, d > 0.  *)
EXTENDS Integers, Sequences, TLC

\* What texts mean as numbers; all others mean 0.
NumberOf ==
  ("0" :> <<0, 1>>) @@ ("1" :> <<1, 1>>) @@ ("2" :> <<2, 1>>) @@ ("3" :> <<3, 1>>) @@ ("10" :> <<10, 1>>) @@ ("16" :> <<16, 1>>)
  @@ ("-3" :> <<-3, 1>>) @@ ("-1" :> <<-1, 1>>) @@ ("2.5" :> <<5, 2>>) @@ ("0.5" :> <<1, 2>>) @@ ("-0.5" :> <<-1, 2>>)
  @@ ("1e1" :> <<10, 1>>) @@ ("+4" :> <<4, 1>>) @@ (".25" :> <<1, 4>>) @@ ("1000" :> <<1000, 1>>)
Value(s) == IF s \in DOMAIN NumberOf THEN NumberOf[s] ELSE <<0, 1>>

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduce(f) == LET g == Gcd(Abs(f[1]), f[2]) IN IF g = 0 THEN f ELSE <<f[1] \div g, f[2] \div g>>
Add(a, b) == Reduce(<<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>)
Neg(a) == <<-a[1], a[2]>>
Mul(a, b) == Reduce(<<a[1] * b[1], a[2] * b[2]>>)
Div(a, b) == IF b[1] > 0 THEN Reduce(<<a[1] * b[2], a[2] * b[1]>>) ELSE Reduce(<<-a[1] * b[2], a[2] * (-b[1])>>)
IsPowerOfTwo(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384}

\* Results which doubles do not hold exactly are not followed further.
Unknown == <<0, 0>>
Keep(f) == IF IsPowerOfTwo(f[2]) THEN f ELSE Unknown

Tag(tags, k) == IF \E i \in DOMAIN tags : tags[i][1] = k
                THEN tags[CHOOSE i \in DOMAIN tags : tags[i][1] = k][2] ELSE ""
NumOf(o, tags) == CASE o.k = "num" -> <<o.n, o.d>>
                    [] o.k = "str" -> Value(o.s)
                    [] o.k = "tag" -> Value(Tag(tags, o.s))
\* What TLC cannot compute with is not followed further either.
Small(f) == Abs(f[1]) <= 20000 /\ f[2] <= 16384
Apply(a, op, b) == IF a = Unknown \/ b = Unknown \/ ~Small(a) \/ ~Small(b) THEN Unknown
                   ELSE CASE op = "+" -> Add(a, b)
                          [] op = "-" -> Add(a, Neg(b))
                          [] op = "*" -> Mul(a, b)
                          [] op = "/" -> IF b[1] = 0 THEN Unknown ELSE Keep(Div(a, b))
RECURSIVE Fold(_, _, _, _)
Fold(acc, rest, i, tags) == IF i > Len(rest) THEN acc
                            ELSE Fold(Apply(acc, rest[i].op, NumOf(rest[i].o, tags)), rest, i + 1, tags)
EvalNum(e, tags) == Fold(NumOf(e.first, tags), e.rest, 1, tags)

\* The shortest text of a number
Frac(r, d) == CASE d = 2 -> ".5" [] d = 4 -> (IF r = 1 THEN ".25" ELSE ".75")
NumText(f0) == LET f == Reduce(f0)
                   a == Abs(f[1])
                   t == IF f[2] = 1 THEN ToString(a) ELSE ToString(a \div f[2]) \o Frac(a % f[2], f[2])
               IN IF f[1] < 0 THEN "-" \o t ELSE t
TextOf(o, tags) == CASE o.k = "num" -> NumText(<<o.n, o.d>>)
                     [] o.k = "str" -> o.s
                     [] o.k = "tag" -> Tag(tags, o.s)
RECURSIVE Join(_, _, _, _)
Join(acc, rest, i, tags) == IF i > Len(rest) THEN acc ELSE Join(acc \o TextOf(rest[i].o, tags), rest, i + 1, tags)
EvalText(e, tags) == IF \A i \in DOMAIN e.rest : e.rest[i].op = "+"
                     THEN Join(TextOf(e.first, tags), e.rest, 1, tags) ELSE "refused"

\* d: the declaration with the key asked for, or [k |-> "none"]
AsText(d, tags) == CASE d.k = "none" -> "" [] d.k = "eval" -> EvalText(d, tags) [] OTHER -> d.text
\* size: what percents refer to
AsNumber(d, tags, size) ==
  CASE d.k = "none" -> <<0, 1>>
    [] d.k = "eval" -> EvalNum(d, tags)
    [] d.k = "m" -> <<d.n, d.d>>
    [] d.k = "pc" -> Mul(size, <<d.n, d.d * 100>>)
    [] d.k = "text" -> Value(d.text)

SameNumber(f, r) == f = Unknown \/ (Reduce(f) = <<0, 0>>) \/ (LET g == Reduce(f) IN r = <<g[1], g[2]>>)
=============================================================================
