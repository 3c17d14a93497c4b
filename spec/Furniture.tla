----------------------------- MODULE Furniture ------------------------------
(* What stands along ways and at nodes: walls, pillars, trees, lamps, and the trees of forests.
   Points of geometry are points of the grid; what is made of them is told in hundredths of its units and millimetres. *)
EXTENDS Building, LSystem

MM100 == 11943                              \* thousandths of a millimetre in a hundredth of a unit
ToUnits(mm) == (mm * 1000 + 5971) \div MM100
Round(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)
Hundred(q) == <<100 * q[1], 100 * q[2]>>
Len100(a, b) == IF Dist2(a, b) > 200000 THEN 10 * Sqrt0(100 * Dist2(a, b), 0, 20000) ELSE Sqrt0(10000 * Dist2(a, b), 0, 46000)
Millimetres(a, b) == (Len100(a, b) * MM100) \div 1000
GroundAt(x, ele) == ele[3] + Round(ele[1] * x[1] + ele[2] * x[2], 100)     \* at a point in hundredths
\* the point at j / n of the way from a to b
At(a, b, j, n) == <<100 * a[1] + Round(100 * j * (b[1] - a[1]), n), 100 * a[2] + Round(100 * j * (b[2] - a[2]), n)>>
Count(a, b, step) == Millimetres(a, b) \div step

\* --- elements and what is made of them, in order: [name, stretches, look, point]
Stretches(g) == [i \in 1..(Len(g) - 1) |-> <<g[i], g[i + 1]>>]
Around(g) == [i \in 1..Len(g) |-> <<g[i], Nxt(g, i)>>]
\* points given twice in a row make no stretch
Proper(ss) == SelectSeq(ss, LAMBDA s : s[1] # s[2])
Thing(prefix, e, look) ==
  [name |-> prefix \o ToString(e.id), look |-> look, points |-> e.g, kind |-> e.t,
   stretches |-> Proper(CASE e.t = "A" -> Around(e.g) [] e.t = "W" -> Stretches(e.g) [] OTHER -> <<>>)]
RECURSIVE Things(_, _, _)
Things(builder, e, look) ==
  IF e.t = "R" THEN Flat([i \in DOMAIN e.m |-> Things(builder, e.m[i], IF builder = "barrier" /\ look = "" THEN e.look ELSE look)])
  ELSE LET mine == IF look = "" THEN e.look ELSE look IN
       CASE builder = "barrier" -> <<Thing("barrier:", e, mine)>>
         [] builder = "tree" -> IF e.t = "A" THEN <<>> ELSE <<Thing(IF e.t = "N" THEN "tree:" ELSE "trees:", e, mine)>>
         [] builder = "lamp" -> IF e.t = "A" THEN <<>> ELSE <<Thing(IF e.t = "N" THEN "lamp:" ELSE "lamps:", e, mine)>>
AllThings(builder, es) == Flat([i \in DOMAIN es |-> Things(builder, es[i], "")])

\* --- walls: boxes without a bottom, [from, to, corners]
Sections(s, k) == Mx(Count(s[1], s[2], k.length + k.gap), 1)
\* aside of a stretch by so many hundredths: to its left if positive
Aside(s, x, w) == LET l == Len100(s[1], s[2]) IN
  <<x[1] + Round(100 * w * (s[2][2] - s[1][2]), l), x[2] - Round(100 * w * (s[2][1] - s[1][1]), l)>>
Box4(s, k, j) ==
  LET n == Sections(s, k) from == At(s[1], s[2], j - 1, n) end == At(s[1], s[2], j, n)
      part == (10000 * k.length) \div (k.length + k.gap)
      to == <<from[1] + Round((end[1] - from[1]) * part, 10000), from[2] + Round((end[2] - from[2]) * part, 10000)>>
      w == ToUnits(k.width)
  IN [length |-> (Len100(s[1], s[2]) * part) \div (10000 * n), mid |-> <<(from[1] + to[1]) \div 2, (from[2] + to[2]) \div 2>>, foot |-> {Aside(s, from, w), Aside(s, from, -w), Aside(s, to, w), Aside(s, to, -w)}]
Boxes(t, k) == Flat([i \in DOMAIN t.stretches |-> [j \in 1..Sections(t.stretches[i], k) |-> Box4(t.stretches[i], k, j)]])

\* --- places along: as many as whole steps fit in a stretch, evenly from its beginning
Along(s, step) == [j \in 1..Count(s[1], s[2], step) |-> At(s[1], s[2], j - 1, Count(s[1], s[2], step))]
\* at both sides in turn, but not at the ends
Besides(s, step, w) == LET n == Count(s[1], s[2], step) IN
  [j \in 1..Mx(n - 2, 0) |-> Aside(s, At(s[1], s[2], j, n), IF j % 2 = 0 THEN w ELSE -w)]
Places(t, k) ==
  IF t.kind = "N" THEN <<Hundred(t.points[1])>>
  ELSE Flat([i \in DOMAIN t.stretches |-> IF k.builder = "lamp" /\ k.width > 0 THEN Besides(t.stretches[i], k.step, ToUnits(k.width)) ELSE Along(t.stretches[i], k.step)])

\* --- what an L-system grows to: [kind, p, d, r, l, w, look] in millimetres east, up, north of where it stands
Word(c) == CASE c \in {"cylinder", "F"} -> "cylinder" [] c = "cone" -> "cone" [] c = "sphere" -> "sphere" [] OTHER -> ""
RECURSIVE Grow(_, _, _, _, _, _)
Grow(path, i, st, stack, k, out) ==
  IF i > Len(path) THEN out
  ELSE LET c == path[i] what == Word(c)
           n == IF what # "" THEN Go(st, "G", k.angle, k.scale, stack) ELSE Go(st, c, k.angle, k.scale, stack)
           index == (IF what = "sphere" THEN st.x + 1 ELSE st.x) % Len(k.looks)
       IN Grow(path, i + 1, n, GoStack(st, c, stack), k,
               IF what = "" THEN out ELSE Append(out, [kind |-> what, p |-> st.p, d |-> st.d, r |-> st.r, l |-> st.l, w |-> st.w, look |-> k.looks[index + 1]]))
Model(k) == Grow(k.path, 1, Start(k.size, k.size), <<>>, k, <<>>)

\* where a point [u, v, h, ..] is from that of a primitive standing at x on the ground g, in millimetres
Rel(pt, x, g, b) == <<((pt[1] - x[1]) * MM100) \div 1000 - b.p[1], pt[3] - g - b.p[2], -(((pt[2] - x[2]) * MM100) \div 1000) - b.p[3]>>
\* what is far away is not told how far
Near(v, m) == \A i \in 1..3 : Abs(v[i]) <= m
Slack(b) == 30 + (b.l + b.w) \div 60
OnPrimitive(pt, x, g, b) ==
  LET v == Rel(pt, x, g, b) s == Slack(b) IN
  /\ Near(v, 2 * (b.l + b.w) + 100)
  /\ IF b.kind = "sphere"
     THEN LET X == (1000 * v[1]) \div b.w Y == (1000 * v[2]) \div b.l Z == (1000 * v[3]) \div b.w
          IN Abs(X) <= 1100 /\ Abs(Y) <= 1100 /\ Abs(Z) <= 1100 /\ Abs(X * X + Y * Y + Z * Z - 1000000) <= 40000 + (50000000 \div Mn(b.w, b.l))
     ELSE LET along == v[1] * b.d[1] + v[2] * b.d[2] + v[3] * b.d[3]
              cm == [i \in 1..3 |-> Round(v[i] - along * b.d[i], 10)] w == b.w \div 10 m == s \div 10
              rad2 == cm[1] * cm[1] + cm[2] * cm[2] + cm[3] * cm[3]
              Mid == rad2 <= m * m
              Rim0 == (w - m) * (w - m) <= rad2 /\ rad2 <= (w + m) * (w + m)
          IN \/ Abs(along) <= s /\ (Mid \/ Rim0)
             \/ Abs(along - b.l) <= s /\ (Mid \/ (b.kind = "cylinder" /\ Rim0))
\* the points a primitive has in any case
Marks(b) == IF b.kind = "sphere" THEN {}
            ELSE {b.p, [i \in 1..3 |-> b.p[i] + b.l * b.d[i]], [i \in 1..3 |-> b.p[i] + b.w * b.r[i]]}
AtMark(pt, x, g, b, m) == LET v == Rel(pt, x, g, [b EXCEPT !.p = m]) IN Near(v, Slack(b))
\* thousandths of units * units * metres
Volume(b) ==
  LET w == b.w \div 10 l == b.l \div 10      \* hundredths of a metre
      wwl == ((w * w) \div 100) * l          \* 1e-4
  IN CASE b.kind = "cylinder" -> (((wwl \div 10) * 274) \div 143) 
       [] b.kind = "cone" -> (((wwl \div 10) * 274) \div 143) \div 3
       [] b.kind = "sphere" -> (((wwl \div 10) * 366) \div 143)
=============================================================================
