------------------------------ MODULE Building ------------------------------
(* What buildings are made of. A building is one mesh, of one or more parts; a part is a shape (rings of points of the grid,
   outer ones counter-clockwise and holes clockwise seen with north up) with a look: height, min-height, roof, facade.
   Heights are millimetres. Its mesh is a shell over the shape: walls along all rings, a roof over all of it and nothing
   beyond it, and a floor below it if it does not stand on the ground. *)
EXTENDS Terrain, TLC

\* --- which meshes there are
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
RECURSIVE Leaves(_), PartsOf(_)
Leaves(e) == IF e.t = "R" THEN Flat([i \in DOMAIN e.m |-> Leaves(e.m[i])]) ELSE <<e.g>>
PartsOf(e) ==
  CASE e.t = "A" -> IF e.look = "" THEN <<>> ELSE <<[rings |-> <<e.g>>, look |-> e.look]>>
    [] e.t = "R" -> IF e.multi /\ e.look # "" THEN <<[rings |-> Leaves(e), look |-> e.look]>> ELSE Flat([i \in DOMAIN e.m |-> PartsOf(e.m[i])])
    [] OTHER -> <<>>
\* elements which belong to a relation of a building are built with it, not on their own
Buildings(es) == Flat([i \in DOMAIN es |->
  LET e == es[i] parts == PartsOf(e) IN
  IF e.ignored \/ parts = <<>> THEN <<>> ELSE <<[name |-> "building:" \o ToString(e.id), parts |-> parts]>>])

\* --- shapes
North(ring) == -Area2(ring, 1)       \* twice the area, positive for outer rings: the second coordinate grows to the south
RECURSIVE Size2(_, _)
Size2(rings, i) == IF i > Len(rings) THEN 0 ELSE North(rings[i]) + Size2(rings, i + 1)
Outers(p) == SelectSeq(p.rings, LAMBDA r : North(r) > 0)
Simple(p) == Len(p.rings) = 1
Turn(r, i) == -CrossP(r[i], Nxt(r, i), Nxt(r, (i % Len(r)) + 1))    \* positive: to the left
Convex(p) == Simple(p) /\ \A i \in DOMAIN p.rings[1] : Turn(p.rings[1], i) > 0
Len10(a, b) == Sqrt(100 * Dist2(a, b))
\* no corner is sharp or nearly straight
Round0(p) == Convex(p) /\ LET r == p.rings[1] IN
  \A i \in DOMAIN r : 200 * Turn(r, i) >= Len10(r[i], Nxt(r, i)) * Len10(Nxt(r, i), Nxt(r, (i % Len(r)) + 1))
Box(r) == LET xs == {r[i][1] : i \in DOMAIN r} ys == {r[i][2] : i \in DOMAIN r} IN
  <<CHOOSE x \in xs : \A y \in xs : x <= y, CHOOSE x \in xs : \A y \in xs : x >= y, CHOOSE x \in ys : \A y \in ys : x <= y, CHOOSE x \in ys : \A y \in ys : x >= y>>
Rectangle(p) == Simple(p) /\ Len(p.rings[1]) = 4 /\ LET b == Box(p.rings[1]) IN North(p.rings[1]) = 2 * (b[2] - b[1]) * (b[4] - b[3])

\* --- heights
Ground(p, ele) == LET q == p.rings[1][1] IN ele[3] + ele[1] * q[1] + ele[2] * q[2]
Base(p, l, ele) == Ground(p, ele) + l.min
Height(l) == (IF l.height = 0 THEN 10000 ELSE l.height) - l.min
Top(p, l, ele) == Base(p, l, ele) + Height(l)
Floor(l) == l.min > 0

\* --- roofs: the kind of roof a part really gets; those which need a simple shape are flat on any other one
Roof(p, l) == CASE l.roof = "pyramidal" -> IF Len(p.rings) > Len(Outers(p)) THEN "flat" ELSE "pyramidal"
                [] l.roof = "mansard" -> IF Round0(p) THEN "mansard" ELSE IF Simple(p) THEN "any" ELSE "flat"
                [] l.roof = "skillion" -> IF Simple(p) THEN (IF Convex(p) THEN "skillion" ELSE "any") ELSE "flat"
                [] l.roof = "round" -> IF \A i \in DOMAIN p.rings : North(p.rings[i]) > 0 /\ Len(p.rings[i]) = 4
                                       THEN (IF Rectangle(p) THEN "round" ELSE "any") ELSE "flat"
                [] OTHER -> l.roof
Scaled(r, n) == [i \in DOMAIN r |-> <<n * r[i][1], n * r[i][2]>>]
RECURSIVE SumP(_, _)
SumP(r, i) == IF i > Len(r) THEN <<0, 0>> ELSE LET s == SumP(r, i + 1) IN <<r[i][1] + s[1], r[i][2] + s[2]>>
\* the apex of a pyramid is over the mean of the corners
RingOver(p, q) == CHOOSE i \in DOMAIN p.rings : RingsSay(<<p.rings[i]>>, q) = "yes"
PyramidHeights(p, l, q) ==
  LET r0 == p.rings[RingOver(p, q)] n == Len(r0) r == Scaled(r0, n) c == SumP(r0, 1) x == <<n * q[1], n * q[2]>>
      Inside(a, b) == CrossP(a, b, x) <= 0 /\ CrossP(b, c, x) <= 0 /\ CrossP(c, a, x) <= 0
  IN IF \E i \in DOMAIN r : CrossP(r[i], Nxt(r, i), c) >= 0 THEN {}     \* not all of the shape is seen from there
     ELSE {10 * (((l.rise \div 10) * CrossP(r[i], Nxt(r, i), x)) \div CrossP(r[i], Nxt(r, i), c)) : i \in {j \in DOMAIN r : Inside(r[j], Nxt(r, j))}}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
\* distance to the closest side, in thousandths of a tenth of the shortest side
MansardRatio(p, q) ==
  LET r == p.rings[1] short == Min({Len10(r[i], Nxt(r, i)) : i \in DOMAIN r})
  IN Min({(((Abs(CrossP(r[i], Nxt(r, i), q)) * 100000) \div Len10(r[i], Nxt(r, i))) * 10) \div short : i \in DOMAIN r})
\* bounds of the height over the foot of the roof at q
Bounds(p, l, q) ==
  LET kind == Roof(p, l) any == <<0, l.rise>> IN
  CASE kind = "flat" -> <<0, 0>>
    [] kind = "pyramidal" -> LET hs == PyramidHeights(p, l, q) IN IF hs = {} THEN any ELSE <<Min(hs) - 12, Max(hs) + 12>>
    [] kind = "mansard" -> LET t == MansardRatio(p, q) IN
         IF t >= 1040 THEN <<l.rise, l.rise>>
         ELSE <<(l.rise * (t - 60)) \div 1000, Mn(l.rise, (l.rise * (t + 60)) \div 1000)>>
    [] kind = "skillion" ->
         IF ~Rectangle(p) \/ l.dir \notin {"N", "E", "S", "W"} THEN any
         ELSE LET b == Box(p.rings[1])   \* it rises away from where it looks
                  d == CASE l.dir = "W" -> <<q[1] - b[1], b[2] - b[1]>> [] l.dir = "E" -> <<b[2] - q[1], b[2] - b[1]>>
                         [] l.dir = "N" -> <<q[2] - b[3], b[4] - b[3]>> [] l.dir = "S" -> <<b[4] - q[2], b[4] - b[3]>>
                  h == (l.rise * d[1]) \div d[2]
              IN <<h - 3, h + 3>>
    [] kind = "round" ->
         LET b == Box(p.rings[1]) w == b[2] - b[1] h == b[4] - b[3]
             alongX == (w > h) = (l.dir # "across")
             s == IF alongX THEN (1000 * (2 * q[2] - b[3] - b[4])) \div h ELSE (1000 * (2 * q[1] - b[1] - b[2])) \div w
             arc == ((l.rise \div 10) * Sqrt(1000000 - s * s)) \div 100
         IN IF w = h THEN any      \* the longer sides of a square are a matter of rounding
            ELSE <<arc - (l.rise * 14) \div 100, arc + l.rise \div 100 + 12>>
    [] OTHER -> any
\* the highest point, over the foot of the roof
Ridge(p, l) ==
  LET kind == Roof(p, l) IN
  CASE kind \in {"flat", "none"} -> <<0, 0>>
    [] kind \in {"pyramidal", "mansard", "skillion"} -> <<l.rise, l.rise>>
    [] kind = "round" -> <<(l.rise * 97) \div 100, (l.rise * 98) \div 100>>
    [] OTHER -> <<0, l.rise>>
\* how much of the box of the shape and the rise the roof fills, in thousandths
Filled(p, l) ==
  LET kind == Roof(p, l) IN
  CASE kind \in {"flat", "none"} -> <<0, 0>>
    [] kind = "pyramidal" -> <<333, 334>>
    [] kind = "mansard" -> <<500, 1000>>
    [] kind = "skillion" -> IF Rectangle(p) /\ l.dir \in {"N", "E", "S", "W"} THEN <<499, 501>> ELSE <<0, 1000>>
    [] kind = "round" -> <<758, 761>>
    [] OTHER -> <<0, 1000>>

\* --- the edges of the shell with nothing on their other side, as [u, v, h, u, v, h, how often]; walls turn their face outwards
Edge(a, b, h) == <<100 * a[1], 100 * a[2], h, 100 * b[1], 100 * b[2], h, 1>>
Edges(p, h) == UNION {{Edge(p.rings[k][i], Nxt(p.rings[k], i), h) : i \in DOMAIN p.rings[k]} : k \in DOMAIN p.rings}
Back(p, h) == UNION {{Edge(Nxt(p.rings[k], i), p.rings[k][i], h) : i \in DOMAIN p.rings[k]} : k \in DOMAIN p.rings}
Rim(p, l, ele) ==
  LET base == Base(p, l, ele) top == Top(p, l, ele) IN
  IF l.facade = "flat"
  THEN (IF Floor(l) THEN {} ELSE Back(p, base)) \cup (IF l.roof = "none" THEN Edges(p, top) ELSE {})
  ELSE (IF Floor(l) THEN Edges(p, base) ELSE {})     \* the walls are a body of their own, on a floor
=============================================================================
