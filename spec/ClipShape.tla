----------------------------- MODULE ClipShape ------------------------------
(* Clipping of elements of any shape. A coordinate here is an integer number *)
(* of 64ths of a grid unit; the geometry which the code made is rounded to   *)
(* it. What lies nearer than M to an edge is left undecided (rounding, and   *)
(* the grid is not quite linear in degrees); everything else is exact.       *)
EXTENDS Clip, TLC

F == 64
M == 6
Fx(p) == <<F * p[1], F * p[2]>>
FxBox(b) == <<F * b[1], F * b[2], F * b[3], F * b[4]>>
Abs(x) == IF x < 0 THEN -x ELSE x

InBox(b, p, m) == b[1] - m <= p[1] /\ p[1] <= b[3] + m /\ b[2] - m <= p[2] /\ p[2] <= b[4] + m

Edges(s, closed) == IF closed THEN {<<s[i], NextPt(s, i)>> : i \in 1..Len(s)}
                    ELSE {<<s[i], s[i + 1]>> : i \in 1..(Len(s) - 1)}

\* p lies in the polygon s (even-odd)
Crosses(e, p) ==
  LET a == e[1] b == e[2] IN
  /\ (a[2] > p[2]) # (b[2] > p[2])
  /\ LET c == (b[1] - a[1]) * (p[2] - a[2]) - (p[1] - a[1]) * (b[2] - a[2])
     IN IF b[2] > a[2] THEN c > 0 ELSE c < 0
InPoly(s, p) == Cardinality({i \in 1..Len(s) : Crosses(<<s[i], NextPt(s, i)>>, p)}) % 2 = 1

\* p is at most about m away from the segment
NearSeg(e, p, m) ==
  LET a == e[1] b == e[2] dx == b[1] - a[1] dy == b[2] - a[2] IN
  /\ InBox(<<Min(a[1], b[1]), Min(a[2], b[2]), Max(a[1], b[1]), Max(a[2], b[2])>>, p, m)
  /\ Abs(dx * (p[2] - a[2]) - dy * (p[1] - a[1])) <= m * (Abs(dx) + Abs(dy))
     \/ Abs(p[1] - a[1]) + Abs(p[2] - a[2]) <= m
NearAny(es, p, m) == \E e \in es : NearSeg(e, p, m)

\* the simple elements an element consists of
RECURSIVE Parts(_)
RECURSIVE PartsOfAll(_)
PartsOfAll(ms) == IF ms = <<>> THEN <<>> ELSE Parts(ms[1]) \o PartsOfAll(Tail(ms))
Parts(e) == IF e.t = "R" THEN PartsOfAll(e.m) ELSE <<e>>
Of(ps, t) == LET x == SelectSeq(ps, LAMBDA p : p.t = t) IN TLCEval([i \in 1..Len(x) |-> x[i].g])
Scaled(gs) == TLCEval([i \in 1..Len(gs) |-> [j \in 1..Len(gs[i]) |-> Fx(gs[i][j])]])

Between(e, n, d) == <<(e[1][1] * (d - n) + e[2][1] * n) \div d, (e[1][2] * (d - n) + e[2][2] * n) \div d>>
Samples(s) == UNION {{Between(e, n, 8) : n \in 0..8} : e \in Edges(s, FALSE)}
AllEdges(gs, closed) == TLCEval(UNION {Edges(gs[i], closed) : i \in 1..Len(gs)})
Vertices(gs) == UNION {{gs[i][j] : j \in 1..Len(gs[i])} : i \in 1..Len(gs)}
Covering(gs, p) == Cardinality({i \in 1..Len(gs) : InPoly(gs[i], p)})

Probes(b) == {<<F * i + 32, F * j + 32>> : i \in (b[1] \div F)..((b[3] \div F) - 1), j \in (b[2] \div F)..((b[4] \div F) - 1)}

\* r, in 64ths, is what lies of e in the box b (in 64ths)
ShapeOf(e, r, b) ==
  LET ep == Parts(e) rp == Parts(r)
      areas == Scaled(Of(ep, "A")) ways == Scaled(Of(ep, "W")) nodes == Scaled(Of(ep, "N"))
      ra == Of(rp, "A") rw == Of(rp, "W") rn == Of(rp, "N")
      ae == AllEdges(areas, TRUE) we == AllEdges(ways, FALSE) rwe == AllEdges(rw, FALSE)
      hull == BoxOf([t |-> "A", g |-> <<Fx(<<BoxOf(e)[1], BoxOf(e)[2]>>), Fx(<<BoxOf(e)[3], BoxOf(e)[4]>>)>>])
  IN \* everything that was kept lies in the box and on the element
     /\ \A p \in Vertices(ra) \cup Vertices(rw) \cup Vertices(rn) : InBox(b, p, M)
     /\ \A p \in Vertices(ra) : NearAny(ae, p, M) \/ \E i \in 1..Len(areas) : InPoly(areas[i], p)
     /\ \A p \in Vertices(rw) \cup {Between(x, 1, 2) : x \in rwe} : NearAny(we, p, M)
     \* everything that lies in the box was kept, as often as it is there
     /\ \A p \in Probes(b) : InBox(hull, p, 0) => (~ NearAny(ae, p, M) => Covering(areas, p) = Covering(ra, p))
     /\ \A i \in 1..Len(ways) : \A p \in Samples(ways[i]) : InBox(b, p, -2 * M) => NearAny(rwe, p, M)
     /\ \A x \in 1..Len(nodes) : InBox(b, nodes[x][1], 0) => \E y \in 1..Len(rn) : NearSeg(<<rn[y][1], rn[y][1]>>, nodes[x][1], M)
     /\ Len(rn) = Cardinality({x \in 1..Len(nodes) : InBox(b, nodes[x][1], 0)})

\* something of e lies in the box for certain
Present(e, b) ==
  \E i \in 1..Len(Parts(e)) : LET q == Parts(e)[i] g == Scaled(<<q.g>>)[1] IN
    CASE q.t = "N" -> InBox(b, g[1], 0)
      [] q.t = "W" -> \E p \in Samples(g) : InBox(b, p, -2 * M)
      [] q.t = "A" -> \E p \in Probes(b) : InPoly(g, p) /\ ~ NearAny(Edges(g, TRUE), p, M)

IsShapeOf(e, r, b) == r.id = e.id /\ SameTags(e, r) /\ ShapeOf(e, r, b)
=============================================================================
