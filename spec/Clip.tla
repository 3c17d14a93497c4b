-------------------------------- MODULE Clip --------------------------------
(* What is left of an element in a tile when its style asks for clipping.    *)
(* Geometry here is rectilinear on the integer grid, so it is discrete: an   *)
(* area is the set of unit cells it covers, a way the set of unit segments   *)
(* it runs along, a node its point.                                          *)
EXTENDS Grid

\* the extent of a tile in grid units (exact as long as level - grid level is not too large)
TileRange(g, o, c, l) ==
  IF l <= g.lod THEN LET s == g.k * 2^(g.lod - l) IN <<c * s - o * g.k, (c + 1) * s - o * g.k>>
  ELSE LET s == g.k \div 2^(l - g.lod) IN <<c * s - o * g.k, (c + 1) * s - o * g.k>>
TileExtent(g, t) ==
  LET x == TileRange(g, g.x, t[2], t[1]) y == TileRange(g, g.y, t[3], t[1])
  IN <<x[1], y[1], x[2], y[2]>>

\* cells: <<i, j>> stands for the square (i..i+1) x (j..j+1)
CellIn(b, c) == b[1] <= c[1] /\ c[1] < b[3] /\ b[2] <= c[2] /\ c[2] < b[4]

NextPt(s, i) == s[IF i = Len(s) THEN 1 ELSE i + 1]
\* the closed path s has cell c inside: an odd number of its vertical edges lie to the left
Inside(s, c) ==
  Cardinality({i \in 1..Len(s) :
     LET p == s[i] n == NextPt(s, i)
     IN p[1] = n[1] /\ p[1] <= c[1] /\ Min(p[2], n[2]) <= c[2] /\ c[2] < Max(p[2], n[2])}) % 2 = 1
Cells(s, b) ==
  LET h == BoxOfPoints(s)
  IN {c \in (Max(h[1], b[1])..Min(h[3], b[3])) \X (Max(h[2], b[2])..Min(h[4], b[4])) : CellIn(b, c) /\ Inside(s, c)}

\* unit segments: <<0, i, j>> from (i,j) to (i+1,j), <<1, i, j>> from (i,j) to (i,j+1)
LegSegments(p, n) ==
  IF p[1] = n[1] THEN {<<1, p[1], j>> : j \in Min(p[2], n[2])..(Max(p[2], n[2]) - 1)}
  ELSE {<<0, i, p[2]>> : i \in Min(p[1], n[1])..(Max(p[1], n[1]) - 1)}
Segments(s) == UNION {LegSegments(s[i], s[i + 1]) : i \in 1..(Len(s) - 1)}
SegmentIn(b, x) == /\ b[1] <= x[2] /\ b[2] <= x[3]
                   /\ x[2] + (1 - x[1]) <= b[3] /\ x[3] + x[1] <= b[4]
PointIn(b, p) == b[1] < p[1] /\ p[1] < b[3] /\ b[2] < p[2] /\ p[2] < b[4]

\* the parts of an element inside b, one entry for every node, way and area it is made of
Everything == <<-100000, -100000, 100000, 100000>>
Leaf(e, b) ==
  CASE e.t = "N" -> [nodes |-> {p \in {e.g[1]} : PointIn(b, p)}, segs |-> {}, cells |-> {}]
    [] e.t = "W" -> [nodes |-> {}, segs |-> {x \in Segments(e.g) : SegmentIn(b, x)}, cells |-> {}]
    [] e.t = "A" -> [nodes |-> {}, segs |-> {}, cells |-> Cells(e.g, b)]
Nothing == [nodes |-> {}, segs |-> {}, cells |-> {}]

RECURSIVE Leaves(_, _)
RECURSIVE LeavesOfAll(_, _)
LeavesOfAll(ms, b) == IF ms = <<>> THEN <<>> ELSE Leaves(ms[1], b) \o LeavesOfAll(Tail(ms), b)
\* a sequence: the non-empty leaves, in order
Leaves(e, b) ==
  IF e.t = "R" THEN LeavesOfAll(e.m, b)
  ELSE LET x == Leaf(e, b) IN IF x = Nothing THEN <<>> ELSE <<x>>

Visible(e, b) == Leaves(e, b) # <<>>

-----------------------------------------------------------------------------
(* A result r of clipping e to b: the same id and tags, and exactly the      *)
(* geometry that lies in b. A way or an area may come in several pieces: as  *)
(* a relation without tags of its own whose members carry them.              *)
RECURSIVE Flat(_)
RECURSIVE FlatAll(_)
FlatAll(ms) == IF ms = <<>> THEN <<>> ELSE Flat(ms[1]) \o FlatAll(Tail(ms))
Flat(r) == IF r.t = "R" THEN FlatAll(r.m) ELSE <<r>>

CountIn(ls, k, x) == Cardinality({i \in 1..Len(ls) : x \in ls[i][k]})
\* every node, segment and cell as many times in the pieces as in the original's members
SameGeometry(e, r, b) ==
  LET want == Leaves(e, b)
      fl == Flat(r)
      got == [i \in 1..Len(fl) |-> Leaf(fl[i], Everything)]
      All(ls, k) == UNION {ls[i][k] : i \in 1..Len(ls)}
  IN \A k \in {"nodes", "segs", "cells"} :
       /\ All(got, k) = All(want, k)
       /\ \A x \in All(want, k) : CountIn(got, k, x) = CountIn(want, k, x)

SameTags(e, r) ==
  IF e.t # "R" /\ r.t = "R" THEN r.tags = <<>> /\ \A i \in 1..Len(r.m) : r.m[i].tags = e.tags /\ r.m[i].t = e.t
  ELSE r.tags = e.tags /\ (e.t # "R" => r.t = e.t)

IsClipOf(e, r, b) == r.id = e.id /\ SameTags(e, r) /\ SameGeometry(e, r, b)
=============================================================================
