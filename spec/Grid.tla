-------------------------------- MODULE Grid --------------------------------
(* Integer geometry on the tile pyramid. Level L has 2^L x 2^L tiles, x to   *)
(* the east, y to the south. A grid [lod, x, y, k] puts k units on the side  *)
(* of one tile of level lod, with the origin at the corner of tile (x, y).   *)
(* Points are <<u, v>>, boxes are <<umin, vmin, umax, vmax>>. The points in  *)
(* use never lie on a tile edge of the levels in use (they are odd, the      *)
(* edges even), so that rounding in the code cannot matter.                  *)
EXTENDS Integers, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* the tile coordinate, at level l, of unit u (o: the coordinate of the grid's own tile)
TileOf(g, o, u, l) ==
  IF l <= g.lod THEN (o * g.k + u) \div (g.k * 2^(g.lod - l))
  ELSE ((o * g.k + u) * 2^(l - g.lod)) \div g.k

\* tiles of level l that a box meets, <<l, x, y>>
TilesOf(g, b, l) ==
  {<<l, x, y>> : x \in TileOf(g, g.x, b[1], l)..TileOf(g, g.x, b[3], l),
                 y \in TileOf(g, g.y, b[2], l)..TileOf(g, g.y, b[4], l)}

Meets(a, b) == /\ Max(a[1], b[1]) <= Min(a[3], b[3])
               /\ Max(a[2], b[2]) <= Min(a[4], b[4])

Hull(a, b) == <<Min(a[1], b[1]), Min(a[2], b[2]), Max(a[3], b[3]), Max(a[4], b[4])>>

RECURSIVE BoxOfPoints(_)
BoxOfPoints(s) ==
  LET p == s[1] b == <<p[1], p[2], p[1], p[2]>>
  IN IF Len(s) = 1 THEN b ELSE Hull(b, BoxOfPoints(Tail(s)))

\* elements: [t |-> "N" "W" "A" "R", id, tags, g |-> points, m |-> members (relations)]
RECURSIVE BoxOf(_)
RECURSIVE BoxOfAll(_)
BoxOfAll(ms) == IF Len(ms) = 1 THEN BoxOf(ms[1]) ELSE Hull(BoxOf(ms[1]), BoxOfAll(Tail(ms)))
BoxOf(e) == IF e.t = "R" THEN BoxOfAll(e.m) ELSE BoxOfPoints(e.g)
=============================================================================
