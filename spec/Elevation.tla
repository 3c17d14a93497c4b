------------------------------- MODULE Elevation ----------------------------
(* Elevation: samples on a grid, interpolated between the four around a point. A point is in cell (cx, cy) of the grid,
   counted from the south west, fx and fy eighths of the cell to the east and north. *)
EXTENDS Integers, Sequences

\* eight by eight times the height at a point; H(x, y) is the sample in column x from the west, row y from the south
Height64(H(_, _), at) ==
  LET cx == at[1] cy == at[2] fx == at[3] fy == at[4] IN
  (8 - fx) * (8 - fy) * H(cx, cy)
  + (IF fx = 0 THEN 0 ELSE fx * (8 - fy) * H(cx + 1, cy))
  + (IF fy = 0 THEN 0 ELSE (8 - fx) * fy * H(cx, cy + 1))
  + (IF fx = 0 \/ fy = 0 THEN 0 ELSE fx * fy * H(cx + 1, cy + 1))

\* samples of a tile: n by n numbers, row by row from the south, each from the west
OfGrid(g, x, y) == g.heights[1 + x + y * g.n]
\* samples of a cell of one degree, by the formula the file is written with
OfCell(c, x, y) == ((c.a * x + c.b * y) % c.m) - c.off

Abs(i) == IF i < 0 THEN -i ELSE i
\* largest difference of neighbouring samples around a point: how far a tiny shift of the point can move the height
Slack(H(_, _), n, at) ==
  LET lo(i) == IF i > 0 THEN i - 1 ELSE 0
      hi(i) == IF i + 2 < n THEN i + 2 ELSE n - 1
      hs == {H(x, y) : x \in lo(at[1])..hi(at[1]), y \in lo(at[2])..hi(at[2])}
  IN (CHOOSE h \in hs : \A k \in hs : k <= h) - (CHOOSE h \in hs : \A k \in hs : h <= k)

\* a height in thousandths, the shift of the point being at most one part in div of a cell
IsHeight(v, H(_, _), n, at, div) == Abs(v - (1000 * Height64(H, at)) \div 64) <= 2 + (1000 * 2 * Slack(H, n, at)) \div div

Refused == -1000000000
=============================================================================
