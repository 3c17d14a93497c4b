------------------------------- MODULE Terrain ------------------------------
(* The terrain of a tile: what the surface at a point is made of. The tile is a square of K by K units; regions are rings
   (areas, or relations of areas and holes) or ways with a radius around them. Regions of a named layer are one thing with
   the look of the layer; others have their own look. Layers are stacked by their order, and regions without a layer, at
   order 0, by their area: the smaller one over the larger one. What no region covers is background.
   "maybe": a point so close to the border of a region that rounding decides. *)
EXTENDS Integers, Sequences, FiniteSets

Abs(i) == IF i < 0 THEN -i ELSE i
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a < b THEN b ELSE a
RECURSIVE Sqrt0(_, _, _)
Sqrt0(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Sqrt0(n, m, hi) ELSE Sqrt0(n, lo, m - 1)
Sqrt(n) == Sqrt0(n, 0, 2000)

Nxt(s, i) == s[IF i = Len(s) THEN 1 ELSE i + 1]
CrossP(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Crosses(a, b, p) == (a[2] > p[2]) # (b[2] > p[2]) /\ (IF b[2] > a[2] THEN CrossP(a, b, p) < 0 ELSE CrossP(a, b, p) > 0)
\* at most about m away from the segment
Close(a, b, p, m) ==
  /\ Mn(a[1], b[1]) - m <= p[1] /\ p[1] <= Mx(a[1], b[1]) + m
  /\ Mn(a[2], b[2]) - m <= p[2] /\ p[2] <= Mx(a[2], b[2]) + m
  /\ Abs(CrossP(a, b, p)) <= m * (Abs(b[1] - a[1]) + Abs(b[2] - a[2]) + 1)

RingsSay(rings, p) ==
  IF \E k \in DOMAIN rings : \E i \in DOMAIN rings[k] : Close(rings[k][i], Nxt(rings[k], i), p, 1) THEN "maybe"
  ELSE IF Cardinality({<<k, i>> \in {<<k, i>> \in (DOMAIN rings) \X (1..40) : i <= Len(rings[k])} : Crosses(rings[k][i], Nxt(rings[k], i), p)}) % 2 = 1
       THEN "yes" ELSE "no"

Dist2(a, p) == (p[1] - a[1]) * (p[1] - a[1]) + (p[2] - a[2]) * (p[2] - a[2])
\* a way as wide as 2 r with round ends and corners, which are made of straight pieces and so lie up to 5 % inside
SegmentSays(a, b, r, p) ==
  LET d == <<b[1] - a[1], b[2] - a[2]>>
      len == Sqrt(d[1] * d[1] + d[2] * d[2])
      dot == d[1] * (p[1] - a[1]) + d[2] * (p[2] - a[2])
      c == Abs(CrossP(a, b, p))
      out == r + 1
      in == (r * 93) \div 100 - 1
  IN IF Dist2(a, p) <= in * in \/ Dist2(b, p) <= in * in THEN "yes"
     ELSE IF dot > 0 /\ dot < d[1] * d[1] + d[2] * d[2]
          THEN IF c <= (r - 1) * len THEN "yes" ELSE IF c > out * (len + 1) THEN "no" ELSE "maybe"
          ELSE IF Dist2(a, p) > out * out /\ Dist2(b, p) > out * out THEN "no" ELSE "maybe"
WaySays(g, r, p) ==
  LET says == {SegmentSays(g[i], g[i + 1], r, p) : i \in 1..(Len(g) - 1)}
  IN IF "yes" \in says THEN "yes" ELSE IF "maybe" \in says THEN "maybe" ELSE "no"

Says(r, p) == IF r.kind = "way" THEN WaySays(r.rings[1], r.radius, p) ELSE RingsSay(r.rings, p)

RECURSIVE Area2(_, _)
Area2(s, i) == IF i > Len(s) THEN 0 ELSE s[i][1] * Nxt(s, i)[2] - s[i][2] * Nxt(s, i)[1] + Area2(s, i + 1)
RECURSIVE SumAreas(_, _)
SumAreas(rings, i) == IF i > Len(rings) THEN 0 ELSE Abs(Area2(rings[i], 1)) + SumAreas(rings, i + 1)
RECURSIVE Length(_, _)
Length(g, i) == IF i = Len(g) THEN 0 ELSE Sqrt(Dist2(g[i], g[i + 1])) + Length(g, i + 1)
\* bounds of twice the area
Largest(r) == IF r.kind = "way" THEN 5 * r.radius * (Length(r.rings[1], 1) + 2 * r.radius) ELSE SumAreas(r.rings, 1)
Smallest(r) == IF r.kind = "way" THEN 0 ELSE Abs(Area2(r.rings[1], 1)) - (IF Len(r.rings) = 1 THEN 0 ELSE SumAreas(Tail(r.rings), 1))
ClearlySmaller(a, b) == Largest(a) + Largest(a) \div 10 < Smallest(b)

\* the looks a point can have, given the layers with regions from the top one down; sheet.looks[""] is the background
RECURSIVE Down(_, _, _, _)
Down(sheet, regions, order, p) ==
  IF order = <<>> THEN {"canvas"}
  ELSE LET here == {i \in DOMAIN regions : regions[i].layer = order[1]}
           yes == {i \in here : Says(regions[i], p) = "yes"}
           maybe == {i \in here : Says(regions[i], p) = "maybe"}
           \* those which no other one certainly covers
           top == {i \in yes \cup maybe : \A j \in yes : ~ClearlySmaller(regions[j], regions[i])}
           looks == IF order[1] = "" THEN {regions[i].look : i \in top} ELSE IF top = {} THEN {} ELSE {order[1]}
       IN looks \cup (IF yes = {} THEN Down(sheet, regions, Tail(order), p) ELSE {})
LooksAt(sheet, regions, p) == Down(sheet, regions, sheet.order, p)
=============================================================================
