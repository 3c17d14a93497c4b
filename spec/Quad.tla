-------------------------------- MODULE Quad --------------------------------
(* Tiles of a quadtree over the map of the world, which is a square of W by W units (Mercator), x to the
   east and y to the south; a tile of level l is a square of W \div 2^l units. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT W

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Size(l) == W \div Pow2(l)

Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

\* the tile of level l a point is in; what is beyond the map belongs to the tiles at its border
TileAt(l, p) == <<Clamp(p[1], 0, W - 1) \div Size(l), Clamp(p[2], 0, W - 1) \div Size(l)>>

\* a tile's box: west, north, east, south
BoxOf(l, t) == <<t[1] * Size(l), t[2] * Size(l), (t[1] + 1) * Size(l), (t[2] + 1) * Size(l)>>

\* quad key as text: one digit per level, the x bit counts one and the y bit two
Digit(l, t, i) == LET d == Pow2(l - i) IN ((t[1] \div d) % 2) + 2 * ((t[2] \div d) % 2)
Digits(l, t) == [i \in 1..l |-> Digit(l, t, i)]
RECURSIVE FromDigits(_)
FromDigits(s) == IF s = <<>> THEN <<0, 0>>
                 ELSE LET p == FromDigits(SubSeq(s, 1, Len(s) - 1)) d == s[Len(s)]
                      IN <<2 * p[1] + (d % 2), 2 * p[2] + (d \div 2)>>

\* tiles which a box must or may be said to cover (they share more than a border, or at least a border with it)
Overlap(a, b) == a[1] < b[3] /\ b[1] < a[3] /\ a[2] < b[4] /\ b[2] < a[4]
Touch(a, b) == a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]
OnMap(b) == <<Clamp(b[1], 0, W), Clamp(b[2], 0, W), Clamp(b[3], 0, W), Clamp(b[4], 0, W)>>
Valid(b) == b[1] <= b[3] /\ b[2] <= b[4]
RangeOf(l, b) == {<<x, y>> : x \in TileAt(l, <<b[1] - 1, b[2] - 1>>)[1]..TileAt(l, <<b[3], b[4]>>)[1],
                             y \in TileAt(l, <<b[1] - 1, b[2] - 1>>)[2]..TileAt(l, <<b[3], b[4]>>)[2]}

Covers(l, b, out) ==
  LET got == {out[i] : i \in DOMAIN out}
      near == RangeOf(l, b)
  IN IF ~Valid(b) THEN out = <<>>
     ELSE /\ Len(out) = Cardinality(got)                        \* each once
          /\ got \subseteq near
          /\ \A t \in near : Overlap(BoxOf(l, t), b) => t \in got
          /\ \A t \in got : Touch(BoxOf(l, t), OnMap(b))

(* boxes of plain numbers: [minLat, minLon, maxLat, maxLon] *)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Join(a, b) == <<Min(a[1], b[1]), Min(a[2], b[2]), Max(a[3], b[3]), Max(a[4], b[4])>>
Meets(a, b) == Max(a[1], b[1]) <= Min(a[3], b[3]) /\ Max(a[2], b[2]) <= Min(a[4], b[4])
Inside(a, p) == a[1] < p[1] /\ p[1] < a[3] /\ a[2] < p[2] /\ p[2] < a[4]
=============================================================================
