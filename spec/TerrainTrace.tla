---------------------------- MODULE TerrainTrace ----------------------------
EXTENDS Terrain, Formed, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sheet, last
vars == <<l, sheet, last>>
Init == l = 1 /\ sheet = [order |-> <<>>] /\ last = <<>>

Offset(look) == sheet.looks[look].offset
Mesh(look) == IF sheet.looks[look].mesh = "" THEN "terrain_surface" ELSE sheet.looks[look].mesh

\* a triangle over a sample: [mesh, colour, height, texture, whether the sample is on its edge]
Over(e, p, t, look) ==
  /\ t[1] = Mesh(look)
  /\ t[2] = sheet.looks[look].color
  /\ t[4] = sheet.looks[look].texture
  /\ sheet.looks[look].noise \/ Abs(t[3] - (e.ele[3] + e.ele[1] * p[1] + e.ele[2] * p[2] + Offset(look))) <= 2
Surface(e) ==
  LET rs == TLCEval(e.regions) IN
  /\ \A i \in DOMAIN e.samples : LET looks == TLCEval(LooksAt(sheet, rs, e.samples[i])) IN
       \* one triangle, or two if the point is on an edge; where regions meet, rounding may leave a gap or an overlap
       LET thin == \E k \in DOMAIN rs : Says(rs[k], e.samples[i]) = "maybe" IN
       /\ ~thin => (Len(e.over[i]) >= 1 /\ Cardinality({k \in DOMAIN e.over[i] : e.over[i][k][5] = 0}) <= 1)
       /\ Len(e.over[i]) > 0 => \E k \in DOMAIN e.over[i] : \E look \in looks : Over(e, e.samples[i], e.over[i][k], look)
  \* all triangles together are as large as the tile
  /\ Abs(e.area - 1000000) <= 300
  /\ e.down = 0
  \* refined to the area the style asks for, with 1 % of tolerance
  /\ \A i \in DOMAIN e.largest : \A look \in DOMAIN sheet.looks :
       (sheet.looks[look].color = e.largest[i][1] /\ sheet.looks[look].max > 0) => e.largest[i][2] <= sheet.looks[look].max + sheet.looks[look].max \div 100 + 2

\* walls in tenths of a unit by colour; a single region of axis aligned shape, not everywhere on the border of the tile
RECURSIVE Perimeter(_, _, _)
Perimeter(s, i, k) ==
  IF i > Len(s) THEN 0
  ELSE LET a == s[i] b == Nxt(s, i)
           onBorder == (a[1] = b[1] /\ a[1] \in {0, k}) \/ (a[2] = b[2] /\ a[2] \in {0, k})
       IN (IF onBorder THEN 0 ELSE Abs(a[1] - b[1]) + Abs(a[2] - b[2])) + Perimeter(s, i + 1, k)
Walls(e) ==
  LET r == e.regions[1] look == r.look want == 10 * Perimeter(r.rings[1], 1, e.grid.k) IN
  IF Offset(look) = 0 \/ want = 0 THEN e.walls = <<>>
  ELSE /\ Len(e.walls) = 1 /\ SubSeq(e.walls[1], 1, 3) = <<Mesh(look), sheet.looks[look].color, sheet.looks[look].texture>>
       /\ Abs(e.walls[1][4] - want) <= 30

Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "sheet" -> sheet' = e.sheet /\ last' = <<>>
       [] e.ev = "surface" ->
            /\ (\A i \in DOMAIN e.formed : WellFormed(e.formed[i])) = TRUE
            /\ Surface(e) = TRUE
            /\ ("walled" \in DOMAIN e => Walls(e)) = TRUE
            \* the tile to the east or south of the last one: the same vertices on the border between them
            /\ ("joins" \in DOMAIN e => (e.joins = "east" /\ e.border[1] = last[2]) \/ (e.joins = "south" /\ e.border[3] = last[4])) = TRUE
            /\ last' = e.border /\ UNCHANGED sheet
Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
