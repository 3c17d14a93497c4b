---------------------------- MODULE BuildingTrace ---------------------------
EXTENDS Building, Formed, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, looks
vars == <<l, looks>>
Init == l = 1 /\ looks = <<>>

\* --- triangles over a sample: [colour, texture, height, up or down, whether it is on their edge]
OverPart(over, p, k, ele, q) ==
  LET top == Top(p, k, ele) base == Base(p, k, ele) bounds == Bounds(p, k, q)
      up == {i \in DOMAIN over : over[i][4] = 1} down == DOMAIN over \ up
      Once(S) == S # {} /\ Cardinality({i \in S : over[i][5] = 0}) <= 1
      Roofed(i) == over[i][1] = k.rc /\ over[i][2] = k.rt
      folded == Roof(p, k) = "any" \/ (Roof(p, k) = "pyramidal" /\ PyramidHeights(p, k, q) = {})
  IN /\ IF k.roof = "none" THEN up = {}
        ELSE /\ IF folded THEN up # {} ELSE Once(up)
             /\ \A i \in up : Roofed(i) /\ bounds[1] - 2 <= over[i][3] - top /\ over[i][3] - top <= bounds[2] + 2
     /\ IF Floor(k) THEN Once(IF folded THEN {i \in down : over[i][3] < top} ELSE down) /\ \A i \in down : (over[i][3] < top - 2 => (Abs(over[i][3] - base) <= 2 /\ Roofed(i)))
        ELSE folded \/ down = {}
OverAll(m, b, e) ==
  \A s \in DOMAIN e.samples :
    LET q == e.samples[s] says == [i \in DOMAIN b.parts |-> RingsSay(b.parts[i].rings, q)] IN
    IF \E i \in DOMAIN says : says[i] = "maybe" THEN TRUE
    ELSE LET in == {i \in DOMAIN says : says[i] = "yes"} IN
         IF in = {} THEN m.over[s] = <<>>
         ELSE Cardinality(in) = 1 => \A i \in in : OverPart(m.over[s], b.parts[i], looks[b.parts[i].look], e.ele, q)

RECURSIVE Perimeters(_, _)
Perimeters(rings, i) == IF i > Len(rings) THEN 0 ELSE
  LET r == rings[i] IN
  (LET f[k \in 0..Len(r)] == IF k = 0 THEN 0 ELSE f[k - 1] + Len10(r[k], Nxt(r, k)) IN f[Len(r)]) + Perimeters(rings, i + 1)
Within(x, lo, hi) == lo <= x /\ x <= hi
Highest(m) == Max({m.parts[i].box[6] : i \in DOMAIN m.parts})
Lowest(m) == Min({m.parts[i].box[5] : i \in DOMAIN m.parts})

\* a single part with flat walls
Sized(m, p, k, ele) ==
  LET top == Top(p, k, ele) ridge == Ridge(p, k) area == Size2(p.rings, 1)
      wall == (Perimeters(p.rings, 1) * (Height(k) \div 10)) \div 10
      body == (area * (Height(k) \div 10)) \div 20      \* tenths
      Filling(f) == (area * ((k.rise * (f \div 5)) \div 2000)) \div 20
      fill == Filled(p, k)
      slack == 20 + body \div 200 + Filling(1000) \div 200
  IN /\ Abs(Lowest(m) - Base(p, k, ele)) <= 2
     /\ Within(Highest(m) - top, ridge[1] - 2, ridge[2] + 2)
     /\ \E i \in DOMAIN m.walls : SubSeq(m.walls[i], 1, 2) = <<k.fc, k.ft>> /\ Abs(m.walls[i][3] - wall) <= wall \div 50 + 20
     /\ k.roof # "none" => Within(m.volume, body + Filling(fill[1]) - slack, body + Filling(fill[2]) + slack)

\* --- round things: a point [u, v, h, colour] of the ellipsoid with that centre and those radii (hundredths of units and mm)
OnEllipsoid(pt, c, r) ==
  LET x == (1000 * (pt[1] - c[1])) \div r[1] y == (1000 * (pt[2] - c[2])) \div r[2] z == (1000 * (pt[3] - c[3])) \div r[3]
  IN Abs(x) <= 1100 /\ Abs(y) <= 1100 /\ Abs(z) <= 1100 /\ Abs(x * x + y * y + z * z - 1000000) <= 20000
Radii(b) == <<50 * (b[2] - b[1]), 50 * (b[4] - b[3]), (1194 * (b[4] - b[3])) \div 2>>
Centre(b, h) == <<50 * (b[1] + b[2]), 50 * (b[3] + b[4]), h>>
Points(m, colour) == {m.points[i] : i \in {j \in DOMAIN m.points : m.points[j][4] = colour}}
Dome(m, p, k, ele) ==
  LET top == Top(p, k, ele) b == Box(p.rings[1]) pts == Points(m, k.rc) IN
  /\ \A q \in pts : OnEllipsoid(q, Centre(b, top), Radii(b)) \/ (Floor(k) /\ Abs(q[3] - Base(p, k, ele)) <= 2)
  /\ Max({q[3] : q \in pts}) - top >= (Radii(b)[3] * 94) \div 100
  /\ Cardinality({q \in pts : q[3] >= top - 5}) >= 60
  /\ Back(p, Base(p, k, ele)) \subseteq {m.rim[i] : i \in DOMAIN m.rim} \/ Floor(k)
  \* closed over its foot
  /\ \A i \in DOMAIN m.rim : m.rim[i][3] <= top + 5
Sphere(m, p, k, ele) ==
  LET b == Box(p.rings[1]) pts == Points(m, k.fc) IN
  /\ \A q \in pts : OnEllipsoid(q, Centre(b, Base(p, k, ele)), Radii(b))
  /\ Cardinality(pts) >= 150 /\ Max({q[3] : q \in pts}) - Min({q[3] : q \in pts}) >= (Radii(b)[3] * 188) \div 100
  /\ m.volume > 0
Cylinder(m, p, k, ele) ==
  LET b == Box(p.rings[1]) pts == Points(m, k.fc) c == Centre(b, 0) r == Radii(b) base == Base(p, k, ele) IN
  /\ \A q \in pts : /\ Within(q[3], base - 2, base + Height(k) + 2)
                     /\ \/ Abs(q[1] - c[1]) <= 1 /\ Abs(q[2] - c[2]) <= 1
                        \/ OnEllipsoid(<<q[1], q[2], 0, 0>>, c, r)
  /\ Abs(Min({q[3] : q \in pts}) - base) <= 2 /\ Abs(Max({q[3] : q \in pts}) - base - Height(k)) <= 2
  /\ Cardinality({<<q[1], q[2]>> : q \in pts}) = 8
  /\ m.volume > 0

Right(m, b, e) ==
  LET one == Len(b.parts) = 1 p == b.parts[1] k == looks[p.look] round == one /\ (k.roof = "dome" \/ k.facade # "flat")
      rim == {m.rim[i] : i \in DOMAIN m.rim} IN
  /\ m.name = b.name
  /\ IF round
     THEN IF k.facade = "cylinder" THEN Cylinder(m, p, k, e.ele) /\ rim = Rim(p, k, e.ele)
          ELSE IF k.facade = "sphere" THEN Sphere(m, p, k, e.ele) /\ rim = Rim(p, k, e.ele)
          ELSE Dome(m, p, k, e.ele)
     ELSE /\ rim = UNION {Rim(b.parts[i], looks[b.parts[i].look], e.ele) : i \in DOMAIN b.parts}
          /\ OverAll(m, b, e)
          /\ one => Sized(m, p, k, e.ele)
Built(e) ==
  LET bs == TLCEval(Buildings(e.elements)) ms == TLCEval(SelectSeq(e.meshes, LAMBDA m : m.triangles > 0)) IN
  /\ Len(ms) = Len(bs)
  /\ \A i \in DOMAIN bs : Right(ms[i], bs[i], e)

Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "sheet" -> looks' = e.looks
       [] e.ev = "solids" ->
            /\ (\A i \in DOMAIN e.formed : WellFormed(e.formed[i]) /\ Mapped(e.formed[i])) = TRUE
            /\ Built(e) = TRUE
            /\ UNCHANGED looks
Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
