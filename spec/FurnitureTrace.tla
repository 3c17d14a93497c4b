--------------------------- MODULE FurnitureTrace ---------------------------
EXTENDS Furniture, Formed, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, looks
vars == <<l, looks>>
Init == l = 1 /\ looks = <<>>

Set(s) == {s[i] : i \in DOMAIN s}
Same(p, q, h) == Abs(p[1] - q[1]) <= 4 /\ Abs(p[2] - q[2]) <= 4 /\ Abs(p[3] - q[3]) <= h
Total(f) == LET g[i \in 0..Len(f)] == IF i = 0 THEN 0 ELSE g[i - 1] + f[i] IN g[Len(f)]
Tilt(ele) == 8 + (Abs(ele[1]) + Abs(ele[2])) \div 10
Lowest(m) == Min({m.points[i][3] : i \in DOMAIN m.points})

Wall(m, t, k, ele) ==
  LET boxes == TLCEval(Boxes(t, k))
      Three(q, h) == <<q[1], q[2], GroundAt(q, ele) + h>>
      expected == TLCEval(UNION {UNION {{Three(q, 0), Three(q, k.height)} : q \in boxes[i].foot} : i \in DOMAIN boxes})
      got == TLCEval(Set(m.points)) slack == Tilt(ele) lo == Lowest(m)
      \* with everything below the top down to the lowest point; tenths
      vol == Total([i \in DOMAIN boxes |->
               (((boxes[i].length * 2 * ToUnits(k.width)) \div 100) * ((k.height + GroundAt(boxes[i].mid, ele) - lo) \div 10)) \div 1000])
  IN /\ \A p \in expected : \E q \in got : Same(p, q, slack)
     /\ \A q \in got : q[4] = k.color /\ \E p \in expected : Same(p, q, slack)
     /\ m.triangles = 10 * Len(boxes)
     \* open below, and nowhere else
     /\ \A i \in DOMAIN m.rim : LET e == m.rim[i] IN
          Abs(e[3] - GroundAt(<<e[1], e[2]>>, ele)) <= slack /\ Abs(e[6] - GroundAt(<<e[4], e[5]>>, ele)) <= slack
     /\ Abs(m.volume - vol) <= 5 + Len(boxes) + vol \div 50

\* pillars are round with seven corners, half as wide again to the east
Pillars(m, t, k, ele) ==
  LET places == TLCEval(Places(t, k)) r == k.radius slack == Tilt(ele)
      near == 3 + ToUnits(r) \div 30
      Is(p, x) == LET b == p.box r100 == ToUnits(r) IN
        /\ Abs(b[1] - x[1] + (135 * r100) \div 100) <= near /\ Abs(b[2] - x[1] - (150 * r100) \div 100) <= near
        /\ Abs(b[3] - x[2] + (975 * r100) \div 1000) <= near /\ Abs(b[4] - x[2] - (975 * r100) \div 1000) <= near
        /\ Abs(b[5] - GroundAt(x, ele)) <= slack /\ Abs(b[6] - GroundAt(x, ele) - k.height) <= slack
        /\ \A i \in DOMAIN p.looks : p.looks[i][1] = k.color
      rr == ((r \div 10) * (r \div 10)) \div 10         \* thousandths of square metres
      vol == ((rr * 41) \div 143) * (k.height \div 100)   \* in units * units * metres, thousandths
  IN /\ Len(m.parts) = Len(places) /\ m.rim = <<>>
     /\ \A i \in DOMAIN places : \E j \in DOMAIN m.parts : Is(m.parts[j], places[i])
     /\ \A j \in DOMAIN m.parts : \E i \in DOMAIN places : Is(m.parts[j], places[i])
     /\ \A j \in DOMAIN m.parts : Abs(m.parts[j].volume - vol) <= 30 + vol \div 20

\* trees and lamps: the model at each of the places, everything closed and facing outwards
Copies(ms, places, k, ele) ==
  LET model == TLCEval(Model(k))
      got == TLCEval(UNION {Set(ms[i].points) : i \in DOMAIN ms})
      G(x) == GroundAt(x, ele)
      vol == Len(places) * Total([i \in DOMAIN model |-> Volume(model[i])])
      real == Total([i \in DOMAIN ms |-> Total([j \in DOMAIN ms[i].parts |-> ms[i].parts[j].volume])])
  IN /\ \A i \in DOMAIN ms : ms[i].rim = <<>>
     /\ \A q \in got : \E i \in DOMAIN places, j \in DOMAIN model : q[4] = model[j].look /\ OnPrimitive(q, places[i], G(places[i]), model[j])
     /\ \A i \in DOMAIN places, j \in DOMAIN model : \A mark \in Marks(model[j]) :
          \E q \in got : q[4] = model[j].look /\ AtMark(q, places[i], G(places[i]), model[j], mark)
     /\ Abs(real - vol) <= 50 + vol \div 25

Right(m, t, ele) ==
  LET k == looks[t.look] IN
  /\ m.name = t.name
  /\ IF k.builder # "barrier" THEN Copies(<<m>>, TLCEval(Places(t, k)), k, ele)
     ELSE IF k.type = "pillar" THEN Pillars(m, t, k, ele) ELSE Wall(m, t, k, ele)
Empty(t) == LET k == looks[t.look] IN
  IF k.builder = "barrier" /\ k.type # "pillar" THEN t.stretches = <<>> ELSE Places(t, k) = <<>>
Built(e) ==
  LET ts == TLCEval(SelectSeq(AllThings(e.builder, e.elements), LAMBDA t : ~Empty(t)))
      ms == TLCEval(SelectSeq(e.meshes, LAMBDA m : m.triangles > 0)) IN
  /\ Len(ms) = Len(ts)
  /\ \A i \in DOMAIN ts : Right(ms[i], ts[i], e.ele)

Ordered(S) == LET RECURSIVE f(_) f(R) == IF R = {} THEN <<>> ELSE LET x == Min(R) IN <<x>> \o f(R \ {x}) IN f(S)
\* a forest: a tree in the middle of every so many triangles of its ground, in meshes of so many trees
Forest(e) ==
  LET k == looks[e.look] all == Len(e.centres)
      trees == (all + k.every - 1) \div k.every
      ms == SelectSeq(e.meshes, LAMBDA m : m.name = "forest")
      full == trees \div k.chunk rest == trees % k.chunk
      Share(i) == IF i <= full THEN k.chunk ELSE rest
      \* the first point of the model is over the place
      first == Model(k)[1]
      Stands(m, x) == \E i \in DOMAIN m.points : m.points[i][4] = first.look /\ AtMark(m.points[i], x, GroundAt(x, e.ele), first, first.p)
      standing == [i \in DOMAIN ms |-> {j \in 1..all : Stands(ms[i], e.centres[j])}]
  IN /\ all > 0
     /\ Len(ms) = full + (IF rest > 0 THEN 1 ELSE 0)
     /\ \A i \in DOMAIN ms : Cardinality(standing[i]) = Share(i)
     /\ \A i, j \in DOMAIN ms : i # j => standing[i] \cap standing[j] = {}
     /\ \A i \in DOMAIN ms : Copies(<<ms[i]>>, [j \in 1..Cardinality(standing[i]) |-> e.centres[Ordered(standing[i])[j]]], k, e.ele)

Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "sheet" -> looks' = e.looks
       [] e.ev = "solids" ->
            /\ (\A i \in DOMAIN e.formed : WellFormed(e.formed[i]) /\ Mapped(e.formed[i])) = TRUE
            /\ (IF e.builder = "terrain" THEN Forest(e) ELSE Built(e)) = TRUE
            /\ UNCHANGED looks
Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
