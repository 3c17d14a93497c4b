------------------------------ MODULE MeshTrace ------------------------------
(* Histories of real meshes. Coordinates shown are tenths, texture coordinates hundredths of the unit given. *)
EXTENDS Mesh, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, shown
vars == <<l, shown>>
Init == l = 1 /\ shown = << >>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
Ten(p) == <<10 * p[1], 10 * p[2], 10 * p[3]>>
Hundred(p) == <<100 * p[1], 100 * p[2]>>

NearUV(a, b) == Abs(a[1] - b[1]) <= 2 + Abs(b[1]) \div 80 /\ Abs(a[2] - b[2]) <= 2 + Abs(b[2]) \div 80
Same(a, b) == /\ a.color = b.color /\ a.tex = b.tex
              /\ \E s \in {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>} : \A i \in 1..3 : a.at[i] = b.at[s[i]] /\ NearUV(a.uv[i], b.uv[s[i]])
\* the same triangles, in any order
Alike(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN b : Cardinality({j \in DOMAIN a : Same(a[j], b[i])}) = Cardinality({j \in DOMAIN b : Same(b[j], b[i])})
At(p) == [i \in DOMAIN p |-> Ten(p[i])]

\* --- polygons
Cross2(r, i) == LET a == r[i] b == r[IF i = Len(r) THEN 1 ELSE i + 1] IN a[1] * b[2] - b[1] * a[2]
RECURSIVE Twice(_, _)
Twice(r, i) == IF i > Len(r) THEN 0 ELSE Cross2(r, i) + Twice(r, i + 1)
RECURSIVE Sum(_, _)
Sum(rs, i) == IF i > Len(rs) THEN 0 ELSE (IF i = 1 THEN Abs(Twice(rs[i], 1)) ELSE -Abs(Twice(rs[i], 1))) + Sum(rs, i + 1)
Box(r) == LET xs == {r[i][1] : i \in DOMAIN r} ys == {r[i][2] : i \in DOMAIN r} IN [w |-> xs, h |-> ys]
Filled(e, old, new) ==
  LET height == 10 * (e.ele + e.h)
      has == UNION {{new[j].at[i] : i \in 1..3} : j \in DOMAIN new}
      size2 == Sum(e.rings, 1)
  IN /\ \A j \in DOMAIN new : new[j].color = e.color /\ new[j].tex = 0 /\ \A i \in 1..3 : new[j].at[i][3] = height
     /\ Abs(e.size2 - 10 * size2) <= 10
     /\ IF e.flip THEN e.up = 0 ELSE e.down = 0
     /\ e.up + e.down <= Len(new)
     /\ (e.area > 0 /\ e.split = 0) => e.largest2 <= 20 * e.area + 1
     /\ \A k \in DOMAIN e.rings : \A i \in DOMAIN e.rings[k] : <<10 * e.rings[k][i][1], 10 * e.rings[k][i][2], height>> \in has
     \* texture coordinates follow the place
     /\ \A j \in DOMAIN new : \A i \in 2..3 :
          LET s == IF e.tex = 7 THEN 0 ELSE e.scale
              dx == 10 * s * (new[j].at[i][1] - new[j].at[1][1]) dy == 10 * s * (new[j].at[i][2] - new[j].at[1][2])
              du == new[j].uv[i][1] - new[j].uv[1][1] dv == new[j].uv[i][2] - new[j].uv[1][2]
          IN Abs(du - dx) <= 12 * s + 2 + Abs(dx) \div 80 /\ Abs(dv - dy) <= 12 * s + 2 + Abs(dy) \div 80
Long(p, q) == Root(10000 * ((p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])), 0, 40000)

After(e, old) ==
  CASE e.ev = "triangle" -> AddTriangles(old, Triangle(At(e.at), [i \in 1..3 |-> Hundred(e.uv[i])], e.color, e.back))
    [] e.ev \in {"plane", "plane2"} ->
         LET p == IF e.ev = "plane" THEN e.p ELSE <<e.p[1], e.p[2], e.ele>> q == IF e.ev = "plane" THEN e.q ELSE <<e.q[1], e.q[2], e.ele>>
         \* a degree has 111.2 km, a unit is 1e-5 degrees
         IN AddTriangles(old, Plane(Ten(p), Ten(q), 10 * e.h, e.scale * Long(p, q), (e.scale * e.h * 8993) \div 100, e.color))
    [] e.ev = "map" -> Finish(old, e.tex)
    [] e.ev = "copy" -> Copied(shown[e.from], old, Ten(e.by))
    [] e.ev \in {"clear", "get", "many"} -> <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "new" -> shown' = [x \in {} |-> <<>>]
       [] e.ev = "release" -> shown' = [x \in DOMAIN shown \ {e.m} |-> shown[x]]
       [] OTHER ->
            /\ (e.name = e.m /\ WellFormed(e.formed[1])) = TRUE
            /\ LET old == IF e.m \in DOMAIN shown THEN shown[e.m] ELSE <<>> IN
               /\ (IF e.ev = "polygon"
                   THEN /\ Len(e.shown) > Len(old) /\ Alike(SubSeq(e.shown, 1, Len(old)), old)
                        /\ Filled(e, old, SubSeq(e.shown, Len(old) + 1, Len(e.shown)))
                   ELSE Alike(e.shown, After(e, old))) = TRUE
               /\ (e.ev = "many" => e.count = e.n) = TRUE
               /\ (Finished(e.shown) => (e.shown = <<>> \/ Mapped(e.formed[1]))) = TRUE
               /\ shown' = Put(shown, e.m, e.shown)
Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
