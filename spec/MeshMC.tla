------------------------------- MODULE MeshMC --------------------------------
(* How a mesh is stored: vertices with their colours and texture coordinates in lists, triangles as numbers of vertices, and
   a map which says up to where in the list of texture coordinates which texture is meant (neighbours with the same texture
   share an entry). All short histories of building two meshes: what is stored shows what was asked for, and is well formed. *)
EXTENDS Mesh, TLC
CONSTANT Steps
Names == {"a", "b"}
Empty == [v |-> <<>>, c |-> <<>>, uv |-> <<>>, t |-> <<>>, map |-> <<>>]
VARIABLES stored, shown, n
vars == <<stored, shown, n>>
Init == stored = [x \in Names |-> Empty] /\ shown = [x \in Names |-> <<>>] /\ n = 0

P(i) == <<i, 0, 0>> 
\* three new vertices per triangle, numbered in the order given
Store(m, at, uv, color, order) ==
  LET s == Len(m.v) IN
  [m EXCEPT !.v = @ \o at, !.c = @ \o <<color, color, color>>, !.uv = @ \o uv, !.t = @ \o [i \in 1..3 |-> s + order[i] - 1]]
Texture(m, tex) ==
  LET e == <<2 * Len(m.uv), tex>> k == Len(m.map) IN
  IF k > 0 /\ m.map[k][2] = tex THEN [m EXCEPT !.map[k] = e] ELSE [m EXCEPT !.map = Append(@, e)]
Join(s, d, by) ==
  LET o == Len(d.v) u == 2 * Len(d.uv) IN
  [v |-> d.v \o [i \in DOMAIN s.v |-> <<s.v[i][1] + by[1], s.v[i][2] + by[2], s.v[i][3] + by[3]>>], c |-> d.c \o s.c, uv |-> d.uv \o s.uv,
   t |-> d.t \o [i \in DOMAIN s.t |-> s.t[i] + o], map |-> d.map \o [i \in DOMAIN s.map |-> <<s.map[i][1] + u, s.map[i][2]>>]]

TexAt(m, i) == LET r == {k \in DOMAIN m.map : 2 * i < m.map[k][1]} IN IF r = {} THEN 0 ELSE m.map[CHOOSE k \in r : \A j \in r : k <= j][2]
Show(m) == [i \in 1..(Len(m.t) \div 3) |->
  LET k(j) == m.t[3 * (i - 1) + j] + 1 IN
  [at |-> <<m.v[k(1)], m.v[k(2)], m.v[k(3)]>>, uv |-> <<m.uv[k(1)], m.uv[k(2)], m.uv[k(3)]>>, color |-> m.c[k(1)], tex |-> TexAt(m, k(1) - 1)]]
Says(m) == [coords |-> 3 * Len(m.v), corners |-> Len(m.t), colors |-> Len(m.c), uvs |-> 2 * Len(m.uv), map |-> 8 * Len(m.map),
            ends |-> [i \in DOMAIN m.map |-> m.map[i][1]], finite |-> TRUE, twice |-> 0,
            lo |-> 0, hi |-> IF m.t = <<>> THEN -1 ELSE CHOOSE x \in {m.t[i] : i \in DOMAIN m.t} : \A i \in DOMAIN m.t : x >= m.t[i]]

UV == <<<<0, 0>>, <<1, 0>>, <<1, 1>>>>
DoTriangle(x, c) == LET at == <<P(n), P(n + 1), P(n + 2)>> IN
  /\ stored' = [stored EXCEPT ![x] = Store(@, at, UV, c, <<1, 2, 3>>)]
  /\ shown' = [shown EXCEPT ![x] = AddTriangles(@, Triangle(at, UV, c, FALSE))]
DoPlane(x) == LET p == P(n) q == P(n + 1) IN
  /\ stored' = [stored EXCEPT ![x] = Store(Store(@, <<p, q, Up(q, 2)>>, <<<<0, 0>>, <<5, 0>>, <<5, 3>>>>, 1, <<1, 3, 2>>),
                                           <<Up(p, 2), p, Up(q, 2)>>, <<<<0, 3>>, <<0, 0>>, <<5, 3>>>>, 1, <<1, 3, 2>>)]
  /\ shown' = [shown EXCEPT ![x] = AddTriangles(@, Plane(p, q, 2, 5, 3, 1))]
DoMap(x, tex) == stored' = [stored EXCEPT ![x] = Texture(@, tex)] /\ shown' = [shown EXCEPT ![x] = Finish(@, tex)]
DoCopy(x, y) == /\ Finished(shown[x]) /\ Finished(shown[y])
                /\ stored' = [stored EXCEPT ![y] = Join(stored[x], @, <<10, 0, 1>>)]
                /\ shown' = [shown EXCEPT ![y] = Copied(shown[x], @, <<10, 0, 1>>)]
DoClear(x) == stored' = [stored EXCEPT ![x] = Empty] /\ shown' = [shown EXCEPT ![x] = <<>>]
Next == /\ n < Steps /\ n' = n + 1
        /\ \E x \in Names : \/ \E c \in {1, 2} : DoTriangle(x, c)
                            \/ DoPlane(x)
                            \/ \E t \in {1, 2} : DoMap(x, t)
                            \/ \E y \in Names \ {x} : DoCopy(x, y)
                            \/ DoClear(x)
Spec == Init /\ [][Next]_vars
Right == \A x \in Names : Show(stored[x]) = shown[x]
Good == \A x \in Names : WellFormed(Says(stored[x])) /\ (Finished(shown[x]) => (stored[x].uv = <<>> \/ Mapped(Says(stored[x]))))
\* entries never go back
Ordered == \A x \in Names : LET m == stored[x].map IN \A i \in 1..(Len(m) - 1) : m[i][1] <= m[i + 1][1]
=============================================================================
