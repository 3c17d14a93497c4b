----------------------------- MODULE BuildingMC ------------------------------
(* How the shell of a part is put together, face by face, in any order: a wall over every side of every ring, its roof (one
   face for all of it, or triangles up to a point), its floor. Every face brings its edges, in the direction in which it is
   seen from outside; edges which go both ways close. When all faces are there, what is open is what Rim says, for every
   ring of up to four corners on a small grid, with and without a hole. *)
EXTENDS Building
CONSTANT N
Pts == (0..N) \X (0..N)
Rings3 == {<<a, b, c>> : a \in Pts, b \in Pts, c \in Pts}
Rings4 == {<<a, b, c, d>> : a \in {<<0, 0>>, <<0, 1>>}, b \in Pts, c \in Pts, d \in Pts}
SimpleRing(r) == \A i, j \in DOMAIN r : i # j => r[i] # r[j]
Outer == {r \in Rings3 \cup Rings4 : SimpleRing(r) /\ North(r) > 0 /\ \A i \in DOMAIN r : Turn(r, i) > 0}
Frame == <<<<-9, 9>>, <<9, 9>>, <<9, -9>>, <<-9, -9>>>>
Parts0 == {[rings |-> <<r>>] : r \in Outer} \cup {[rings |-> <<Frame, [i \in DOMAIN r |-> r[Len(r) + 1 - i]]>>] : r \in Outer}
Look(roof, min) == [height |-> 12000, min |-> min, roof |-> roof, rise |-> 3000, facade |-> "flat", dir |-> "N"]
Ele == <<0, 0, 100>>

VARIABLES part, look, left, net
vars == <<part, look, left, net>>
Sides(p) == {<<k, i>> : k \in DOMAIN p.rings, i \in 1..4}
Real(p) == {s \in Sides(p) : s[2] <= Len(p.rings[s[1]])}
Faces(p, l) == {<<"wall", s>> : s \in Real(p)} \cup (IF Floor(l) THEN {<<"floor">>} ELSE {})
               \cup (CASE Roof(p, l) = "flat" -> {<<"roof">>} [] Roof(p, l) = "pyramidal" -> {<<"side", s>> : s \in Real(p)} [] OTHER -> {})
Init == /\ part \in Parts0 /\ look \in {Look(f, m) : f \in {"flat", "pyramidal", "none"}, m \in {0, 2000}}
        /\ left = Faces(part, look) /\ net = {}
C(q, h) == <<100 * q[1], 100 * q[2], h>>
\* edges of a face as pairs of corners
Loop(cs) == {<<cs[i], Nxt(cs, i)>> : i \in DOMAIN cs}
Shell(f) ==
  LET base == Base(part, look, Ele) top == Top(part, look, Ele)
      a == part.rings[f[2][1]][f[2][2]] b == Nxt(part.rings[f[2][1]], f[2][2]) IN
  CASE f[1] = "wall" -> Loop(<<C(b, base), C(a, base), C(a, top), C(b, top)>>)
    [] f[1] = "side" -> Loop(<<C(b, top), C(a, top), <<77, 78, top + look.rise>>>>)
    [] f[1] = "roof" -> {<<C(e[2], top), C(e[1], top)>> : e \in UNION {Loop(part.rings[k]) : k \in DOMAIN part.rings}}
    [] f[1] = "floor" -> {<<C(e[1], base), C(e[2], base)>> : e \in UNION {Loop(part.rings[k]) : k \in DOMAIN part.rings}}
Opposite(es) == {<<e[2], e[1]>> : e \in es}
Add(f) == /\ left' = left \ {f}
          /\ LET es == Shell(f) IN net' = (net \ Opposite(es)) \cup (es \ Opposite(net))
          /\ UNCHANGED <<part, look>>
\* the order does not matter: walls first, or last
First(f) == \A g \in left : g[1] = f[1] => IF f = g THEN TRUE ELSE f[2][1] < g[2][1] \/ (f[2][1] = g[2][1] /\ f[2][2] < g[2][2])
Next == \E f \in {f \in left : First(f)} : Add(f)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Open == {<<e[1][1], e[1][2], e[1][3], e[2][1], e[2][2], e[2][3], 1>> : e \in net}
Closed == left = {} => Open = Rim(part, look, Ele)
\* as many edges come to a corner as go from it
Balanced == \A x \in {e[1] : e \in net} \cup {e[2] : e \in net} : Cardinality({e \in net : e[1] = x}) = Cardinality({e \in net : e[2] = x})
OnceEach == net \cap Opposite(net) = {}
Done == <>(left = {})
=============================================================================
