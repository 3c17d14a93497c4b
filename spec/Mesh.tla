-------------------------------- MODULE Mesh --------------------------------
(* A mesh under construction. For who uses it a mesh is a list of triangles: three corners (in the order in which its face is
   seen), with a colour, the texture it was given when the part it is in was finished, and texture coordinates at its corners.
   Shown are meshes by their name; a triangle is [at, uv, color, tex], tex is 0 while its part is not finished. *)
EXTENDS Integers, Sequences, FiniteSets, Formed

Tri(at, uv, color) == [at |-> at, uv |-> uv, color |-> color, tex |-> 0]
\* the same triangle may begin with another corner
Turned(s) == LET r == {<<s[1], s[2], s[3]>>, <<s[2], s[3], s[1]>>, <<s[3], s[1], s[2]>>} IN r
AddTriangles(m, ts) == m \o ts
Triangle(at, uv, color, back) ==
  <<Tri(at, uv, color)>> \o (IF back THEN <<Tri(<<at[3], at[2], at[1]>>, <<uv[3], uv[2], uv[1]>>, color)>> ELSE <<>>)
\* a plane stands on the line from p to q, [x, y, h], and is so high
Up(p, h) == <<p[1], p[2], p[3] + h>>
Plane(p, q, h, u, v, color) ==
  <<Tri(<<p, Up(q, h), q>>, <<<<0, 0>>, <<u, v>>, <<u, 0>>>>, color),
    Tri(<<Up(p, h), Up(q, h), p>>, <<<<0, v>>, <<u, v>>, <<0, 0>>>>, color)>>
Finish(m, tex) == [i \in DOMAIN m |-> IF m[i].tex = 0 THEN [m[i] EXCEPT !.tex = tex] ELSE m[i]]
Finished(m) == \A i \in DOMAIN m : m[i].tex # 0
Moved(m, d) == [i \in DOMAIN m |-> [m[i] EXCEPT !.at = [k \in 1..3 |-> <<m[i].at[k][1] + d[1], m[i].at[k][2] + d[2], m[i].at[k][3] + d[3]>>]]]
Copied(from, to, d) == to \o Moved(from, d)
=============================================================================
