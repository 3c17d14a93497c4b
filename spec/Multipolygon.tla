---------------------------- MODULE Multipolygon ----------------------------
(* How the rings of a multipolygon are assembled from its member ways.
   A member is [id, role, pts]: pts is the sequence of points <<lat, lon>> (integers), closed when the
   last is the first again. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

IsClosed(s) == Len(s) > 1 /\ s[1] = s[Len(s)]
Edges(s) == {{s[i], s[i + 1]} : i \in 1..(Len(s) - 1)}
\* the edges of a ring which does not repeat its first point
RingEdges(s) == {{s[i], s[IF i = Len(s) THEN 1 ELSE i + 1]} : i \in 1..Len(s)}

\* twice the signed area: positive when counter-clockwise (longitude to the right, latitude up)
RECURSIVE Area2From(_, _)
Area2From(s, i) ==
  IF i > Len(s) THEN 0
  ELSE LET p == s[i] q == s[IF i = Len(s) THEN 1 ELSE i + 1] o == s[1]
       IN (p[2] - o[2]) * (q[1] - o[1]) - (q[2] - o[2]) * (p[1] - o[1]) + Area2From(s, i + 1)
Area2(s) == Area2From(s, 1)

\* even-odd rule: a ray from p to the east
Crosses(p, a, b) ==
  /\ (a[1] > p[1]) # (b[1] > p[1])
  /\ LET d == b[1] - a[1]
         lhs == (p[2] - a[2]) * d
         rhs == (b[2] - a[2]) * (p[1] - a[1])
     IN IF d > 0 THEN lhs < rhs ELSE lhs > rhs
InsideEdges(p, es) ==
  Cardinality({e \in es : Cardinality(e) = 2 /\
      LET a == CHOOSE x \in e : TRUE
          b == CHOOSE x \in e : x # a
      IN Crosses(p, a, b)}) % 2 = 1
OnEdge(p, e) ==
  LET a == CHOOSE x \in e : TRUE
      b == IF Cardinality(e) = 1 THEN a ELSE CHOOSE x \in e : x # a
  IN /\ (b[1] - a[1]) * (p[2] - a[2]) = (b[2] - a[2]) * (p[1] - a[1])
     /\ (p[1] - a[1]) * (p[1] - b[1]) <= 0 /\ (p[2] - a[2]) * (p[2] - b[2]) <= 0

PointsOf(es) == UNION es

(* ---- the rings ---- *)

EndsOf(m) == IF IsClosed(m.pts) THEN {} ELSE {m.pts[1], m.pts[Len(m.pts)]}
CountEnds(ms, p) == Cardinality({i \in DOMAIN ms : ~IsClosed(ms[i].pts) /\ ms[i].pts[1] = p})
                  + Cardinality({i \in DOMAIN ms : ~IsClosed(ms[i].pts) /\ ms[i].pts[Len(ms[i].pts)] = p})
AllEnds(ms) == UNION {EndsOf(ms[i]) : i \in DOMAIN ms}

\* every end of an open way meets exactly one other end
Pairwise(ms) == \A p \in AllEnds(ms) : CountEnds(ms, p) = 2
\* some end does not meet any other: whatever is tried, a ring stays open
Dangling(ms) == \E p \in AllEnds(ms) : CountEnds(ms, p) % 2 = 1

RECURSIVE Grow(_, _)
Grow(ms, g) == LET more == {i \in DOMAIN ms : \E j \in g : EndsOf(ms[i]) \cap EndsOf(ms[j]) # {}} \cup g
               IN IF more = g THEN g ELSE Grow(ms, more)
\* the groups of members which make up one ring each
Groups(ms) == {Grow(ms, {i}) : i \in DOMAIN ms}
GroupEdges(ms, g) == UNION {Edges(ms[i].pts) : i \in g}

\* data the assembly is defined for: enough points, ways meet at their ends only, and so on
ProperWays(ms) == \A i \in DOMAIN ms : /\ Len(ms[i].pts) >= 2 /\ ~(IsClosed(ms[i].pts) /\ Len(ms[i].pts) < 4)
                                         /\ Cardinality(Edges(ms[i].pts)) = Len(ms[i].pts) - 1
Proper(ms) ==
  /\ ProperWays(ms)
  /\ \A i, j \in DOMAIN ms : i # j =>
        /\ Edges(ms[i].pts) \cap Edges(ms[j].pts) = {}
        /\ Rng(ms[i].pts) \cap Rng(ms[j].pts) \subseteq EndsOf(ms[i]) \cap EndsOf(ms[j])
  /\ (Pairwise(ms) \/ Dangling(ms))
  /\ Pairwise(ms) => \A g \in Groups(ms) : Cardinality(GroupEdges(ms, g)) >= 3

\* rings, as sets of edges: either inside of one another, without touching, or apart
Within(a, b) == \A p \in PointsOf(a) : InsideEdges(p, b)
Apart(a, b) == \A p \in PointsOf(a) : ~InsideEdges(p, b)
Nested(rs) == \A a, b \in rs : a # b => (Within(a, b) \/ Apart(a, b)) /\ (\A p \in PointsOf(a), e \in b : ~OnEdge(p, e))
Depth(rs, a) == Cardinality({b \in rs \ {a} : Within(a, b)})

Roles(ms, role) == {i \in DOMAIN ms : ms[i].role = role}
Simple(ms) == Cardinality(Roles(ms, "outer")) = 1 /\ \A i \in DOMAIN ms : IsClosed(ms[i].pts)

\* an area of the result, [id, pts], is the ring es
IsRing(a, es) == RingEdges(a.pts) = es /\ Len(a.pts) = Cardinality(es)

(* `out` is what the members ms may become. *)
Assembled(ms, out) ==
  IF ~ProperWays(ms) THEN TRUE
  ELSE IF Simple(ms) THEN
    LET order == SelectSeq([i \in DOMAIN ms |-> i], LAMBDA i : ms[i].role = "outer")
                 \o SelectSeq([i \in DOMAIN ms |-> i], LAMBDA i : ms[i].role = "inner")
    IN /\ Len(out) = Len(order)
       /\ \A k \in DOMAIN out :
            LET m == ms[order[k]]
            IN /\ IsRing(out[k], Edges(m.pts)) /\ out[k].id = m.id
               /\ LET x == Area2(out[k].pts) IN IF k = 1 THEN x >= 0 ELSE x <= 0
  ELSE IF ~Proper(ms) THEN TRUE
  ELSE IF Dangling(ms) THEN out = <<>>
  ELSE
    LET gs == Groups(ms)
        edges == [g \in gs |-> GroupEdges(ms, g)]
        rs == {edges[g] : g \in gs}
        ring(k) == CHOOSE g \in gs : IsRing(out[k], edges[g])
    IN /\ Len(out) = Cardinality(gs)
       /\ \A k \in DOMAIN out : \E g \in gs : IsRing(out[k], edges[g]) /\ out[k].id \in {ms[i].id : i \in g}
       /\ \A g \in gs : \E k \in DOMAIN out : IsRing(out[k], edges[g])
       /\ Nested(rs) =>
            \A k \in DOMAIN out :
               LET e == edges[ring(k)] d == Depth(rs, e) x == Area2(out[k].pts)
               IN IF d % 2 = 0 THEN x >= 0
                  ELSE \* a hole comes after the outer ring it lies in, with no other outer ring between
                       /\ x <= 0
                       /\ \E j \in 1..(k - 1) :
                            LET f == edges[ring(j)]
                            IN /\ Within(e, f) /\ Depth(rs, f) = d - 1
                               /\ \A i \in (j + 1)..(k - 1) : Depth(rs, edges[ring(i)]) % 2 = 1
=============================================================================
