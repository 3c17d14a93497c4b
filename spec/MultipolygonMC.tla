--------------------------- MODULE MultipolygonMC ---------------------------
(* The assembly step by step: start a ring with any member left, extend it at either end by any member
   which fits, either way round, until it closes. Whatever the choices, the outcome is the one which
   Assembled defines. *)
EXTENDS Multipolygon
VARIABLES ms, left, cur, rings, out, stage
vars == <<ms, left, cur, rings, out, stage>>

Sq(a, b) == <<<<a, a>>, <<a, b>>, <<b, b>>, <<b, a>>>>
A == Sq(0, 9)
B == Sq(2, 7)
C == Sq(3, 5)
D == <<<<20, 20>>, <<20, 22>>, <<23, 20>>>>

\* the pieces of ring r when cut at the positions in c (a set of indices)
Piece(r, i, j) == [k \in 1..(((j - i + Len(r) - 1) % Len(r)) + 2) |-> r[((i + k - 2) % Len(r)) + 1]]
NextCut(r, c, i) == IF \E j \in c : j > i THEN CHOOSE j \in c : j > i /\ \A k \in c : k > i => j <= k
                    ELSE CHOOSE j \in c : \A k \in c : j <= k
Pieces(r, c) == {Piece(r, i, NextCut(r, c, i)) : i \in c}

RECURSIVE ToSeq(_)
ToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o ToSeq(s \ {x})

Mk(ps, role, base) == [i \in DOMAIN ps |-> [id |-> base + i, role |-> role, pts |-> ps[i]]]
\* the first piece may be turned round
Turned(ms0) == {ms0} \cup {[ms0 EXCEPT ![1].pts = Rev(@)]} \cup {[ms0 EXCEPT ![1].pts = Rev(@), ![Len(ms0)].pts = Rev(@)]}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Universe ==
  LET cuts(r) == {c \in SUBSET (1..Len(r)) : Cardinality(c) \in 1..3}
      base == {Mk(ToSeq(Pieces(A, ca)), "outer", 10) \o Mk(ToSeq(Pieces(B, cb)), "inner", 20) \o x :
                 ca \in cuts(A), cb \in {{1}, {1, 3}},
                 x \in {<<>>, Mk(ToSeq(Pieces(C, {1})), "outer", 30), Mk(ToSeq(Pieces(D, {2, 3})), "outer", 40)}}
      turned == UNION {Turned(b) : b \in base}
  IN turned \cup {Without(b, i) : b \in base, i \in 1..2} \cup {<<>>}

Init == /\ ms \in Universe
        /\ left = DOMAIN ms /\ cur = <<>> /\ rings = {} /\ out = <<>> /\ stage = "join"

None == cur = <<>>
Ends == IF None THEN {} ELSE {cur.pts[1], cur.pts[Len(cur.pts)]}
F == cur.pts[1]
L == cur.pts[Len(cur.pts)]
Put(s, ids) == IF IsClosed(s) THEN /\ rings' = rings \cup {[pts |-> s, ids |-> ids]} /\ cur' = <<>>
               ELSE /\ cur' = [pts |-> s, ids |-> ids] /\ UNCHANGED rings

Start == \E i \in left : None /\ left' = left \ {i} /\ Put(ms[i].pts, <<ms[i].id>>)
Join == /\ ~None
        /\ \E i \in left :
             LET o == ms[i].pts
                 cut == SubSeq(cur.pts, 1, Len(cur.pts) - 1)
                 tail == SubSeq(cur.pts, 2, Len(cur.pts))
             IN /\ left' = left \ {i}
                /\ \/ L = o[1] /\ Put(cut \o o, Append(cur.ids, ms[i].id))
                   \/ L = o[Len(o)] /\ Put(cut \o Rev(o), Append(cur.ids, ms[i].id))
                   \/ F = o[Len(o)] /\ Put(o \o tail, Append(cur.ids, ms[i].id))
                   \/ F = o[1] /\ Put(Rev(o) \o tail, Append(cur.ids, ms[i].id))

Open(r) == SubSeq(r.pts, 1, Len(r.pts) - 1)
Oriented(s, ccw) == IF (Area2(s) > 0) = ccw THEN s ELSE Rev(s)
RSet == {Edges(r.pts) : r \in rings}
DepthOf(r) == Depth(RSet, Edges(r.pts))
Holes(r) == {h \in rings : DepthOf(h) = DepthOf(r) + 1 /\ Within(Edges(h.pts), Edges(r.pts))}
Item(r, ccw) == [id |-> r.ids[1], pts |-> Oriented(Open(r), ccw)]
RECURSIVE Emit(_)
Emit(outers) == IF outers = {} THEN <<>>
                ELSE LET r == CHOOSE r \in outers : TRUE
                         hs == ToSeq(Holes(r))
                     IN <<Item(r, TRUE)>> \o [i \in DOMAIN hs |-> Item(hs[i], FALSE)] \o Emit(outers \ {r})
Step == stage = "join" /\ (Start \/ Join) /\ UNCHANGED <<ms, out, stage>>
Stuck == ~None /\ ~\E i \in left : Ends \cap EndsOf(ms[i]) # {}
Finish == /\ stage = "join" /\ (Stuck \/ (None /\ left = {}))
          /\ out' = IF Stuck THEN <<>> ELSE Emit({r \in rings : DepthOf(r) % 2 = 0})
          /\ stage' = "done" /\ UNCHANGED <<ms, left, cur, rings>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

\* the universe is data the definition speaks about
Speaks == Proper(ms)
\* whatever the choices, the outcome is the defined one (the order of holes and ids in the simple case aside)
Defined == stage = "done" => (Simple(ms) \/ Assembled(ms, out))
\* no edge gets lost or appears
Conserved == stage = "join" =>
   UNION {Edges(ms[i].pts) : i \in left} \cup (IF None THEN {} ELSE Edges(cur.pts)) \cup UNION {Edges(r.pts) : r \in rings}
     = UNION {Edges(ms[i].pts) : i \in DOMAIN ms}
=============================================================================
