------------------------------ MODULE StoreMC -------------------------------
(* Exhaustive check of Store on a small world: every history of at most      *)
(* MaxOps changes, and for every state every reading and every text query.   *)
EXTENDS Store

CONSTANT MaxOps

VARIABLES done,     \* how many changes so far
          log       \* what was put: <<element, place>> (the independent record)
vars == <<grid, rules, tiles, done, log>>

G == [lod |-> 2, x |-> 1, y |-> 1, k |-> 8]
\* the second rule needs a tag, the third hides what has the tag "no" at level 3
R == << [t |-> "node", z1 |-> 2, z2 |-> 3, conds |-> <<>>, decl |-> "key"],
        [t |-> "way", z1 |-> 1, z2 |-> 3, conds |-> <<[op |-> "has", k |-> <<"a">>, v |-> <<>>]>>, decl |-> "key"],
        [t |-> "way", z1 |-> 3, z2 |-> 3, conds |-> <<[op |-> "eq", k |-> <<"a">>, v |-> <<"no">>]>>, decl |-> "skip"] >>

N1 == [t |-> "N", id |-> 1, tags |-> <<<<<<"a">>, <<"b", " ", "c">>>>>>, g |-> <<<<3, 3>>>>]
N2 == [t |-> "N", id |-> 2, tags |-> <<<<<<"b">>, <<"d">>>>>>, g |-> <<<<11, 5>>>>]
W3 == [t |-> "W", id |-> 3, tags |-> <<<<<<"a">>, <<"no">>>>>>, g |-> <<<<3, 5>>, <<13, 11>>>>]
W4 == [t |-> "W", id |-> 4, tags |-> <<<<<<"x">>, <<"y">>>>>>, g |-> <<<<3, 5>>, <<13, 11>>>>]
R5 == [t |-> "R", id |-> 5, tags |-> <<>>, m |-> <<N1, W3>>]
Elements == {N1, N2, W3, W4, R5}
Places == {[p |-> "all", lods |-> <<2, 3>>], [p |-> "tile", tile |-> <<2, 1, 1>>],
           [p |-> "box", lods |-> <<1, 2>>, box |-> <<9, 1, 15, 7>>]}
Tiles == {<<1, 0, 0>>, <<2, 1, 1>>, <<2, 2, 1>>, <<2, 2, 2>>, <<3, 2, 2>>, <<3, 4, 2>>}

Queries == [nots : SUBSET {"b"}, ands : SUBSET {"a", "b"}, ors : SUBSET {"c", "d"},
            box : {<<1, 1, 15, 15>>, <<1, 1, 7, 7>>, <<5, 1, 15, 7>>}, lods : {<<2, 2>>, <<1, 3>>}]

Init == grid = G /\ rules = R /\ tiles = <<>> /\ done = 0 /\ log = {}

Next ==
  /\ done < MaxOps
  /\ done' = done + 1
  /\ \/ \E e \in Elements, p \in Places : Put(e, e.id, p) /\ log' = log \cup {<<e, p>>}
     \/ \E t \in Tiles : Erase(t) /\ UNCHANGED log

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Independent geometry: a tile as a box, scaled so that edges are integers *)
S == 16
\* sides of tiles: level 1 is twice, level 3 half of level 2, whose side is G.k
Side(lev) == CASE lev = 1 -> 2 * G.k * S [] lev = 2 -> G.k * S [] lev = 3 -> G.k * (S \div 2)
TileBox(t) == LET side == Side(t[1]) IN
  <<(t[2] * side) - (G.x * G.k * S), (t[3] * side) - (G.y * G.k * S),
    ((t[2] + 1) * side) - (G.x * G.k * S), ((t[3] + 1) * side) - (G.y * G.k * S)>>
Scaled(b) == <<b[1] * S, b[2] * S, b[3] * S, b[4] * S>>

\* what is in a tile was put there by someone, reaches the tile, and is wanted at its level
Placed == \A t \in DOMAIN tiles : \A i \in 1..Len(tiles[t]) :
            /\ Meets(TileBox(t), Scaled(tiles[t][i].b))
            /\ \E lp \in log : lp[1].id = tiles[t][i].c /\ BoxOf(lp[1]) = tiles[t][i].b /\ Kept(lp[1], t[1])
\* levels and skips
NoSkipped == \A t \in DOMAIN tiles : \A i \in 1..Len(tiles[t]) :
               /\ t[1] = 3 => tiles[t][i].c # 3
               /\ tiles[t][i].c \notin {4, 5}
\* a search never finds more than a weaker one, and "or" of one word is the "and" of that word
Monotone == \A q \in Queries :
  /\ ExpectedTotal(q) <= ExpectedTotal([q EXCEPT !.nots = {}])
  /\ q.ands # {} /\ q.ors # {} => ExpectedTotal(q) <= ExpectedTotal([q EXCEPT !.ors = {}])
  /\ q.ors = {"c"} /\ q.ands = {} => ExpectedTotal(q) = ExpectedTotal([q EXCEPT !.ors = {}, !.ands = {"c"}])
  /\ q.ors = {} /\ q.ands = {} => ExpectedTotal(q) = 0
Conserved == \A t \in DOMAIN tiles : \A n \in -1..3 : Len(Read(t, n)) = IF n < 0 THEN Len(tiles[t]) ELSE Min(n, Len(tiles[t]))
=============================================================================
