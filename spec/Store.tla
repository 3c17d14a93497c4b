------------------------------- MODULE Store --------------------------------
(* An element store: what the map keeps for every tile.                      *)
(*                                                                           *)
(* tiles maps a tile <<level, x, y>> to the sequence of records stored in it *)
(*   [c |-> content, b |-> bounding box, w |-> set of words of its tags]     *)
(* A tile without records is not in its domain.                              *)
EXTENDS Grid, TLC

VARIABLES grid,     \* the grid in use
          rules,    \* the style sheet
          tiles

storeVars == <<grid, rules, tiles>>

At(t) == IF t \in DOMAIN tiles THEN tiles[t] ELSE <<>>

-----------------------------------------------------------------------------
(* Words *)
Separators == {" ", "_", ":", ";", "!", "@", "#", "$", "%", "^", "&", "*", "(", ")", "{", "}",
               "[", "]", ",", ".", "?", "`", "/", "\\", "\"", "'"}
Words(pieces) == {pieces[i] : i \in 1..Len(pieces)} \ Separators
TagWords(tags) == UNION {Words(tags[i][1]) \cup Words(tags[i][2]) : i \in 1..Len(tags)}

-----------------------------------------------------------------------------
(* Style: rules [t, z1, z2, conds, decl], decl one of "key", "skip", "noskip". *)
(* conds: sequence of [op |-> "has" or "eq", k, v] over the tags of an element *)
TypeName(e) == CASE e.t = "N" -> "node" [] e.t = "W" -> "way" [] e.t = "A" -> "area" [] e.t = "R" -> "relation"

Holds(c, tags) ==
  \E i \in 1..Len(tags) : tags[i][1] = c.k /\ (c.op = "eq" => tags[i][2] = c.v)

Applies(r, e, l) ==
  /\ r.t = TypeName(e)
  /\ l \in r.z1..r.z2
  /\ \A i \in 1..Len(r.conds) : Holds(r.conds[i], e.tags)

Matching(e, l) == {i \in 1..Len(rules) : Applies(rules[i], e, l)}

\* an element is kept at a level if some rule applies and none says to skip it (the last one that
\* says anything about skipping decides)
Kept(e, l) ==
  LET m == Matching(e, l)
      s == {i \in m : rules[i].decl \in {"skip", "noskip"}}
  IN /\ m # {}
     /\ s # {} => rules[CHOOSE i \in s : \A j \in s : j <= i].decl = "noskip"

-----------------------------------------------------------------------------
(* Where an element goes *)
\* place is one of
\*   [p |-> "all", lods |-> <<a, b>>]            everywhere it has an extent
\*   [p |-> "box", lods |-> <<a, b>>, box |-> b] the same, if its extent meets the box
\*   [p |-> "tile", tile |-> t]                  only in that tile, if its extent meets it
Targets(e, place) ==
  LET b == BoxOf(e)
      on(l) == IF Kept(e, l) THEN TilesOf(grid, b, l) ELSE {}
  IN CASE place.p = "all" -> UNION {on(l) : l \in place.lods[1]..place.lods[2]}
       [] place.p = "box" -> IF Meets(b, place.box)
                             THEN UNION {on(l) : l \in place.lods[1]..place.lods[2]} ELSE {}
       [] place.p = "tile" -> on(place.tile[1]) \cap {place.tile}

Record(e, c) == [c |-> c, b |-> BoxOf(e), w |-> TagWords(e.tags)]

\* the tiles m after storing e, whose content is c, at place
AfterPut(m, e, c, place) ==
  LET ts == Targets(e, place)
  IN [t \in (DOMAIN m) \cup ts |->
        IF t \in ts THEN Append(IF t \in DOMAIN m THEN m[t] ELSE <<>>, Record(e, c)) ELSE m[t]]
AfterErase(m, t) == [x \in (DOMAIN m) \ {t} |-> m[x]]

Put(e, c, place) == tiles' = AfterPut(tiles, e, c, place) /\ UNCHANGED <<grid, rules>>
Erase(t) == tiles' = AfterErase(tiles, t) /\ UNCHANGED <<grid, rules>>

\* reopening, flushing, reading change nothing
Same == UNCHANGED storeVars

-----------------------------------------------------------------------------
(* What is read back *)
Contents(t) == [i \in 1..Len(At(t)) |-> At(t)[i].c]

\* a reader that cancels after n elements (n < 0: never) gets exactly the first n
Read(t, n) == IF n < 0 \/ n > Len(At(t)) THEN Contents(t) ELSE SubSeq(Contents(t), 1, n)

HasData(t) == At(t) # <<>>

Answers(r, q) ==
  /\ Meets(r.b, q.box)
  /\ q.nots \cap r.w = {}
  /\ q.ands \subseteq r.w
  /\ q.ors # {} => q.ors \cap r.w # {}
  /\ q.ands \cup q.ors # {}

FoundIn(t, q) == {i \in 1..Len(tiles[t]) : Answers(tiles[t][i], q)}

\* a text search looks at every tile of every asked level that the box meets
FoundTiles(q) == UNION {TilesOf(grid, q.box, l) : l \in q.lods[1]..q.lods[2]} \cap DOMAIN tiles

\* where the found elements are, and how many times a content is expected
Hits(q) == UNION {{<<t, i>> : i \in FoundIn(t, q)} : t \in FoundTiles(q)}
ExpectedTotal(q) == Cardinality(Hits(q))
Expected(q, c) == Cardinality({h \in Hits(q) : tiles[h[1]][h[2]].c = c})

\* the answer has every found element, as often as it was found, and nothing else
IsAnswer(q, res) ==
  /\ Len(res) = ExpectedTotal(q)
  /\ \A c \in {res[i] : i \in 1..Len(res)} : Cardinality({i \in 1..Len(res) : res[i] = c}) = Expected(q, c)

-----------------------------------------------------------------------------
NonEmpty == \A t \in DOMAIN tiles : tiles[t] # <<>>
=============================================================================
