------------------------------- MODULE ApiMC --------------------------------
(* Exhaustive check of Api on a small world: two keys, a store in memory and one in a folder, two sheets, three
   elements, requests which are served and requests which are refused.                                        *)
EXTENDS Api

CONSTANT MaxOps

VARIABLES done,    \* how many operations so far
          bad,     \* was the last operation refused?
          put      \* what was put, and where: <<place, element>> (the independent record)
vars == <<apiVars, done, bad, put>>

G == [lod |-> 2, x |-> 1, y |-> 1, k |-> 8]
Sel(t, k) == <<[names |-> <<t>>, z1 |-> 1, z2 |-> 19, conds |-> <<[k |-> k, op |-> "has", v |-> ""]>>]>>
Info == <<<<"builder", "info">>>>
Land == <<<<"builder", "terrain">>>>
Sheets == [one |-> <<[sels |-> Sel("node", "a"), decls |-> Info], [sels |-> Sel("area", "a"), decls |-> Land]>>,
           two |-> <<[sels |-> Sel("node", "b"), decls |-> Info]>>]

N1 == [t |-> "N", id |-> 1, tags |-> <<<<<<"a">>, <<"x">>>>>>, g |-> <<<<3, 3>>>>]
N2 == [t |-> "N", id |-> 2, tags |-> <<<<<<"b">>, <<"x", " ", "y">>>>>>, g |-> <<<<11, 5>>>>]
A3 == [t |-> "A", id |-> 3, tags |-> <<<<<<"a">>, <<"y">>>>>>, g |-> <<<<1, 3>>, <<3, 3>>, <<3, 1>>, <<1, 3>>>>]
Places0 == {[p |-> "all", lods |-> <<2, 2>>], [p |-> "tile", tile |-> <<2, 1, 1>>], [p |-> "all", lods |-> <<0, 2>>]}
Tiles == {<<2, 1, 1>>, <<2, 2, 1>>}
Stored == {<<"osm", <<"mem", "osm">>>>, <<"osm", <<"disk", "d">>>>, <<"user", <<"mem", "user">>>>}

\* the reply in which everything is there
Elem(e, h, style) == [id |-> e.id, odd |-> FALSE, tags |-> e.tags, g |-> e.g, h |-> [i \in DOMAIN e.g |-> 1000 * h], style |-> SetToSeq(style)]
RECURSIVE Reply(_, _, _)
Reply(todo, sheet, t) ==
  IF todo = <<>> THEN <<>>
  ELSE (IF Foreign(todo[1], sheet, t) > 0 THEN <<Elem(todo[1], 0, Styled(todo[1], sheet, t))>> ELSE <<>>) \o Reply(Tail(todo), sheet, t)
\* a mesh of terrain: what it looks like is for Terrain and Formed to say, here only which one it is
Ground0(d) == [name |-> "terrain_surface", digest |-> d]
AnyTerrain(m, t, h) == TRUE
Meshes(sheet, t) == IF To("terrain", Todo(sheet, t), sheet, t) # {} THEN {<<Ground0(d)>> : d \in {ToString(done)} \cup {kept[x] : x \in DOMAIN kept}} ELSE {<<>>}

Init == /\ grid = G /\ sheets = Sheets /\ conn = FALSE /\ stores = <<>> /\ data = <<>> /\ dirs = {} /\ caching = TRUE
        /\ kept = <<>> /\ ele = <<>> /\ cell = -1 /\ done = 0 /\ bad = FALSE /\ put = {}

Adds == \E key \in {"osm", "user"}, sheet \in {"one", "two", "none"}, e \in {N1, N2, A3}, place \in Places0, errors \in {0, 1} :
          /\ Add(key, sheet, <<e>>, place, TRUE, errors)
          /\ bad' = (errors = 1)
          /\ put' = IF errors = 0 THEN put \cup {<<stores[key], e>>} ELSE put

Gets == \E t \in Tiles, sheet \in {"one", "none"}, errors \in {0, 1}, stop \in {"", "before"} :
          LET nothing == sheet = "none" \/ stop # "" IN
          /\ \E ms \in (IF nothing THEN {<<>>} ELSE Meshes(sheet, t)) :
               GetTile(sheet, t, 0, stop, IF nothing THEN <<>> ELSE Reply(Todo(sheet, t), sheet, t), ms, errors)
          /\ bad' = (errors = 1) /\ UNCHANGED put

Next ==
  /\ done < MaxOps /\ done' = done + 1
  /\ \/ ~conn /\ Connect /\ bad' = FALSE /\ UNCHANGED put
     \/ /\ conn
        /\ \/ Connect /\ bad' = FALSE /\ put' = {x \in put : x[1][1] = "disk"}
           \/ Disconnect /\ bad' = FALSE /\ put' = {x \in put : x[1][1] = "disk"}
           \/ \E s \in Stored : RegisterStore(s[1], s[2]) /\ bad' = FALSE /\ UNCHANGED put
           \/ RegisterSheet("one") /\ bad' = FALSE /\ UNCHANGED put
           \/ Cache(~caching) /\ bad' = FALSE /\ UNCHANGED put
           \/ Adds
           \/ Gets

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what a tile gives was put into a store which is there now
Real == \A t \in Tiles, sheet \in {"one", "two"} : conn =>
          LET es == Todo(sheet, t) IN \A i \in DOMAIN es : \E x \in put : x[1] \in Places /\ Seen(x[2]) = es[i]
\* every element put, once or many times, in one store or several, is built once
Once0 == \A t \in Tiles : LET es == Todo("one", t) IN \A i, j \in DOMAIN es : es[i].id = es[j].id => i = j
HasIsHas == \A t \in Tiles : HasData(t) <=> (\E p \in Places : p \in DOMAIN data /\ t \in DOMAIN data[p])
Seen0 == \A t \in Tiles : (Gathered(Places, t) # <<>>) => HasData(t)
NothingAlone == ~conn => stores = <<>> /\ \A p \in DOMAIN data : p[1] = "disk"
\* nothing on disk is lost, a refused request changes nothing, a key keeps its store while connected
Kept0 == [][\A p \in DOMAIN data : p[1] = "disk" =>
              p \in DOMAIN data' /\ \A t \in DOMAIN data[p] : t \in DOMAIN data'[p] /\ data[p][t] = SubSeq(data'[p][t], 1, Len(data[p][t]))]_vars
Refused == [][bad' => UNCHANGED <<data, stores, kept, dirs>>]_vars
Stays == [][stores' = <<>> \/ \A k \in DOMAIN stores : k \in DOMAIN stores' /\ stores'[k] = stores[k]]_vars
Remembered == [][\A x \in DOMAIN kept : x \in DOMAIN kept' /\ kept'[x] = kept[x]]_vars
=============================================================================
