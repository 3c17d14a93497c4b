-------------------------------- MODULE Api ---------------------------------
(* The exported interface: one client talks to the library through it. It connects to a folder, names style
   sheets and stores, adds elements and files to stores, and asks for tiles, for text and for elevation. What it is
   told comes through callbacks. This module puts Store, Style and Build together.
   Elements are [t, id, tags, g] as in Grid; an element given by coordinates is a node, an area if it ends where
   it begins, and else a way. No two different elements of a history have the same id.                       *)
EXTENDS Grid, TLC

VARIABLES grid,
          sheets,    \* written style sheets: name -> rules of Style
          conn,      \* connected?
          stores,    \* registered stores: key -> place, one of <<"mem", key>> and <<"disk", folder>>
          data,      \* place -> tiles, as in Store
          dirs,      \* rules of the sheets whose meshes there are folders for
          caching,   \* meshes of terrain are kept
          kept,      \* <<rules of a sheet, tile>> -> what was kept: sheets which say the same share it
          ele,       \* tile -> height in its file, for elevation type 2
          cell       \* height in the file of the cell of one degree (-1: no file), for elevation type 1
apiVars == <<grid, sheets, conn, stores, data, dirs, caching, kept, ele, cell>>

St(rs, m) == INSTANCE Store WITH rules <- rs, tiles <- m
B == INSTANCE Build

Own == {"terrain", "building", "tree", "barrier", "lamp"}

RECURSIVE Join(_)
Join(ps) == IF ps = <<>> THEN "" ELSE ps[1] \o Join(Tail(ps))
\* an element as a reader sees it
Seen(e) == [t |-> e.t, id |-> e.id, tags |-> [i \in DOMAIN e.tags |-> <<Join(e.tags[i][1]), Join(e.tags[i][2])>>], g |-> e.g]

\* what a style sheet means for storing
Says(ds, k, v) == \E i \in DOMAIN ds : ds[i] = <<k, v>>
StoreRule(r) == [t |-> r.sels[1].names[1], z1 |-> r.sels[1].z1, z2 |-> r.sels[1].z2,
                 conds |-> [i \in DOMAIN r.sels[1].conds |-> [op |-> r.sels[1].conds[i].op, k |-> <<r.sels[1].conds[i].k>>, v |-> <<r.sels[1].conds[i].v>>]],
                 decl |-> IF Says(r.decls, "skip", "true") THEN "skip" ELSE IF Says(r.decls, "skip", "false") THEN "noskip" ELSE "key"]
StoreRules(name) == [i \in DOMAIN sheets[name] |-> StoreRule(sheets[name][i])]

With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Only(f, s) == [y \in DOMAIN f \cap s |-> f[y]]

Places == {stores[k] : k \in DOMAIN stores}
DataOf(p) == IF p \in DOMAIN data THEN data[p] ELSE <<>>

-----------------------------------------------------------------------------
(* Life *)
Write(name, rules) == sheets' = With(sheets, name, rules) /\ UNCHANGED <<grid, conn, stores, data, dirs, caching, kept, ele, cell>>
Heights(t, h) == ele' = With(ele, t, h) /\ UNCHANGED <<grid, sheets, conn, stores, data, dirs, caching, kept, cell>>
Cell(h) == cell' = h /\ UNCHANGED <<grid, sheets, conn, stores, data, dirs, caching, kept, ele>>

\* what is only in memory goes with the connection; what is in folders stays in them
Connect == /\ conn' = TRUE /\ stores' = <<>> /\ caching' = TRUE
           /\ data' = Only(data, {p \in DOMAIN data : p[1] = "disk"})
           /\ UNCHANGED <<grid, sheets, dirs, kept, ele, cell>>
Disconnect == /\ conn' = FALSE /\ stores' = <<>> /\ caching' = TRUE
              /\ data' = Only(data, {p \in DOMAIN data : p[1] = "disk"})
              /\ UNCHANGED <<grid, sheets, dirs, kept, ele, cell>>

RegisterSheet(name) == dirs' = dirs \cup {sheets[name]} /\ UNCHANGED <<grid, sheets, conn, stores, data, caching, kept, ele, cell>>
\* a key keeps the store it was given first
RegisterStore(key, place) ==
  /\ stores' = IF key \in DOMAIN stores THEN stores ELSE With(stores, key, place)
  /\ UNCHANGED <<grid, sheets, conn, data, dirs, caching, kept, ele, cell>>
Cache(on) == caching' = on /\ UNCHANGED <<grid, sheets, conn, stores, data, dirs, kept, ele, cell>>

-----------------------------------------------------------------------------
(* Adding. A request which cannot be served says so once and changes nothing. *)
Levels == 1..19
LodsOf(place) == IF place.p = "tile" THEN <<place.tile[1], place.tile[1]>> ELSE place.lods
Served(key, sheet, place) == /\ key \in DOMAIN stores
                             /\ sheet \in DOMAIN sheets
                             /\ LodsOf(place)[1] \in Levels /\ LodsOf(place)[2] \in Levels

PutAll(sheet, m, es, place) ==
  LET after[i \in 0..Len(es)] == IF i = 0 THEN m ELSE St(StoreRules(sheet), <<>>)!AfterPut(after[i - 1], es[i], Seen(es[i]), place)
  IN after[Len(es)]

Add(key, sheet, es, place, readable, errors) ==
  /\ UNCHANGED <<grid, sheets, conn, stores, dirs, caching, kept, ele, cell>>
  /\ IF Served(key, sheet, place) /\ readable
     THEN /\ errors = 0
          /\ data' = With(data, stores[key], TLCEval(PutAll(sheet, DataOf(stores[key]), es, place)))
     ELSE errors = 1 /\ UNCHANGED data

HasData(t) == \E p \in Places : t \in DOMAIN DataOf(p)

-----------------------------------------------------------------------------
(* Asking for a tile *)
RECURSIVE Gathered(_, _)
Gathered(ps, t) == IF ps = {} THEN <<>>
                   ELSE LET p == CHOOSE p \in ps : TRUE
                            here == IF t \in DOMAIN DataOf(p) THEN DataOf(p)[t] ELSE <<>>
                        IN [i \in DOMAIN here |-> here[i].c] \o Gathered(ps \ {p}, t)
\* elements get here without order and without being built twice, since ids are unique
Todo(sheet, t) == B!Todo(Gathered(Places, t), sheets[sheet], t[1])

Elevation(kind, t) == CASE kind = 1 -> cell [] kind = 2 -> (IF t \in DOMAIN ele THEN ele[t] ELSE -1) [] OTHER -> 0
\* heights may not be known
Known(kind, t) == kind \notin {1, 2} \/ Elevation(kind, t) >= 0

Foreign(e, sheet, t) == Cardinality(B!Named(sheets[sheet], e, t[1]) \ Own)
To(b, todo, sheet, t) == {i \in DOMAIN todo : b \in B!Named(sheets[sheet], todo[i], t[1])}
AsSet(s) == {s[i] : i \in DOMAIN s}

\* one element handed over: as it was stored, with the height of its points and what its style says
IsElement(r, e, h, style) ==
  /\ ~r.odd
  /\ r.id = e.id
  /\ AsSet(r.tags) = AsSet(e.tags) /\ Len(r.tags) = Len(e.tags)
  /\ r.g = e.g
  /\ Len(r.h) = Len(e.g) /\ \A i \in DOMAIN r.h : r.h[i] = 1000 * h
  /\ AsSet(r.style) = style /\ Len(r.style) = Cardinality(style)

Styled(e, sheet, t) == B!S!Resolve(sheets[sheet], [t |-> B!Kind(e), id |-> e.id, tags |-> e.tags], t[1])
Handed(res, i) == {j \in DOMAIN res : res[j].id = i}

\* the elements of a reply, each to be handed over n(e) times; some of them may be missing
AreElements(res, es, n, IsOne(_, _), all) ==
  /\ \A j \in DOMAIN res : \E i \in DOMAIN es : es[i].id = res[j].id /\ IsOne(res[j], es[i])
  /\ \A i \in DOMAIN es : LET k == Cardinality(Handed(res, es[i].id)) IN k <= n[i] /\ (all => k = n[i])

-----------------------------------------------------------------------------
(* Meshes. The specifications of terrain and buildings say what they look like; here it is that they are those
   asked for, in the right place, whole. The sheets used give buildings a height of 10 m, red, and terrain blue. *)
F == INSTANCE Formed
Whole(m) == F!WellFormed(m.formed) /\ F!Mapped(m.formed) /\ m.formed.coords > 0 /\ m.formed.name = m.name

Near(a, b) == a - b \in -30..30
Spans(m, box, low, high) ==
  /\ Near(m.lo[1], 1000 * box[1]) /\ Near(m.lo[2], 1000 * box[2]) /\ Near(m.hi[1], 1000 * box[3]) /\ Near(m.hi[2], 1000 * box[4])
  /\ Near(m.lo[3], low) /\ Near(m.hi[3], high)

TileBox(t) ==
  LET side(n) == IF t[1] <= grid.lod THEN n * grid.k * 2^(grid.lod - t[1]) ELSE (n * grid.k) \div 2^(t[1] - grid.lod)
  IN <<side(t[2]) - grid.x * grid.k, side(t[3]) - grid.y * grid.k, side(t[2] + 1) - grid.x * grid.k, side(t[3] + 1) - grid.y * grid.k>>

IsBuilding(m, e, h) ==
  Whole(m) /\ m.name = "building:" \o ToString(e.id) /\ Spans(m, BoxOf(e), 1000 * h, 1000 * h + 10000) /\ m.colors = <<1>>
IsTerrain(m, t, h) ==
  Whole(m) /\ m.name = "terrain_surface" /\ Spans(m, TileBox(t), 1000 * h, 1000 * h) /\ m.colors = <<2>>

IsOfTerrain(m) == m.name = "terrain_surface"
Ground(ms) == {ms[j].digest : j \in {j \in DOMAIN ms : IsOfTerrain(ms[j])}}

\* what is kept is what was shown. If it was made for a request whose listener failed, nobody knows which height it has
IsKept(m, t, d) == IF d # "?" THEN m.digest = d
                   ELSE \E h \in {0, cell} \cup {ele[x] : x \in DOMAIN ele} : IsTerrain(m, t, h)

\* a reply to the request for tile t with sheet and elevation kind
\*   stop: "" | "before" (cancelled before it) | "first" (by the first thing handed over)
\*         | "throw" (a listener fails when the first thing is handed over, which is said)
GetTile(sheet, t, kind, stop, elements, meshes, errors) ==
  LET ok == sheet \in DOMAIN sheets
      todo == TLCEval(Todo(sheet, t))
      n == [i \in DOMAIN todo |-> Foreign(todo[i], sheet, t)]
      houses == To("building", todo, sheet, t)
      ground == To("terrain", todo, sheet, t) # {}
      at == IF ok THEN <<sheets[sheet], t>> ELSE <<>>
      hit == caching /\ at \in DOMAIN kept
      asked == (\E i \in DOMAIN todo : n[i] > 0) \/ houses # {} \/ (ground /\ ~hit)
      h == Elevation(kind, t)
      fails == ok /\ stop # "before" /\ asked /\ ~Known(kind, t)
      all == ok /\ stop = "" /\ ~fails
      isOne(r, e) == IsElement(r, e, h, Styled(e, sheet, t))
      named(i) == {j \in DOMAIN meshes : meshes[j].name = "building:" \o ToString(todo[i].id)}
      grounds == {j \in DOMAIN meshes : IsOfTerrain(meshes[j])}
      told == Len(elements) + Len(meshes)
  IN /\ errors = (IF ok /\ ~fails /\ (stop = "throw" => told = 0) THEN 0 ELSE 1)
     /\ (IF ~ok \/ stop = "before" THEN elements = <<>> /\ meshes = <<>>
        ELSE /\ AreElements(elements, todo, n, isOne, all)
             /\ stop \in {"first", "throw"} /\ (\E i \in DOMAIN todo : n[i] > 0) /\ ~fails => Len(elements) + Len(meshes) > 0
             /\ \A i \in houses : Cardinality(named(i)) <= 1 /\ (all => named(i) # {})
             /\ Cardinality(grounds) <= (IF ground THEN 1 ELSE 0)
             /\ all /\ ground => grounds # {}
             /\ \A j \in DOMAIN meshes :
                  IF IsOfTerrain(meshes[j]) THEN (IF hit THEN IsKept(meshes[j], t, kept[at]) ELSE IsTerrain(meshes[j], t, h))
                  ELSE \E i \in houses : IsBuilding(meshes[j], todo[i], h)) = TRUE
     \* the terrain is kept when there is a folder for it; if a request is cancelled meanwhile, it may be
     /\ LET worth == ok /\ ground /\ (grounds # {} \/ stop = "throw") /\ caching /\ sheets[sheet] \in dirs
                     /\ (~hit \/ (kept[at] = "?" /\ grounds # {}))
            more == With(kept, at, IF grounds = {} THEN "?" ELSE CHOOSE d \in Ground(meshes) : TRUE)
        IN kept' \in (IF ~worth \/ fails THEN {kept} ELSE IF all \/ hit THEN {more} ELSE {kept, more})
     /\ UNCHANGED <<grid, sheets, conn, stores, data, dirs, caching, ele, cell>>

-----------------------------------------------------------------------------
(* Asking for text *)
Found(q) == UNION {{<<p, h>> : h \in St(<<>>, DataOf(p))!Hits(q)} : p \in Places}
FoundOf(q, e) == {x \in Found(q) : DataOf(x[1])[x[2][1]][x[2][2]].c = e}
RECURSIVE SetToSeq(_)
SetToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SetToSeq(s \ {x})

GetText(q, stop, elements, errors) ==
  LET served == q.lods[1] \in Levels /\ q.lods[2] \in Levels
      es == IF served THEN SetToSeq({DataOf(x[1])[x[2][1]][x[2][2]].c : x \in Found(q)}) ELSE <<>>
      n == [i \in DOMAIN es |-> Cardinality(FoundOf(q, es[i]))]
      isOne(r, e) == IsElement(r, e, 0, {})
  IN /\ errors = (IF served /\ (stop = "throw" => elements = <<>>) THEN 0 ELSE 1)
     /\ (IF stop = "before" THEN elements = <<>> ELSE AreElements(elements, es, n, isOne, stop = "")) = TRUE
     /\ (stop \in {"first", "throw"} /\ es # <<>> => elements # <<>>) = TRUE
     /\ UNCHANGED apiVars
=============================================================================
