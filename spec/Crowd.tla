------------------------------- MODULE Crowd --------------------------------
(* Several threads use the exported interface at once. Each request is served as it is alone: what was there before,
   or was added by the same thread before, is in a reply; what other threads add at the same time may be in it, each
   element wholly; nothing else is. When all are done, everything is there, once.
   Nobody cancels, all requests can be served and ask for one kind of elevation, and no element becomes terrain
   meanwhile.                                                                                                     *)
EXTENDS Api

Place(e) ==
  IF "tile" \in DOMAIN e THEN [p |-> "tile", tile |-> e.tile]
  ELSE IF "box" \in DOMAIN e THEN [p |-> "box", box |-> e.box, lods |-> e.lods]
  ELSE [p |-> "all", lods |-> e.lods]
Words(ps) == St(<<>>, <<>>)!Words(ps)
Query(e) == [nots |-> Words(e.nots), ands |-> Words(e.ands), ors |-> Words(e.ors), box |-> e.box, lods |-> e.lods]

IsAdd(q) == q.ev \in {"add", "import"}
Els(q) == IF q.ev = "add" THEN <<q.el>> ELSE q.els

\* the data after the requests rs, one after the other, of which only those which add something count
AfterAll(d, rs) ==
  LET after[i \in 0..Len(rs)] ==
        IF i = 0 THEN d
        ELSE IF ~IsAdd(rs[i]) THEN after[i - 1]
        ELSE LET p == stores[rs[i].key]
                 now == after[i - 1]
             IN With(now, p, PutAll(rs[i].sheet, IF p \in DOMAIN now THEN now[p] ELSE <<>>, Els(rs[i]), Place(rs[i])))
  IN after[Len(rs)]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

At(d, p) == IF p \in DOMAIN d THEN d[p] ELSE <<>>
RECURSIVE GatheredIn(_, _, _)
GatheredIn(d, ps, t) == IF ps = {} THEN <<>>
                        ELSE LET p == CHOOSE p \in ps : TRUE
                                 here == IF t \in DOMAIN At(d, p) THEN At(d, p)[t] ELSE <<>>
                             IN [i \in DOMAIN here |-> here[i].c] \o GatheredIn(d, ps \ {p}, t)
TodoIn(d, q) == B!Todo(GatheredIn(d, Places, q.tile), sheets[q.sheet], q.tile[1])
Ids(es) == {es[i].id : i \in DOMAIN es}

\* between what is sure and what may be
Between(res, sure, may, n, IsOne(_, _)) ==
  /\ \A j \in DOMAIN res : \E i \in DOMAIN may : may[i].id = res[j].id /\ IsOne(res[j], may[i])
  /\ \A i \in DOMAIN may : LET k == Cardinality(Handed(res, may[i].id))
                           IN IF may[i].id \in sure THEN k = n[i] ELSE k \in {0, n[i]}

OneGet(q, a, before, after) ==
  LET may == TLCEval(TodoIn(after, q))
      sure == TLCEval(Ids(TodoIn(before, q)))
      n == [i \in DOMAIN may |-> Foreign(may[i], q.sheet, q.tile)]
      h == Elevation(q.ele, q.tile)
      isOne(r, e) == IsElement(r, e, h, Styled(e, q.sheet, q.tile))
      houses == To("building", may, q.sheet, q.tile)
      ground == To("terrain", may, q.sheet, q.tile) # {}
      named(i) == {j \in DOMAIN a.meshes : a.meshes[j].name = "building:" \o ToString(may[i].id)}
      grounds == {j \in DOMAIN a.meshes : IsOfTerrain(a.meshes[j])}
      at == <<sheets[q.sheet], q.tile>>
  IN /\ Between(a.elements, sure, may, n, isOne)
     /\ \A i \in houses : Cardinality(named(i)) \in (IF may[i].id \in sure THEN {1} ELSE {0, 1})
     /\ Cardinality(grounds) = (IF ground THEN 1 ELSE 0)
     /\ \A j \in DOMAIN a.meshes :
          IF IsOfTerrain(a.meshes[j])
          THEN (IF caching /\ at \in DOMAIN kept THEN IsKept(a.meshes[j], q.tile, kept[at]) = TRUE ELSE IsTerrain(a.meshes[j], q.tile, h) = TRUE)
          ELSE \E i \in houses : IsBuilding(a.meshes[j], may[i], h)

FoundIn(d, q) == UNION {{<<p, h>> : h \in St(<<>>, At(d, p))!Hits(q)} : p \in Places}
OneText(q, a, before, after) ==
  LET of(d, x) == At(d, x[1])[x[2][1]][x[2][2]].c
      times(d, e) == Cardinality({x \in FoundIn(d, q) : of(d, x) = e})
      may == {of(after, x) : x \in FoundIn(after, q)}
      isOne(r, e) == IsElement(r, e, 0, {})
  IN /\ a.meshes = <<>>
     /\ \A j \in DOMAIN a.elements : \E e \in may : e.id = a.elements[j].id /\ isOne(a.elements[j], e)
     /\ \A e \in may : Cardinality(Handed(a.elements, e.id)) \in times(before, e)..times(after, e)

HasIn(d, t) == \E p \in Places : t \in DOMAIN At(d, p)

Answer(q, a, before, after) ==
  CASE q.ev = "get" -> OneGet(q, a, before, after)
    [] q.ev = "text" -> OneText(Query(q), a, before, after)
    [] q.ev = "has" -> (HasIn(before, q.tile) => a.res) /\ (a.res => HasIn(after, q.tile))
    [] OTHER -> TRUE

\* the terrain of a tile is the same for everyone, and is kept
Lands(threads, res) == {<<i, k>> \in UNION {{<<i, k>> : k \in DOMAIN threads[i]} : i \in DOMAIN threads} :
                          threads[i][k].ev = "get" /\ Ground(res[i][k].meshes) # {}}
KeyOf(q) == <<sheets[q.sheet], q.tile>>

Par(threads, res, errors) ==
  LET after == TLCEval(AfterAll(data, Flat(threads)))
      lands == TLCEval(Lands(threads, res))
      keeps == {x \in lands : caching /\ sheets[threads[x[1]][x[2]].sheet] \in dirs /\ KeyOf(threads[x[1]][x[2]]) \notin DOMAIN kept}
  IN /\ errors = 0
     /\ \A i \in DOMAIN threads :
          /\ Len(res[i]) = Len(threads[i])
          /\ \A k \in DOMAIN threads[i] :
               (IF IsAdd(threads[i][k]) THEN TRUE ELSE Answer(threads[i][k], res[i][k], TLCEval(AfterAll(data, SubSeq(threads[i], 1, k - 1))), after)) = TRUE
     /\ \A x, y \in lands : KeyOf(threads[x[1]][x[2]]) = KeyOf(threads[y[1]][y[2]])
          => Ground(res[x[1]][x[2]].meshes) = Ground(res[y[1]][y[2]].meshes)
     /\ data' = after
     /\ kept' = LET more == {KeyOf(threads[x[1]][x[2]]) : x \in keeps}
                    of(at) == CHOOSE d \in UNION {Ground(res[x[1]][x[2]].meshes) : x \in {x \in keeps : KeyOf(threads[x[1]][x[2]]) = at}} : TRUE
                IN [at \in DOMAIN kept \cup more |-> IF at \in DOMAIN kept THEN kept[at] ELSE of(at)]
     /\ UNCHANGED <<grid, sheets, conn, stores, dirs, caching, ele, cell>>
=============================================================================
