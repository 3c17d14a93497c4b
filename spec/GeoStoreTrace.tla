--------------------------- MODULE GeoStoreTrace ----------------------------
EXTENDS GeoStore, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Init == l = 1 /\ grid = [lod |-> 1, x |-> 0, y |-> 0, k |-> 1] /\ rules = <<>> /\ stores = <<>>

ST == INSTANCE Store WITH tiles <- <<>>
Place(e) ==
  IF "tile" \in DOMAIN e THEN [p |-> "tile", tile |-> e.tile]
  ELSE IF "box" \in DOMAIN e THEN [p |-> "box", box |-> e.box, lods |-> e.lods]
  ELSE [p |-> "all", lods |-> e.lods]
Query(e) == [nots |-> ST!Words(e.nots), ands |-> ST!Words(e.ands), ors |-> ST!Words(e.ors), box |-> e.box, lods |-> e.lods]
Same == UNCHANGED geoVars

Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "gs.new" -> /\ grid' = e.grid /\ rules' = e.rules
                             /\ stores' = [k \in {e.stores[i].key : i \in 1..Len(e.stores)} |-> <<>>]
       [] e.ev = "gs.add" -> e.refused = (e.key \notin Keys) /\ Add(e.key, e.el, e.c, Place(e))
       [] e.ev = "gs.import" ->
            /\ e.refused = (e.key \notin Keys)
            /\ IF e.cancelled THEN CancelledImport(e.key, e.tile)
               ELSE Import(e.key, e.els, e.cs, Place(e))
       [] e.ev = "gs.get" -> IsRead(e.tile, e.stop, e.res) /\ Same
       [] e.ev = "gs.text" -> IsAnswer(Query(e), e.res) /\ Same
       [] e.ev = "gs.has" -> e.res = HasData(e.tile) /\ Same

Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, grid, rules, stores>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
