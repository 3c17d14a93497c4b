----------------------------- MODULE StoreTrace -----------------------------
(* Histories of an element store recorded from the code must be behaviours   *)
(* of Store.                                                                 *)
EXTENDS Store, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Init == l = 1 /\ grid = [lod |-> 1, x |-> 0, y |-> 0, k |-> 1] /\ rules = <<>> /\ tiles = <<>>

Place(e) ==
  IF "tile" \in DOMAIN e THEN [p |-> "tile", tile |-> e.tile]
  ELSE IF "box" \in DOMAIN e THEN [p |-> "box", box |-> e.box, lods |-> e.lods]
  ELSE [p |-> "all", lods |-> e.lods]

Query(e) == [nots |-> Words(e.nots), ands |-> Words(e.ands), ors |-> Words(e.ors), box |-> e.box, lods |-> e.lods]

Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "es.new" -> grid' = e.grid /\ rules' = e.rules /\ tiles' = <<>>
       [] e.ev = "es.put" -> /\ e.res = (Targets(e.el, Place(e)) # {})
                             /\ Put(e.el, e.c, Place(e))
       [] e.ev = "es.get" -> e.res = Read(e.tile, e.stop) /\ Same
       [] e.ev = "es.text" -> IsAnswer(Query(e), e.res) /\ Same
       [] e.ev = "es.has" -> e.res = HasData(e.tile) /\ Same
       [] e.ev = "es.erase" -> Erase(e.tile)
       [] e.ev = "es.reopen" -> Same
       [] e.ev = "es.flush" -> Same

Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, grid, rules, tiles>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
