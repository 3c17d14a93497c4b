--------------------------- MODULE ElevationTrace ---------------------------
EXTENDS Elevation, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, grids, cells
vars == <<l, grids, cells>>
None == [x \in {} |-> 0]
Init == l = 1 /\ grids = None /\ cells = None
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Right(e, v) ==
  IF e.kind = "flat" THEN v = 0
  ELSE IF e.kind = "grid"
  THEN LET k == <<e.lod, e.tile>> IN
       IF k \notin DOMAIN grids \/ grids[k].n = 0 THEN v = Refused
       ELSE IsHeight(v, LAMBDA x, y : OfGrid(grids[k], x, y), grids[k].n, e.at, 100)
  ELSE LET k == <<e.lat, e.lon>> IN
       IF k \notin DOMAIN cells \/ "cut" \in DOMAIN cells[k] THEN v = Refused
       ELSE \* a tile which touches cells that are not there may be refused
            \/ v = Refused /\ \E i \in DOMAIN e.needs : e.needs[i] \notin DOMAIN cells \/ "cut" \in DOMAIN cells[e.needs[i]]
            \/ IsHeight(v, LAMBDA x, y : OfCell(cells[k], x, y), 3600 \div e.seconds + 1, e.at, 10000)

Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  \* what threads do at once is as if one after another: no access without the lock
  /\ e.races = 0
  /\ CASE e.ev = "reset" -> grids' = None /\ cells' = None
       [] e.ev = "restart" -> UNCHANGED <<grids, cells>>
       [] e.ev = "grid" -> grids' = Put(grids, <<e.lod, e.tile>>, [n |-> e.n, heights |-> e.heights]) /\ UNCHANGED cells
       [] e.ev = "cell" -> cells' = Put(cells, <<e.lat, e.lon>>, e) /\ UNCHANGED grids
       [] e.ev = "sample" -> /\ Right(e, e.value) = TRUE
                             \* asking does not create files
                             /\ ("file" \in DOMAIN e => e.file = (<<e.lat, e.lon>> \in DOMAIN cells)) = TRUE
                             /\ UNCHANGED <<grids, cells>>
       [] e.ev = "threads" -> /\ Len(e.values) = Len(e.samples)
                              /\ (\A i \in DOMAIN e.samples : Right(e.samples[i], e.values[i])) = TRUE
                              /\ UNCHANGED <<grids, cells>>
Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
