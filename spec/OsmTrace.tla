------------------------------ MODULE OsmTrace ------------------------------
EXTENDS Osm, OsmFiles, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1

Cancelled(e) == "cancel" \in DOMAIN e /\ e.cancel >= 0
Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ e.exact
  /\ CASE e.ev = "osm.visit" ->
            IF Cancelled(e) THEN Len(e.out) <= e.cancel /\ PartlyDescribed(e.doc, e.out) ELSE Described(e.doc, e.out)
       [] e.ev = "osm.parse" /\ e.format \in {"xml", "pbf"} ->
            ~e.failed /\ Described(e.doc, e.out)
       [] e.ev = "osm.parse" /\ e.format = "json" -> ~e.failed /\ JsonDescribed(e.features, e.out)
       [] e.ev = "osm.damaged" -> e.cut => e.failed   \* what is cut short is refused
       [] e.ev = "osm.parse" /\ e.format = "shape" -> ~e.failed /\ ShapeDescribed(e, e.out)
Next == l <= Len(T) /\ (Step(T[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
