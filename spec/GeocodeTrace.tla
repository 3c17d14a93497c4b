---------------------------- MODULE GeocodeTrace ----------------------------
EXTENDS Geocode, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1 /\ server = [search |-> "", reverse |-> ""] /\ asked = <<>> /\ readers = 0 /\ told = <<>>

Or(x, default) == IF x = "" THEN default ELSE x
Of(e) == [search |-> Or(e.search, "http://nominatim.openstreetmap.org/search"), reverse |-> Or(e.reverse, "http://nominatim.openstreetmap.org/reverse")]
Ends(e, n) == \A i \in DOMAIN e.ends : e.ends[i] = n
\* those who listened to something closed are still there, and hear nothing
Heard(e, now) == /\ e.errors = 0
                 /\ IF readers' < 0 THEN \A i \in DOMAIN e.heard : e.heard[i] = <<>> ELSE e.heard = now

Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "coder" -> Start(Of(e)) /\ e.asked = <<>>
       [] e.ev = "listen" -> Listen /\ e.asked = <<>> /\ Ends(e, 0)
       [] e.ev = "search" -> Ask /\ Len(e.asked) = 1 /\ IsSearch(e.asked[1], e.name, e.box) /\ Ends(e, 0)
       [] e.ev = "where" -> Ask /\ Len(e.asked) = 1 /\ IsReverse(e.asked[1], e.at) /\ Ends(e, 0)
       [] e.ev = "reply" -> Reply(e.n, e.places) /\ e.asked = <<>> /\ Ends(e, 0)
       [] e.ev = "close" -> Close /\ e.asked = <<>> /\ Ends(e, IF readers < 0 THEN 0 ELSE 1)
  /\ Heard(e, told')

Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, geoVars>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
