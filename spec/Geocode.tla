------------------------------ MODULE Geocode -------------------------------
(* The geocoder which asks a server. Every request for a place becomes one question to the server; the answer to it
   comes later, or never, and in any order among others. Who listens when an answer comes is told of every place in
   it, in its order. An answer which cannot be read, or a failure, tells nobody anything, and spoils nothing.   *)
EXTENDS Integers, Sequences

VARIABLES server,    \* where to ask: [search, reverse]
          asked,     \* questions: "open" or "done"
          readers,   \* how many listen: -1 once it is closed
          told       \* of the last step: for each listener, what it was told
geoVars == <<server, asked, readers, told>>

Nothing(n) == [i \in 1..n |-> <<>>]
N == IF readers < 0 THEN 0 ELSE readers

Start(s) == server' = s /\ asked' = <<>> /\ readers' = 0 /\ told' = <<>>
Listen == readers >= 0 /\ readers' = readers + 1 /\ told' = Nothing(readers + 1) /\ UNCHANGED <<server, asked>>
Ask == asked' = Append(asked, "open") /\ told' = Nothing(N) /\ UNCHANGED <<server, readers>>
\* only the first answer to a question counts; what cannot be read tells of no place
Reply(n, places) ==
  /\ n \in DOMAIN asked
  /\ asked' = [asked EXCEPT ![n] = "done"]
  /\ told' = [i \in 1..N |-> IF asked[n] = "open" THEN places ELSE <<>>]
  /\ UNCHANGED <<server, readers>>
Close == readers' = -1 /\ told' = <<>> /\ UNCHANGED <<server, asked>>

-----------------------------------------------------------------------------
(* The questions *)
Sorted(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
\* two opposite corners, each as longitude and latitude, in units of 1e-4 degree; box: <<lat, lon, lat, lon>>
IsViewBox(v, box) == IF box = <<>> THEN v = <<>>
                     ELSE Len(v) = 4 /\ Sorted(v[1], v[3]) = Sorted(box[2], box[4]) /\ Sorted(v[2], v[4]) = Sorted(box[1], box[3])
IsSearch(u, name, box) == /\ u.server = server.search /\ u.q = <<name>> /\ u.format = "json" /\ u.agent
                          /\ IsViewBox(u.box, box) /\ u.at = <<>>
IsReverse(u, at) == u.server = server.reverse /\ u.q = <<>> /\ u.format = "json" /\ u.agent /\ u.at = at /\ u.box = <<>>
=============================================================================
