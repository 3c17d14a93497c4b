------------------------------ MODULE AcquireMC ------------------------------
(* Tiles asked for, replies, failures and ticks in any order, replies in any number at once: what must come of it.  *)
EXTENDS Acquire
CONSTANTS Failures, Ids
VARIABLES w, asked, told, dropped, written, twice
vars == <<w, asked, told, dropped, written, twice>>

\* two tiles of the same place, a neighbour in the same cell, a tile without elevation, two which share vector data
Tiles == << [id |-> 1, x |-> 1, y |-> 1, lod |-> 16, ele |-> 1, cell |-> <<0, 0>>], [id |-> 2, x |-> 1, y |-> 1, lod |-> 16, ele |-> 2, cell |-> <<0, 0>>],
            [id |-> 3, x |-> 0, y |-> 1, lod |-> 16, ele |-> 1, cell |-> <<0, 0>>], [id |-> 4, x |-> 2, y |-> 2, lod |-> 4, ele |-> 0, cell |-> <<0, 0>>],
            [id |-> 5, x |-> 3, y |-> 2, lod |-> 4, ele |-> 2, cell |-> <<0, 0>>] >>
Remove(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

(* the order in which things wait is of no interest but in the queue *)
Canon(v) == [v EXCEPT !.net = SortSeq(@, LAMBDA a, b : a.tile.id < b.tile.id), !.adds = SortSeq(@, LAMBDA a, b : a.tile.id < b.tile.id), !.gets = SortSeq(@, LAMBDA a, b : a.id < b.id)]
Keys == [i \in DOMAIN Tiles |-> KeyOf(Tiles[i].x, Tiles[i].y, Tiles[i].lod)]
FastKey(t) == IF "id" \in DOMAIN t THEN Keys[t.id] ELSE KeyOf(t.x, t.y, t.lod)

Init == /\ w = Start([limit |-> TRUE, eleformat |-> "ele", osmformat |-> "xml", mapformat |-> "json"], {}, {})
        /\ asked = {} /\ told = [i \in Ids |-> 0] /\ dropped = {} /\ written = {} /\ twice = FALSE

Ask == \E i \in Ids \ asked :
         /\ asked' = asked \cup {i}
         /\ \E o \in Ele(w, w.files, w.files, Tiles[i]) : w' = Canon(Apply(w, Tiles[i], o.k))
         /\ UNCHANGED <<told, dropped, written, twice>>
Answer == \E i \in DOMAIN w.net :
            LET r == w.net[i] p == Path(w, r.tile, r.stage) v == [w EXCEPT !.net = Remove(@, i), !.files = @ \cup {p}] IN
              /\ \E o \in After(v, v.files, v.files, r.tile, r.stage) : w' = Canon(Apply(v, r.tile, o.k))
              /\ written' = IF p \in w.files THEN written ELSE written \cup {p}
              /\ twice' = (twice \/ (p \notin w.files /\ p \in written))
              /\ UNCHANGED <<asked, told, dropped>>
Fail == /\ Cardinality(dropped) < Failures
        /\ \E i \in DOMAIN w.net :
             /\ w' = [w EXCEPT !.net = Remove(@, i)] /\ dropped' = dropped \cup {w.net[i].tile.id}
             /\ UNCHANGED <<asked, told, written, twice>>
Second == w.queue # <<>> /\ w' = Canon(Tick(w)) /\ UNCHANGED <<asked, told, dropped, written, twice>>
Imported == \E i \in DOMAIN w.adds :
              /\ w' = Canon(Apply([w EXCEPT !.adds = Remove(@, i), !.lib = @ \cup {w.adds[i].key}], w.adds[i].tile, "get"))
              /\ UNCHANGED <<asked, told, dropped, written, twice>>
Loaded == \E i \in DOMAIN w.gets :
            /\ w' = [w EXCEPT !.gets = Remove(@, i)]
            /\ told' = [told EXCEPT ![w.gets[i].id] = @ + 1]
            /\ UNCHANGED <<asked, dropped, written, twice>>
Next == Ask \/ Answer \/ Fail \/ Second \/ Imported \/ Loaded
Spec == Init /\ [][Next]_vars /\ WF_vars(Answer) /\ WF_vars(Second) /\ WF_vars(Imported) /\ WF_vars(Loaded)

Count(q, f(_), i) == Cardinality({k \in DOMAIN q : f(q[k]) = i})
Self(t) == t.id
Of(r) == r.tile.id
Places(i) == Count(w.queue, Self, i) + Count(w.net, Of, i) + Count(w.adds, Of, i) + Count(w.gets, Self, i) + told[i] + (IF i \in dropped THEN 1 ELSE 0)
(* a tile is in one place, is told once at most *)
Kept == \A i \in Ids : Places(i) = (IF i \in asked THEN 1 ELSE 0)
OnceWritten == ~twice
(* map data is never fetched before elevation is there, nothing is loaded which the store does not have *)
EleFirst == \A k \in DOMAIN w.net : w.net[k].stage = "data" /\ w.net[k].tile.ele # 0 => ElePath(w, w.net[k].tile) \in w.files
HasData == \A k \in DOMAIN w.gets : Key(w.gets[k]) \in w.lib
Raw == \A k \in DOMAIN w.adds : DataPath(w, w.adds[k].tile) \in w.files
Shared == DataPath(w, Tiles[4]) = DataPath(w, Tiles[5]) /\ ElePath(w, Tiles[1]) = ElePath(w, Tiles[3])
(* whoever asks is told, unless the network fails *)
Served == \A i \in Ids : (i \in asked) ~> (told[i] = 1 \/ i \in dropped)
===============================================================================
