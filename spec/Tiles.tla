-------------------------------- MODULE Tiles ------------------------------
(***************************************************************************)
(* Tiles of the client and the elements which are not cut at their borders.*)
(* An element is built once: the tile which builds it registers it, others *)
(* see that it is there; when the tile goes, so do its registrations.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NewTile(e) == [tile |-> e.tile, lod |-> e.lod, sheet |-> e.sheet, projection |-> e.projection, elevation |-> e.elevation,
               disposed |-> FALSE, mine |-> {}]
Start == [tiles |-> <<>>, known |-> {}]

Has(s, id, x) == x \in s.known \/ x \in s.tiles[id].mine
Register(s, id, x) == IF s.tiles[id].disposed THEN s
                      ELSE [s EXCEPT !.tiles[id].mine = @ \cup {x}, !.known = @ \cup {x}]
Load(s, id, x) == IF Has(s, id, x) THEN s ELSE Register(s, id, x)
Dispose(s, id) == [s EXCEPT !.known = @ \ s.tiles[id].mine, !.tiles[id].mine = {}, !.tiles[id].disposed = TRUE]
Same(a, b) == a.tile = b.tile /\ a.lod = b.lod /\ a.sheet = b.sheet /\ a.projection = b.projection /\ a.elevation = b.elevation

(***************************************************************************)
(* A set used by several threads: is there an order of whole operations    *)
(* which gives these answers?                                              *)
(***************************************************************************)
Answer(op, there) == CASE op = "add" -> ~there [] op = "remove" -> there [] op = "has" -> there
After(op, there) == CASE op = "add" -> TRUE [] op = "remove" -> FALSE [] op = "has" -> there

RECURSIVE Possible(_, _, _, _, _)
Possible(programs, answers, there, at, end) ==
  LET open == {k \in DOMAIN programs : at[k] <= Len(programs[k])}
  IN IF open = {} THEN there = end
     ELSE \E k \in open : LET op == programs[k][at[k]]
                          IN /\ answers[k][at[k]] = Answer(op, there)
                             /\ Possible(programs, answers, After(op, there), [at EXCEPT ![k] = @ + 1], end)
=============================================================================
