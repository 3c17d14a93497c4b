----------------------------- MODULE ClipTrace ------------------------------
(* Stores of elements whose style asks for clipping, recorded from the code. *)
EXTENDS ClipShape, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, grid, put      \* put: what was stored so far, <<element, content, levels>>

Init == l = 1 /\ grid = [lod |-> 1, x |-> 0, y |-> 0, k |-> 1] /\ put = <<>>

\* what is left of the stored elements in tile t
In(t) == SelectSeq(put, LAMBDA p : /\ t[1] \in p.lods[1]..p.lods[2]
                                   /\ Visible(p.el, TileExtent(grid, t)))

Shapes(e) ==
  LET b == FxBox(TileExtent(grid, e.tile))
         Stored(p) == e.tile[1] \in p.lods[1]..p.lods[2]
     IN /\ \A i \in 1..Len(e.els) :
             \E j \in 1..Len(put) : Stored(put[j]) /\ IsShapeOf(put[j].el, e.els[i], b)
                                  /\ ((\A p \in Vertices([k \in 1..Len(Parts(put[j].el)) |-> Parts(put[j].el)[k].g]) : InBox(b, Fx(p), -1))
                                       /\ put[j].el.t # "R" => e.cs[i] = put[j].c)
        /\ \A i, j \in 1..Len(e.els) : i # j => e.els[i].id # e.els[j].id
        /\ \A j \in 1..Len(put) : Stored(put[j]) /\ Present(put[j].el, b) => \E i \in 1..Len(e.els) : e.els[i].id = put[j].el.id

Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "es.new" -> grid' = e.grid /\ put' = <<>>
       [] e.ev = "es.put" -> put' = Append(put, [el |-> e.el, c |-> e.c, lods |-> e.lods]) /\ UNCHANGED grid
       [] e.ev = "es.geo" ->
            /\ UNCHANGED <<grid, put>>
            /\ e.err <= 50
            /\ LET want == In(e.tile) b == TileExtent(grid, e.tile)
               IN /\ Len(want) = Len(e.els)
                  /\ \A i \in 1..Len(want) : IsClipOf(want[i].el, e.els[i], b) = TRUE
                  \* what lies inside as a whole is untouched
                  /\ \A i \in 1..Len(want) :
                       LET h == BoxOf(want[i].el)
                       IN (want[i].el.t # "R" /\ b[1] < h[1] /\ b[2] < h[2] /\ h[3] < b[3] /\ h[4] < b[4])
                            => e.cs[i] = want[i].c
       [] e.ev = "es.shape" ->
            \* elements of any shape: the results in 64ths of a unit; ids are all different
            /\ UNCHANGED <<grid, put>>
            /\ Shapes(e) = TRUE

Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, grid, put>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
