------------------------------- MODULE ClipMC -------------------------------
(* Clipping to the tiles of a level cuts an element into pieces that do not  *)
(* overlap and together are the element: for every comb-shaped area and      *)
(* every path of a small family, at the level of the grid and its neighbours *)
EXTENDS ClipShape, TLC

VARIABLES el, lev
G == [lod |-> 2, x |-> 1, y |-> 1, k |-> 8]
H == {1, 5, 9, 13}
\* a comb: three columns between a flat base and a height of their own
Comb(h) == [t |-> "A", id |-> 1, tags |-> <<>>,
  g |-> << <<1, 15>>, <<1, h[1]>>, <<7, h[1]>>, <<7, h[2]>>, <<11, h[2]>>, <<11, h[3]>>, <<15, h[3]>>, <<15, 15>> >>]
Path(h) == [t |-> "W", id |-> 1, tags |-> <<>>,
  g |-> << <<1, h[1]>>, <<7, h[1]>>, <<7, h[2]>>, <<13, h[2]>>, <<13, h[3]>> >>]
Init == /\ el \in {Comb(h) : h \in H \X H \X H} \cup {Path(h) : h \in {h \in H \X H \X H : h[1] # h[2] /\ h[2] # h[3]}}
        /\ lev = 0
Next == lev = 0 /\ lev' \in 1..3 /\ UNCHANGED el
Spec == Init /\ [][Next]_<<el, lev>>

Ts == IF lev = 0 THEN {} ELSE TilesOf(G, BoxOf(el), lev)
L(b) == Leaf(el, b)
Whole == L(Everything)
Cover == lev = 0 \/
         /\ UNION {L(TileExtent(G, t)).cells : t \in Ts} = Whole.cells
         /\ UNION {L(TileExtent(G, t)).segs : t \in Ts} = Whole.segs
Disjoint == \A t, u \in Ts : t # u => /\ L(TileExtent(G, t)).cells \cap L(TileExtent(G, u)).cells = {}
                                      /\ L(TileExtent(G, t)).segs \cap L(TileExtent(G, u)).segs = {}
\* the number of cells is the area of the comb
Area == el.t = "A" => Cardinality(Whole.cells) =
          6 * (15 - el.g[2][2]) + 4 * (15 - el.g[4][2]) + 4 * (15 - el.g[6][2])
\* the geometry of any shape agrees with that of cells and segments
Scaled1 == TLCEval([el EXCEPT !.g = Scaled(<<@>>)[1]])
Agrees == /\ el.t = "A" => \A i \in 0..15, j \in 0..15 : (<<i, j>> \in Whole.cells) = InPoly(Scaled1.g, <<F * i + 32, F * j + 32>>)
          /\ \A t \in Ts : Visible(el, TileExtent(G, t)) = Present(el, FxBox(TileExtent(G, t)))
          /\ ShapeOf(el, Scaled1, FxBox(<<-8, -8, 24, 24>>))
          /\ \A t \in Ts : ShapeOf(el, Scaled1, FxBox(TileExtent(G, t))) = (\A p \in Vertices(<<el.g>>) : InBox(TileExtent(G, t), p, 0))
Self == IsClipOf(el, el, Everything)
=============================================================================
