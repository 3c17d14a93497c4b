----------------------------- MODULE TerrainMC ------------------------------
(* How terrain is made: layers from the top one down, the regions of no layer from the smallest to the largest, each one
   without what is taken already, and the background of the rest. For every arrangement and order of regions each cell is
   taken once, by the look which LooksAt asks for. Cells are squares of 4 units, looked at in their middles. *)
EXTENDS Terrain, TLC
CONSTANTS N, R
Sheet == [order |-> <<"a", "", "c">>]
Cells == (0..(N - 1)) \X (0..(N - 1))
Mid(c) == <<4 * c[1] + 2, 4 * c[2] + 2>>
Rect(a, b, c, d) == <<<<4 * a, 4 * b>>, <<4 * c, 4 * b>>, <<4 * c, 4 * d>>, <<4 * a, 4 * d>>>>
Rects == {Rect(q[1], q[2], q[3], q[4]) : q \in {q \in (0..N) \X (0..N) \X (0..N) \X (0..N) : q[1] < q[3] /\ q[2] < q[4]}}
Framed == IF N < 3 THEN {} ELSE {<<Rect(0, 0, N, N), Rect(1, 1, N - 1, N - 1)>>}
Rings == {<<r>> : r \in Rects} \cup Framed
Regions == [kind : {"ring"}, radius : {0}, rings : Rings, layer : {"a", "c"}, look : {"-"}]
           \cup [kind : {"ring"}, radius : {0}, rings : Rings, layer : {""}, look : {"x", "y"}]

VARIABLES regions, order, left, cover, times
vars == <<regions, order, left, cover, times>>
Init == /\ regions \in [1..R -> Regions]
        /\ order = Sheet.order
        /\ left = {i \in 1..R : regions[i].layer = Sheet.order[1]}
        /\ cover = [c \in Cells |-> "-"] /\ times = [c \in Cells |-> 0]
Look(i) == IF regions[i].layer = "" THEN regions[i].look ELSE regions[i].layer
Take(cs, look) == /\ cover' = [c \in Cells |-> IF c \in cs THEN look ELSE cover[c]]
                  /\ times' = [c \in Cells |-> times[c] + IF c \in cs THEN 1 ELSE 0]
Free(i) == {c \in Cells : times[c] = 0 /\ RingsSay(regions[i].rings, Mid(c)) = "yes"}
One == /\ order # <<>> /\ left # {}
       /\ \E i \in left :
            /\ order[1] = "" => \A j \in left : Smallest(regions[i]) <= Smallest(regions[j])
            /\ Take(Free(i), Look(i)) /\ left' = left \ {i} /\ UNCHANGED <<regions, order>>
Layer == /\ order # <<>> /\ left = {}
         /\ order' = Tail(order) /\ left' = (IF Len(order) = 1 THEN {} ELSE {i \in 1..R : regions[i].layer = order[2]})
         /\ UNCHANGED <<regions, cover, times>>
Rest == /\ order = <<>> /\ \E c \in Cells : times[c] = 0
        /\ Take({c \in Cells : times[c] = 0}, "canvas") /\ UNCHANGED <<regions, order, left>>
Next == One \/ Layer \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AtMostOnce == \A c \in Cells : times[c] <= 1
Done == order = <<>> /\ \A c \in Cells : times[c] = 1
AsAsked == Done => \A c \in Cells : cover[c] \in LooksAt(Sheet, regions, Mid(c))
\* what is asked for depends on nothing but the regions, and is one look unless two regions are equally large
Settled == order = Sheet.order /\ cover = [c \in Cells |-> "-"] => \A c \in Cells :
  LET ls == LooksAt(Sheet, regions, Mid(c)) IN
  ls # {} /\ (Cardinality(ls) > 1 => ls \subseteq {"x", "y"})
Finishes == <>Done
=============================================================================
