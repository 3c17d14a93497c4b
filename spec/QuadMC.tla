------------------------------- MODULE QuadMC -------------------------------
(* Laws of the quadtree, and the two ways to list the tiles of a box: row by row, and in a spiral from its
   middle; both give what Covers asks for, for every box and level. *)
EXTENDS Quad, TLC
CONSTANT MaxLevel
Levels == 0..MaxLevel
Tiles(l) == (0..(Pow2(l) - 1)) \X (0..(Pow2(l) - 1))
Points == (0..(W - 1)) \X (0..(W - 1))

ASSUME \A l \in Levels, p \in Points : LET b == BoxOf(l, TileAt(l, p))
          IN b[1] <= p[1] /\ p[1] < b[3] /\ b[2] <= p[2] /\ p[2] < b[4]
ASSUME \A l \in Levels : \A s, t \in Tiles(l) : s # t => ~Overlap(BoxOf(l, s), BoxOf(l, t))
ASSUME \A l \in Levels : \A t \in Tiles(l) : FromDigits(Digits(l, t)) = t
ASSUME \A l \in Levels \ {0} : \A t \in Tiles(l) :
          LET parent == FromDigits(SubSeq(Digits(l, t), 1, l - 1)) b == BoxOf(l, t) o == BoxOf(l - 1, parent)
          IN o[1] <= b[1] /\ o[2] <= b[2] /\ b[3] <= o[3] /\ b[4] <= o[4]

VARIABLES lod, box, how, x, y, dx, dy, i, out
vars == <<lod, box, how, x, y, dx, dy, i, out>>

Lo == TileAt(lod, <<box[1], box[2]>>)
Hi == TileAt(lod, <<box[3], box[4]>>)
Wide == Hi[1] - Lo[1] + 1
High == Hi[2] - Lo[2] + 1
Side == Max(Wide, High) + 1

Odd == {v \in 0..W : v % 2 = 1}
Init == /\ lod \in Levels
        /\ box \in {<<a, b, c, d>> : a, b, c, d \in Odd \cup {0, W}}
        /\ Valid(box)
        /\ how \in {"rows", "spiral"}
        /\ IF how = "rows" THEN x = Lo[1] /\ y = Lo[2] ELSE x = 0 /\ y = 0
        /\ dx = 0 /\ dy = -1 /\ i = 0 /\ out = <<>>

Row ==
  /\ how = "rows" /\ y <= Hi[2]
  /\ out' = IF Touch(BoxOf(lod, <<x, y>>), box) THEN Append(out, <<x, y>>) ELSE out
  /\ IF x = Hi[1] THEN x' = Lo[1] /\ y' = y + 1 ELSE x' = x + 1 /\ y' = y
  /\ UNCHANGED <<lod, box, how, dx, dy, i>>

Spiral ==
  /\ how = "spiral" /\ i < Side * Side
  /\ LET hw == Wide \div 2 hh == High \div 2
     IN out' = IF -hw <= x /\ x < Wide - hw /\ hh - High < y /\ y <= hh
               THEN Append(out, <<Lo[1] + hw + x, Lo[2] + hh - y>>) ELSE out
  /\ LET turn == x = y \/ (x < 0 /\ x = -y) \/ (x > 0 /\ x = 1 - y)
         a == IF turn THEN -dy ELSE dx
         b == IF turn THEN dx ELSE dy
     IN dx' = a /\ dy' = b /\ x' = x + a /\ y' = y + b
  /\ i' = i + 1
  /\ UNCHANGED <<lod, box, how>>
Next == Row \/ Spiral
Spec == Init /\ [][Next]_vars
Done == IF how = "rows" THEN y > Hi[2] ELSE i = Side * Side
Right == Done => Covers(lod, box, out)
NeverTwice == Len(out) = Cardinality({out[k] : k \in DOMAIN out})
=============================================================================
