----------------------------- MODULE FurnitureMC -----------------------------
(* Going along a way and putting things down: where they stand follows from the step alone. For all short ways and steps,
   things of a stretch are at least a step apart and less than two, the first one stands at its beginning, none at its end,
   and there would be no room for another one; sections of a wall follow each other without a gap of their own. *)
EXTENDS Furniture
CONSTANT N
VARIABLES way, step, i, placed
vars == <<way, step, i, placed>>
Pts == (0..N) \X (0..N)
Init == /\ way \in {w \in {<<a, b, c>> : a \in {<<0, 0>>}, b \in Pts, c \in Pts} : w[1] # w[2] /\ w[2] # w[3]}
        /\ step \in {700, 1300, 2000, 3500} /\ i = 1 /\ placed = <<>>
Next == /\ i <= 2 /\ i' = i + 1 /\ placed' = Append(placed, Along(<<way[i], way[i + 1]>>, step)) /\ UNCHANGED <<way, step>>
Spec == Init /\ [][Next]_vars
Gap2(p, q) == Dist2(p, q)      \* of hundredths
Apart == \A k \in DOMAIN placed : LET s == placed[k] IN
  /\ s # <<>> => s[1] = Hundred(way[k])
  /\ \A j \in DOMAIN s : LET e == IF j = Len(s) THEN Hundred(way[k + 1]) ELSE s[j + 1] d == Sqrt(Gap2(s[j], e)) mm == (d * MM100) \div 1000 IN mm >= step - 30 /\ mm < 2 * step + 30
  /\ s = <<>> => Millimetres(way[k], way[k + 1]) < step
Wall0 == [length |-> step, gap |-> 500, width |-> 300]
Walled == \A k \in DOMAIN placed :
  LET s == <<way[k], way[k + 1]>> n == Sections(s, Wall0) IN
  /\ n >= 1
  /\ n > 1 => n * (step + 500) <= Millimetres(s[1], s[2])
  /\ \A j \in 1..n : LET b == Box4(s, Wall0, j) IN Cardinality(b.foot) = 4 /\ n * b.length <= Len100(s[1], s[2])
=============================================================================
