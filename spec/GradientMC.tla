------------------------------ MODULE GradientMC -----------------------------
(* Small gradients and all times: the definition of Gradient is never empty, is exact at the stops and
   stays between the colours of the neighbouring stops; the gradients are emitted for replay. *)
EXTENDS Gradient, Json
CONSTANTS Mids, Steps
VARIABLE g
Cols == {[k |-> "rgb", v |-> <<0, 100, 255>>], [k |-> "rgb", v |-> <<200, 100, 3>>], [k |-> "name", v |-> "gold"], [k |-> "name", v |-> "nosuch"]}
Init == \E a, b \in Cols : g = <<[t |-> 0, c |-> a], [t |-> 100, c |-> b]>>
Next == Len(g) = 2 /\ \E m \in Mids, c \in Cols : g' = <<g[1], [t |-> m, c |-> c], g[2]>>
Spec == Init /\ [][Next]_g
Channels(n) == LET i == Before(g, n, Steps) j == After(g, n, Steps) IN
  [k \in 1..3 |-> {x \in 0..255 : ChannelOK(g, i, j, Colour(g[i].c)[k], Colour(g[j].c)[k], x, n, Steps)}]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Sound == \A n \in 0..Steps :
  LET i == Before(g, n, Steps) j == After(g, n, Steps) c == Channels(n)
  IN \A k \in 1..3 : LET a == Colour(g[i].c)[k] b == Colour(g[j].c)[k] IN
       /\ c[k] # {} /\ Cardinality(c[k]) <= 3
       /\ \A x \in c[k] : Min(a, b) - 2 <= x /\ x <= Max(a, b)
       /\ i = j => c[k] = {a}
\* digits: the remainder does not depend on how a number is split
Digits == \A n \in 1..7, a \in 0..9, b \in {0, 1, 5, 32767} : SeedMod(<<a, b>>, n) = (a * 32768 + b) % n /\ SeedMod(<<0, a, b>>, n) = SeedMod(<<a, b>>, n)
ASSUME Digits
Emit == PrintT("@@" \o ToJson(g))
=============================================================================
