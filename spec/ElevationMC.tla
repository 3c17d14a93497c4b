----------------------------- MODULE ElevationMC ----------------------------
(* A walk over a grid of samples by eighths of a cell: heights lie between those of the four samples around, are those of
   the samples at them, and never jump. Beside, threads which load the tile they need: looking up and loading are one step. *)
EXTENDS Elevation, FiniteSets, TLC
CONSTANTS N, Top
VARIABLES g, p, last
vars == <<g, p, last>>

At(q) == LET c(i) == IF i = (N - 1) * 8 THEN N - 2 ELSE i \div 8 IN <<c(q[1]), c(q[2]), q[1] - 8 * c(q[1]), q[2] - 8 * c(q[2])>>
H(x, y) == OfGrid(g, x, y)
Value(q) == Height64(H, At(q))
Init == \E hs \in [1..(N * N) -> {0, Top}] : g = [n |-> N, heights |-> hs] /\ p = <<0, 0>> /\ last = Height64(LAMBDA x, y : OfGrid(g, x, y), At(<<0, 0>>))
Next == \E d \in {<<1, 0>>, <<0, 1>>} :
          LET q == <<p[1] + d[1], p[2] + d[2]>> IN
          /\ q[1] <= 8 * (N - 1) /\ q[2] <= 8 * (N - 1)
          /\ p' = q /\ last' = Value(q) /\ UNCHANGED g
Spec == Init /\ [][Next]_vars

Corners == LET a == At(p) IN {H(a[1], a[2]), H(a[1] + 1, a[2]), H(a[1], a[2] + 1), H(a[1] + 1, a[2] + 1)}
Between == \A lo, hi \in Corners : (\A c \in Corners : lo <= c /\ c <= hi) => 64 * lo <= last /\ last <= 64 * hi
AtSamples == (p[1] % 8 = 0 /\ p[2] % 8 = 0) => last = 64 * H(p[1] \div 8, p[2] \div 8)
NoJump == [][Abs(last' - last) <= 8 * Top]_vars
\* the slack covers what a step of an eighth does
Slacked == LET a == At(p) IN \A d \in {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>} :
  LET q == <<p[1] + d[1], p[2] + d[2]>> IN
  (q[1] \in 0..8 * (N - 1) /\ q[2] \in 0..8 * (N - 1)) => Abs(Value(q) - last) <= 8 * Slack(H, N, a)
=============================================================================
