-------------------------------- MODULE Anim -------------------------------
(***************************************************************************)
(* Animations of the client. A single one moves along its curve while it   *)
(* runs and ends at the end of it; a group starts and stops its parts and  *)
(* ends with the last of them; whoever waits for the end is told once per  *)
(* run. The engine drives at most one animation.                           *)
(*                                                                         *)
(* Lengths and steps are in 1/64 of a second, positions on a curve in      *)
(* 2^-24 of it.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

One == 16777216
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

\* u in 64ths of the way
Value(curve, u) ==
  CASE curve = "linear" -> u * 262144
    [] curve = "faster" -> u * u * 4096
    [] curve = "faster2" -> Pow(u, 4)
    [] curve = "slower" -> One - (64 - u) * (64 - u) * 4096
    [] curve = "slower2" -> One - Pow(64 - u, 4)
    [] OTHER -> One     \* only its end is known here
Along(x, acc) == Value(x.curve, acc * (64 \div x.len))

Single(len, loop, curve, next, chain) ==
  [kind |-> "single", len |-> len, loop |-> loop, curve |-> curve, parts |-> <<>>, next |-> next, chain |-> chain,
   on |-> FALSE, acc |-> 0, finished |-> 0, applied |-> 0, last |-> 0]
Group(parts, next, chain) == [Single(0, FALSE, "linear", next, chain) EXCEPT !.kind = "group", !.parts = parts]

RECURSIVE Start(_, _), StartAll(_, _, _), Stop(_, _), StopAll(_, _, _), Finish(_, _), Update(_, _, _), UpdateAll(_, _, _, _, _)

Start(st, id) ==
  IF st[id].on THEN st
  ELSE StartAll([st EXCEPT ![id].on = TRUE, ![id].acc = 0], st[id].parts, 1)
StartAll(st, parts, k) == IF k > Len(parts) THEN st ELSE StartAll(Start(st, parts[k]), parts, k + 1)

Stop(st, id) == IF ~st[id].on THEN st ELSE Finish(StopAll([st EXCEPT ![id].on = FALSE], st[id].parts, 1), id)
StopAll(st, parts, k) == IF k > Len(parts) THEN st ELSE StopAll(Stop(st, parts[k]), parts, k + 1)

\* whoever waits may start another one, or the same one again
Finish(st, id) ==
  LET a == [st EXCEPT ![id].finished = @ + 1]
  IN IF st[id].next = "" \/ st[id].chain = 0 THEN a ELSE Start([a EXCEPT ![id].chain = @ - 1], st[id].next)

Apply(st, id, v) == [st EXCEPT ![id].applied = @ + 1, ![id].last = v]
Update(st, id, dt) ==
  LET x == st[id]
      acc == x.acc + dt
  IN IF ~x.on THEN st
     ELSE IF x.kind = "group" THEN UpdateAll(st, id, dt, 1, FALSE)
     ELSE IF x.len = 0 THEN Stop(Apply(st, id, One), id)
     ELSE IF acc <= x.len THEN Apply([st EXCEPT ![id].acc = acc], id, Along(x, acc))
     ELSE IF x.loop THEN Apply([st EXCEPT ![id].acc = 0], id, Along(x, 0))
     ELSE Stop(Apply([st EXCEPT ![id].acc = acc], id, One), id)      \* it arrives, however long the last step
UpdateAll(st, id, dt, k, some) ==
  IF k > Len(st[id].parts) THEN (IF some THEN st ELSE Stop(st, id))
  ELSE LET p == st[id].parts[k]
       IN IF ~st[p].on THEN UpdateAll(st, id, dt, k + 1, some)
          ELSE LET a == Update(st, p, dt) IN UpdateAll(a, id, dt, k + 1, some \/ a[p].on)

\* points on a path, in 1/512; k in eighths
Lerp(p, q, k) == [i \in 1..3 |-> 64 * (p[i] * (8 - k) + q[i] * k)]
Bezier2(p, q, r, k) == [i \in 1..3 |-> 8 * ((8 - k) * (8 - k) * p[i] + 2 * (8 - k) * k * q[i] + k * k * r[i])]
Bezier3(p, q, r, s, k) == [i \in 1..3 |-> Pow(8 - k, 3) * p[i] + 3 * (8 - k) * (8 - k) * k * q[i] + 3 * (8 - k) * k * k * r[i] + Pow(k, 3) * s[i]]
Slope2(p, q, r, k) == [i \in 1..3 |-> (8 - k) * (q[i] - p[i]) + k * (r[i] - q[i])]
Slope3(p, q, r, s, k) == [i \in 1..3 |-> (8 - k) * (8 - k) * (q[i] - p[i]) + 2 * (8 - k) * k * (r[i] - q[i]) + k * k * (s[i] - r[i])]
\* a spline through every third point: which piece, and where in it
Piece(n, k) == IF k >= 8 THEN n \div 3 - 1 ELSE (k * (n \div 3)) \div 8
Within(n, k) == IF k >= 8 THEN 8 ELSE (k * (n \div 3)) % 8
At(kind, p, k) ==
  IF kind = "linear" THEN Lerp(p[1], p[2], k)
  ELSE IF Len(p) = 3 THEN Bezier2(p[1], p[2], p[3], k)
  ELSE LET i == 3 * Piece(Len(p) - 1, k) IN Bezier3(p[i + 1], p[i + 2], p[i + 3], p[i + 4], Within(Len(p) - 1, k))
Slope(kind, p, k) ==
  IF kind = "linear" THEN [i \in 1..3 |-> p[2][i] - p[1][i]]
  ELSE IF Len(p) = 3 THEN Slope2(p[1], p[2], p[3], k)
  ELSE LET i == 3 * Piece(Len(p) - 1, k) IN Slope3(p[i + 1], p[i + 2], p[i + 3], p[i + 4], Within(Len(p) - 1, k))
Possible(kind, p) == IF kind = "linear" THEN Len(p) = 2 ELSE Len(p) >= 3

Abs(x) == IF x < 0 THEN -x ELSE x
\* v is a unit vector (in thousandths) in direction of d
Towards(v, d) ==
  LET size == Abs(d[1]) + Abs(d[2]) + Abs(d[3])
      len2 == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
  IN size > 0 => /\ len2 \in 995000..1005000
                 /\ \A i, j \in 1..3 : Abs(v[i] * d[j] - v[j] * d[i]) <= 2 * size
                 /\ v[1] * d[1] + v[2] * d[2] + v[3] * d[3] > 0
Both == <<0, 9607, 38060, 84265, 146447, 222215, 308658, 402455, 500000, 597545, 691342, 777785, 853553, 915735, 961940, 990393, 1000000>>
CurveAt(curve, i) ==   \* in millionths, i = 1..17
  IF curve = "both" THEN Both[i] ELSE ((Value(curve, 4 * (i - 1)) \div 256) * 15625) \div 1024
=============================================================================
