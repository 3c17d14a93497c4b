------------------------------- MODULE LSystem -------------------------------
(* Stochastic context-free L-systems and the turtle which walks them.
   A system is [gens |-> n, axiom |-> <<symbol>>, prods |-> <<[p |-> symbol, w |-> weight, s |-> <<symbol>>]>>]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Productions(sys, x) == {i \in DOMAIN sys.prods : sys.prods[i].p = x}
\* what a symbol may become in one generation: any of its productions with a chance, itself if it has none
Choices(sys, x) == IF Productions(sys, x) = {} THEN {<<x>>}
                   ELSE {sys.prods[i].s : i \in {j \in Productions(sys, x) : sys.prods[j].w > 0}}

\* The positions after which a part of path starting at one of the positions from may end, if that part is
\* what x (or the word w) became after n generations. All symbols are rewritten at the same time.
RECURSIVE Ends(_, _, _, _, _), EndsOf(_, _, _, _, _, _)
Ends(sys, x, n, path, from) ==
  IF n = 0 \/ Productions(sys, x) = {}
  THEN {i + 1 : i \in {j \in from : j <= Len(path) /\ path[j] = x}}
  ELSE UNION {EndsOf(sys, s, 1, n - 1, path, from) : s \in Choices(sys, x)}
EndsOf(sys, w, k, n, path, from) ==
  IF k > Len(w) \/ from = {} THEN from
  ELSE EndsOf(sys, w, k + 1, n, path, Ends(sys, w[k], n, path, from))
Derives(sys, path) == Len(path) + 1 \in EndsOf(sys, sys.axiom, 1, sys.gens, path, {1})

--------------------------------------------------------------------------------
(* The turtle, in steps of a right angle (angle = 90) or a half turn (angle = 180) or none (angle = 0).
   It lies in a plane: turning turns its direction and its right hand, pitching its direction only,
   rolling its right hand only, all of them around the axis perpendicular to both. *)
Start(length, width) == [p |-> <<0, 0, 0>>, d |-> <<0, 1, 0>>, r |-> <<1, 0, 0>>, l |-> length, w |-> width, x |-> 0]
Cross(a, b) == a[1] * b[2] - a[2] * b[1]     \* of vectors of that plane: -1, 0 or 1 here
Quarter(v, s) == IF s = 0 THEN v ELSE IF s > 0 THEN <<-v[2], v[1], v[3]>> ELSE <<v[2], -v[1], v[3]>>
Half(v) == <<-v[1], -v[2], v[3]>>
\* v turned by s * angle around the axis of the state
Turned(st, v, s, angle) == CASE angle = 0 -> v
                             [] angle = 90 -> Quarter(v, s * Cross(st.d, st.r))
                             [] angle = 180 -> IF Cross(st.d, st.r) = 0 THEN v ELSE Half(v)
                             [] angle = 360 -> v
Defined(st, c, angle) == (c = "|" \/ (angle = 180 /\ c \in {"+", "-", "^", "&", "\\", "/"})) => Cross(st.d, st.r) # 0

Go(st, c, angle, scale, stack) ==
  CASE c = "G" -> [st EXCEPT !.p = <<@[1] + st.d[1] * st.l, @[2] + st.d[2] * st.l, @[3] + st.d[3] * st.l>>]
    [] c = "+" -> [st EXCEPT !.d = Turned(st, @, -1, angle), !.r = Turned(st, @, -1, angle)]
    [] c = "-" -> [st EXCEPT !.d = Turned(st, @, 1, angle), !.r = Turned(st, @, 1, angle)]
    [] c = "|" -> [st EXCEPT !.d = Half(@), !.r = Half(@)]
    [] c = "^" -> [st EXCEPT !.d = Turned(st, @, 1, angle)]
    [] c = "&" -> [st EXCEPT !.d = Turned(st, @, -1, angle)]
    [] c = "\\" -> [st EXCEPT !.r = Turned(st, @, -1, angle)]
    [] c = "/" -> [st EXCEPT !.r = Turned(st, @, 1, angle)]
    [] c = "$" -> [st EXCEPT !.w = @ * scale]
    [] c = "!" -> [st EXCEPT !.w = @ \div scale]
    [] c = ">" -> [st EXCEPT !.l = @ * scale]
    [] c = "<" -> [st EXCEPT !.l = @ \div scale]
    [] c = "@" -> [st EXCEPT !.x = @ + 1]
    [] c = "]" -> stack[Len(stack)]
    [] OTHER -> st      \* F, [ and words leave the state alone
GoStack(st, c, stack) == CASE c = "[" -> Append(stack, st)
                           [] c = "]" -> SubSeq(stack, 1, Len(stack) - 1)
                           [] OTHER -> stack
State(s) == [p |-> s.p, d |-> s.d, r |-> s.r, l |-> s.l, w |-> s.w, x |-> s.x]

\* steps: what was observed after every command
RECURSIVE Walk(_, _, _, _, _, _)
Walk(steps, i, st, stack, angle, scale) ==
  IF i > Len(steps) THEN TRUE
  ELSE LET c == steps[i].c
       IN IF c = "]" /\ stack = <<>> THEN FALSE
          ELSE IF ~Defined(st, c, angle) THEN TRUE
          ELSE LET n == Go(st, c, angle, scale, stack)
               IN IF State(steps[i]) = n THEN Walk(steps, i + 1, n, GoStack(st, c, stack), angle, scale) ELSE FALSE

Path(steps) == [i \in DOMAIN steps |-> steps[i].c]

\* a command which restores what was not saved ends the walk
RECURSIVE Unbalanced(_, _, _)
Unbalanced(path, i, n) == i <= Len(path) /\ (IF path[i] = "[" THEN Unbalanced(path, i + 1, n + 1)
                                             ELSE IF path[i] = "]" THEN n = 0 \/ Unbalanced(path, i + 1, n - 1)
                                             ELSE Unbalanced(path, i + 1, n))

\* Productions are chosen in proportion to their weights: counts of n independent choices stay within
\* eight standard deviations of what is expected.
Fair(n, count, weight, total) == LET dev == count * total - n * weight
                                 IN dev * dev <= 64 * n * weight * (total - weight)
=============================================================================
