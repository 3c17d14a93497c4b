------------------------------- MODULE BuildMC ------------------------------
(* The building of a tile step by step, for all small tiles: every order in
   which builders of an element are called and completed, and a cancellation
   at every point. What comes out satisfies IsBuild; nothing is built twice. *)
EXTENDS Build

Rules == <<[sels |-> <<[names |-> <<"node", "way">>, z1 |-> 1, z2 |-> 2, conds |-> <<[k |-> "a", op |-> "has", v |-> ""]>>]>>,
            decls |-> <<<<"builder", "b1">>, <<"builder", "x">>>>],
           [sels |-> <<[names |-> <<"way">>, z1 |-> 1, z2 |-> 2, conds |-> <<[k |-> "b", op |-> "has", v |-> ""]>>]>>,
            decls |-> <<<<"builder", "b2">>>>]>>
Known == {"b1", "b2"}
Tile == <<1, 0, 0>>
E(t, id, tags, c, m) == [t |-> t, id |-> id, tags |-> tags, c |-> c, m |-> m]
A == <<<<"a", "1">>>>  B == <<<<"b", "1">>>>  AB == A \o B
W1 == E("W", 1, AB, "w1", <<>>)
N1 == E("N", 1, A, "n1", <<>>)
N2 == E("N", 2, A, "n2", <<>>)
Q2 == E("N", 2, <<<<"q", "1">>>>, "q2", <<>>)   \* without a style
P1 == E("R", 1, <<>>, "r1", <<E("W", 0, A, "p", <<>>), E("W", 0, A, "p", <<>>)>>)
P3 == E("R", 3, <<>>, "r3", <<E("W", 0, B, "p'", <<>>), N2>>)
Elements == {W1, N1, N2, Q2, P1, P3}

VARIABLES given, pc, at, ids, left, opened, log, closing, cancelled
vars == <<given, pc, at, ids, left, opened, log, closing, cancelled>>

Init == /\ given \in UNION {[1..n -> Elements] : n \in 0..3}
        /\ pc = "read" /\ at = 1 /\ ids = {} /\ left = <<>> /\ opened = {} /\ log = <<>> /\ closing = {}
        /\ cancelled \in BOOLEAN

\* the next element of the tile
Read == /\ pc = "read" /\ at <= Len(given)
        /\ LET e == given[at] IN
           IF e.t = "R" /\ e.tags = <<>>
           THEN IF e.id \in ids THEN UNCHANGED <<left, ids>> ELSE left' = e.m /\ ids' = ids \cup {e.id}
           ELSE left' = <<e>> /\ UNCHANGED ids
        /\ at' = at + 1 /\ pc' = "visit"
        /\ UNCHANGED <<given, opened, log, closing, cancelled>>
\* its pieces, one after the other; builders in any order
Visit == /\ pc = "visit" /\ left # <<>>
         /\ LET e == left[1]
                go == Styled(Rules, e, 1) /\ (e.id = 0 \/ e.id \notin ids)
            IN IF ~go THEN UNCHANGED <<ids, closing, pc>> /\ left' = Tail(left)
               ELSE ids' = ids \cup {e.id} /\ closing' = Named(Rules, e, 1) /\ pc' = "call" /\ UNCHANGED left
         /\ UNCHANGED <<given, at, opened, log, cancelled>>
Rec(b, do, t, c, id) == [b |-> b, do |-> do, t |-> t, c |-> c, id |-> id, tile |-> Tile]
Call == /\ pc = "call" /\ closing # {}
        /\ \E n \in closing :
             LET e == left[1] b == IF n \in Known THEN n ELSE "*" IN
             /\ closing' = closing \ {n}
             /\ opened' = opened \cup ({b} \ {"*"})
             /\ log' = log \o (IF b = "*" \/ b \in opened THEN <<>> ELSE <<Rec(b, "prepare", "", "", 0)>>)
                           \o <<Rec(b, "visit", e.t, e.c, e.id)>>
        /\ UNCHANGED <<given, pc, at, ids, left, cancelled>>
Called == pc = "call" /\ closing = {} /\ left' = Tail(left) /\ pc' = "visit"
          /\ UNCHANGED <<given, at, ids, opened, log, closing, cancelled>>
Back == pc = "visit" /\ left = <<>> /\ pc' = "read" /\ UNCHANGED <<given, at, ids, left, opened, log, closing, cancelled>>
End == /\ pc = "read" /\ (at > Len(given) \/ cancelled)
       /\ pc' = "complete" /\ closing' = opened /\ UNCHANGED <<given, at, ids, left, opened, log, cancelled>>
Complete == /\ pc = "complete" /\ closing # {}
            /\ \E b \in closing : closing' = closing \ {b} /\ log' = Append(log, Rec(b, "complete", "", "", 0))
            /\ UNCHANGED <<given, pc, at, ids, left, opened, cancelled>>
Done == pc = "complete" /\ closing = {} /\ pc' = "done" /\ UNCHANGED <<given, at, ids, left, opened, log, closing, cancelled>>
Next == Read \/ Visit \/ Call \/ Called \/ Back \/ End \/ Complete \/ Done
Spec == Init /\ [][Next]_vars

Outcome == IF at > Len(given) THEN "done" ELSE "cancelled"
Right == pc = "done" => IsBuild(given, Rules, Tile, Known, log, Outcome)
\* no id twice with one builder
AtMostOnce == \A i, j \in Visits(log) : i # j /\ log[i].id # 0 /\ log[i].id = log[j].id => log[i].b # log[j].b
\* everything with a style is built, unless something with its id was
NothingLost == pc = "done" /\ Outcome = "done" =>
  \A i \in DOMAIN given : given[i].tags # <<>> /\ Styled(Rules, given[i], 1) /\ given[i].id \notin {P1.id, P3.id} =>
     \E k \in Visits(log) : log[k].id = given[i].id
=============================================================================
