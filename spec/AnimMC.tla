------------------------------- MODULE AnimMC ------------------------------
(* a group of a single one and of an inner group, and one which starts again *)
EXTENDS Anim, FiniteSets
VARIABLES st, starts, ends
vars == <<st, starts, ends>>
Init == /\ st = [a |-> Single(2, FALSE, "linear", "", 0), b |-> Single(4, FALSE, "slower", "", 0), c |-> Single(0, FALSE, "linear", "", 0),
                 g |-> Group(<<"b", "c">>, "", 0), top |-> Group(<<"a", "g">>, "", 0), d |-> Single(1, FALSE, "linear", "d", 1)]
        /\ starts = 0 /\ ends = 0
Ids == DOMAIN st
Do(n) == /\ st' = n
         /\ starts' = starts + (IF ~st["top"].on /\ n["top"].on THEN 1 ELSE 0)
         /\ ends' = n["top"].finished
Next == \/ \E i \in Ids : Do(Start(st, i)) \/ Do(Stop(st, i))
        \/ \E i \in {"top", "d", "g"}, dt \in {1, 3} : Do(Update(st, i, dt))
Spec == Init /\ [][Next]_vars
\* how often things happened is not part of what may happen next
View == <<[i \in Ids |-> <<st[i].on, st[i].acc, st[i].last, st[i].chain>>], starts - ends>>

\* every run of the group ends once
EndsOnce == ends = starts - (IF st["top"].on THEN 1 ELSE 0)
InBounds == \A i \in Ids : st[i].last \in 0..One /\ (st[i].on /\ st[i].kind = "single" => st[i].acc <= st[i].len)
\* a part which ended by itself is where its curve ends
Arrives == \A i \in Ids : (st[i].kind = "single" /\ ~st[i].on /\ st[i].acc > st[i].len) => st[i].last = One
\* stopping a group leaves none of its parts running
Quiet == [][\A i \in {"top", "g"} : (st[i].on /\ ~st'[i].on) => \A k \in DOMAIN st[i].parts : ~st'[st[i].parts[k]].on]_vars
Ends == \A i \in {"top", "g"} : \A dt \in {8} : st[i].on => LET one == Update(Update(st, i, dt), i, dt) IN ~one[i].on
=============================================================================
