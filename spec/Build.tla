------------------------------- MODULE Build --------------------------------
(* Building a tile: the elements a reader of the tile gets from all stores go,
   each once, to the builders its style names.
   Elements are [t, id, tags, c |-> content, m |-> members]; a tile gives a
   sequence of them. A relation without tags stands for the pieces of one
   element: its members are built instead of it.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

S == INSTANCE Style WITH sheets <- <<>>

Kind(e) == CASE e.t = "N" -> "node" [] e.t = "W" -> "way" [] e.t = "A" -> "area" [] e.t = "R" -> "relation"
Styled(rules, e, lod) == S!Has(rules, [t |-> Kind(e), id |-> e.id, tags |-> e.tags], lod)
Named(rules, e, lod) == S!Builders(rules, [t |-> Kind(e), id |-> e.id, tags |-> e.tags], lod)

\* What has to be built: [ids |-> ids met so far, todo |-> sequence of elements]
Once(st, e, rules, lod) ==
  IF Styled(rules, e, lod) /\ (e.id = 0 \/ e.id \notin st.ids)
  THEN [ids |-> st.ids \cup {e.id}, todo |-> Append(st.todo, e)] ELSE st
RECURSIVE All(_, _, _, _)
All(st, es, rules, lod) == IF es = <<>> THEN st ELSE All(Once(st, es[1], rules, lod), Tail(es), rules, lod)
Meet(st, e, rules, lod) ==
  IF e.t = "R" /\ e.tags = <<>>
  THEN IF e.id # 0 /\ e.id \in st.ids THEN st
       ELSE All([st EXCEPT !.ids = @ \cup {e.id}], e.m, rules, lod)
  ELSE Once(st, e, rules, lod)
RECURSIVE Plan(_, _, _, _)
Plan(st, es, rules, lod) == IF es = <<>> THEN st.todo ELSE Plan(Meet(st, es[1], rules, lod), Tail(es), rules, lod)
Todo(es, rules, lod) == Plan([ids |-> {}, todo |-> <<>>], es, rules, lod)

--------------------------------------------------------------------------------
\* The log of a build: [b |-> builder, do |-> "prepare" | "visit" | "complete", t, c, id, ...]. Builders which
\* nobody registered are all "*": the element goes to the caller.
BuildersOf(e, rules, lod, known) ==
  LET n == Named(rules, e, lod) IN [own |-> n \cap known, foreign |-> Cardinality(n \ known)]

\* how often builder b gets content c of kind t
RECURSIVE Wanted(_, _, _, _, _, _, _)
Wanted(todo, rules, lod, known, b, t, c) ==
  IF todo = <<>> THEN 0
  ELSE LET e == todo[1] w == BuildersOf(e, rules, lod, known)
       IN (IF e.t = t /\ e.c = c THEN (IF b = "*" THEN w.foreign ELSE IF b \in w.own THEN 1 ELSE 0) ELSE 0)
          + Wanted(Tail(todo), rules, lod, known, b, t, c)
RECURSIVE Total(_, _, _, _)
Total(todo, rules, lod, known) ==
  IF todo = <<>> THEN 0
  ELSE LET w == BuildersOf(todo[1], rules, lod, known)
       IN Cardinality(w.own) + w.foreign + Total(Tail(todo), rules, lod, known)

Visits(log) == {i \in DOMAIN log : log[i].do = "visit"}
Got(log, b, t, c) == Cardinality({i \in Visits(log) : log[i].b = b /\ log[i].t = t /\ log[i].c = c})

\* every builder is prepared, for the tile, before its first element
Prepared(log, tile) ==
  /\ \A i \in Visits(log) : log[i].b # "*" => \E j \in 1..(i - 1) : log[j].do = "prepare" /\ log[j].b = log[i].b
  /\ \A i \in DOMAIN log : log[i].do = "prepare" =>
       /\ log[i].tile = tile
       /\ \A j \in DOMAIN log : j # i /\ log[j].do = "prepare" => log[j].b # log[i].b
       /\ \E j \in Visits(log) : log[j].b = log[i].b
\* and completed once, after all elements
Completed(log) ==
  /\ \A i \in Visits(log) : log[i].b # "*" =>
       Cardinality({j \in DOMAIN log : log[j].do = "complete" /\ log[j].b = log[i].b}) = 1
  /\ \A i \in DOMAIN log : log[i].do = "complete" =>
       /\ \E j \in 1..(i - 1) : log[j].do = "prepare" /\ log[j].b = log[i].b
       /\ \A j \in Visits(log) : j < i
NotCompleted(log) == \A i \in DOMAIN log : log[i].do # "complete"

\* outcome: "done", "cancelled" or "failed" (a builder broke down)
IsBuild(given, rules, tile, known, log, outcome) ==
  LET lod == tile[1]
      todo == Todo(given, rules, lod)
  IN /\ Prepared(log, tile)
     /\ IF outcome = "failed" THEN NotCompleted(log) ELSE Completed(log)
     /\ \A i \in Visits(log) :
          LET v == log[i] IN Got(log, v.b, v.t, v.c) <= Wanted(todo, rules, lod, known, v.b, v.t, v.c)
     /\ outcome = "done" => Cardinality(Visits(log)) = Total(todo, rules, lod, known)
=============================================================================
