-------------------------------- MODULE OsmMC --------------------------------
(* The resolution of relations step by step, for every graph of three relations (each a plain one, a
   building or a multipolygon) over one way: depth first, from any relation first, a relation which is
   being resolved cannot become a member. What comes out is what Osm describes. *)
EXTENDS Osm
VARIABLES kinds, lists, status, els, stack
vars == <<kinds, lists, status, els, stack>>
R == {"1", "2", "3"}
Seqs == {<<>>, <<"1">>, <<"2">>, <<"3">>, <<"2", "1">>, <<"1", "3">>, <<"2", "3">>, <<"3", "2", "1">>, <<"2", "2">>}

doc == [nodes |-> <<[id |-> "1", lat |-> 0, lon |-> 0, tags |-> <<>>]>>,
        ways |-> <<[id |-> "1", refs |-> <<"1", "1">>, tags |-> <<>>]>>,
        rels |-> LET rel(i) == [id |-> i, tags |-> IF kinds[i] = "plain" THEN <<>> ELSE <<<<"type", "building">>>>,
                                members |-> <<[t |-> "w", ref |-> "1", role |-> ""]>>
                                            \o [k \in DOMAIN lists[i] |-> [t |-> "r", ref |-> lists[i][k], role |-> ""]]]
                 IN <<rel("1"), rel("2"), rel("3")>>]

Init == /\ kinds \in [R -> {"plain", "building"}] /\ lists \in [R -> Seqs]
        /\ status = [i \in R |-> "new"] /\ els = [i \in R |-> <<>>] /\ stack = <<>>

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Add(i, x) == IF kinds[i] = "plain" /\ x \in ToSet(els[i]) THEN els[i] ELSE Append(els[i], x)

Begin == /\ stack = <<>> /\ \E i \in R : status[i] = "new" /\ status' = [status EXCEPT ![i] = "busy"]
                                         /\ stack' = <<[r |-> i, k |-> 1]>>
         /\ UNCHANGED <<kinds, lists, els>>
Next1 ==
  /\ stack # <<>>
  /\ LET i == Top.r k == Top.k
     IN IF k > Len(lists[i])
        THEN /\ status' = [status EXCEPT ![i] = "done"] /\ stack' = Pop /\ UNCHANGED els
        ELSE LET m == lists[i][k]
                 on == [stack EXCEPT ![Len(stack)].k = k + 1]
             IN CASE status[m] = "done" -> els' = [els EXCEPT ![i] = Add(i, m)] /\ stack' = on /\ UNCHANGED status
                  [] status[m] = "busy" -> stack' = on /\ UNCHANGED <<els, status>>
                  [] OTHER -> /\ status' = [status EXCEPT ![m] = "busy"] /\ stack' = Append(stack, [r |-> m, k |-> 1])
                              /\ UNCHANGED els
  /\ UNCHANGED <<kinds, lists>>
Next == Begin \/ Next1
Spec == Init /\ [][Next]_vars

\* the elements as trees
RECURSIVE Tree(_, _)
Tree(i, depth) == [t |-> "r", id |-> i, tags |-> IF kinds[i] = "plain" THEN <<>> ELSE <<<<"type", "building">>>>,
                   ign |-> \E j \in R : kinds[j] = "building" /\ i \in ToSet(els[j]), found |-> TRUE, pts |-> <<>>,
                   els |-> <<[t |-> "w", id |-> "1", tags |-> <<>>, ign |-> \E j \in R : kinds[j] = "building", found |-> TRUE,
                              pts |-> <<<<0, 0>>, <<0, 0>>>>, els |-> <<>>]>>
                           \o IF depth = 0 THEN <<>> ELSE [k \in DOMAIN els[i] |-> Tree(els[i][k], depth - 1)]]
RECURSIVE Below(_)
Below(s) == LET more == s \cup UNION {ToSet(els[i]) : i \in s} IN IF more = s THEN s ELSE Below(more)

Done == stack = <<>> /\ \A i \in R : status[i] = "done"
NoCycle == \A i \in R : i \notin Below(ToSet(els[i]))
Right == Done => \A i \in R : IsElement(doc, Tree(i, 3))
StackIsPath == \A k \in 1..(Len(stack) - 1) : stack[k + 1].r \in ToSet(lists[stack[k].r])
==============================================================================
