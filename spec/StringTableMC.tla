---------------------------- MODULE StringTableMC ---------------------------
(* All small histories; the answers are guessed, so this also shows that     *)
(* AtOnce allows what two callers stepping in any order produce.             *)
EXTENDS StringTable
CONSTANTS Strings, MaxLen
VARIABLES inter   \* two callers in progress: [base, lists, ids, pc]
vars == <<names, inter>>
Lists == UNION {[1..n -> Strings] : n \in 0..2}
Idle == [on |-> FALSE]

Init == names = <<>> /\ inter = Idle
Begin == \E a, b \in Lists : ~inter.on /\ Len(names) < MaxLen /\ UNCHANGED names
          /\ inter' = [on |-> TRUE, base |-> names, lists |-> <<a, b>>, ids |-> <<<<>>, <<>>>>]
Go == /\ inter.on
      /\ \E t \in 1..2 : /\ Len(inter.ids[t]) < Len(inter.lists[t])
                         /\ \E id \in 0..Len(names) :
                              /\ GetId(inter.lists[t][Len(inter.ids[t]) + 1], id)
                              /\ inter' = [inter EXCEPT !.ids[t] = Append(@, id)]
End == /\ inter.on /\ \A t \in 1..2 : Len(inter.ids[t]) = Len(inter.lists[t])
       /\ inter' = Idle /\ UNCHANGED names
Crashed == /\ ~inter.on /\ UNCHANGED inter /\ Len(names) < MaxLen
           /\ \E list \in Lists : \E n \in 0..2 : LET new == New(list, Range(names)) IN
                n <= Len(new) /\ Crash(list, TRUE, names \o SubSeq(new, 1, n))
Next == Begin \/ Go \/ End \/ Crashed
Spec == Init /\ [][Next]_vars

\* whatever two callers got is accepted by AtOnce
Linear == inter.on /\ (\A t \in 1..2 : Len(inter.ids[t]) = Len(inter.lists[t])) =>
  LET lists == inter.lists ids == inter.ids base == Len(inter.base) IN
  /\ UNION {Range(ids[t]) : t \in 1..2} \cap Nat \subseteq 0..(Len(names) - 1)
  /\ \A t \in 1..2 : \A i \in 1..Len(ids[t]) : names[ids[t][i] + 1] = lists[t][i]
  /\ \A k \in base..(Len(names) - 1) : \E t \in 1..2 :
       /\ k \in Range(ids[t])
       /\ LET i == CHOOSE i \in 1..Len(ids[t]) : ids[t][i] = k /\ \A j \in 1..(i - 1) : ids[t][j] # k
          IN \A j \in 1..(i - 1) : ids[t][j] < k
=============================================================================
