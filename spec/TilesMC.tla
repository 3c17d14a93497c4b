------------------------------ MODULE TilesMC ------------------------------
(***************************************************************************)
(* The steps registering and disposing are made of, with several threads.  *)
(* With the lock no registration stays behind; without it one does.        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Loaders, Locked
VARIABLES pc, lock, disposed, mine, known, left, failed
vars == <<pc, lock, disposed, mine, known, left, failed>>
Threads == Loaders \cup {"end"}

Init == /\ pc = [t \in Threads |-> "idle"] /\ lock = "" /\ disposed = FALSE
        /\ mine = {} /\ known = {} /\ left = {} /\ failed = FALSE
Enter(t, to) == /\ pc[t] = "idle" /\ (Locked => lock = "")
                /\ lock' = (IF Locked THEN t ELSE lock) /\ pc' = [pc EXCEPT ![t] = to]
Exit(t) == /\ pc' = [pc EXCEPT ![t] = "done"] /\ lock' = (IF lock = t THEN "" ELSE lock)

Look(t) == Enter(t, "look") /\ UNCHANGED <<disposed, mine, known, left, failed>>
Check(t) == /\ pc[t] = "look"
            /\ IF disposed THEN Exit(t) ELSE pc' = [pc EXCEPT ![t] = "local"] /\ UNCHANGED lock
            /\ UNCHANGED <<disposed, mine, known, left, failed>>
Local(t) == /\ pc[t] = "local" /\ mine' = mine \cup {t} /\ pc' = [pc EXCEPT ![t] = "global"]
            /\ UNCHANGED <<lock, disposed, known, left, failed>>
Global(t) == /\ pc[t] = "global" /\ known' = known \cup {t} /\ Exit(t) /\ UNCHANGED <<disposed, mine, left, failed>>

Begin == Enter("end", "flag") /\ UNCHANGED <<disposed, mine, known, left, failed>>
Flag == /\ pc["end"] = "flag" /\ disposed' = TRUE /\ left' = mine /\ pc' = [pc EXCEPT !["end"] = "walk"]
        /\ UNCHANGED <<lock, mine, known, failed>>
Walk == /\ pc["end"] = "walk"
        /\ IF left = {} THEN pc' = [pc EXCEPT !["end"] = "clear"] /\ UNCHANGED <<left, known>>
           ELSE \E x \in left : left' = left \ {x} /\ known' = known \ {x} /\ UNCHANGED pc
        /\ UNCHANGED <<lock, disposed, mine, failed>>
ClearAll == pc["end"] = "clear" /\ mine' = {} /\ Exit("end") /\ UNCHANGED <<disposed, known, left, failed>>

Next == \/ \E t \in Loaders : Look(t) \/ Check(t) \/ Local(t) \/ Global(t)
        \/ Begin \/ Flag \/ Walk \/ ClearAll
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == \A t \in Threads : pc[t] = "done"
NothingLeft == Over => known = {} /\ mine = {} /\ disposed
Ends == <>Over
=============================================================================
