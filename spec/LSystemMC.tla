------------------------------ MODULE LSystemMC ------------------------------
(* All walks of at most MaxLen commands: invariants of the turtle, and the walks for replay. *)
EXTENDS LSystem, Json
CONSTANTS MaxLen, Angle
VARIABLES st, stack, path
Commands == {"F", "G", "+", "-", "|", "^", "&", "\\", "/", "$", "!", ">", "<", "@", "[", "]"}
Init == st = Start(64, 32) /\ stack = <<>> /\ path = <<>>
Next == /\ Len(path) < MaxLen
        /\ \E c \in Commands :
             /\ c = "]" => stack # <<>>
             /\ Defined(st, c, Angle)
             /\ st' = Go(st, c, Angle, 2, stack) /\ stack' = GoStack(st, c, stack) /\ path' = Append(path, c)
Spec == Init /\ [][Next]_<<st, stack, path>>
UnitVector(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3] = 1
Units == UnitVector(st.d) /\ UnitVector(st.r)
Positive == st.l > 0 /\ st.w > 0
\* without pitch and roll direction and right hand stay perpendicular
Rigid == (\A i \in DOMAIN path : path[i] \notin {"^", "&", "\\", "/"}) => st.d[1] * st.r[1] + st.d[2] * st.r[2] = 0
\* undoing a command gives back the state
Opposite == ("+" :> "-") @@ ("-" :> "+") @@ ("$" :> "!") @@ (">" :> "<") @@ ("|" :> "|")
Undo == \A c \in DOMAIN Opposite : Defined(st, c, Angle) /\ (c = "|" => Cross(st.d, st.r) # 0) =>
          Go(Go(st, c, Angle, 2, stack), Opposite[c], Angle, 2, stack) = st
SaveRestore == Go(st, "]", Angle, 2, GoStack(st, "[", stack)) = st
Emit == Len(path) = MaxLen => PrintT("@@" \o ToJson(path))
=============================================================================
