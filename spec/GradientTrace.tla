---------------------------- MODULE GradientTrace ----------------------------
EXTENDS Gradient, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, atlases
Init == l = 1 /\ atlases = <<>>
Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "ss.new" -> atlases' = <<>>
       [] e.ev = "ss.load" -> e.ok /\ atlases' = e.atlases
       [] e.ev = "gr.eval" ->
            /\ UNCHANGED atlases
            /\ IF e.kind = "empty" THEN e.res = "refused"
               ELSE /\ Len(e.res) = Len(e.times)
                    /\ \A i \in DOMAIN e.times : At(Stops(e), e.res[i], e.times[i][1], e.times[i][2])
       [] e.ev = "tx.get" ->
            /\ UNCHANGED atlases
            /\ Len(e.res) = Len(e.seeds)
            /\ \A i \in DOMAIN e.seeds : IsRegion(e.res[i], atlases, e.index, e.group, e.seeds[i])
Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, atlases>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
