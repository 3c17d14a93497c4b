----------------------------- MODULE BuildTrace -----------------------------
EXTENDS Build, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, rules, known
Init == l = 1 /\ rules = <<>> /\ known = {}

Outcome(r) == IF r.failed THEN "failed" ELSE IF r.cancelled THEN "cancelled" ELSE "done"
\* it fails exactly when a builder is told to
Fine(op, r) ==
  /\ r.failed = (op.throw > 0 /\ op.throw <= Cardinality(Visits(r.log)))
  /\ IsBuild(r.given, rules, op.tile, known, r.log, Outcome(r))
  /\ op.cancel = 0 => Visits(r.log) = {}

Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "tile.new" -> rules' = e.rules /\ known' = {e.builders[i] : i \in DOMAIN e.builders}
       [] e.ev = "tile.put" -> UNCHANGED <<rules, known>>
       [] e.ev = "tile.build" -> (Fine(e, e.res) = TRUE) /\ UNCHANGED <<rules, known>>
       [] e.ev = "tile.par" -> ((\A i \in DOMAIN e.builds : Fine(e.builds[i], e.res[i])) = TRUE) /\ UNCHANGED <<rules, known>>
Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, rules, known>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
