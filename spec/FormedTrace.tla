----------------------------- MODULE FormedTrace -----------------------------
(* Whatever is built from: what is handed out is well formed. *)
EXTENDS Formed, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ e.ev = "formed" => \A i \in DOMAIN e.formed : WellFormed(e.formed[i]) /\ Mapped(e.formed[i])
Next == l <= Len(T) /\ Step(T[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
