--------------------------- MODULE MeshCacheTrace ---------------------------
EXTENDS MeshCache, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1 /\ files = <<>> /\ sessions = <<>> /\ enabled = {} /\ lods = {} /\ tags = <<>>

ToSet(s) == {s[i] : i \in DOMAIN s}
K(e) == Key(e.cache, e.style + 1, e.tile)

\* the caller gets what the builder hands out, until it is cancelled
Through(e) == IF e.cancelled THEN Len(e.out) <= Len(e.handed) /\ e.out = SubSeq(e.handed, 1, Len(e.out)) ELSE e.out = e.handed

\* whole sessions at once. All of those of one key visit the same elements, so all of them give the same.
Par(e) ==
  LET n == Len(e.list)
      key == TLCEval([i \in 1..n |-> K(e.list[i])])
      out(i) == e.res[i].out
  IN /\ \A i \in 1..n :
          IF Mode(key[i]) = "hit" THEN ~e.res[i].made /\ out(i) = files[key[i]]
          ELSE \* one of each key makes it; the others as well, or they find it complete
               /\ \A j \in 1..n : key[j] = key[i] => out(j) = out(i)
               /\ \E j \in 1..n : key[j] = key[i] /\ e.res[j].made
               /\ (Mode(key[i]) = "plain" => e.res[i].made)
               /\ (e.res[i].made => out(i) = e.res[i].handed)
     /\ files' = [k \in DOMAIN files \cup {key[i] : i \in {j \in 1..n : Mode(key[j]) = "owner"}} |->
                    IF k \in DOMAIN files THEN files[k] ELSE out(CHOOSE i \in 1..n : key[i] = k)]
     /\ UNCHANGED <<sessions, enabled, lods, tags>>

Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "mc.new" -> /\ files' = <<>> /\ sessions' = <<>> /\ enabled' = ToSet(e.caches) /\ lods' = ToSet(e.lods)
                             /\ tags' = e.tags
       [] e.ev = "mc.enable" -> Enable(e.cache, e.on)
       [] e.ev = "mc.open" -> Open(e.s, K(e), e.out, e.made, e.cancel)
       [] e.ev = "mc.visit" -> (Through(e) = TRUE) /\ Grow(e.s, e.out, e.cancelled)
       [] e.ev = "mc.complete" -> (Through(e) = TRUE) /\ End(e.s, e.out, e.cancelled)
       [] e.ev = "mc.cancel" -> Cancel(e.s)
       [] e.ev = "mc.drop" -> Drop(e.s)
       [] e.ev = "mc.crash" -> Crash(ToSet(e.caches))
       [] e.ev = "mc.par" -> Par(e)
Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, vars>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
