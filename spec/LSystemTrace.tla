----------------------------- MODULE LSystemTrace ----------------------------
EXTENDS LSystem, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
RECURSIVE SumW(_, _)
SumW(ps, i) == IF i = 0 THEN 0 ELSE ps[i].w + SumW(ps, i - 1)
Step(e) ==
  /\ "crash" \notin DOMAIN e /\ ("error" \in DOMAIN e => e.ev = "ls.bad")
  /\ CASE e.ev = "ss.new" -> TRUE
       [] e.ev = "ss.load" -> e.ok
       [] e.ev = "ls.run" /\ ~e.freq -> Len(e.paths) = e.times /\ \A i \in DOMAIN e.paths : Derives(e.sys, e.paths[i])
       [] e.ev = "ls.run" /\ e.freq ->     \* one generation of one symbol, its productions are all different
            LET total == SumW(e.sys.prods, Len(e.sys.prods)) IN
            /\ Len(e.paths) = e.times
            /\ \A i \in DOMAIN e.sys.prods :
                 Fair(e.times, Cardinality({k \in DOMAIN e.paths : e.paths[k] = e.sys.prods[i].s}), e.sys.prods[i].w, total)
       [] e.ev = "ls.walk" -> /\ e.exact
                              /\ Derives(e.sys, Path(e.steps)) = TRUE
                              /\ (Walk(e.steps, 1, Start(e.length, e.width), <<>>, e.angle, e.scale) = TRUE)
       [] e.ev = "ls.bad" -> "error" \in DOMAIN e
Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
