--------------------------- MODULE RangeTreeTrace ---------------------------
EXTENDS RangeTree, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = New("int")

After(e) ==
  CASE e.ev = "rt.new" -> New(e.keys)
    [] e.ev = "rt.add" -> Add(s, e.item)
    [] e.ev = "rt.remove" -> Remove(s, e.item)
    [] e.ev = "rt.clear" -> Clear(s)
    [] e.ev = "rt.rebuild" -> Rebuild(s)
    [] e.ev = "rt.auto" -> [s EXCEPT !.auto = e.on]
    [] e.ev \in {"rt.query", "rt.stab", "rt.ends", "rt.list"} -> Touch(s)
    [] OTHER -> s

Answered(e, z) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "rt.add" -> e.refused = ~Ordered(s, e.item)
       [] e.ev \in {"rt.remove", "rt.has"} -> e.ok = Has(s, e.item)
       [] e.ev = "rt.query" -> AnswerOf(z, e.from, e.to, e.out)
       [] e.ev = "rt.stab" -> AnswerOf(z, e.at, e.at, e.out)
       [] e.ev = "rt.ends" -> e.min = Least(z) /\ e.max = Greatest(z)
       [] e.ev = "rt.list" -> /\ e.count = Len(s.items) /\ e.out = s.items /\ e.copied = s.items
                              /\ e.values = [k \in DOMAIN s.items |-> s.items[k][3]]
       [] e.ev = "rt.sync" -> e.sync = s.sync
       [] OTHER -> TRUE

Next == /\ l <= Len(T)
        /\ LET z == TLCEval(After(T[l])) IN (Answered(T[l], z) = TRUE) /\ s' = z
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
