----------------------------- MODULE TilesTrace -----------------------------
EXTENDS Tiles, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = Start

Next1(e) ==
  CASE e.ev = "tl.reset" -> Start
    [] e.ev = "tl.new" -> [s EXCEPT !.tiles = [i \in DOMAIN @ \cup {e.id} |-> IF i = e.id THEN NewTile(e) ELSE @[i]]]
    [] e.ev = "tl.register" -> Register(s, e.id, e.element)
    [] e.ev = "tl.load" -> Load(s, e.id, e.element)
    [] e.ev = "tl.dispose" -> Dispose(s, e.id)
    [] OTHER -> s

State(e, z) ==
  /\ DOMAIN e.now = DOMAIN z.tiles
  /\ \A i \in DOMAIN z.tiles :
       /\ e.now[i].disposed = z.tiles[i].disposed /\ e.now[i].cancelled = z.tiles[i].disposed
       /\ {e.now[i].has[k] : k \in DOMAIN e.now[i].has} = {x \in 1..6 : Has(z, i, x)}

Answered(e, z) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "tl.reset" -> TRUE
       [] e.ev = "tl.equal" -> /\ e.same = Same(s.tiles[e.a], s.tiles[e.b]) /\ (e.same => e.hash) /\ ~e.other
       [] e.ev = "tl.load" -> e.built = ~Has(s, e.id, e.element) /\ State(e, z)
       [] e.ev = "tl.race" -> e.failed = 0 /\ e.leaked = 0 /\ e.alive = 0
       [] e.ev = "cc.race" -> /\ e.failed = 0
                              /\ \A k \in DOMAIN e.outcomes :
                                   LET x == e.outcomes[k] IN Possible(e.programs, x.answers, x.was, [i \in DOMAIN e.programs |-> 1], x.there)
       [] OTHER -> State(e, z)

Next == /\ l <= Len(T)
        /\ LET z == TLCEval(Next1(T[l])) IN (Answered(T[l], z) = TRUE) /\ s' = z
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
