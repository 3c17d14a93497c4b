------------------------------ MODULE AnimTrace -----------------------------
EXTENDS Anim, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, cur, frames
vars == <<l, st, cur, frames>>
Init == l = 1 /\ st = <<>> /\ cur = "" /\ frames = 0

State(a, c, f) == [st |-> a, cur |-> c, frames |-> f]
After(e) ==
  CASE e.ev = "an.reset" -> State(<<>>, "", 0)
    [] e.ev = "an.new" -> State([i \in DOMAIN st \cup {e.id} |->
                                 IF i # e.id THEN st[i] ELSE IF e.kind = "group" THEN Group(e.parts, e.next, e.chain)
                                 ELSE Single(e.length, e.loop, e.curve, e.next, e.chain)], cur, frames)
    [] e.ev = "an.start" -> State(Start(st, e.id), cur, frames)
    [] e.ev = "an.stop" -> State(Stop(st, e.id), cur, frames)
    [] e.ev = "an.update" -> State(Update(st, e.id, e.dt), cur, frames)
    [] e.ev = "an.plan" -> State(IF cur = "" THEN st ELSE Stop(st, cur), e.id, frames)
    [] e.ev = "an.engine" ->
         IF cur = "" THEN State(st, cur, frames)
         ELSE IF e.do = "start" THEN State(Start(st, cur), cur, frames)
         ELSE IF e.do = "cancel" THEN State(Stop(st, cur), cur, frames)
         ELSE IF st[cur].on THEN State(Update(st, cur, e.dt), cur, frames + 1)
         ELSE State(st, cur, frames)
    [] OTHER -> State(st, cur, frames)

Same(e, z) ==
  /\ DOMAIN e.now = DOMAIN z.st
  /\ \A i \in DOMAIN z.st :
       LET x == z.st[i] IN e.now[i] = [on |-> x.on, finished |-> x.finished, applied |-> x.applied, last |-> x.last]
  /\ e.frames = z.frames /\ e.busy = (z.cur # "" /\ z.st[z.cur].on)

Answered(e, z) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "an.reset" -> TRUE
       [] e.ev = "an.curve" -> \A i \in 1..17 : Abs(e.out[i] - CurveAt(e.curve, i)) <= 20
       [] e.ev = "an.path" -> /\ e.refused = ~Possible(e.kind, e.points)
                              /\ ~e.refused => /\ e.at = At(e.kind, e.points, e.k)
                                               /\ Towards(e.towards, Slope(e.kind, e.points, e.k))
       [] OTHER -> Same(e, z)

Next == /\ l <= Len(T)
        /\ LET z == TLCEval(After(T[l])) IN (Answered(T[l], z) = TRUE) /\ st' = z.st /\ cur' = z.cur /\ frames' = z.frames
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
