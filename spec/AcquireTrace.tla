----------------------------- MODULE AcquireTrace -----------------------------
EXTENDS Acquire, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
SetOf(q) == {q[i] : i \in DOMAIN q}
Init == l = 1 /\ s = Start(<<>>, {}, {})

TileOf(e) == [id |-> e.id, x |-> e.tile[1], y |-> e.tile[2], lod |-> e.lod, ele |-> e.elevation, box |-> e.box, cell |-> e.cell]

(* ------- what a request has to say *)
Near(a, b) == Abs(a - b) <= 1
Grid(w, e, t) ==
  LET g == w.cfg.grid b == t.box IN
    /\ Len(e.points) = (g + 1) * (g + 1)
    /\ \A i \in 0..g : \A j \in 0..g :
         LET p == e.points[i * (g + 1) + j + 1] IN
           /\ Abs((p[1] - b[1]) * g - i * (b[3] - b[1])) <= 2 * g
           /\ Abs((p[2] - b[2]) * g - j * (b[4] - b[2])) <= 2 * g
Asks(w, e, t, stage) ==
  CASE stage = "ele" /\ t.ele = 2 -> e.server = "ele" /\ e.key = w.cfg.elekey /\ Grid(w, e, t)
    [] stage = "ele" /\ t.ele = 1 ->
         LET c == w.cfg.cells[Cell(t)] IN e.server = "srtm" /\ e.uri = w.cfg.srtm \o "/" \o c.continent \o "/" \o c.file
    [] t.lod = 16 -> /\ e.server = "osm"
                     /\ Near(e.box[1], t.box[1] - 1000) /\ Near(e.box[2], t.box[2] - 1000)
                     /\ Near(e.box[3], t.box[3] + 1000) /\ Near(e.box[4], t.box[4] + 1000)
    [] OTHER -> LET q == Whole(t) IN
                  /\ e.server = "map"
                  /\ e.uri = w.cfg.map1 \o w.cfg.layers \o "/" \o ToString(q.lod) \o "/" \o ToString(q.x) \o "/" \o ToString(q.y) \o w.cfg.map2 \o w.cfg.mapkey

Says(w, e, t, k) ==
  CASE k \in {"ele", "data"} -> e.k = "request" /\ Asks(w, e, t, k)
    [] k = "add" -> e.k = "add" /\ e.store = "first" /\ e.path = DataPath(w, t) /\ e.key = Key(t) /\ e.lods = <<t.lod, t.lod>>
    [] k = "get" -> e.k = "get" /\ e.tile = t.id /\ e.observers = 2
    [] OTHER -> FALSE

(* ------- who did what: entries of the log by their cause; q maps causes to [tile, choice of outcomes] *)
By(log, c) == SelectSeq(log, LAMBDA e : e.by = c /\ e.k # "write")
Kind(w, log, c, t, ks) ==   \* which of the outcomes ks the log tells about cause c
  LET es == By(log, c) IN
  IF Len(es) = 0 THEN (IF [k |-> "wait"] \in ks THEN "wait" ELSE "none")
  ELSE IF Len(es) # 1 THEN "many"
  ELSE LET fit == {o \in ks : Says(w, es[1], t, o.k)} IN IF fit = {} THEN "wrong" ELSE (CHOOSE o \in fit : TRUE).k
Fine == {"wait", "ele", "data", "add", "get"}

RECURSIVE Follow(_, _, _, _)   \* state after all entries of the log, in their order
Follow(w, log, i, q) ==
  IF i > Len(log) THEN w
  ELSE IF log[i].k \in {"write", "told"} \/ log[i].by \notin DOMAIN q THEN Follow(w, log, i + 1, q)
  ELSE Follow(Apply(w, q[log[i].by].tile, q[log[i].by].kind), log, i + 1, q)

Written(log) == {log[i].path : i \in {j \in DOMAIN log : log[j].k = "write"}}
Waits(w, q) == IF \E c \in DOMAIN q : q[c].kind = "wait" THEN Apply(w, q[CHOOSE c \in DOMAIN q : q[c].kind = "wait"].tile, "wait") ELSE w

(* result of an operation: ok, and the state after it *)
Res(ok, w) == [ok |-> ok, w |-> w]
Only(log, cs) == \A i \in DOMAIN log : log[i].by \in cs

OneCause(e, c, t, ks, w) ==
  LET k == Kind(w, e.log, c, t, ks) q == [x \in {c} |-> [tile |-> t, kind |-> k]] IN
    Res(k \in Fine /\ Only(e.log, {c}) /\ Written(e.log) = {}, IF k \in Fine THEN Waits(Follow(w, e.log, 1, q), q) ELSE w)

Tile(e) == LET t == TileOf(e) IN OneCause(e, t.id, t, Ele(s, s.files, s.files, t), s)

Reply(e) ==
  LET R == e.replies
      C(i) == "r" \o ToString(R[i].n)
      path(i) == Path(s, s.net[R[i].n].tile, s.net[R[i].n].stage)
      good(i) == R[i].good
      f2 == s.files \cup {path(i) : i \in {j \in DOMAIN R : good(j)}}
      goes(i) == good(i) \/ path(i) \in s.files
      w2 == [s EXCEPT !.files = f2]
      \* its own file is there when it goes on; those of the others may be
      ks(i) == After(s, s.files \cup {path(i)}, f2, s.net[R[i].n].tile, s.net[R[i].n].stage)
      kind(i) == IF goes(i) THEN Kind(s, e.log, C(i), s.net[R[i].n].tile, ks(i)) ELSE IF By(e.log, C(i)) = <<>> THEN "none" ELSE "wrong"
      kinds == [i \in DOMAIN R |-> kind(i)]
      at(c) == CHOOSE i \in DOMAIN R : C(i) = c
      q == [c \in {C(i) : i \in {j \in DOMAIN R : goes(j)}} |-> [tile |-> s.net[R[at(c)].n].tile, kind |-> kinds[at(c)]]]
      writes(p) == SelectSeq(e.log, LAMBDA x : x.k = "write" /\ x.path = p)
      ok == /\ \A i \in DOMAIN R : IF goes(i) THEN kinds[i] \in Fine \ {"wait"} ELSE kinds[i] = "none"
            /\ Only(e.log, {C(i) : i \in DOMAIN R})
            /\ Written(e.log) = f2 \ s.files
            /\ \A p \in f2 \ s.files :
                 /\ Len(writes(p)) = 1
                 /\ \E i \in DOMAIN R : path(i) = p /\ good(i) /\ C(i) = writes(p)[1].by /\ writes(p)[1].content = R[i].content
  IN Res(ok, IF ok THEN Follow(w2, e.log, 1, q) ELSE s)

Clock(e) ==
  LET n == Ticks(s, e.ms) w == [s EXCEPT !.now = @ + e.ms] IN
  IF n = 0 \/ s.queue = <<>> THEN Res(e.log = <<>>, w)
  ELSE LET r == OneCause(e, "tick", Head(s.queue), {[k |-> "ele"]}, [w EXCEPT !.queue = Tail(@)]) IN r

Imported(e) ==
  IF e.n = 0 THEN Res(e.log = <<>>, s)
  ELSE LET a == s.adds[e.n] w == [s EXCEPT !.lib = IF a.key = "" THEN @ ELSE @ \cup {a.key}] IN
       IF a.user THEN Res(e.log = <<>>, w) ELSE OneCause(e, "a" \o ToString(e.n), a.tile, {[k |-> "get"]}, w)

Loaded(e) ==
  IF e.n = 0 THEN Res(e.log = <<>>, s)
  ELSE Res(/\ Len(e.log) = 2 /\ {e.log[1].n, e.log[2].n} = {0, 1}
           /\ \A i \in 1..2 : e.log[i].k = "told" /\ e.log[i].tile = s.gets[e.n].id, s)

Add(e) ==
  LET key == IF e.range THEN "" ELSE KeyOf(e.tile[1], e.tile[2], e.lod) IN
  IF ~e.range /\ key \in s.lib THEN Res(e.log = <<>> /\ e.done = 1, s)
  ELSE Res(/\ Len(e.log) = 1 /\ e.done = 0
           /\ LET a == e.log[1] IN a.k = "add" /\ a.store = e.store /\ a.path = e.path /\ a.key = key
                                   /\ a.lods = (IF e.range THEN <<e.lod, e.lod + 2>> ELSE <<e.lod, e.lod>>),
           [s EXCEPT !.adds = Append(@, [tile |-> 0, key |-> key, user |-> TRUE])])

Result(e) ==
  IF "crash" \in DOMAIN e \/ "error" \in DOMAIN e THEN Res(FALSE, s)
  ELSE CASE e.ev = "dt.reset" -> Res(e.log = <<>> /\ e.index = "somewhere" /\ e.stores = <<"first@there", "second">>, Start(e, SetOf(e.files), SetOf(e.library)))
         [] e.ev = "dt.tile" -> Tile(e)
         [] e.ev = "dt.reply" -> Reply(e)
         [] e.ev = "dt.fail" -> Res(e.log = <<>>, s)
         [] e.ev = "dt.clock" -> Clock(e)
         [] e.ev = "dt.imported" -> Imported(e)
         [] e.ev = "dt.loaded" -> Loaded(e)
         [] e.ev = "dt.add" -> Add(e)

Next == /\ l <= Len(T)
        /\ LET e == T[l] r == TLCEval(Result(e)) IN ((r.ok /\ e.failed = 0) = TRUE) /\ s' = r.w
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(T)
===============================================================================
