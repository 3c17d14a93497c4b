------------------------------ MODULE QuadTrace -----------------------------
EXTENDS Quad, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1

\* within one part in n
Near(a, b, n) == LET d == IF a > b THEN a - b ELSE b - a m == Max(IF a < 0 THEN -a ELSE a, IF b < 0 THEN -b ELSE b) IN d <= m \div n + 1

Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "q.key" -> e.tile = TileAt(e.lod, e.p)
       [] e.ev = "q.box" -> e.exact /\ e.box = BoxOf(e.lod, e.tile)
       [] e.ev = "q.str" -> e.digits = Digits(e.lod, e.tile)
       [] e.ev = "q.parse" -> IF \A i \in DOMAIN e.digits : e.digits[i] \in 0..3
                              THEN ~e.refused /\ e.lod = Len(e.digits) /\ e.tile = FromDigits(e.digits)
                              ELSE e.refused
       [] e.ev = "q.range" -> e.exact /\ Covers(e.lod, e.box, e.out)
       [] e.ev = "q.box.ops" ->
            /\ e.meets = Meets(e.a, e.b)
            /\ e.inside = Inside(e.a, e.p)
            /\ e.joined = Join(e.a, e.b)
            /\ e.grown = Join(e.a, <<e.p[1], e.p[2], e.p[1], e.p[2]>>)
            /\ e.middle2 = <<e.a[1] + e.a[3], e.a[2] + e.a[4]>>
            /\ "within" \in DOMAIN e => e.within = (Inside(e.a, <<e.b[1], e.b[2]>>) /\ Inside(e.a, <<e.b[3], e.b[4]>>))
            /\ "valid" \in DOMAIN e => e.valid = (e.a[1] <= e.a[3] /\ e.a[2] <= e.a[4])
       \* distances in decimetres: what the code says, and the great circle
       [] e.ev = "g.dist" -> Near(e.dist, e.circle, 200) /\ e.dist = e.back
       \* going x metres east or y metres north
       [] e.ev = "g.move" -> /\ Near(IF e.x < 0 THEN -e.x * 10 ELSE e.x * 10, e.east, 200) /\ Near(IF e.y < 0 THEN -e.y * 10 ELSE e.y * 10, e.north, 200)
                             /\ e.eastward = (IF e.x > 0 THEN 1 ELSE IF e.x < 0 THEN -1 ELSE 0)
                             /\ e.northward = (IF e.y > 0 THEN 1 ELSE IF e.y < 0 THEN -1 ELSE 0)
                             /\ "returned" \in DOMAIN e => e.returned <= 1
       \* a box of given width and height in metres around a point
       [] e.ev = "g.around" -> Near(e.width * 10, e.wide, 100) /\ Near(e.height * 10, e.high, 100) /\ e.off <= 1
       [] e.ev = "g.rect" -> e.off <= 100
       [] e.ev = "g.sphere" -> e.off <= 30
Next == l <= Len(T) /\ (Step(T[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
