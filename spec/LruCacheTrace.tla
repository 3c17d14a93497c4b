--------------------------- MODULE LruCacheTrace ----------------------------
EXTENDS LruCache, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

k_in(k) == k \in Keys(q)

Init == l = 1 /\ cap = 0 /\ q = <<>>

Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "lru.new" -> New(e.cap)
       [] e.ev = "lru.put" -> Put(e.k, e.v)
       [] e.ev = "lru.get" -> e.res = Value(e.k) /\ Use(e.k)
       [] e.ev = "lru.peek" -> e.res = Value(e.k) /\ UNCHANGED lruVars
       [] e.ev = "lru.promote" -> e.res = (k_in(e.k)) /\ Use(e.k)
       [] e.ev = "lru.exists" -> e.res = (k_in(e.k)) /\ UNCHANGED lruVars
       [] e.ev = "lru.size" -> e.res = Len(q) /\ UNCHANGED lruVars
       [] e.ev = "lru.clear" -> Clear

Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, cap, q>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
