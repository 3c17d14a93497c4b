----------------------------- MODULE LruCacheMC -----------------------------
(* Exhaustive check of LruCache against an independent definition of "least  *)
(* recently used": every key ever used has a time of last use, and what is   *)
(* in the cache is what was used last.                                       *)
EXTENDS LruCache, TLC, Json

CONSTANTS K, MaxCap, MaxOps

VARIABLES used, hist      \* used: keys from the most to the least recently used since the last clear
vars == <<cap, q, used, hist>>

Init == cap \in 0..MaxCap /\ q = <<>> /\ used = <<>> /\ hist = <<[ev |-> "lru.new", cap |-> cap]>>

Touch(k) == used' = <<k>> \o SelectSeq(used, LAMBDA x : x # k)
H(r) == hist' = Append(hist, r)

Next ==
  /\ Len(hist) <= MaxOps
  /\ \/ \E k \in 1..K, v \in 1..2 : Put(k, v) /\ Touch(k) /\ H([ev |-> "lru.put", k |-> k, v |-> v])
     \/ \E k \in 1..K, e \in {"lru.get", "lru.promote"} :
          /\ Use(k) /\ H([ev |-> e, k |-> k])
          /\ IF k \in Keys(q) THEN Touch(k) ELSE UNCHANGED used
     \/ \E k \in 1..K, e \in {"lru.peek", "lru.exists"} : UNCHANGED <<cap, q, used>> /\ H([ev |-> e, k |-> k])
     \/ Clear /\ used' = <<>> /\ H([ev |-> "lru.clear"])

Spec == Init /\ [][Next]_vars

View == <<cap, q, used>>
Lru == Keys(q) = {used[i] : i \in 1..(IF Len(used) < cap THEN Len(used) ELSE cap)}
Order == \A i \in 1..Len(q) : q[i][1] = used[i]
\* used for the generation of behaviours
Emit == Len(hist) = MaxOps + 1 => PrintT("@@" \o ToJson(hist))
=============================================================================
