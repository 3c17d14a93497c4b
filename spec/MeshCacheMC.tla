---------------------------- MODULE MeshCacheMC -----------------------------
(* Sessions of a builder which makes, for a tile, always the same: whatever happens in
   between, everybody who is not cancelled gets all of it and no file has less.
   On disk a file is a mark (0: being written, 1: complete) and what follows; disk says
   what a process which starts now would find. *)
EXTENDS MeshCache

CONSTANTS MaxSteps
Caches == {"terrain"}
Tiles == {<<1, 0, 0>>, <<1, 0, 1>>}
Makes(k) == <<"a", "b", "c">>    \* one at every step, the last when completed
VARIABLES disk, n
all == <<vars, disk, n>>

Init == /\ files = <<>> /\ sessions = <<>> /\ enabled = Caches /\ lods = {1} /\ tags = <<"s", "t">>
        /\ disk = <<>> /\ n = 0
Mark(k, m, c) == disk' = With(disk, k, [mark |-> m, is |-> c])
Sessions == 1..3

Opens == \E s \in Sessions \ DOMAIN sessions, c \in Caches, y \in {1, 2}, t \in Tiles :
           LET k == Key(c, y, t) m == Mode(k) IN
           /\ Open(s, k, IF m = "hit" THEN files[k] ELSE <<>>, m # "hit", -1)
           /\ IF m = "owner" THEN Mark(k, 0, <<>>) ELSE UNCHANGED disk
Visits == \E s \in DOMAIN sessions :
           LET x == sessions[s]
               out == IF x.mode = "hit" \/ x.cancelled THEN <<>> ELSE <<Makes(x.key)[Len(x.out) + 1]>>
           IN /\ Len(x.out) < 2
              /\ Grow(s, out, x.cancelled)
              /\ IF x.mode = "owner" THEN Mark(x.key, 0, x.out \o out) ELSE UNCHANGED disk
Ends == \E s \in DOMAIN sessions :
           LET x == sessions[s]
               out == IF x.mode = "hit" \/ x.cancelled THEN <<>> ELSE <<"c">>
           IN /\ x.mode = "hit" \/ x.cancelled \/ Len(x.out) = 2
              /\ End(s, out, x.cancelled)
              /\ IF x.mode # "owner" THEN UNCHANGED disk
                 ELSE IF x.cancelled THEN disk' = Without(disk, x.key) ELSE Mark(x.key, 1, x.out \o out)
Cancels == \E s \in DOMAIN sessions : ~sessions[s].cancelled /\ Cancel(s) /\ UNCHANGED disk
Drops == \E s \in DOMAIN sessions : /\ Drop(s)
                                    /\ IF sessions[s].mode = "owner" THEN disk' = Without(disk, sessions[s].key) ELSE UNCHANGED disk
Crashes == sessions # <<>> /\ Crash(Caches) /\ UNCHANGED disk
Toggles == \E c \in Caches : Enable(c, c \notin enabled) /\ UNCHANGED disk
Next == n < MaxSteps /\ n' = n + 1 /\ (Opens \/ Visits \/ Ends \/ Cancels \/ Drops \/ Crashes \/ Toggles)
Spec == Init /\ [][Next]_all

Whole == \A k \in DOMAIN files : files[k] = Makes(k)
\* what is on disk with a mark is exactly what is in the cache
OnDisk == /\ \A k \in DOMAIN files : k \in DOMAIN disk /\ disk[k] = [mark |-> 1, is |-> files[k]]
          /\ \A k \in DOMAIN disk : disk[k].mark = 1 => k \in DOMAIN files
OneWriter == \A s, t \in DOMAIN sessions :
  sessions[s].mode = "owner" /\ sessions[t].mode = "owner" /\ s # t => sessions[s].key # sessions[t].key
NotTouched == \A s \in DOMAIN sessions : sessions[s].mode = "owner" => sessions[s].key \notin DOMAIN files
HitsAreWhole == \A s \in DOMAIN sessions : sessions[s].mode = "hit" => sessions[s].out = Makes(sessions[s].key)
=============================================================================
