----------------------------- MODULE MeshCache ------------------------------
(* What builders make is kept in files, one per cache, style and tile, and given back
   instead of being made again.
   A session is the building of one tile by one builder. It is one of
     "hit"    what is in the file is given back, nothing is built
     "owner"  the first one to build what is not in a file: writes it
     "plain"  builds, and has nothing to do with the file
   files maps a key <<cache, style, tile>> to what a completed file gives back.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES files,
          sessions,   \* session -> [key, mode, out |-> given so far, cancelled]
          enabled,    \* caches which are on
          lods,       \* levels files can be written for
          tags        \* style -> its name in files: styles with equal names share them
vars == <<files, sessions, enabled, lods, tags>>

Key(cache, style, tile) == <<cache, tags[style], tile>>
Storable(k) == k[3][1] \in lods
Owned(k) == \E s \in DOMAIN sessions : sessions[s].key = k /\ sessions[s].mode = "owner"

\* A file being written counts as none.
Mode(k) == IF k[1] \notin enabled THEN "plain"
           ELSE IF k \in DOMAIN files THEN "hit"
           ELSE IF Storable(k) /\ ~Owned(k) THEN "owner" ELSE "plain"

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

\* what a hit gives: all of the file, or, when it is cancelled by the n-th thing it gives, n of them
Given(k, n) == IF n > 0 /\ n < Len(files[k]) THEN SubSeq(files[k], 1, n) ELSE files[k]

Open(s, k, out, made, n) ==
  LET m == Mode(k) IN
  /\ made = (m # "hit")
  /\ out = (IF m = "hit" THEN Given(k, n) ELSE <<>>)
  /\ sessions' = With(sessions, s, [key |-> k, mode |-> m, out |-> out, cancelled |-> (n > 0 /\ Len(out) >= n)])
  /\ UNCHANGED <<files, enabled, lods, tags>>

\* building goes on: what comes out is what the builder makes (a hit makes nothing)
Grow(s, out, cancelled) ==
  /\ sessions[s].mode = "hit" => out = <<>>
  /\ sessions[s].cancelled /\ sessions[s].mode = "owner" => out = <<>>
  /\ sessions' = [sessions EXCEPT ![s].out = @ \o out, ![s].cancelled = cancelled]
  /\ UNCHANGED <<files, enabled, lods, tags>>

\* it ends; a file of what is not cancelled is complete, that of the others is gone
End(s, out, cancelled) ==
  LET x == sessions[s] IN
  /\ x.mode = "hit" => out = <<>>
  /\ x.cancelled /\ x.mode = "owner" => out = <<>>
  /\ files' = IF x.mode = "owner" /\ ~cancelled THEN With(files, x.key, x.out \o out) ELSE files
  /\ sessions' = Without(sessions, s)
  /\ UNCHANGED <<enabled, lods, tags>>

Cancel(s) == sessions' = [sessions EXCEPT ![s].cancelled = TRUE] /\ UNCHANGED <<files, enabled, lods, tags>>
\* given up in the middle (a builder broke down): nothing is kept of it
Drop(s) == sessions' = Without(sessions, s) /\ UNCHANGED <<files, enabled, lods, tags>>
\* the end of the process: complete files stay
Crash(caches) == sessions' = <<>> /\ enabled' = caches /\ UNCHANGED <<files, lods, tags>>
Enable(c, on) == enabled' = (IF on THEN enabled \cup {c} ELSE enabled \ {c}) /\ UNCHANGED <<files, sessions, lods, tags>>
=============================================================================
