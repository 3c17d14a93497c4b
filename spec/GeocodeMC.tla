----------------------------- MODULE GeocodeMC ------------------------------
(* Three questions, two listeners, answers in any order, twice, unreadable ones. *)
EXTENDS Geocode
VARIABLES had,    \* what each listener was told so far
          since,  \* for each listener, how many answers there were before it came
          first   \* the places of the first answers, in order of the answers
vars == <<geoVars, had, since, first>>
Flat(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o s[i] IN f[Len(s)]

Init == server = [search |-> "s", reverse |-> "r"] /\ asked = <<>> /\ readers = 0 /\ told = <<>> /\ had = <<>> /\ since = <<>> /\ first = <<>>
Next ==
  \/ readers \in 0..1 /\ Listen /\ had' = Append(had, <<>>) /\ since' = Append(since, Len(first)) /\ UNCHANGED first
  \/ Len(asked) < 3 /\ Ask /\ UNCHANGED <<had, since, first>>
  \/ \E n \in 1..3, k \in 0..2 :
       LET ps == [i \in 1..k |-> <<n, i>>] IN
       /\ Reply(n, ps)
       /\ first' = (IF asked[n] = "open" THEN Append(first, ps) ELSE first)
       /\ had' = [i \in DOMAIN had |-> IF i \in DOMAIN told' THEN had[i] \o told'[i] ELSE had[i]]
       /\ UNCHANGED since
  \/ readers >= 0 /\ Close /\ UNCHANGED <<had, since, first>>
Spec == Init /\ [][Next]_vars

\* who listens knows all that was answered since it came, in order; later ones know a part of what earlier ones know
Complete == readers >= 0 => \A i \in DOMAIN had : had[i] = Flat(SubSeq(first, since[i] + 1, Len(first)))
Once == Len(first) <= Len(asked)
Silence == readers < 0 => told = <<>>
Small == Len(first) <= 3
=============================================================================
