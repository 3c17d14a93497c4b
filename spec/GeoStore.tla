------------------------------ MODULE GeoStore ------------------------------
(* The store of stores: elements go to the store named, readers see all.     *)
EXTENDS Grid, TLC

VARIABLES grid, rules,
          stores      \* store key -> tiles, as in Store
geoVars == <<grid, rules, stores>>

One(k) == INSTANCE Store WITH tiles <- stores[k]

Keys == DOMAIN stores

\* adding an element: to an unknown store it is refused and changes nothing
Add(k, e, c, place) ==
  /\ stores' = IF k \in Keys THEN [stores EXCEPT ![k] = One(k)!AfterPut(@, e, c, place)] ELSE stores
  /\ UNCHANGED <<grid, rules>>

\* importing a file: its elements one after the other
RECURSIVE PutAll(_, _, _, _, _)
PutAll(k, m, es, cs, place) ==
  IF es = <<>> THEN m
  ELSE PutAll(k, One(k)!AfterPut(m, es[1], cs[1], place), Tail(es), Tail(cs), place)

Import(k, es, cs, place) ==
  /\ stores' = IF k \in Keys THEN [stores EXCEPT ![k] = PutAll(k, @, es, cs, place)] ELSE stores
  /\ UNCHANGED <<grid, rules>>

\* an import of a tile that is cancelled at any point leaves nothing in that tile of that store, so that
\* the tile can be imported again
CancelledImport(k, t) ==
  /\ stores' = IF k \in Keys THEN [stores EXCEPT ![k] = One(k)!AfterErase(@, t)] ELSE stores
  /\ UNCHANGED <<grid, rules>>

HasData(t) == \E k \in Keys : One(k)!HasData(t)

Times(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
RECURSIVE SumOver(_, _)
SumOver(ks, f) == IF ks = {} THEN 0 ELSE LET k == CHOOSE k \in ks : TRUE IN f[k] + SumOver(ks \ {k}, f)

\* a reader gets what every store has in the tile, every element as often as it was put there (the order of
\* the elements of one file is not specified); if it cancels after n elements it gets n of them
IsRead(t, n, res) ==
  LET all == [k \in Keys |-> One(k)!Contents(t)]
      total == SumOver(Keys, [k \in Keys |-> Len(all[k])])
  IN /\ Len(res) = (IF n < 0 \/ n > total THEN total ELSE n)
     /\ \A c \in {res[i] : i \in 1..Len(res)} : Times(res, c) <= SumOver(Keys, [k \in Keys |-> Times(all[k], c)])

IsAnswer(q, res) ==
  LET exp(c) == [k \in Keys |-> One(k)!Expected(q, c)]
  IN /\ Len(res) = SumOver(Keys, [k \in Keys |-> One(k)!ExpectedTotal(q)])
     /\ \A c \in {res[i] : i \in 1..Len(res)} :
          Cardinality({i \in 1..Len(res) : res[i] = c}) = SumOver(Keys, exp(c))
=============================================================================
