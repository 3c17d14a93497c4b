----------------------------- MODULE GeoStoreMC -----------------------------
(* Exhaustive check on a small world: reading is the union, stores do not    *)
(* touch each other, a cancelled import leaves its tile importable again.    *)
EXTENDS GeoStore

CONSTANT MaxOps
VARIABLES done, last
vars == <<grid, rules, stores, done, last>>

G == [lod |-> 2, x |-> 1, y |-> 1, k |-> 8]
R == << [t |-> "node", z1 |-> 2, z2 |-> 3, conds |-> <<>>, decl |-> "key"] >>
Nd(i, u, v) == [t |-> "N", id |-> i, tags |-> <<<<<<"a">>, <<"b">>>>>>, g |-> <<<<u, v>>>>]
Els == {Nd(1, 3, 3), Nd(2, 5, 7), Nd(3, 11, 5)}
Tiles == {<<2, 1, 1>>, <<2, 2, 1>>, <<3, 2, 2>>}

Init == grid = G /\ rules = R /\ stores = [k \in {"a", "b"} |-> <<>>] /\ done = 0 /\ last = <<"new">>
Next ==
  /\ done < MaxOps /\ done' = done + 1
  /\ \E k \in {"a", "b", "c"} :
       \/ \E e \in Els, p \in {[p |-> "all", lods |-> <<2, 3>>], [p |-> "tile", tile |-> <<2, 1, 1>>]} :
            Add(k, e, e.id, p) /\ last' = <<"add", k>>
       \/ \E s \in {<<Nd(1, 3, 3), Nd(3, 11, 5)>>} :
            Import(k, s, <<1, 3>>, [p |-> "tile", tile |-> <<2, 1, 1>>]) /\ last' = <<"import", k>>
       \/ \E t \in Tiles : CancelledImport(k, t) /\ last' = <<"cancel", k, t>>
Spec == Init /\ [][Next]_vars

Q == [nots |-> {}, ands |-> {"a"}, ors |-> {}, box |-> <<1, 1, 15, 15>>, lods |-> <<2, 3>>]
AllOf(t) == One("a")!Contents(t) \o One("b")!Contents(t)
Union == \A t \in Tiles : /\ IsRead(t, -1, AllOf(t))
                          /\ HasData(t) <=> AllOf(t) # <<>>
                          /\ \A n \in 0..2 : n <= Len(AllOf(t)) => IsRead(t, n, SubSeq(AllOf(t), 1, n))
Cancelled == last[1] = "cancel" /\ last[2] \in Keys => ~One(last[2])!HasData(last[3])
Unknown == [][last'[2] \notin Keys => stores' = stores]_vars
Others == [][\A k \in Keys : k # last'[2] => stores'[k] = stores[k]]_vars
KeysKept == [][DOMAIN stores' = DOMAIN stores]_vars
=============================================================================
