---------------------------- MODULE PlacesTrace -----------------------------
(* The geocoder which knows what the stores have: a program's sessions (ClientTrace) with questions for places. *)
EXTENDS ClientTrace

AddressKeys == <<"addr:country", "addr:city", "addr:suburb", "addr:state", "addr:province", "addr:district", "addr:postcode",
                 "addr:place", "addr:street", "addr:housenumber", "addr:name">>
Said(tags, k) == {i \in DOMAIN tags : tags[i][1] = k}
\* the parts of the address which are there, the larger before the smaller
Address(tags) ==
  LET here == SelectSeq(AddressKeys, LAMBDA k : Said(tags, k) # {})
      word(i) == tags[CHOOSE j \in Said(tags, here[i]) : TRUE][2]
      f[i \in 0..Len(here)] == CASE i = 0 -> "" [] i = 1 -> word(1) [] OTHER -> f[i - 1] \o ", " \o word(i)
  IN f[Len(here)]

\* only the level where everything is in full detail is looked at
Level == <<16, 16>>
ByName(e) == [nots |-> {}, ands |-> {}, ors |-> Words(e.name), box |-> e.box, lods |-> Level]
\* half the side of the box, in units; there are e.mm millimetres in a unit
Half(e) == (e.metres * 1000 + e.mm) \div (2 * e.mm)
Around(e) == [nots |-> {}, ands |-> {"addr", "street", "housenumber"}, ors |-> {},
              box |-> <<e.at[1] - Half(e), e.at[2] - Half(e), e.at[1] + Half(e), e.at[2] + Half(e)>>, lods |-> Level]

Tells(q, e) ==
  LET es == TLCEval(SetToSeq({DataOf(x[1])[x[2][1]][x[2][2]].c : x \in Found(q)}))
      n == [i \in DOMAIN es |-> Cardinality(FoundOf(q, es[i]))]
      isOne(r, d) == IsElement(r, d, 0, {}) /\ r.name = Address(d.tags)
  IN /\ AreElements(e.elements, es, n, isOne, TRUE) = TRUE
     /\ ~e.strange /\ e.errors = 0 /\ (\A i \in DOMAIN e.ends : e.ends[i] = 0)
     /\ UNCHANGED apiVars

StepOf(e) ==
  IF "crash" \in DOMAIN e \/ "error" \in DOMAIN e THEN FALSE
  ELSE CASE e.ev = "find" -> Tells(ByName(e), e)
         [] e.ev = "around" -> Tells(Around(e), e)
         [] e.ev = "leave" -> e.elements = <<>> /\ e.errors = 0 /\ (\A i \in DOMAIN e.ends : e.ends[i] = 1) /\ UNCHANGED apiVars
         [] OTHER -> Step(e)
PlacesNext == l <= Len(T) /\ StepOf(T[l]) /\ l' = l + 1
PlacesSpec == Init /\ [][PlacesNext]_<<l, apiVars>>
=============================================================================
