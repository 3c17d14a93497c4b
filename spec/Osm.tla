-------------------------------- MODULE Osm ---------------------------------
(* What a document of OSM data describes. A document has
     nodes  [id, lat, lon, tags], ways [id, refs, tags], rels [id, members: [t, ref, role], tags]
   (ids are strings, coordinates integers in some unit, tags pairs of key and value); an element is
     [t: "n" | "w" | "a" | "r", id, tags, ign, found, pts, els]. *)
EXTENDS Multipolygon

ToSet(s) == {s[i] : i \in DOMAIN s}
ById(s, id) == CHOOSE x \in ToSet(s) : x.id = id
Ids(s) == {s[i].id : i \in DOMAIN s}
Keys(ts) == {ts[i][1] : i \in DOMAIN ts}

\* the points of a way: references to nodes which the document does not have are left out
WayPts(doc, w) ==
  LET known == SelectSeq(w.refs, LAMBDA r : r \in Ids(doc.nodes))
  IN [i \in DOMAIN known |-> LET n == ById(doc.nodes, known[i]) IN <<n.lat, n.lon>>]
IsArea(pts) == Len(pts) > 3 /\ pts[1] = pts[Len(pts)]
Kept(doc) == SelectSeq(doc.ways, LAMBDA w : WayPts(doc, w) # <<>>)

(* ---- relations ---- *)

HasTag(x, k, v) == \E i \in DOMAIN x.tags : x.tags[i] = <<k, v>>
Kind(r) == IF HasTag(r, "type", "multipolygon") THEN "multi" ELSE IF HasTag(r, "type", "building") THEN "building" ELSE "plain"
MType(m) == IF m.t \in {"n", "w"} THEN m.t ELSE "r"
Exists(doc, m) == m.ref \in (CASE MType(m) = "n" -> Ids(doc.nodes) [] MType(m) = "w" -> Ids(Kept(doc)) [] OTHER -> Ids(doc.rels))
Key(m) == <<MType(m), m.ref>>

RECURSIVE Once(_)
Once(s) == IF s = <<>> THEN <<>>
           ELSE LET f == SubSeq(s, 1, Len(s) - 1) x == s[Len(s)]
                IN IF x \in ToSet(f) THEN Once(f) ELSE Append(Once(f), x)

\* relations a relation lists as its members
Holds(doc, id) == LET r == ById(doc.rels, id)
                  IN {m.ref : m \in {x \in ToSet(r.members) : MType(x) = "r" /\ Exists(doc, x)}}
RECURSIVE Reach(_, _)
Reach(doc, ids) == LET more == ids \cup UNION {Holds(doc, i) : i \in ids} IN IF more = ids THEN ids ELSE Reach(doc, more)
\* following members from b leads back to a
LeadsBack(doc, a, b) == a \in Reach(doc, {b})

Listed(doc, r) ==
  LET ms == SelectSeq(r.members, LAMBDA m : Exists(doc, m) /\ ~(Kind(r) = "building" /\ m.role = "outline"))
  IN Once([i \in DOMAIN ms |-> Key(ms[i])])

\* what the whole document says about an element: it is part of a building, so it is not one itself
PartOf(doc, key) == {r \in ToSet(doc.rels) : Kind(r) = "building" /\ \E i \in DOMAIN r.members : Key(r.members[i]) = key}
Ignored(doc, key, ign) ==
  LET bs == PartOf(doc, key)
  IN IF \E r \in bs : key[1] # "r" \/ ~LeadsBack(doc, r.id, key[2]) THEN ign ELSE bs = {} => ~ign

(* ---- multipolygons ---- *)

\* members which count, in order; the first way which is missing spoils everything
WayMembers(r) == SelectSeq(r.members, LAMBDA m : m.t = "w")
Complete(doc, r) == \A i \in DOMAIN WayMembers(r) : Exists(doc, WayMembers(r)[i])
Members(doc, r) ==
  LET ms == SelectSeq(WayMembers(r), LAMBDA m : m.role \in {"outer", "inner"})
  IN [i \in DOMAIN ms |-> [id |-> ms[i].ref, role |-> ms[i].role, pts |-> WayPts(doc, ById(doc.ways, ms[i].ref))]]
Donors(doc, r) ==
  IF Len(r.tags) >= 2 THEN {}
  ELSE {ById(doc.ways, m.ref) : m \in {x \in ToSet(WayMembers(r)) : x.role = "outer" /\ Exists(doc, x) /\ IsArea(WayPts(doc, ById(doc.ways, x.ref)))}}

\* tags of a multipolygon: its own; without any but the type, those of its closed outer ways as well
MultiTags(doc, r, tags) ==
  LET ds == Donors(doc, r)
      all == UNION {Keys(d.tags) : d \in ds} \cup Keys(r.tags)
  IN /\ ToSet(r.tags) \subseteq ToSet(tags)
     /\ Cardinality(Keys(tags)) = Len(tags)
     /\ Keys(tags) \subseteq all
     /\ Complete(doc, r) => Keys(tags) = all
     /\ \A t \in ToSet(tags) \ ToSet(r.tags) : \E d \in ds : t \in ToSet(d.tags)
MultiIgnored(doc, r, ign) ==
  IF \E d \in Donors(doc, r) : PartOf(doc, <<"w", d.id>>) # {} THEN TRUE ELSE Ignored(doc, <<"r", r.id>>, ign)

(* ---- elements ---- *)

Tagged(x, e) == Len(e.tags) = Len(x.tags) /\ ToSet(e.tags) = ToSet(x.tags)
KeyOf(e) == <<IF e.t = "a" THEN "w" ELSE e.t, e.id>>

IsNode(doc, e) == LET n == ById(doc.nodes, e.id) IN Tagged(n, e) /\ e.pts = <<<<n.lat, n.lon>>>>
IsWay(doc, e) ==
  LET w == ById(doc.ways, e.id)
      pts == WayPts(doc, w)
      open == SubSeq(pts, 1, Len(pts) - 1)
  IN /\ Tagged(w, e)
     /\ IF IsArea(pts) THEN /\ e.t = "a" /\ Area2(e.pts) >= 0
                            /\ e.pts = open \/ e.pts = Rev(open)
        ELSE e.t = "w" /\ e.pts = pts

RECURSIVE IsElement(_, _), IsRelation(_, _)
IsElement(doc, e) ==
  /\ e.found
  /\ CASE e.t = "n" -> e.id \in Ids(doc.nodes) /\ (IsNode(doc, e) = TRUE) /\ Ignored(doc, KeyOf(e), e.ign)
       [] e.t \in {"a", "w"} -> e.id \in Ids(doc.ways) /\ (IsWay(doc, e) = TRUE) /\ Ignored(doc, KeyOf(e), e.ign)
       [] OTHER -> e.id \in Ids(doc.rels) /\ IsRelation(doc, e)
IsRelation(doc, e) ==
  LET r == ById(doc.rels, e.id)
  IN IF Kind(r) = "multi" THEN
       /\ MultiTags(doc, r, e.tags) /\ MultiIgnored(doc, r, e.ign)
       /\ \A i \in DOMAIN e.els : e.els[i].t = "a" /\ e.els[i].tags = <<>> /\ ~e.els[i].ign
       /\ IF Complete(doc, r) THEN Assembled(Members(doc, r), e.els) ELSE e.els = <<>>
     ELSE
       LET want == Listed(doc, r)
           keys == [i \in DOMAIN e.els |-> KeyOf(e.els[i])]
           got == IF Kind(r) = "building" THEN Once(keys) ELSE keys
       IN /\ Tagged(r, e) /\ Ignored(doc, KeyOf(e), e.ign)
          \* all that is listed, in this order, but for relations which lead back to this one
          /\ got = SelectSeq(want, LAMBDA k : k \in ToSet(got))
          /\ \A k \in ToSet(want) \ ToSet(got) : k[1] = "r" /\ LeadsBack(doc, e.id, k[2])
          /\ \A i \in DOMAIN e.els : IsElement(doc, e.els[i])

\* what is handed to the stores: every element once, in any order
Described(doc, out) ==
  LET keys == {KeyOf(out[i]) : i \in DOMAIN out}
  IN /\ Len(out) = Cardinality(keys)
     /\ keys = {<<"n", i>> : i \in Ids(doc.nodes)} \cup {<<"w", i>> : i \in Ids(Kept(doc))} \cup {<<"r", i>> : i \in Ids(doc.rels)}
     /\ \A i \in DOMAIN out : IsElement(doc, out[i])

\* after cancellation: nothing more, and what was handed over is right
PartlyDescribed(doc, out) ==
  /\ Cardinality({KeyOf(out[i]) : i \in DOMAIN out}) = Len(out)
  /\ \A i \in DOMAIN out : IsElement(doc, out[i])
=============================================================================
