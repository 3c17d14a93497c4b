------------------------------ MODULE OsmFiles ------------------------------
(* Features of GeoJSON tiles and of shape files, and the elements they are. A feature has
     layer, type, id, props (pairs of key and text), geom: a sequence of polygons, each a sequence of lines
     or rings, each a sequence of points <<lat, lon>>. *)
EXTENDS Integers, Sequences, FiniteSets

SetOf(s) == {s[i] : i \in DOMAIN s}
Turn(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Ring(pts) == Len(pts) > 3 /\ pts[1] = pts[Len(pts)]
Short(s) == SubSeq(s, 1, Len(s) - 1)

Is(e, t, id, tags) == e.t = t /\ e.id = id /\ ~e.ign /\ Len(e.tags) = Len(tags) /\ SetOf(e.tags) = SetOf(tags) /\ e.found
\* a line, or a ring, whose points are given the other way round
Line(e, t, id, tags, pts) ==
  /\ Is(e, t, id, tags)
  /\ e.pts = Turn(pts) \/ (t = "a" /\ e.pts = Turn(Short(pts)))
Part(e, id, tags, pts) == Line(e, IF Ring(pts) THEN "a" ELSE "w", id, tags, pts)
Parts(e, parts) == Len(e.els) = Len(parts) /\ \A i \in DOMAIN parts : Part(e.els[i], "0", <<>>, parts[i])

JsonIs(f, e) ==
  LET tags == Append(f.props, <<"feature", f.layer>>)
      one == f.geom[1]
  IN CASE f.type = "Point" -> Is(e, "n", f.id, tags) /\ e.pts = one[1]
       [] f.type = "LineString" -> Is(e, "w", f.id, tags) /\ e.pts \in {one[1], Turn(one[1])}
       [] f.type \in {"Polygon", "MultiLineString"} ->
            IF Len(one) = 1 THEN Part(e, f.id, tags, one[1])
            ELSE Is(e, "r", f.id, tags) /\ Parts(e, one)
       [] f.type = "MultiPolygon" ->
            /\ Is(e, "r", f.id, tags)
            /\ Len(e.els) = Len(f.geom)
            /\ \A i \in DOMAIN f.geom :
                 IF Len(f.geom[i]) = 1 THEN Part(e.els[i], "0", <<>>, f.geom[i][1])
                 ELSE Is(e.els[i], "r", "0", <<>>) /\ Parts(e.els[i], f.geom[i])
JsonDescribed(fs, out) == Len(out) = Len(fs) /\ \A i \in DOMAIN fs : JsonIs(fs[i], out[i])

(* shape files: one type of shape each, points, arcs or polygons; no ids *)
ShapeTags(ev, f) == SelectSeq([i \in DOMAIN ev.fields |-> <<ev.fields[i][1], f.texts[i]>>], LAMBDA t : t[2] # "")
\* arcs of several parts are not supported
Readable(ev) == SelectSeq(ev.features, LAMBDA f : ~(ev.type = "arc" /\ Len(f.parts) > 1))
ShapeIs(ev, f, e) ==
  LET tags == ShapeTags(ev, f)
      p == f.parts[1]
  IN CASE ev.type = "point" -> Is(e, "n", "0", tags) /\ e.pts = p
       [] ev.type = "arc" -> Is(e, IF p[1] = p[Len(p)] THEN "a" ELSE "w", "0", tags) /\ e.pts = p
       [] ev.type = "polygon" ->
            /\ Is(e, "r", "0", tags)
            /\ Len(e.els) = Len(f.parts)
            /\ \A i \in DOMAIN f.parts : Is(e.els[i], "a", "0", <<>>) /\ e.els[i].pts = f.parts[i]
ShapeDescribed(ev, out) ==
  LET fs == Readable(ev)
  IN Len(out) = Len(fs) /\ \A i \in DOMAIN fs : ShapeIs(ev, fs[i], out[i])
=============================================================================
