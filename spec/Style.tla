------------------------------- MODULE Style --------------------------------
(* Style sheets: which declarations apply to an element at a level of detail.
   A sheet is a sequence of rules  [sels |-> <<selector>>, decls |-> <<<<key, value>>>>]  with selectors
   [names |-> <<kind>>, z1 |-> from, z2 |-> to, conds |-> <<condition>>]  and conditions
   [k |-> tag, op |-> "has" | "eq" | "ne" | "lt" | "gt", v |-> value].
   Kinds are node, way, area, relation, element (its only condition names an id) and canvas.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* What the text of a value means as a number, in halves. Texts which are no numbers mean 0.
NumberOf ==
  ("0" :> 0) @@ ("1" :> 2) @@ ("2" :> 4) @@ ("5" :> 10) @@ ("10" :> 20) @@ ("12" :> 24) @@ ("100" :> 200)
  @@ ("-3" :> -6) @@ ("-1" :> -2) @@ ("2.5" :> 5) @@ ("0.5" :> 1) @@ ("-0.5" :> -1) @@ ("1e1" :> 20) @@ ("+4" :> 8)
  @@ ("1.0" :> 2) @@ ("01" :> 2) @@ ("1e0" :> 2) @@ ("10.0" :> 20) @@ ("05" :> 10) @@ ("16777216" :> 33554432) @@ ("16777217" :> 33554434)
  @@ ("1000000000" :> 2000000000) @@ ("1000000001" :> 2000000002)
Num(s) == IF s \in DOMAIN NumberOf THEN NumberOf[s] ELSE 0

Keys(tags) == {tags[i][1] : i \in DOMAIN tags}
ValueOf(tags, k) == LET i == CHOOSE j \in DOMAIN tags : tags[j][1] = k IN tags[i][2]

Holds(c, tags) ==
  /\ c.k \in Keys(tags)
  /\ LET v == ValueOf(tags, c.k)
     IN CASE c.op = "has" -> TRUE
          [] c.op = "eq" -> v = c.v
          [] c.op = "ne" -> v # c.v
          [] c.op = "lt" -> Num(v) < Num(c.v)
          [] c.op = "gt" -> Num(v) > Num(c.v)

At(sel, lod) == sel.z1 <= lod /\ lod <= sel.z2
Applies(sel, el, lod) == /\ At(sel, lod)
                         /\ \E i \in DOMAIN sel.names : sel.names[i] = el.t
                         /\ \A i \in DOMAIN sel.conds : Holds(sel.conds[i], el.tags)
\* Ids have 64 bits; those which TLC has no number for are texts.
IdText(el) == IF "ids" \in DOMAIN el THEN el.ids ELSE ToString(el.id)
Names(sel, el, lod) == At(sel, lod) /\ sel.names = <<"element">> /\ sel.conds[1].v = IdText(el)
OnCanvas(sel, lod) == At(sel, lod) /\ sel.names = <<"canvas">>

\* Declarations of the rules of which some selector satisfies P, in the order of the sheet.
RECURSIVE Gather(_, _, _)
Gather(sheet, i, hit) == IF i > Len(sheet) THEN <<>>
                         ELSE (IF i \in hit THEN sheet[i].decls ELSE <<>>) \o Gather(sheet, i + 1, hit)

ById(sheet, el, lod) == {i \in DOMAIN sheet : \E j \in DOMAIN sheet[i].sels : Names(sheet[i].sels[j], el, lod)}
ByTags(sheet, el, lod) == {i \in DOMAIN sheet : \E j \in DOMAIN sheet[i].sels : Applies(sheet[i].sels[j], el, lod)}
ByCanvas(sheet, lod) == {i \in DOMAIN sheet : \E j \in DOMAIN sheet[i].sels : OnCanvas(sheet[i].sels[j], lod)}

\* Rules for the id of an element take the place of all others.
Hit(sheet, el, lod) == IF ById(sheet, el, lod) # {} THEN ById(sheet, el, lod) ELSE ByTags(sheet, el, lod)

Has(sheet, el, lod) == Hit(sheet, el, lod) # {}

\* A later declaration replaces an earlier one with the same key.
Last(ds) == {ds[i] : i \in {j \in DOMAIN ds : \A k \in DOMAIN ds : k > j => ds[k][1] # ds[j][1]}}
Resolve(sheet, el, lod) == Last(Gather(sheet, 1, Hit(sheet, el, lod)))
Canvas(sheet, lod) == Last(Gather(sheet, 1, ByCanvas(sheet, lod)))
\* The builders of all rules are kept.
Builders(sheet, el, lod) == LET ds == Gather(sheet, 1, Hit(sheet, el, lod))
                            IN {ds[i][2] : i \in {j \in DOMAIN ds : ds[j][1] = "builder"}}

--------------------------------------------------------------------------------
VARIABLE sheets   \* slot -> [rules, tag]

Load(slot, rules, tag) ==
  /\ \A s \in DOMAIN sheets : sheets[s].rules = rules => sheets[s].tag = tag
  /\ sheets' = [s \in DOMAIN sheets \cup {slot} |-> IF s = slot THEN [rules |-> rules, tag |-> tag] ELSE sheets[s]]

\* Sheets which treat some element or the canvas differently have different tags.
Distinct(slot, other, els, lods) ==
  LET a == sheets[slot] b == sheets[other]
  IN (\E l \in 1..lods : Canvas(a.rules, l) # Canvas(b.rules, l)
        \/ \E i \in DOMAIN els : \/ Has(a.rules, els[i], l) # Has(b.rules, els[i], l)
                                 \/ Resolve(a.rules, els[i], l) # Resolve(b.rules, els[i], l))
     => a.tag # b.tag
=============================================================================
