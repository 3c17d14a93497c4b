------------------------------ MODULE StyleTrace -----------------------------
EXTENDS Style, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1 /\ sheets = <<>>
Set(s) == {s[i] : i \in DOMAIN s}
Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "ss.new" -> sheets' = <<>>
       [] e.ev = "ss.load" -> e.ok /\ Load(e.slot, e.rules, e.tag)
       [] e.ev = "ss.el" ->
            /\ UNCHANGED sheets
            /\ e.has = Has(sheets[e.slot].rules, e.el, e.lod)
            /\ Len(e.decls) = Cardinality(Set(e.decls))
            /\ Set(e.decls) = Resolve(sheets[e.slot].rules, e.el, e.lod)
            /\ Set(e.builders) = Builders(sheets[e.slot].rules, e.el, e.lod)
            /\ Len(e.builders) = Cardinality(Set(e.builders))
       [] e.ev = "ss.canvas" -> /\ UNCHANGED sheets
                                /\ Set(e.decls) = Canvas(sheets[e.slot].rules, e.lod)
       [] e.ev = "ss.par" -> UNCHANGED sheets /\ e.same
       [] e.ev = "ss.tags" -> UNCHANGED sheets /\ Distinct(e.slot, e.other, e.els, e.lods)
Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, sheets>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
