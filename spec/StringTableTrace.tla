--------------------------- MODULE StringTableTrace -------------------------
EXTENDS StringTable, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1 /\ names = <<>>
Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "st.new" -> names' = <<>>
       [] e.ev = "st.reopen" -> UNCHANGED names
       [] e.ev = "st.id" -> GetId(e.s, e.res)
       [] e.ev = "st.str" -> GetString(e.id, e.res)
       [] e.ev = "st.par" -> AtOnce(e.lists, e.ids) /\ e.back = e.lists
       [] e.ev = "st.fill" -> Fill(e.list, e.res)
       [] e.ev = "st.crash" -> Crash(e.list, e.ended, e.all)
Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, names>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
