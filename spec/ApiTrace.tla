------------------------------ MODULE ApiTrace ------------------------------
EXTENDS Crowd, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == /\ l = 1 /\ grid = [lod |-> 1, x |-> 0, y |-> 0, k |-> 1] /\ sheets = <<>> /\ conn = FALSE /\ stores = <<>> /\ data = <<>>
        /\ dirs = {} /\ caching = TRUE /\ kept = <<>> /\ ele = <<>> /\ cell = -1

Folders == [i \in 1..16 |-> ToString(i)]

Step(e) ==
  /\ "crash" \notin DOMAIN e /\ "error" \notin DOMAIN e
  /\ CASE e.ev = "reset" -> /\ grid' = e.grid /\ sheets' = <<>> /\ conn' = FALSE /\ stores' = <<>> /\ data' = <<>>
                            /\ dirs' = {} /\ caching' = TRUE /\ kept' = <<>> /\ ele' = <<>> /\ cell' = -1
       [] e.ev = "write" -> Write(e.sheet, e.rules)
       [] e.ev = "ele" -> Heights(e.tile, e.h)
       [] e.ev = "cell" -> Cell(e.h)
       [] e.ev = "connect" -> e.errors = 0 /\ Connect
       [] e.ev = "disconnect" -> Disconnect
       [] e.ev = "style" -> e.lods = Folders /\ RegisterSheet(e.sheet)
       [] e.ev = "memory" -> RegisterStore(e.key, <<"mem", e.key>>)
       [] e.ev = "disk" -> e.lods = Folders /\ e.folder = "" /\ RegisterStore(e.key, <<"disk", e.path>>)
       [] e.ev = "cache" -> Cache(e.on)
       [] e.ev = "add" -> Add(e.key, e.sheet, <<e.el>>, Place(e), TRUE, e.errors)
       [] e.ev = "import" -> Add(e.key, e.sheet, e.els, Place(e), e.as = "xml", e.errors)
       [] e.ev = "has" -> e.res = HasData(e.tile) /\ UNCHANGED apiVars
       [] e.ev = "get" -> ~e.strange /\ GetTile(e.sheet, e.tile, e.ele, e.cancel, e.elements, e.meshes, e.errors)
       [] e.ev = "text" -> ~e.strange /\ e.meshes = <<>> /\ GetText(Query(e), e.cancel, e.elements, e.errors)
       [] e.ev = "par" -> ("races" \in DOMAIN e => e.races = 0) /\ Par(e.threads, e.res, e.errors)
       [] e.ev = "height" -> e.res = 1000 * Elevation(e.ele, e.tile) /\ UNCHANGED apiVars

Next == l <= Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, apiVars>>
Accepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
