------------------------------- MODULE Acquire -------------------------------
(* Where the map data of tiles comes from.  A tile which is asked for needs elevation data first (none, a file of the     *)
(* elevation grid of the tile, or the SRTM cell at its middle), then map data: nothing when the store has the tile        *)
(* already, otherwise a file of raw data which is imported into the first store.  Files which are not there are           *)
(* downloaded.  Every pure operator takes the whole state w, so that the model and the traces use the same ones.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE KeyOf(_, _, _)
KeyOf(x, y, lod) == IF lod = 0 THEN "" ELSE KeyOf(x \div 2, y \div 2, lod - 1) \o ToString((x % 2) + 2 * (y % 2))

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

Key(t) == KeyOf(t.x, t.y, t.lod)

(* vector tiles of a level are cut from the downloaded tile of a lower one *)
Level(lod) == CASE lod = 2 -> 1 [] lod = 3 -> 3 [] lod = 4 -> 3 [] lod = 5 -> 4 [] lod = 6 -> 5 [] lod = 7 -> 6 [] lod = 8 -> 7 [] OTHER -> lod
Whole(t) == LET d == Pow2(t.lod - Level(t.lod)) IN [x |-> t.x \div d, y |-> t.y \div d, lod |-> Level(t.lod)]

Pad(n, w) == LET s == ToString(n) IN IF n < 10 /\ w = 3 THEN "00" \o s ELSE IF (n < 100 /\ w = 3) \/ (n < 10 /\ w = 2) THEN "0" \o s ELSE s
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Cell(t) == (IF t.cell[1] >= 0 THEN "N" ELSE "S") \o Pad(Abs(t.cell[1]), 2) \o (IF t.cell[2] >= 0 THEN "E" ELSE "W") \o Pad(Abs(t.cell[2]), 3)

ElePath(w, t) == IF t.ele = 2 THEN "ele/data/" \o ToString(t.lod) \o "/" \o Key(t) \o "." \o w.cfg.eleformat ELSE "ele/data/" \o Cell(t) \o ".hgt"
DataPath(w, t) == IF t.lod = 16 THEN "import/" \o Key(t) \o "." \o w.cfg.osmformat ELSE "import/" \o Key(Whole(t)) \o "." \o w.cfg.mapformat
Path(w, t, stage) == IF stage = "ele" THEN ElePath(w, t) ELSE DataPath(w, t)

(* What can happen to tile t which is about to enter a stage, when the files f1 are there for sure and f2 may be *)
Import(w, t) == IF Key(t) \in w.lib THEN {[k |-> "get"]} ELSE {[k |-> "add"]}
Data(w, f1, f2, t) ==
  IF Key(t) \in w.lib THEN {[k |-> "get"]}
  ELSE (IF DataPath(w, t) \in f2 THEN {[k |-> "add"]} ELSE {}) \cup (IF DataPath(w, t) \notin f1 THEN {[k |-> "data"]} ELSE {})
Ele(w, f1, f2, t) ==
  IF t.ele = 0 THEN Data(w, f1, f2, t)
  ELSE (IF ElePath(w, t) \in f2 THEN Data(w, f1, f2, t) ELSE {})
       \cup (IF ElePath(w, t) \in f1 THEN {} ELSE IF t.ele = 2 /\ w.cfg.limit THEN {[k |-> "wait"]} ELSE {[k |-> "ele"]})
After(w, f1, f2, t, stage) == IF stage = "ele" THEN Data(w, f1, f2, t) ELSE Import(w, t)

(* state after outcome k of tile t *)
Apply(w, t, k) ==
  CASE k = "wait" -> [w EXCEPT !.queue = Append(@, t)]
    [] k \in {"ele", "data"} -> [w EXCEPT !.net = Append(@, [tile |-> t, stage |-> k])]
    [] k = "add" -> [w EXCEPT !.adds = Append(@, [tile |-> t, key |-> Key(t), user |-> FALSE])]
    [] k = "get" -> [w EXCEPT !.gets = Append(@, t)]

(* the limited server is asked once a second *)
Ticks(w, ms) == (w.now + ms) \div 1000 - w.now \div 1000
Tick(w) == IF w.queue = <<>> THEN w ELSE Apply([w EXCEPT !.queue = Tail(@)], Head(w.queue), "ele")

Start(cfg, files, lib) == [cfg |-> cfg, files |-> files, lib |-> lib, queue |-> <<>>, now |-> 0, net |-> <<>>, adds |-> <<>>, gets |-> <<>>]
===============================================================================
