HOW = {}
HOW["C01"] = """
`Store.tla` (a store is a map from tiles to sequences of contents; actions store, erase, flush, close/reopen, search with a
reader that cancels). `StoreMC` explores all histories of two tiles and three elements. `StoreTrace` validates histories of
random operations on both stores, with all element kinds, nesting, long strings, and reopening at random points: contents
are compared bit for bit through a hash. Beyond tests: histories (stores after searches and reopenings, erasing between).
"""
HOW["C02"] = """
The same module: `Find` defines the answer of a query as a set comprehension over the stored elements (bounding boxes on a
grid, words of tags). Random histories with many elements per tile (several words of a bitmap), queries over boxes which
touch, cross and miss elements, words which occur nowhere, reopened stores. Cost 15 s. Bound: coordinates on the grid.
"""
HOW["C03"] = """
`Grid.tla` + `Store.tla`: placement is computed from the bounding box of an element in grid units and the rules of the
sheet; random elements, sheets (levels, conditions, skip), level ranges, boxes and single tiles; afterwards every tile
around is read back. Elements near tile borders are placed half a unit off the border, because the tile of a
coordinate exactly on a border depends on rounding.
"""
HOW["C04"] = """
`Clip.tla` decides for grid points (quarter units, off all edges) whether they lie in the original and in what was kept in
the tile (even-odd rule, exact integers), for ways whether every kept vertex lies on the original and every sampled point
of the original in the tile lies on a kept part. Shapes: convex, concave, spiral and comb polygons, long and closed ways,
elements over many tiles. Known finding: exactly horizontal or vertical segments on tile borders (degenerate input of the
clipping library).
"""
HOW["C05"] = """
`GeoStore.tla`: registered stores, import of files (XML, JSON) and elements, cancellation after the n-th save, reads.
`GeoStoreMC` explores all histories of two stores; the driver cancels at every n. Reads are compared as bags, since the
order of elements of one file is not specified.
"""
HOW["C06"] = """
`StringTable.tla` (the sequence of known strings), `StringTableMC` (all histories), `StringTableFS.tla` (the two files, the
writes of the code as separate steps and a crash between any two of them; refinement of the former is checked). Traces:
random histories with reopening, colliding hashes, more strings than the cache holds, eight threads, and a child process
which is ended at its n-th write for every n, after which the table is opened and used.
"""
HOW["C07"] = """
`LruCache.tla`; `LruCacheMC` compares it with the definition by time of last use for all histories up to a bound; TLC
-simulate generates 300 behaviours of 45 operations which are replayed, with 150 random histories of other capacities.
"""
HOW["C08"] = """
`Build.tla` says which elements a tile's builders get (`Todo`: styles from `Style.tla`, pieces of cut elements, ids met) and
what a log of a build looks like; `BuildMC` is the building step by step, in every order of builders and completions, with
cancellation at every point, for all tiles of up to three elements out of six kinds: its logs satisfy the predicate. The real
QuadKeyBuilder runs with recording builders over stores which give fixed elements (ids which repeat, within and across
stores, whole and in pieces, ids which differ only in their upper half), with random sheets, sets of registered builders,
cancellation and failing builders, builds one after another and in parallel.
"""
HOW["C09"] = """
`MeshCache.tla`: sessions (hit, owner, plain) and files; `MeshCacheMC` checks on 420 000 states that hits are whole, that a
file has one writer and that what is on disk with a mark is complete. The real CacheBuilder and MeshCache run with a builder
which makes meshes (0 to 24 000 numbers) and elements: up to four open sessions interleaved at will, cancelled, dropped,
switched on and off, process ends which leave any prefix of a file (also an empty one), and whole sessions in threads.
"""
HOW["C10"] = """
`Style.tla`: a sheet is a sequence of rules; Resolve, Has, Builders and Canvas are defined on it. `StyleMC` checks on all
sheets of two rules of a small universe (35 000) that later declarations win, rules which do not apply change nothing, id
rules are exclusive. Random sheets (1-7 rules, all condition kinds, levels, imports nested twice, comments and white space)
and elements made to hit or narrowly miss conditions; tags of sheets: the same rules written differently have the same
tag; sheets which differ in one place have different ones as soon as a probe element tells them apart (the specification
decides that). Eight threads ask the same provider; their answers must be those of one.
Numbers in `<`/`>` come from a fixed vocabulary of texts (`NumberOf`).
"""
HOW["C11"] = """
`Expr.tla`: exact rational arithmetic; `ExprMC` enumerates all expressions of up to two operators over five operands
(2105), checks laws on them and emits them for replay; random declarations (expressions up to four operators, metres,
percents, malformed expressions) are read as text, number, relative to a size and to a box. Results which binary floating
point does not hold exactly are not compared (the specification says which). The driver turns an angle on the ground
back into metres with its own formula of the radius of the earth.
"""
HOW["C14"] = """
`LSystem.tla`: `Derives` decides whether a path can be derived from the axiom in n parallel generations with the
productions that have a chance; `Walk` is the turtle (exact for angles of 0, 90 and 180 degrees). `LSystemMC` explores all
walks of three commands (unit vectors, undo, save/restore), which are replayed; random systems and walks of 60 commands;
400 runs per stochastic system must keep within eight standard deviations of the weights. Where the turtle's axis is
undefined (direction parallel to its right hand) the specification allows anything.
"""
HOW["C20"] = """
`Gradient.tla`: colours of CSS, stops, and the interval of values a channel may have after rounding down twice;
`GradientMC` checks that it is never empty and exact at stops, and emits 336 gradients for replay. Random gradients of up
to six stops, every colour name, atlases with repeated indices and groups.
"""
HOW["C12"] = """
`Osm.tla`: `Described(doc, out)` is what a document may become. `OsmMC` is the resolution of relations step by step (an
explicit stack, members in any order of the table) for all documents of a small universe; its results satisfy the predicate,
and it ends for cyclic relations. Random documents (ids shared between types, ids beyond 32 bits, missing nodes, ways,
relations; relations of all kinds nested and cyclic; relations before ways) go through the real OsmDataVisitor. Which of
several relations of a cycle is cut is left open.
"""
HOW["C13"] = """
`Multipolygon.tla` defines rings as the components of ways which share ends, nesting by the even-odd rule in exact integers,
and `Assembled`; `MultipolygonMC` is an assembler which picks ways in any order and turns them as needed: for all cuts and
orders of a set of nested rings its result satisfies `Assembled` (63 000 states). Random nestings (up to six star shaped rings,
depth 3, each cut into up to four ways, reversed and shuffled, with pieces missing) go through the real visitor.
"""
HOW["C19"] = """
`OsmFiles.tla` (features of GeoJSON and shape files) and `Osm.tla`. The specification's document is written as XML and PBF by
an own writer (`vf/osmgen.py`: all encodings at random, also protobuf by hand) and read by the real parsers, and the elements
are checked against the document. Damaged files: cut at any byte, bytes changed; the driver must answer (a crash
is a rejected event), and cut XML and JSON must be refused.
"""
HOW["C16"] = """
`Quad.tla` works in exact integers on the Mercator plane of 2^26 units: tiles, digits, boxes, overlap. `QuadMC` checks on small
levels that tiles partition the plane, digits are unique and the ranges of tiles cover. Random points (biased to one unit beside
borders of tiles, and beyond the map), boxes and tiles are given to the library and to the C# client (built with mcs for the
.NET 3.5 profile, run by mono), whose answers are converted to that plane and compared exactly.
"""
HOW["C15"] = """
`Elevation.tla` interpolates in exact integers (eighths of a cell); `ElevationMC` walks over every 3 by 3 grid and checks that
heights stay between the four samples, meet the samples, never jump. Random grids and cells, written as files in the formats
above, are asked by the real providers; `ElevationTrace` accepts heights within what a shift of the point by the code's rounding
(1e-7 degrees) can do. The driver is built with the thread sanitizer: a race (an access to the cache outside its lock) is an
event the specification rejects, whatever the schedule.
"""

HOW["C17"] = """
`Terrain.tla` says, from the regions and the sheet alone, which look a point of the tile has (rings with holes by parity, ways by
their distance; "maybe" next to borders, where rounding decides). `TerrainMC` models the way terrain is made (layers from the top
down, each region without what is taken, then the background) and checks for all small arrangements and orders that every cell is
taken exactly once by the look asked for. The real builder gets random sheets, regions (overlapping, nested, touching each other and
the border, islands in holes, thin holes, more than 16 regions) over a sloped plane; its triangles over sample points are found by
an independent point in triangle test, their areas are summed, walls are measured, the vertices on borders listed, and
`TerrainTrace` compares all of it with the specification.
"""

HOW["C22"] = """
`Building.tla` says which meshes there are, where the parts stand, what roof they get, the height of the roof over a point, the edges
which are open. `BuildingMC` puts shells together face by face in any order for all small rings, with and without a hole, and checks
that what stays open is what the specification says, and that edges balance at every corner. The real builder gets random footprints
(rectangles turned and not, L and U shapes, stars, holes, pieces), styles, planes of elevation and relations; an observer, which knows
nothing of buildings, cancels edges going both ways, lists the open ones, sums the signed volume and the area of walls per colour and
texture, finds the triangles over and under sample points, and `BuildingTrace` compares all of it with the specification.
"""
HOW["C23"] = """
`Furniture.tla` (with the turtle of `LSystem.tla`) says where things stand and what a model grows to. `FurnitureMC` goes along all
small ways and checks that things are between one and two steps apart, from the first point on. The real builders get random styles,
ways, areas, relations and L-systems of one or two generations; every vertex must lie on one of the primitives of the right look,
every primitive's marks (ends, middle, rim) must be there, everything is closed with the right signed volume; walls are compared corner
by corner. Forests are checked against the triangles of their ground, told apart from the trees by their colour.
"""

HOW["C18"] = """
`Mesh.tla` says what a mesh shows (a list of triangles), `MeshMC` how it is stored (vertices, numbers, texture map with merged
neighbours, copies with an offset) and checks for all short histories of two meshes that what is stored shows what was asked for and is
`WellFormed`. Random histories of real calls (triangles, planes, polygons with holes and refinement, finishing, copying, pooling) are
read back as triangles and compared with `MeshTrace`. The real builders then get elements of any kind, proper and not, and the
scenes of C17, C22 and C23; every mesh handed out must be `WellFormed` and `Mapped` (`FormedTrace`).
"""

HOW["C21"] = """
`Api.tla` puts `Store`, `Style` and `Build` together into a session: connection, sheets, stores (in memory, in folders), their tiles, the
folders and contents of the cache of meshes, files of elevation. Every operation is an action whose reply is judged, not chosen.
`ApiMC` explores all sessions of up to 7 operations of a small world and checks that what a tile gives was put and is put
once, that what is in folders is never lost and what is in memory goes, that a refused request changes nothing, that a key keeps its
store and that kept terrain stays. `api_driver.cpp` includes the exported functions and calls them as a client does; random
sessions of about 60 calls (`vf/apigen.py`) with connecting again, wrong keys, sheets, levels and files, cancelling before and
in the first callback, and all kinds of elevation are recorded with all that the callbacks were told, and are checked against `ApiTrace`.
"""

HOW["C24"] = """
`Crowd.tla` extends `Api` by a step in which several threads make requests, each in its own order: a reply has to lie between what was
there before (or was added by the same thread before) and what is there when all are done, each element whole; the state after it has
everything. Random sessions are run against the exported functions with real threads, in a build watched by the thread
sanitizer, whose number of reports is part of the recorded reply and has to be 0, so that wrong synchronisation shows also in schedules in
which nothing goes wrong; later requests of the session check the state. Rejections are reported when one of 16 more runs of the
same session is rejected too.
"""

HOW["C25"] = """
`RangeTree.tla` is a bag of items and the bag the tree was built from, `RangeTreeMC` explores all short histories and checks that both
agree whenever the tree says so. Random histories over small keys (many equal, touching and nested ranges, three comparers, automatic rebuilding
switched on and off) run against the real tree and are checked by `RangeTreeTrace`; answers are compared as bags.
"""
HOW["C26"] = """
`Anim.tla` has single animations, groups and what is started by whoever is told, with exact arithmetic (64ths of a second, powers of
two on curves); `AnimMC` checks for all short histories of a small tree of animations that being finished is told once per run and that a group runs as long as
one of its parts. Random trees and histories, also with animations which start others or themselves when told, drive the real classes through
a transform-less subclass that records positions. Curves and paths are compared with the specification at dyadic points.
"""
HOW["C27"] = """
`Tiles.tla` is the registry of elements; `TilesMC` checks for two tiles that nothing stays registered which no live tile has and that nothing is built
twice. Histories of real tiles are checked by `TilesTrace`. Threads then race for real: registering while disposing (nothing may stay registered), and programs of
operations on the set and the dictionary, whose answers have to be explained by an order of whole operations (`Possible`, linearizability), some hundred rounds of each.
"""
HOW["C28"] = """
`Acquire.tla` is the way of a tile through queue, requests, files, imports and loads as functions of one state. `AcquireMC` checks for three (thorough: five) tiles which share
files that every tile is in one place, no file is written twice, map data comes after elevation, nothing is loaded which is not in the library, and, with fair servers, that whoever
asks is told. The real store with the real providers runs on files, servers and a library in memory, and on a scheduler which replaces the thread pool and the clock: it runs what is ready in order, in reverse order,
or in threads at once. Requests are decoded (boxes, polylines) and `AcquireTrace` attributes everything that happens to its cause and compares it with the outcomes the specification allows. Archives are made by Python.
"""

HOW["C29"] = """
`Api.tla` and `Crowd.tla` (C21, C24) specify what the exported interface does; `ClientTrace` reads them as the specification of the C# client: a sheet is registered by its first use, two listeners hear the
same, a mesh is points, triangles and colours. The real `MapDataLibrary` runs on mono with libUtyMap.Shared.so built from the tree; programs are random histories of it and of threads at once, with cancelled
requests and listeners which throw; after each of those other threads ask for everything. Path resolver and projection are stand-ins (a resolver which is not idempotent, a projection which shows the vertices).
"""
HOW["C30"] = """
`Geocode.tla` has the geocoder which asks a server: questions, answers in any order, who is told; `GeocodeMC` checks that whoever listens is told all that is answered since, once, in order. The real
`NominatimGeocoder` asks a stand-in for the network under several cultures; its questions are decoded as a server would, and answers are JSON documents written in many ways, or not readable, or failures.
`PlacesTrace` extends `ClientTrace` by the geocoder which asks the stores: its questions are text queries of `Store` (metres are turned into units of the grid), and names are put together from address tags.
"""
