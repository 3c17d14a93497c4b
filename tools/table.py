NOT_YET = "No check yet in this commit; its specification is planned (see DESIGN.md)."
IDX = "core/src/index/"

prop("C01", "An element store gives back exactly what was stored in a tile",
     "For every history of storing, erasing, flushing, closing and reopening, a search of a tile yields exactly the elements stored in that tile since it was last erased, in the order in which they were stored, each with its id, tags, geometry and (nested) members unchanged. A reader that cancels after n elements has received exactly the first n; whether a tile has data is answered consistently with that, and looking for data never creates any. This holds alike for the store in memory and for the store on disk.",
     ["histories", "inputs"], "every sequence of store operations on any tiles and levels, every element",
     "Tests store a handful of elements once and read them back in the same session; they do not mix stores, erasures, reopenings and cancellations.",
     [IDX + "PersistentElementStore.cpp", IDX + "InMemoryElementStore.cpp", IDX + "ElementStream.cpp", IDX + "ElementStore.cpp"],
     [("index and data files of a tile", IDX + "PersistentElementStore.cpp"), ("element serialization", IDX + "ElementStream.cpp")],
     ["ElementStore::search(QuadKey)", "ElementStore::hasData"])

prop("C02", "Text search finds exactly the matching elements",
     "A text search over a bounding box and a range of levels of detail yields, for every tile of these levels which the box meets, exactly the elements stored there whose own bounding box meets the box and whose tags (keys and values, split into words) contain none of the 'not' words, all of the 'and' words and, if there are 'or' words, at least one of them. This holds after every history of storing, erasing and reopening, for any number of elements in a tile, in memory and on disk.",
     ["histories", "inputs"], "every history of a store and every query with at least one 'and' or 'or' word",
     "Tests search a few elements in one tile with one or two terms, always in the session which stored them.",
     [IDX + "BitmapIndex.cpp", IDX + "BitmapStream.cpp", IDX + "ElementStore.cpp", "core/lib/ewah/ewah.h"],
     [("bitmap per word and tile", IDX + "BitmapIndex.cpp"), ("bitmap file", IDX + "BitmapStream.cpp")],
     ["ElementStore::search(text)"])

prop("C03", "At import an element goes to exactly the tiles it should",
     "Storing an element for a range of levels of detail puts it, at every level of the range at which the style applies to it and does not skip it, into exactly the tiles its bounding box meets, and into no other tile or level; restricted to a bounding box it does so if and only if the element's bounding box meets that box, and restricted to one tile it puts it only there and only if its bounding box meets the tile. The result tells whether it was stored anywhere.",
     ["inputs", "configurations"], "every element, style sheet, level range, box and tile",
     "Tests store single elements at a few fixed coordinates under one rule.",
     [IDX + "ElementStore.cpp", IDX + "ElementGeometryVisitor.hpp", "core/src/utils/GeoUtils.hpp", "core/src/BoundingBox.hpp"],
     [("tiles of a bounding box", "core/src/utils/GeoUtils.hpp visitTileRange"), ("placement", IDX + "ElementStore.cpp")],
     ["ElementStore::store", "ElementStore::search(QuadKey) of every tile around"])

prop("C04", "Clipping keeps in every tile exactly the part of an element lying there",
     "An element whose style asks for clipping is stored in every tile it meets with geometry that lies inside that tile (up to rounding) and, over all tiles of a level together, is the original geometry: every point of the original which lies in a tile is on the part kept there and nothing is added. Its id and tags are kept, and nothing is stored in tiles which no part of it meets.",
     ["inputs"], "every way, polygon and node which meets the tiles, at every level of detail",
     "Tests clip a few hand-made shapes against one tile.",
     [IDX + "ElementGeometryClipper.cpp", IDX + "ElementStore.cpp"],
     [("polygon and line clipping", IDX + "ElementGeometryClipper.cpp")],
     ["ElementStore::search(QuadKey) after storing with clip: true"],
     "Relations are covered as results of multi-part clips, not as inputs. ")

prop("C05", "Adding data reaches only the named store; readers see all stores",
     "An element or file added to a named store goes to that store alone, while a search of a tile, a text search and the question whether a tile has data see the data of all registered stores; adding to a store which is not registered is reported and changes nothing. An import of one tile which is cancelled before it has ended, at whatever element, leaves no data in that tile of that store, so that the import can be repeated.",
     ["histories", "fault_sequences"], "every set of stores, every history of imports, additions and reads, every point of cancellation",
     "Tests use one store and never cancel during an import.",
     [IDX + "GeoStore.cpp", "core/src/formats/osm/OsmDataVisitor.cpp", IDX + "ElementStore.cpp"],
     [("map of stores", IDX + "GeoStore.cpp"), ("erase after cancellation", IDX + "GeoStore.cpp")],
     ["GeoStore::add", "GeoStore::search", "GeoStore::hasData"],
     "Cancelled imports over a range of levels are not covered: the stores do not implement erasing a box. ")

prop("C06", "The string table maps every string to one number for ever",
     "Every distinct string gets one number, given out consecutively, and the number gives back that string, at once, later, after reopening, for strings whose hashes collide and for more strings than are kept in memory. With any number of concurrent callers the answers are those of some order of their calls. If the process ends abruptly between any two writes, the table opened afterwards contains all earlier strings under their numbers followed by an initial part of the new ones, and goes on working.",
     ["histories", "schedules", "crash_points", "inputs"], "every history, interleaving of callers and crash point between file writes",
     "Tests ask a few strings from one thread and never reopen after a crash.",
     [IDX + "StringTable.cpp"],
     [("index and data file", IDX + "StringTable.cpp"), ("mutex", IDX + "StringTable.cpp")],
     ["StringTable::getId", "StringTable::getString"],
     "Interleavings are those the scheduler produced; a crash does not tear a single write call. ")

prop("C07", "The LRU cache keeps the most recently used entries",
     "A cache of capacity n holds, after every history of operations, the n most recently used distinct keys (all, if fewer) with their latest values, where putting, getting and promoting a key count as uses and peeking and asking for existence do not. Asking for a key it does not hold is reported.",
     ["histories"], "every history of operations, every capacity",
     "Tests run three or four fixed operations.",
     ["core/src/utils/LruCache.hpp"], [("list and map", "core/src/utils/LruCache.hpp")],
     ["LruCache"])

prop("C10", "Style resolution follows the style sheet",
     "The style of an element at a level of detail consists of the declarations of exactly those rules which have a selector naming its kind, covering that level and all of whose conditions hold for its tags ([k] present, [k=v] and [k!=v] present with that or another value, [k<v] and [k>v] compared as numbers, where a text that is no number counts as 0); a later declaration replaces an earlier one with the same key, except that the builders of all of them are kept. At levels at which there are rules for the element's id, these alone apply. The canvas style of a level follows from the canvas rules in the same way. Comments, white space and splitting a sheet by @import change nothing. Two sheets with the same rules have the same tag and two sheets which style some element or the canvas differently have different tags. Concurrent readers of one provider get the same answers as a single one.",
     ["inputs", "configurations", "schedules"], "every well-formed style sheet, element, level of detail and number of concurrent readers",
     "Tests check single rules with one or two conditions.",
     ["core/src/mapcss/StyleProvider.cpp", "core/src/mapcss/MapCssParser.cpp", "core/src/mapcss/Style.hpp"],
     [("filters per kind and level", "core/src/mapcss/StyleProvider.cpp"), ("grammar", "core/src/mapcss/MapCssParser.cpp")],
     ["StyleProvider::forElement", "StyleProvider::hasStyle", "StyleProvider::forCanvas", "StyleProvider::getTag"])

prop("C11", "Style values and expressions evaluate as written",
     "A declared value eval(\"a op b op c ...\") is computed from left to right over numbers, tag('key') (a missing tag is an empty text, and 0 as a number) and 'text': read as a number it applies + - * / in order, read as text it joins operands and refuses any operator but +. Without eval a value is its text, or the number the text is (0 if it is none); 'Nm' is N metres (converted to degrees of the earth's circle at the centre of a box when one is given) and 'N%' is that part of the size given (the height of the box, if a box is given). A key that is not declared is 0 or an empty text, and a malformed expression is plain text.",
     ["inputs"], "every expression over numbers, texts and tags, every element, box and size",
     "Tests evaluate about a dozen fixed expressions.",
     ["core/src/mapcss/StyleEvaluator.cpp", "core/src/mapcss/StyleEvaluator.hpp", "core/src/mapcss/StyleDeclaration.hpp", "core/src/mapcss/Style.hpp"],
     [("expression tree", "core/src/mapcss/StyleEvaluator.hpp"), ("dimensions", "core/src/mapcss/Style.hpp getValue")],
     ["Style::getString", "Style::getValue"],
     "Results which are not exact in binary floating point are not compared. ")

prop("C14", "L-systems grow and are walked as their rules say",
     "Running an L-system rewrites its axiom as many times as it has generations, each time replacing every symbol that has productions by one of those with positive weight, chosen with a chance in proportion to the weights, and keeping all others; the turtle then receives exactly the resulting symbols in order. The 3d turtle jumps by its length along its direction (F and words do not move it), turns its direction and right hand (pitches only the direction, rolls only the right hand) by the angle around the axis perpendicular to both, multiplies or divides its length and width by the scale, counts style switches, and gets back by ] exactly the state of the matching [; a ] without a matching [ is reported.",
     ["inputs", "histories"], "every L-system, every outcome of its random choices, every walk",
     "Tests rewrite two or three fixed systems and do not check the turtle's state.",
     ["core/src/lsys/Turtle.cpp", "core/src/lsys/Turtle3d.cpp", "core/src/lsys/LSystemParser.cpp", "core/src/math/Quaternion.hpp"],
     [("rewriting", "core/src/lsys/Turtle.cpp"), ("state and stack", "core/src/lsys/Turtle3d.cpp"), ("grammar", "core/src/lsys/LSystemParser.cpp")],
     ["Turtle::run with a recording turtle"],
     "Turtle states are compared for angles 0, 90 and 180 and powers of two. ")

prop("C20", "Gradients and textures are what the style sheet says",
     "A gradient has at every time from 0 to 1 the linear interpolation (up to rounding of each channel) of the colours of the two neighbouring stops, and exactly the colour of a stop at that stop; the first stop is at 0 and the last at 1. Colours are CSS names, with unknown names grey, or #rrggbb; a single colour is that colour everywhere; a text without any colour is red and an empty one is refused. The region of a texture for a seed is the (seed modulo n)-th of the n regions of its group in the order of the atlas with that index; an unknown atlas or group gives an empty region.",
     ["inputs"], "every gradient text, time, atlas, group and seed",
     "Tests parse a handful of gradients and evaluate them at a few times.",
     ["core/src/mapcss/ColorGradient.hpp", "core/src/utils/GradientUtils.cpp", "core/src/mapcss/Color.hpp", "core/src/mapcss/TextureAtlasParser.cpp", "core/src/mapcss/StyleSheet.hpp"],
     [("interpolation", "core/src/mapcss/ColorGradient.hpp"), ("regular expression", "core/src/utils/GradientUtils.cpp"), ("atlas grammar", "core/src/mapcss/TextureAtlasParser.cpp")],
     ["ColorGradient::evaluate", "StyleProvider::getTexture"])

prop("C08", "Loading a tile builds every element exactly once per builder",
     "Building a tile takes the elements that all stores have in it and hands each element that has a style at the tile's level once to every builder its style names: to the registered builder, or to the caller's element callback if nobody registered that builder; elements without a style go nowhere. An id other than 0 is built at most once per tile (the first one met), even if several stores have it, whole or as the pieces it was cut into (a relation without tags: its members are built one by one, each by its own style, instead of it); elements with id 0 are always built. Each builder used is created and prepared once before its first element and completed once after all elements; builders not used are not. After a cancellation no further elements are read, and the builders are still completed. Builds of different tiles, one after another or at once, do not influence each other.",
     ["inputs", "schedules"], "every set of elements in the stores, style sheet, set of builders, point of cancellation",
     "No unit test exercises QuadKeyBuilder on its own; integration tests build one tile.",
     ["core/src/builders/QuadKeyBuilder.cpp", "core/src/builders/ExternalBuilder.hpp", "core/src/builders/BuilderContext.hpp"],
     [("visiting elements", "core/src/builders/QuadKeyBuilder.cpp BuilderElementVisitor"), ("external builder", "core/src/builders/ExternalBuilder.hpp")],
     ["QuadKeyBuilder::build with recording builders"])

prop("C09", "Cached meshes are replayed exactly",
     "With its cache enabled, a builder's output for a tile (all meshes, with numbers in single precision, and all elements, in order) is written to a file per cache, style tag and tile. When a build of that tile was completed without being cancelled, later builds with the same cache, style tag and tile give exactly that output and do not run the builder, also in a new process. Otherwise the builder runs and the caller gets exactly what the builder makes: while another build of the same tile is in progress, after one was cancelled, broke down or was ended with its process at any point (a file that is empty or not marked complete counts as none), with another style or tile, with the cache disabled, or without a directory for the file. Builds at the same time do not influence each other's output, nor what is cached.",
     ["histories", "schedules", "crash points"], "every interleaving of builds, cancellations, failures, restarts",
     "Tests store and fetch one element at a time, never two builds at once, never an interrupted one.",
     ["core/src/builders/MeshCache.cpp", "core/src/builders/CacheBuilder.hpp", "core/src/index/MeshStream.cpp", "core/src/index/ElementStream.cpp"],
     [("cache files", "core/src/builders/MeshCache.cpp"), ("wrapping", "core/src/builders/CacheBuilder.hpp"), ("meshes in files", "core/src/index/MeshStream.cpp")],
     ["CacheBuilder and MeshCache"],
     "A crash leaves any prefix of a file without its mark; torn single bytes are not considered. ")

prop("C12", "OSM data is resolved into the elements it describes",
     "Every node, every way and every relation of a document of OSM data becomes exactly one element with its id and all of its tags, whatever the order in which relations and their members come. A way has the points of its nodes in order, without those whose nodes are not in the data (a way without any points is left out); a way with more than 3 points which ends where it starts is an area, without its last point and counter-clockwise. A relation has its members in the order listed, each once (by type and id, which are independent: node 5, way 5 and relation 5 are different elements), without those which are not in the data; a relation which leads back to itself is cut, not followed for ever. Members of a relation of type building (of any role) are marked as not to be built on their own, nothing else is, and its members with role outline are left out of it. After cancellation no further element is handed over.",
     ["inputs", "crash points"], "every set of nodes, ways and relations, references to missing data, shared ids, nesting and cycles of relations, order of relations, point of cancellation",
     "Tests visit a few nodes, two ways and a couple of relations, none nested twice, cyclic, or with missing or ambiguous members.",
     ["core/src/formats/osm/OsmDataVisitor.cpp", "core/src/formats/osm/OsmDataContext.hpp", "core/src/formats/osm/RelationProcessor.hpp", "core/src/formats/osm/BuildingProcessor.hpp"],
     [("visiting and adding", "core/src/formats/osm/OsmDataVisitor.cpp"), ("members of relations", "core/src/formats/osm/RelationProcessor.hpp"), ("building parts", "core/src/formats/osm/BuildingProcessor.hpp")],
     ["OsmDataVisitor::visitNode, visitWay, visitRelation, complete"])

prop("C13", "Multipolygons are assembled from their rings",
     "A relation of type multipolygon becomes the rings its member ways with role outer or inner form, whatever number of ways each ring is cut into, in whatever order and direction these are: every ring once, as an area without its closing point, whose points are those of its ways in order. A ring which lies in an even number of others is an outer ring and counter-clockwise, any other is a hole, is clockwise, and follows the outer ring it lies in before the next outer one. With a single outer way and closed ways only, the roles decide: the outer one first, then the inner ones in order. If a way is missing from the data, or some ring cannot be closed, there are no rings at all. The relation keeps its tags; if it has none but its type, it has those of its closed outer ways as well.",
     ["inputs"], "every arrangement of nested and separate rings, every way to cut, reverse and order their ways, roles, missing ways",
     "Tests assemble about ten fixed multipolygons.",
     ["core/src/formats/osm/MultipolygonProcessor.cpp", "core/src/formats/osm/MultipolygonProcessor.hpp", "core/src/formats/osm/OsmDataVisitor.cpp"],
     [("simple case", "core/src/formats/osm/MultipolygonProcessor.cpp simpleCase"), ("complex case", "core/src/formats/osm/MultipolygonProcessor.cpp complexCase, createRings, fillRelation")],
     ["OsmDataVisitor with relations of type multipolygon"],
     "Rings do not cross; where several rings are there, they do not touch; ways meet at their ends. ")

prop("C19", "All formats give the elements their files describe",
     "The same OSM data gives the same nodes, ways, relations, members, roles, tags (any text, any script) and coordinates read as XML (whatever attributes, white space, entities are used) and as PBF (whatever granularity and offsets, dense or single nodes, compressed or raw blobs, number of blocks and groups). GeoJSON tiles give every feature with its id, its properties and the name of its layer as tags: points, lines, polygons (areas; with several rings, relations of areas) and multipolygons; shape files give every shape with the attributes of its record that are not empty. A file which is cut short is refused; damaged files are refused or read, but do no harm.",
     ["inputs", "crash points"], "every data set, every encoding of it, every truncation",
     "Tests parse one sample file per format and count elements.",
     ["core/src/formats/osm/xml/OsmXmlParser.hpp", "core/src/formats/osm/pbf/OsmPbfParser.hpp", "core/src/formats/osm/json/OsmJsonParser.hpp", "core/src/formats/shape/ShapeParser.hpp", "core/src/formats/shape/ShapeDataVisitor.cpp"],
     [("XML grammar", "core/src/formats/osm/xml/OsmXmlParser.hpp"), ("PBF blobs and blocks", "core/src/formats/osm/pbf/OsmPbfParser.hpp"), ("GeoJSON features", "core/src/formats/osm/json/OsmJsonParser.hpp"), ("shapes and records", "core/src/formats/shape/ShapeParser.hpp")],
     ["OsmXmlParser, OsmPbfParser, OsmJsonParser, ShapeParser"],
     "XML has nodes, ways, relations in this order with id, lat, lon and k, v in this order. ")

prop("C16", "Quad keys, boxes and coordinates agree",
     "In the library and in its C# client alike: the quad key of a coordinate at a level of detail is the tile of the Web Mercator grid it lies in (coordinates beyond the map are taken to its edge), the box of a quad key is exactly that tile, neighbouring tiles share their borders, and the text of a quad key is its base 4 digits (the client reads them back, and refuses other digits). The tiles of a box at a level are those it overlaps, each once, for any size and position of the box. Boxes intersect, contain, grow and have their centre as their coordinates say. Distances are those on the sphere (to 0.5 %) and symmetric; a point moved by metres lies that far in that direction, a box created around a point has the width and height asked for, and projections are undone by their inverse.",
     ["inputs"], "every coordinate, level from 0 to 19, box, distance",
     "Tests compute a few quad keys and boxes near one city.",
     ["core/src/utils/GeoUtils.hpp", "core/src/BoundingBox.hpp", "core/src/QuadKey.hpp", "unity/library/UtyMap.Unity/Utils/GeoUtils.cs", "unity/library/UtyMap.Unity/BoundingBox.cs", "unity/library/UtyMap.Unity/QuadKey.cs"],
     [("quad keys", "core/src/utils/GeoUtils.hpp"), ("quad keys of the client", "unity/library/UtyMap.Unity/Utils/GeoUtils.cs"), ("boxes", "core/src/BoundingBox.hpp")],
     ["GeoUtils, BoundingBox, QuadKey", "UtyMap.Unity GeoUtils, BoundingBox, QuadKey, projections"],
     "Points exactly on the border of a tile belong to either. ")

prop("C15", "Elevation is interpolated from the right samples",
     "With a grid of heights for a tile (n by n numbers from its south west to its north east corner, row by row from the south, each from the west), and with SRTM data (cells of one degree named by their south west corner in any hemisphere, samples every 1 or 3 arc seconds, rows from the north), the elevation at a point of the tile or cell is the bilinear interpolation of the four samples around it, negative ones included; every tile and cell has its own data; flat elevation is 0 everywhere. Where there is no file, or an empty or incomplete one, asking is refused and creates no file, and works once the data is there. Threads may ask one provider at once and get the same answers.",
     ["inputs", "schedules"], "every grid and cell, point, order of questions, number of threads",
     "Tests ask for a few points of one tile and one cell in the north east.",
     ["core/src/heightmap/GridElevationProvider.hpp", "core/src/heightmap/SrtmElevationProvider.hpp", "core/src/heightmap/FlatElevationProvider.hpp"],
     [("grids", "core/src/heightmap/GridElevationProvider.hpp"), ("SRTM cells", "core/src/heightmap/SrtmElevationProvider.hpp")],
     ["ElevationProvider::getElevation"],
     "A tile which touches a cell without data may be refused as a whole. ")

prop("C17", "Terrain covers a tile exactly once, topmost regions first",
     "The terrain of a tile covers the tile completely and nothing twice (seen from above, apart from gaps as thin as rounding), all triangles facing up. At each point it shows the topmost region there: layers by their sort order, regions without a layer (at 0) the smaller above the larger, the background where there is no region; holes of relations show what is below them. What is shown has the colour, the texture, the mesh and the height (elevation plus the offset) which the style of the region, or of the layer in the canvas, says, and triangles no larger than the maximal area asked for. A region raised or lowered by an offset has walls, of its own look and in its own mesh, along its outline except where it is on the border of the tile. Tiles next to each other have the same vertices and heights along their border.",
     ["inputs"], "every set of areas, ways and relations, style, elevation, tile",
     "Tests check that some triangles come out for a few squares; they never look at what is where.",
     ["core/src/builders/terrain/TerraBuilder.cpp", "core/src/builders/terrain/TerraGenerator.cpp", "core/src/builders/terrain/SurfaceGenerator.cpp", "core/src/builders/terrain/RegionTypes.hpp", "core/src/builders/terrain/LineGridSplitter.hpp", "core/src/builders/MeshBuilder.cpp", "core/src/math/Polygon.hpp"],
     [("regions and layers", "core/src/builders/terrain/TerraBuilder.cpp"), ("cutting and walls", "core/src/builders/terrain/TerraGenerator.cpp"), ("surface", "core/src/builders/terrain/SurfaceGenerator.cpp"), ("triangulation", "core/src/builders/MeshBuilder.cpp")],
     ["TerraBuilder::visitWay, visitArea, visitRelation, complete"],
     "Rings do not cross themselves; noise of elevation is left out of the heights compared. ")

prop("C22", "Buildings are closed shells over their shape",
     "Every area or multipolygon styled as a building becomes one mesh named after it; a relation becomes one mesh with all its parts, each with its own style, which are then not built on their own. A part stands on the ground elevation at its first point plus its min-height and is as high as its height says (10 metres if not given), whatever its shape: corners, holes, further outer rings. Its mesh is a shell which faces outwards: walls along all rings, a roof over all of the shape and nothing beyond it, a floor exactly if it does not stand on the ground, and nothing open besides. The roof has the form asked for (flat, pyramidal with its top over the middle, mansard, skillion rising away from its direction, round along or across, dome, none), its height above the walls, and is flat where its form needs a simpler shape. Facades are flat, cylinders or spheres. Walls and roofs have the colours and textures of their own style.",
     ["inputs"], "every footprint, style, elevation, relation",
     "Tests build one shape per roof and check that there are some vertices; none looks at whether anything is closed, or which way it faces.",
     ["core/src/builders/buildings/BuildingBuilder.cpp", "core/src/builders/buildings/roofs", "core/src/builders/buildings/facades", "core/src/builders/generators/CylinderGenerator.hpp", "core/src/builders/generators/IcoSphereGenerator.cpp", "core/src/builders/MeshBuilder.cpp"],
     [("parts of buildings", "core/src/builders/buildings/BuildingBuilder.cpp"), ("roofs", "core/src/builders/buildings/roofs/PyramidalRoofBuilder.hpp"), ("walls", "core/src/builders/buildings/facades/FlatFacadeBuilder.hpp")],
     ["BuildingBuilder::visitArea, visitRelation"],
     "Rings do not cross or touch themselves or each other; outer rings are given counter-clockwise, as the importers do. ")

prop("C23", "Walls, pillars, trees and lamps stand where and as their style says",
     "Along a way (and around an area, all sides of it) barriers stand: walls of the length, gap, width and height of their style, as many whole sections as fit in a stretch and at least one; pillars, as many as whole steps fit, evenly from its beginning. A node, and a way at its steps, has trees and lamps (lamps with a width in turn to both sides); terrain of forest has a tree in the middle of every so many triangles (tree-frequency), in meshes of so many trees (tree-chunk-size). Everything stands on the elevation of its place, once. A tree or lamp is what its L-system says: every cylinder, cone and sphere of it at its place, in its direction, of its size and look, closed and facing outwards, also after leaving a branch. Members of relations have the style of the relation.",
     ["inputs"], "every way, area, relation, step, L-system, elevation",
     "Tests check that a mesh is not empty.",
     ["core/src/builders/misc/BarrierBuilder.cpp", "core/src/builders/misc/LampBuilder.cpp", "core/src/builders/poi/TreeBuilder.cpp", "core/src/builders/generators/WallGenerator.hpp", "core/src/builders/generators/LSystemGenerator.cpp", "core/src/builders/terrain/TerraExtras.cpp", "core/src/builders/MeshBuilder.cpp"],
     [("walls and pillars", "core/src/builders/misc/BarrierBuilder.cpp"), ("trees", "core/src/builders/poi/TreeBuilder.cpp"), ("grown from rules", "core/src/builders/generators/LSystemGenerator.cpp"), ("forests", "core/src/builders/terrain/TerraExtras.cpp")],
     ["BarrierBuilder, TreeBuilder, LampBuilder, TerraExtras::addForest"],
     "Steps which fit a stretch almost exactly a whole number of times are left out. ")

prop("C18", "Every mesh handed out is well formed",
     "Whatever elements a tile has (points given twice, on a line, too few of them, rings the wrong way round or crossing themselves, empty relations), building it ends and every mesh handed to the caller can be drawn: as many colours and texture coordinates as vertices, triangles of three different vertices which are there, numbers which are finite, and a texture map whose parts follow each other and cover the mesh. A mesh shows what was added to it: every triangle, plane and polygon (all of its area without its holes, at its height, facing the side asked for, no larger than asked for) with its own colour, its texture coordinates and the texture it was finished with, also after copying it into another mesh at an offset, and with back sides. A mesh taken from the pool is empty and has the name asked for.",
     ["inputs", "histories"], "every element, style and sequence of calls to the mesh builder",
     "Tests build a few proper shapes and count vertices.",
     ["core/src/builders/MeshBuilder.cpp", "core/src/utils/MeshUtils.hpp", "core/src/builders/MeshPool.hpp", "core/src/math/Mesh.hpp", "core/src/builders/buildings/BuildingBuilder.cpp", "core/src/builders/terrain/TerraGenerator.cpp", "core/src/builders/generators"],
     [("mesh builder", "core/src/builders/MeshBuilder.cpp"), ("copies", "core/src/utils/MeshUtils.hpp"), ("pool", "core/src/builders/MeshPool.hpp")],
     ["MeshBuilder, copyMesh, MeshPool", "ElementBuilder implementations"],
     "Footprints of buildings which cross themselves are left out except for the recorded finding. ")

prop("C21", "The exported interface serves a client end to end",
     "A client of the exported interface connects to a folder, registers style sheets (the folders asked for are the ones the cache uses) and stores (a key keeps its first store), adds elements and files by level, tile and box, and asks for tiles, text and heights. A tile is answered, with the tag of the request, by every element of all stores which its sheet shows, exactly once per builder, with its id, tags, geometry in order, the elevation of each point by the kind asked for, and the declarations of its sheet; by one mesh of every building (in its place, on its ground) and one of the terrain, which is the same as before when it is kept. A search is answered by every match in every store. Whether there is data for a tile is as what was added says. A request which cannot be served (unknown store, sheet or file, level out of range, no elevation) reports exactly one error, changes nothing and throws nothing; a cancelled one reports nothing more. After connecting again, data in folders is still there, data in memory is not; disconnecting twice does no harm.",
     ["inputs", "histories"], "every session of calls to the exported functions",
     "Tests of the library call each exported function about once and look at nothing but that a callback was called.",
     ["core/shared/ExportLib.cpp", "core/shared/Application.hpp", "core/shared/Configuration.hpp", "core/shared/Storage.hpp", "core/shared/Search.hpp", "core/shared/Common.hpp", "core/src/builders/QuadKeyBuilder.cpp", "core/src/builders/ExternalBuilder.hpp", "core/src/index/GeoStore.cpp", "core/src/builders/CacheBuilder.hpp"],
     [("exported functions", "core/shared/ExportLib.cpp"), ("adding", "core/shared/Storage.hpp"), ("asking", "core/shared/Search.hpp"), ("stores and styles", "core/shared/Configuration.hpp"), ("elements handed over", "core/src/builders/ExternalBuilder.hpp")],
     ["connect, disconnect, registerStylesheet, registerInMemoryStore, registerPersistentStore, enableMeshCache, addDataIn*, hasData, getDataByQuadKey, getDataByText, getElevationByQuadKey"],
     "Ids of different elements are different; two stores do not share a folder; relations are not part of it (their geometry is not handed over). ")

prop("C24", "Requests made at once are served as they are alone",
     "Several threads use the connected library at once: they ask for tiles (the same or different ones, with style sheets used for the first time or not, with elevation, cached or not), search text, ask for presence of data, and add elements and files to stores in memory and in folders. Every request gets what it would get alone: all that was in the stores before or was added by the same thread before, each element whole and as often as alone; of what other threads add meanwhile some or all; and nothing else, and no errors. The terrain of a tile is the same for all. When all are done, everything added is found, once. No memory is used by two threads without order.",
     ["inputs", "schedules"], "every schedule of requests of several threads",
     "Tests use one thread.",
     ["core/src/index/InMemoryElementStore.cpp", "core/src/index/PersistentElementStore.cpp", "core/src/index/StringTable.cpp", "core/src/index/BitmapIndex.cpp", "core/src/builders/MeshCache.cpp", "core/src/builders/MeshPool.hpp", "core/src/mapcss/StyleProvider.cpp", "core/src/heightmap/GridElevationProvider.hpp", "core/src/heightmap/SrtmElevationProvider.hpp", "core/shared/Application.hpp"],
     [("in memory", "core/src/index/InMemoryElementStore.cpp"), ("in folders", "core/src/index/PersistentElementStore.cpp"), ("strings", "core/src/index/StringTable.cpp"), ("pool of meshes", "core/src/builders/MeshPool.hpp"), ("style sheets", "core/shared/Application.hpp")],
     ["addDataIn*, hasData, getDataByQuadKey, getDataByText from several threads"],
     "Stores and sheets are registered before; nobody cancels. ")

prop("C25", "The range tree finds exactly the items asked for",
     "A range tree is a bag of items with a range each, in the order they were added. Whatever was added, removed (an item which is there several times: one of them), cleared and asked for before, a query by a key or by a range gives every item whose range meets it, ends included, as often as it was added, and no other; its minimum and maximum are the least start and the greatest end of all items; all by the comparer of the tree, if one is given, and not by that of the keys. An item whose range is the wrong way round is refused. A tree which rebuilds itself answers by what is in it now, one which does not by what was in it when it was last rebuilt, and it is in sync exactly when the two cannot differ.",
     ["inputs", "histories"], "every sequence of changes and queries, comparer, automatic rebuilding on and off",
     "There is no test of the range tree; examples would be of one shape of tree.",
     ["unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs"],
     [("tree", "unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs RangeTree"), ("nodes", "unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs RangeTreeNode")],
     ["RangeTree: Add, Remove, Clear, Rebuild, Query, Min, Max, Items, IsInSync, AutoRebuild"])

prop("C26", "Animations go from their beginning to their end, and say so once",
     "An animation which was started and is updated moves by the share of its duration that has passed, as its curve says; when its duration has passed, however long the last step, it is at its end and finished, unless it is a loop, which begins again. A group starts and stops its parts with itself and is finished when the last of them is. Being finished or stopped is told exactly once per run; starting what runs and stopping what does not have no effect; what was finished or stopped may be started again, also by whoever is told, and starts from its beginning. The animator drives the one animation set last and cancels the one before. Curves begin at 0 and end at 1; linear paths and splines go through their first and last point (splines through every third) as Bezier curves do.",
     ["inputs", "histories"], "every nesting of animations, durations, steps, starts and stops at any time, also from within",
     "Tests run one animation of each kind with constant steps, if any.",
     ["unity/library/UtyMap.Unity/Animations/Animation.cs", "unity/library/UtyMap.Unity/Animations/Animator.cs", "unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs", "unity/library/UtyMap.Unity/Animations/TransformAnimation.cs", "unity/library/UtyMap.Unity/Animations/Time", "unity/library/UtyMap.Unity/Animations/Path"],
     [("life of an animation", "unity/library/UtyMap.Unity/Animations/Animation.cs"), ("groups", "unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs"), ("one animation", "unity/library/UtyMap.Unity/Animations/TransformAnimation.cs")],
     ["Animation::Start, Stop, OnUpdate; Animator::Start, Update, Cancel; interpolators"],
     "Rotations and transforms need the engine and are left out. ")

prop("C27", "What threads of the client share stays consistent",
     "An element which is not cut at the borders of tiles is there for all tiles from the moment one of them registered it until that tile is disposed; disposing a tile cancels its loading and takes all its elements with it, also those which other threads register at that moment; a disposed tile registers nothing. Tiles are equal exactly if their quad key, style sheet, projection and kind of elevation are. The shared set and the shared dictionary, used by several threads, answer every operation as if all of them were done one after another in some order which keeps that of each thread; the set may be enumerated meanwhile.",
     ["histories", "schedules"], "every sequence of tiles and registrations, every interleaving of threads",
     "Tests use one tile and one thread.",
     ["unity/library/UtyMap.Unity/Tile.cs", "unity/library/UtyMap.Unity/Infrastructure/Primitives/SafeHashSet.cs", "unity/library/UtyMap.Unity/Infrastructure/Primitives/SafeDictionary.cs"],
     [("tiles", "unity/library/UtyMap.Unity/Tile.cs"), ("set", "unity/library/UtyMap.Unity/Infrastructure/Primitives/SafeHashSet.cs"), ("dictionary", "unity/library/UtyMap.Unity/Infrastructure/Primitives/SafeDictionary.cs")],
     ["Tile::Has, Register, Dispose, Equals; SafeHashSet; SafeDictionary"],
     "An element is registered by the tile which found that it is not there. ")

prop("C28", "Data of a tile is fetched where it is missing, stored once and announced",
     "A tile asked for of the client gets elevation data first: none if it is flat, the grid of heights of the tile from the elevation server (asked with the rows of its points from the south, each from the west), or the SRTM cell of its middle (named by its south west corner; the archive listed for it in the schema). Then, unless the library has the tile, its map data: OSM data of its box, padded, at level 16, otherwise the vector tile it is cut from. A file which is there is used; one which is not is asked for (the limited elevation server once a second, in order), and written once, however many replies come, at once or not: the heights, the file in the archive, or the reply as it is. The data is added for the tile to the first store, then the tile is loaded, with all data observers; when it is, every tile observer is told of it once. A failed download, or a reply which cannot be understood, leaves no file and disturbs no other tile, and the next tile asks again.",
     ["inputs", "histories", "schedules"], "every sequence of tiles, replies, failures, ticks, order and concurrency of their processing",
     "Tests ask one provider for one file of one tile.",
     ["unity/library/UtyMap.Unity/Data/MapDataProvider.cs", "unity/library/UtyMap.Unity/Data/MapDataStore.cs", "unity/library/UtyMap.Unity/Data/Providers/AggregateMapDataProvider.cs", "unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs", "unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs", "unity/library/UtyMap.Unity/Data/Providers/Geo/MapzenMapDataProvider.cs", "unity/library/UtyMap.Unity/Data/Providers/Geo/OpenStreetMapDataProvider.cs", "unity/library/UtyMap.Unity/Infrastructure/IO/Compression"],
     [("downloads", "unity/library/UtyMap.Unity/Data/MapDataProvider.cs"), ("stages", "unity/library/UtyMap.Unity/Data/Providers/AggregateMapDataProvider.cs"), ("storing", "unity/library/UtyMap.Unity/Data/MapDataStore.cs"), ("SRTM", "unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs")],
     ["MapDataStore::OnNext(Tile), AddTo, Subscribe with AggregateMapDataProvider"],
     "The schema lists the cells asked for; nobody changes files meanwhile. ")

prop("C29", "The C# client gives a program what the library has, whoever fails meanwhile",
     "A program which configures the client (twice is once), registers stores and adds elements or files to them by key, sheet, levels or tile, is then told about a tile or a text query: every listener gets the same sequence of elements (id, tags, points, heights, style) and meshes (name, points, triangles within them, a colour for each point), which are those the exported interface would give for this history, each once, of this tile, with paths resolved once and sheets registered before they are used, by whichever thread. Whether a tile has data, and elevation, are as the library says. A cancelled tile or query gives a part of that, nothing if it was cancelled before. Requests which cannot be served, and listeners which fail, are reported and change nothing: later requests of all threads are served.",
     ["inputs", "histories", "schedules"], "every history of stores, sheets, additions, cancelled and failed requests, every interleaving of threads",
     "Tests add one file and count what comes for a few tiles, from one thread, with listeners which do not fail.",
     ["unity/library/UtyMap.Unity/Data/MapDataLibrary.cs", "unity/library/UtyMap.Unity/MapQuery.cs", "unity/library/UtyMap.Unity/Tile.cs", "unity/library/UtyMap.Unity/CancellationToken.cs", "unity/library/UtyMap.Unity/Utils/ColorUtils.cs", "core/shared/ExportLib.cpp"],
     [("requests", "unity/library/UtyMap.Unity/Data/MapDataLibrary.cs"), ("callbacks", "unity/library/UtyMap.Unity/Data/MapDataLibrary.cs"), ("tiles", "unity/library/UtyMap.Unity/Tile.cs"), ("queries", "unity/library/UtyMap.Unity/MapQuery.cs")],
     ["IMapDataLibrary::Configure, Register, AddTo, Get, Exists, GetElevation, EnableCache"],
     "Sheets are there and correct; directories of the index exist. ")

prop("C30", "Geocoders find what is where, and every listener is told",
     "The remote geocoder turns each request for a name (with or without a box) or for a place into one question to the configured server: the name whatever its characters, the corners of the box, latitude and longitude, JSON as format, and a user agent, all written the same under every culture. Each listener gets every place of the first answer to each question, in its order, with id, coordinate, display name and bounding box (as array or text) to the last digit, under every culture; answers which are not readable, and failures, give nothing and disturb no other request. The local geocoder finds, at level 16, the elements which have one of the words asked for and meet the box, or those with an address (street and house number) which meet the box of the given size in metres around the place; each comes once per tile which has it, whole, its display name being those of its address tags that are there, in order from country to name, and all listeners hear the same. Disposing tells every listener once that it is over, and nothing after.",
     ["inputs", "histories"], "every name, box, place, culture and answer, every order of answers; every content of the stores",
     "The geocoders have no tests.",
     ["unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs", "unity/library/UtyMap.Unity/Geocoding/UtyMapGeocoder.cs", "unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs", "unity/library/UtyMap.Unity/BoundingBox.cs", "unity/library/UtyMap.Unity/Data/MapDataStore.cs"],
     [("remote", "unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs"), ("local", "unity/library/UtyMap.Unity/Geocoding/UtyMapGeocoder.cs"), ("queries", "unity/library/UtyMap.Unity/Data/MapDataStore.cs")],
     ["IGeocoder::OnNext, Subscribe, Dispose"],
     "A box is given to the local geocoder. ")

for i, t in []:
    prop(i, t, t + ".", ["inputs", "histories"], "planned", "planned", [], [], [], na=NOT_YET)

