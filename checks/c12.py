"""C12: OSM data is resolved into the elements it describes."""
from vf import build, osmgen as g


def one(r, doc):
    op = {"ev": "osm.visit", "unit": r.choice([1, .001, .5]), "doc": doc}
    if r.random() < .3:
        op["relsFirst"] = True
    if r.random() < .1:
        op["cancel"] = r.choice([0, 1, 2, 5])
    return op


def run(c):
    c.model("OsmMC.tla", "OsmMC.cfg")
    drv = build.cpp_driver("osm", build.harness("osm_driver.cpp"))
    r, q = c.rng, c.quick
    c.conform([drv], [[one(r, g.simple_doc(r)) for _ in range(10)] for _ in range(200 if q else 4000)], "OsmTrace.tla", "Trace.cfg",
              "random documents through the visitor")
