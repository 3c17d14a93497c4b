"""C13: multipolygons are assembled from their rings."""
from vf import build, osmgen as g


def run(c):
    c.model("MultipolygonMC.tla", "MultipolygonMC.cfg")
    drv = build.cpp_driver("osm", build.harness("osm_driver.cpp"))
    r, q = c.rng, c.quick
    c.conform([drv], [[{"ev": "osm.visit", "unit": r.choice([.0001, .0005]), "doc": g.multi_doc(r)} for _ in range(5)] for _ in range(150 if q else 3000)],
              "OsmTrace.tla", "Trace.cfg", "random multipolygons")
