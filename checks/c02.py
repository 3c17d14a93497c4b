"""C02: text search finds exactly what it should."""
from vf import build
from vf.storegen import StoreGen, dense

W = {"put": 30, "get": 4, "text": 30, "has": 1, "erase": 3, "reopen": 3, "flush": 3}


def run(c):
    c.model("StoreMC.tla", "StoreMC.cfg")
    drv = build.cpp_driver("index", build.harness("index_driver.cpp"))
    hs = []
    for i in range(60 if c.quick else 600):
        hs.append(StoreGen(c.rng, tiles=c.rng.choice([1, 2])).history("disk" if i % 3 else "mem", 60, W))
    c.conform([drv], hs, "StoreTrace.tla", "Trace.cfg", "random store histories")
    hs = [dense(c.rng, "disk" if i % 3 else "mem", 300 if c.quick else 900) for i in range(8 if c.quick else 60)]
    c.conform([drv], hs, "StoreTrace.tla", "Trace.cfg", "many elements in a tile")
