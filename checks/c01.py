"""C01: an element store gives back exactly what was stored."""
from vf import build
from vf.storegen import StoreGen

W = {"put": 30, "get": 22, "text": 6, "has": 6, "erase": 3, "reopen": 4, "flush": 4}


def run(c):
    c.model("StoreMC.tla", "StoreMC.cfg")
    drv = build.cpp_driver("index", build.harness("index_driver.cpp"))
    hs = []
    for i in range(60 if c.quick else 800):
        hs.append(StoreGen(c.rng, tiles=c.rng.choice([1, 2, 3])).history("disk" if i % 4 else "mem", 60, W))
    c.conform([drv], hs, "StoreTrace.tla", "Trace.cfg", "random store histories")
    hs = []
    for i in range(8 if c.quick else 60):
        g = StoreGen(c.rng, tiles=1)
        g.big = True
        hs.append(g.history("disk" if i % 4 else "mem", 14, W))
    c.conform([drv], hs, "StoreTrace.tla", "Trace.cfg", "very large elements")
