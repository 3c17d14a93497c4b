"""C04: clipping keeps in every tile exactly the part of the element that lies there."""
from vf import build
from vf.clipgen import ClipGen


def run(c):
    c.model("ClipMC.tla", "ClipMC.cfg")
    drv = build.cpp_driver("index", build.harness("index_driver.cpp"))
    hs = [ClipGen(c.rng).history("disk" if i % 2 else "mem", 6) for i in range(40 if c.quick else 1200)]
    c.conform([drv], hs, "ClipTrace.tla", "Trace.cfg", "clipped elements of every tile")
    hs = [ClipGen(c.rng, True).history("disk" if i % 4 == 3 else "mem", 5) for i in range(56 if c.quick else 1200)]
    c.conform([drv], hs, "ClipTrace.tla", "Trace.cfg", "clipped elements of any shape")
    c.known_findings({"index": drv})
