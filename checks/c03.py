"""C03: at import an element goes to exactly the tiles it should."""
from vf import build
from vf.storegen import StoreGen, K


def window(g):
    """All tiles of all levels around the grid in use, with a rim."""
    out = []
    for l in g.lods:
        def of(o, c):
            lod = g.grid["lod"]
            return (o * K + c) // (K * 2 ** (lod - l)) if l <= lod else ((o * K + c) * 2 ** (l - lod)) // K
        n = 2 ** l
        for x in range(max(0, of(g.grid["x"], 0) - 1), min(n - 1, of(g.grid["x"], g.span - 1) + 1) + 1):
            for y in range(max(0, of(g.grid["y"], 0) - 1), min(n - 1, of(g.grid["y"], g.span - 1) + 1) + 1):
                out.append([l, x, y])
    return out


def history(r, kind, n):
    g = StoreGen(r, tiles=r.choice([1, 1, 2]))
    h = [g.new(kind)]
    for _ in range(n):
        h.append(g.op_put())
    w = window(g)
    if len(w) > 120:
        w = r.sample(w, 120)
    h += [{"ev": "es.get", "tile": t, "stop": -1} for t in w]
    h += [{"ev": "es.has", "tile": t} for t in w]
    return h


def run(c):
    c.model("StoreMC.tla", "StoreMC.cfg")
    drv = build.cpp_driver("index", build.harness("index_driver.cpp"))
    hs = [history(c.rng, "disk" if i % 3 == 0 else "mem", c.rng.choice([1, 2, 6])) for i in range(80 if c.quick else 1500)]
    c.conform([drv], hs, "StoreTrace.tla", "Trace.cfg", "every tile after imports")
