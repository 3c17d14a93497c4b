"""C15: elevation is interpolated from the right samples."""
import math

from vf import build


def cells_of(lat, lon, lod):
    """the cells of one degree which the tile around a point touches"""
    n = 1 << lod
    x = int((lon + 180) / 360 * n)
    y = int((1 - math.asinh(math.tan(math.radians(lat))) / math.pi) / 2 * n)

    def la(t):
        return math.degrees(math.atan(math.sinh(math.pi * (1 - 2 * t / n))))
    a, b = [[math.floor(v - 1e-9), math.floor(v + 1e-9)] for v in (la(y + 1), la(y))]
    d, e = [[math.floor(v - 1e-9), math.floor(v + 1e-9)] for v in (x / n * 360 - 180, (x + 1) / n * 360 - 180)]
    return [[p, q] for p in range(a[0], b[1] + 1) for q in range(d[0], e[1] + 1)]


def eighths(r):
    return r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7])


def tiles(r):
    """a few tiles, some next to each other"""
    l = r.choice([1, 5, 12, 14, 16, 16])
    x, y = [r.randrange(1, max(2, (1 << l) - 1)) for _ in range(2)]
    if l > 9:   # close to the poles tiles are so small that the rounding of coordinates shows
        y = r.randrange((1 << l) // 5, (1 << l) * 4 // 5)
    out = [(l, [x, y]), (l, [min((1 << l) - 1, x + 1), y]), (l, [x, max(0, y - 1)])]
    out.append((r.choice([3, 9, 15]), [r.randrange(8), r.randrange(8)]))
    return out


def grid_history(r, threads):
    ops, known = [{"ev": "reset"}], {}
    ts = tiles(r)

    def write(t):
        n = r.choice([2, 2, 3, 5, 11, 16])
        base = r.choice([0, -400, 2000])
        hs = [base + r.choice([0, r.randrange(100), r.randrange(-3000, 6000)]) for _ in range(n * n)]
        if r.random() < .05:
            n, hs = 0, []
        known[(t[0], tuple(t[1]))] = n
        return {"ev": "grid", "lod": t[0], "tile": t[1], "n": n, "heights": hs}

    def sample(t, kind="grid"):
        n = known.get((t[0], tuple(t[1])), 0) or 4
        return {"ev": "sample", "kind": kind, "lod": t[0], "tile": t[1], "n": n,
                "at": [r.randrange(n - 1), r.randrange(n - 1), eighths(r), eighths(r)]}
    for t in ts[:3]:
        if r.random() < .85:
            ops.append(write(t))
    for _ in range(30):
        t = r.choice(ts)
        x = r.random()
        if x < .04:
            ops += [write(t), {"ev": "restart"}]
        elif x < .07:
            ops.append({"ev": "restart"})
        elif x < .1:
            ops.append(sample(t, "flat"))
        else:
            ops.append(sample(t))
    if threads:
        lists = [[sample(r.choice(ts)) for _ in range(6)] for _ in range(4)]
        ops.append({"ev": "threads", "kind": "grid", "_lists": lists, "samples": sum(lists, [])})
    return ops


def cell_history(r, threads, fine):
    lat, lon = r.choice([0, -1, r.randrange(-59, 60)]), r.choice([0, -1, 99, -100, r.randrange(-179, 178)])
    places = [[lat, lon], [lat + 1, lon], [lat, lon + 1], [lat - 1, lon - 1]]
    ops, known = [{"ev": "reset"}], {}

    def write(p):
        s = 1 if fine and r.random() < .5 else 3
        known[tuple(p)] = s
        m = r.choice([1, 256, 300, 5003, 9001])
        o = {"ev": "cell", "lat": p[0], "lon": p[1], "seconds": s, "a": r.randrange(1, 40), "b": r.randrange(1, 40), "m": m, "off": r.choice([0, 0, 11, 430, m])}
        if r.random() < .06:
            o["cut"] = r.choice([1, 2, 2402])
        return o

    def sample(p, kind="srtm"):
        s = known.get(tuple(p), 3)
        last = 3600 // s - 1
        at = [r.choice([0, 0, last, last, r.randrange(last + 1), r.randrange(last + 1)]) for _ in range(2)]
        at += [min(7, max(1, eighths(r))) if k in (0, last) else eighths(r) for k in at]
        lod = r.choice([10, 16, 16, 19])
        needs = cells_of(p[0] + (at[1] + at[3] / 8) * s / 3600, p[1] + (at[0] + at[2] / 8) * s / 3600, lod)
        return {"needs": needs, "ev": "sample", "cell": True, "kind": kind, "lat": p[0], "lon": p[1], "seconds": s, "lod": lod, "at": at}
    for p in places:
        if r.random() < .8:
            ops.append(write(p))
    for _ in range(24):
        p = r.choice(places)
        x = r.random()
        if x < .05 and tuple(p) not in known:
            ops.append(write(p))
        elif x < .08:
            ops.append({"ev": "restart"})
        else:
            ops.append(sample(p))
    if threads:
        ps = [p for p in places if tuple(p) in known] or places
        lists = [[sample(r.choice(ps)) for _ in range(3)] for _ in range(3)]
        ops.append({"ev": "threads", "kind": "srtm", "_lists": lists, "samples": sum(lists, [])})
    return ops


def run(c):
    c.model("ElevationMC.tla", "ElevationMC.cfg")
    r, q = c.rng, c.quick
    drv = build.cpp_driver("elevation", build.harness("elevation_driver.cpp"), extra=["-fsanitize=thread"], opt="-O2", only=[])
    n = 160 if q else 3000
    c.conform([drv], [grid_history(r, i % 4 == 0) for i in range(n)], "ElevationTrace.tla", "Trace.cfg", "elevation of tiles", repeat=16)
    n = 36 if q else 600
    c.conform([drv], [cell_history(r, i % 4 == 0, i % 18 == 0) for i in range(n)], "ElevationTrace.tla", "Trace.cfg", "elevation of cells of one degree", repeat=8)
