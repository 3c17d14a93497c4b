"""C22: buildings are closed shells over their shape."""
import math

from vf import build
from .c17 import COLORS, crosses, shoelace, turned

K = 512
ROOFS = ["flat", "flat", "pyramidal", "mansard", "skillion", "round", "none", "dome"]
DIRECTIONS = ["N", "E", "S", "W", "NE", "SSW", "45", "210"]


def sheet(r, n=4):
    text, looks = [], {}
    for i in range(n):
        cs = r.sample(range(len(COLORS)), 2)
        k = {"height": r.choice([0, 3000, 12000, 25500, 12000]), "min": r.choice([0, 0, 0, 1000, 2500]), "roof": r.choice(ROOFS), "rise": r.choice([0, 2000, 3000, 6500]),
             "dir": r.choice(DIRECTIONS), "facade": r.choice(["flat"] * 6 + ["cylinder", "sphere"]), "rc": cs[0] + 1, "fc": cs[1] + 1}
        k["rt"], k["ft"] = r.choice([0, 1, 2]), r.choice([0, 1, 3])
        if k["roof"] == "round":
            k["dir"] = r.choice(["along", "across"])
        if k["facade"] != "flat":
            k["roof"] = "none"
        if k["roof"] in ("flat", "none", "dome"):
            k["rise"] = r.choice([0, k["rise"]])
        unit = r.choice(["m", ""])

        def m(x):
            return "%g%s" % (x / 1000.0, unit)
        text.append("area,relation|z16[t=l%d]{building:true;builder:building;height:%s;min-height:%s;facade-type:%s;facade-color:%s;facade-texture-index:%d;"
                    "facade-texture-type:background;facade-texture-scale:%d;roof-type:%s;roof-height:%s;roof-direction:%s;roof-color:%s;roof-texture-index:%d;"
                    "roof-texture-type:background;roof-texture-scale:%d;}" %
                    (i, m(k["height"]), m(k["min"]), k["facade"], COLORS[k["fc"] - 1], k["ft"], r.choice([0, 50, 200]), k["roof"], m(k["rise"]), k["dir"],
                     COLORS[k["rc"] - 1], k["rt"], r.choice([0, 200])))
        if k["roof"] in ("flat", "none", "dome"):
            k["rise"] = 0
        looks["l%d" % i] = k
    text.append("relation|z16[multi=yes]{multipolygon:true;}")
    text.append("area|z16[t=other]{builder:terrain;color:red;}")
    return {"ev": "sheet", "text": "\n".join(text), "looks": looks}


def polygon(r, cx, cy):
    while True:
        x = r.random()
        if x < .4:
            a, b = r.randrange(8, 30), r.randrange(8, 30)
            if abs(a - b) < 4:
                continue
            s = [[cx - a, cy - b], [cx + a, cy - b], [cx + a, cy + b], [cx - a, cy + b]]
        elif x < .55:     # turned, still a rectangle or nearly so
            a, b = r.choice([(20, 8), (12, 24), (16, 16), (9, 21)])
            c, d = r.choice([(1, 0), (.8, .6), (.6, .8), (.28, .96)])
            s = [[round(cx + x * c - y * d), round(cy + x * d + y * c)] for x, y in ((-a, -b), (a, -b), (a, b), (-a, b))]
        elif x < .7:      # an L or a U
            a, b = r.randrange(10, 30), r.randrange(10, 30)
            s = [[cx - a, cy - b], [cx + a, cy - b], [cx + a, cy], [cx, cy], [cx, cy + b], [cx - a, cy + b]]
            if r.random() < .4:
                s = [[cx - a, cy - b], [cx + a, cy - b], [cx + a, cy + b], [cx + a // 2, cy + b], [cx + a // 2, cy - b // 2], [cx - a // 2, cy - b // 2], [cx - a // 2, cy + b], [cx - a, cy + b]]
        else:
            n, a0 = r.choice([3, 4, 5, 6, 8]), r.random() * 7
            s = []
            lo = r.choice([.5, .95])
            for i in range(n):
                a = a0 + (i + r.random() * r.choice([0, .4])) * 2 * math.pi / n
                d = 30 * r.uniform(lo, 1)
                s.append([round(cx + d * math.cos(a)), round(cy + d * math.sin(a))])
        if abs(shoelace(s)) > 300 and not crosses(s):
            k = r.randrange(len(s))
            s = turned(s, True)
            return s[k:] + s[:k]


def small(r, ring, f):
    """a hole in the middle of a ring seen all of from its middle"""
    n = len(ring)
    cx, cy = sum(p[0] for p in ring) / n, sum(p[1] for p in ring) / n
    s = [[round(cx + (x - cx) * f), round(cy + (y - cy) * f)] for x, y in ring]
    if r.random() < .3:
        s = [[round(cx) - 2, round(cy) - 2], [round(cx) + 3, round(cy) - 2], [round(cx) + 1, round(cy) + 2]]
    return turned(s, False)


def area(r, i, look, g, ignored=False, other=False):
    tags = [["t", look]] if look else ([["t", "other"]] if other else [])
    return {"t": "A", "id": i, "tags": tags, "g": g, "look": look, "multi": False, "ignored": ignored}


def element(r, i, cx, cy, looks):
    look = r.choice(sorted(looks))
    x = r.random()
    if x < .55:
        return area(r, i, look, polygon(r, cx, cy))
    if x < .6:
        return area(r, i, "", polygon(r, cx, cy), other=r.random() < .5)
    if x < .66:
        e = area(r, i, look, polygon(r, cx, cy), ignored=True)
        e["ign"] = True
        return e
    simple = [k for k in sorted(looks) if looks[k]["facade"] == "flat" and looks[k]["roof"] != "dome"]
    if not simple:
        return area(r, i, look, polygon(r, cx, cy))
    look = r.choice(simple)
    if x < .85:       # with a hole, or in pieces
        m = []
        for k in range(r.choice([1, 1, 2])):
            while True:
                g = polygon(r, cx - 35 + 70 * k, cy)
                n = len(g)
                c = [sum(p[j] for p in g) / n for j in (0, 1)]
                if all((a[0] - c[0]) * (b[1] - c[1]) - (a[1] - c[1]) * (b[0] - c[0]) < -40 for a, b in zip(g, g[1:] + g[:1])):
                    break
            m.append(area(r, 0, "", g))
            if r.random() < .7:
                h = small(r, g, .4)
                if not crosses(h) and shoelace(h) > 4:
                    m.append(area(r, 0, "", h))
        if r.random() < .3 and len(m) > 1:
            m.reverse()
        return {"t": "R", "id": i, "tags": [["t", look], ["multi", "yes"]], "m": m, "look": look, "multi": True, "ignored": False}
    # a building of parts; the relation may have the look of a building itself
    m = [area(r, 10 * i + k, r.choice(simple + [""]), polygon(r, cx - 35 + 70 * (k % 2), cy - 35 + 70 * (k // 2)), ignored=r.random() < .3) for k in range(r.choice([1, 2, 3, 4]))]
    for a in m:
        if a["ignored"]:
            a["ign"] = True
    if r.random() < .3:
        m.append({"t": "R", "id": 5000 + i, "tags": [["t", look], ["multi", "yes"]], "m": [area(r, 0, "", polygon(r, cx - 35, cy + 140))], "look": look, "multi": True, "ignored": False})
    if r.random() < .3:
        m.insert(r.randrange(len(m) + 1), {"t": "N", "id": 7000 + i, "tags": [], "g": [[cx, cy]], "look": "", "multi": False, "ignored": False})
    own = r.choice(["", look])
    return {"t": "R", "id": i, "tags": [["t", own]] if own else [], "m": m, "look": own, "multi": False, "ignored": False}


def samples(r, e, out):
    if e["t"] == "R":
        for m in e["m"]:
            samples(r, m, out)
    elif e["t"] == "A":
        g = e["g"]
        n = len(g)
        out.append([sum(p[0] for p in g) // n, sum(p[1] for p in g) // n + 1])
        xs, ys = [p[0] for p in g], [p[1] for p in g]
        for _ in range(8):
            out.append([r.randrange(min(xs) - 3, max(xs) + 4), r.randrange(min(ys) - 3, max(ys) + 4)])


def history(r, i):
    s = sheet(r)
    ops = [s]
    for _ in range(4):
        ele = [r.choice([0, 0, 7, -20]), r.choice([0, 0, 3, -11]), r.choice([0, 5000, -400])]
        es, pts = [], []
        for k, (cx, cy) in enumerate(r.sample([(100, 100), (100, 300), (350, 100), (350, 300)], r.choice([1, 2, 3]))):
            es.append(element(r, k + 1 + r.choice([0, 100, 4000000]), cx, cy, s["looks"]))
        for e in es:
            samples(r, e, pts)
        ops.append({"ev": "solids", "points": True, "builder": "building", "grid": {"lod": 16, "x": r.choice([1, 9000, 32767, 32768, 50000, 65530]), "y": r.choice([32760, 32767, 32768, 32775]), "k": K},
                    "ele": ele, "palette": COLORS, "elements": es, "samples": pts})
    return ops


def run(c):
    r, q = c.rng, c.quick
    c.model("BuildingMC.tla", "BuildingMC.cfg")
    drv = build.cpp_driver("mesh", build.harness("mesh_driver.cpp"))
    c.conform([drv], [history(r, i) for i in range(200 if q else 3000)], "BuildingTrace.tla", "Trace.cfg", "buildings of tiles")
