"""C17: terrain covers a tile exactly once, with the topmost region everywhere."""
import math

from vf import build

K = 512
COLORS = ["red", "blue", "green", "yellow", "brown", "gray", "orange", "purple", "pink"]


def sheet(r, refine):
    """a style sheet with up to three layers and three kinds of own style, and what the specification knows of it"""
    names = ["la", "lb", "lc"][:r.choice([0, 1, 2, 3])]
    orders = r.sample([-7, -1, 3, 12, 100], len(names))
    pal = r.sample(range(len(COLORS)), 7)
    looks, text = {}, []
    cell = r.choice([1, 5, 20])
    big = r.choice([0, 5, 30])

    def look(name, prefix, canvas=False):
        o = {"color": pal.pop() + 1, "offset": 0 if canvas else r.choice([0, 0, 1000, -2000]), "mesh": "" if canvas else r.choice(["", "", "m" + name]),
             "texture": r.choice([0, 1, 2, 3]), "max": 0, "noise": False}
        m = big if canvas else r.choice([0, 0, 2, 10])
        d = "%scolor:%s;%stexture-index:%d;" % (prefix, COLORS[o["color"] - 1], prefix, o["texture"])
        if m and refine:
            o["max"] = m * 10000
            d += "%smax-area:%d%%;" % (prefix, m)
        if o["offset"]:
            d += "%sheight-offset:%s;" % (prefix, "%dm" % (o["offset"] // 1000) if o["offset"] > 0 else "%d" % (o["offset"] // 1000))
        if o["mesh"]:
            d += "%smesh-name:%s;" % (prefix, o["mesh"])
        if o["max"] and r.random() < .2:
            o["noise"] = True
            d += "%sele-noise-freq:0.5;" % prefix
        looks[name] = o
        return d
    canvas = "grid-cell-size:%d%%;" % cell + look("canvas", "", True)
    for n, order in zip(names, orders):
        canvas += look(n, n + "-") + "%s-sort-order:%d;" % (n, order)
    text.append("canvas|z16{%s}" % canvas)
    own = ["oa", "ob", "oc"][:r.choice([1, 2, 3])]
    for n in own:
        d = look(n, "")
        for t in ("area", "way", "relation"):
            text.append("%s|z16[t=%s]{builder:terrain;%s}" % (t, n, d))
    for n in names:
        for t in ("area", "way", "relation"):
            text.append("%s|z16[t=%s]{builder:terrain;terrain-layer:%s;}" % (t, n, n))
    for w in (8, 14, 25, 40):
        text.append("way|z16[w=%d]{width:%.12f;}" % (w, w * 360.0 / (1 << 16) / K))
    order = sorted([(o, n) for o, n in zip(orders, names)] + [(0, "")], reverse=True)
    return {"ev": "sheet", "text": "\n".join(text), "sheet": {"order": [n for _, n in order], "looks": looks}}, names, own


def star(r, cx, cy, lo, hi, n):
    a0 = r.random() * 7
    out = []
    for i in range(n):
        a = a0 + (i + r.random() * .6) * 2 * math.pi / n
        d = r.uniform(lo, hi)
        p = [round(cx + d * math.cos(a)), round(cy + d * math.sin(a))]
        out.append([min(K, max(0, v)) for v in p])
    return out


def shoelace(s):
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(s, s[1:] + s[:1]))


def crosses(s):
    """whether a ring meets itself"""
    def ccw(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    n = len(s)
    if len(set(map(tuple, s))) < n:
        return True
    for i in range(n):
        for j in range(i + 1, n):
            a, b, c, d = s[i], s[(i + 1) % n], s[j], s[(j + 1) % n]
            if j == i + 1 or (i == 0 and j == n - 1):
                x, y, z = (a, b, d) if j == i + 1 else (c, d, b)
                if ccw(x, y, z) == 0 and (x[0] - y[0]) * (z[0] - y[0]) + (x[1] - y[1]) * (z[1] - y[1]) > 0:
                    return True
                continue
            if ccw(a, b, c) * ccw(a, b, d) <= 0 and ccw(c, d, a) * ccw(c, d, b) <= 0:
                return True
    return False


def turned(s, outer):
    """outer rings counter-clockwise seen with north up (v grows to the south), holes clockwise"""
    return s if (shoelace(s) < 0) == outer else s[::-1]


def ring(r):
    while True:
        x = r.random()
        if x < .3:
            a, b = sorted(r.sample(range(0, K + 1, r.choice([1, 32])), 2))
            c, d = sorted(r.sample(range(0, K + 1, r.choice([1, 32])), 2))
            if r.random() < .2:
                a = 0
            if r.random() < .2:
                d = K
            s = [[a, c], [b, c], [b, d], [a, d]]
        elif x < .34:
            s = [[0, 0], [K, 0], [K, K], [0, K]]
        else:
            s = star(r, r.randrange(40, K - 40), r.randrange(40, K - 40), 20, r.choice([50, 120, 300]), r.choice([3, 4, 5, 8]))
        if abs(shoelace(s)) > 400 and not crosses(s):
            return turned(s, True)


def region(r, i, names, own):
    cls = r.choice((names + own) if r.random() < .7 else own)
    layer = cls if cls in names else ""
    tags = [["t", cls]]
    kind = r.choice(["A", "A", "A", "R", "W"])
    if kind == "W":
        w = r.choice([8, 14, 25, 40])
        while True:
            g = [[r.randrange(10, K - 10), r.randrange(10, K - 10)] for _ in range(r.choice([2, 2, 3]))]
            if all(abs(a[0] - b[0]) + abs(a[1] - b[1]) > 60 for a, b in zip(g, g[1:])):
                break
        return ({"t": "W", "id": i, "tags": tags + [["w", str(w)]], "g": g},
                {"kind": "way", "rings": [g], "radius": w, "layer": layer, "look": cls})
    if kind == "A":
        g = ring(r)
        return {"t": "A", "id": i, "tags": tags, "g": g}, {"kind": "ring", "rings": [g], "radius": 0, "layer": layer, "look": cls}
    cx, cy, d = r.randrange(150, K - 150), r.randrange(150, K - 150), r.choice([60, 100, 150])
    if r.random() < .15:    # a long thin hole
        x, y = r.choice([(1, 0), (0, 1)])
        rings = [turned([[cx - d, cy - d], [cx + d, cy - d], [cx + d, cy + d], [cx - d, cy + d]], True),
                 turned([[cx - x * (d - 6) - y * 3, cy - y * (d - 6) - x * 3], [cx + x * 3 - y * 3, cy + y * 3 - x * 3], [cx + x * (d - 9) + y * 3, cy + y * (d - 9) + x * 3],
                         [cx - x * 3 + y * 3, cy - y * 3 + x * 3]], False)]
        e = {"t": "R", "id": i, "tags": tags, "m": [{"t": "A", "id": 0, "tags": [], "g": g} for g in rings]}
        return e, {"kind": "ring", "rings": rings, "radius": 0, "layer": layer, "look": cls}
    rings = [turned(star(r, cx, cy, d * .9, d, 8), True), turned(star(r, cx, cy, d * .2, d * .5, r.choice([3, 5])), False)]
    if r.random() < .3 and not crosses(rings[1]):   # an island in the hole, up to nearly as large
        f = r.choice([0, 0, .8])
        if f:
            rings[1] = turned([[cx + x, cy + y] for x, y in ((-d // 2, -d // 2), (d // 2, -d // 2), (d // 2, d // 2), (-d // 2, d // 2))], False)
            h = int(d * r.choice([.2, .35, .45]))
            rings.append(turned([[cx - h, cy - h], [cx + h, cy - h], [cx + h, cy + h], [cx - h, cy + h]], True))
        else:
            rings[1] = turned(star(r, cx, cy, d * .3, d * .5, 8), False)
            rings.append(turned(star(r, cx, cy, d * .06, d * .08, 4), True))
            if crosses(rings[2]) or d < 100:
                rings.pop()
    if crosses(rings[0]) or crosses(rings[1]):
        return region(r, i, names, own)
    own_tags = tags if r.random() < .3 else []
    e = {"t": "R", "id": i, "tags": tags, "m": [{"t": "A", "id": 0, "tags": own_tags, "g": g} for g in rings]}
    return e, {"kind": "ring", "rings": rings, "radius": 0, "layer": layer, "look": cls}


def grid(r):
    return {"lod": 16, "x": r.choice([0, 1, 32767, 32768, 65534, r.randrange(65535)]), "y": r.choice([32766, 32767, 32768, 32769]), "k": K}


def history(r, i):
    s, names, own = sheet(r, i % 3 != 0)
    ops = [s]
    ele = [r.choice([0, 0, 7, -20]), r.choice([0, 0, 3, -11]), r.choice([0, 5000, -400])]
    for _ in range(3):
        n = r.choice([0, 1, 2, 3, 4, 6])
        if r.random() < .08:
            n = 22     # more than are sorted by insertion
        both = [region(r, k + 1, names, own) for k in range(n)]
        if r.random() < .25:   # blocks which meet at their corners only, all around a place
            p, q, z = r.randrange(100, 200), r.randrange(260, 350), r.choice([30, 60])
            cls = r.choice(names + own)
            for x0, y0, x1, y1 in ((p, p - z, q, p), (q, p, q + z, q), (p, q, q, q + z), (p - z, p, p, q)):
                g = turned([[x0, y0], [x1, y0], [x1, y1], [x0, y1]], True)
                both.append(({"t": "A", "id": len(both) + 1, "tags": [["t", cls]], "g": g},
                             {"kind": "ring", "rings": [g], "radius": 0, "layer": cls if cls in names else "", "look": cls}))
        samples = [[r.randrange(2, K - 1), r.randrange(2, K - 1)] for _ in range(24 if n < 10 else 12)]
        samples += [[r.choice([2, K - 2]), r.choice([2, K - 2])]]
        for _, reg in both[:6]:
            a, b, c = [r.choice(reg["rings"][-1]) for _ in range(3)]
            samples.append([min(K - 2, max(2, (a[j] + b[j] + c[j]) // 3)) for j in range(2)])
        ops.append({"ev": "surface", "builder": "terrain", "grid": grid(r), "ele": ele, "palette": COLORS, "elements": [e for e, _ in both],
                    "regions": [g for _, g in both], "samples": samples})
    # one region of its own
    a, b = sorted(r.sample(range(0, K + 1, 32), 2))
    c, d = sorted(r.sample(range(0, K + 1, 32), 2))
    g = [[a, c], [b, c], [b, d], [a, d]]
    if b - a > 64 and d - c > 64 and r.random() < .5:
        g = [[a, c], [b, c], [b, (c + d) // 2], [(a + b) // 2, (c + d) // 2], [(a + b) // 2, d], [a, d]]
    cls = r.choice(names + own)
    gr = grid(r)
    ops.append({"ev": "surface", "walled": True, "builder": "terrain", "grid": gr, "ele": [0, 0, 100], "palette": COLORS,
                "elements": [{"t": "A", "id": 1, "tags": [["t", cls]], "g": turned(g, True)}],
                "regions": [{"kind": "ring", "rings": [g], "radius": 0, "layer": cls if cls in names else "", "look": cls}],
                "samples": [[(a + b) // 4, (c + d) // 2], [r.randrange(2, K - 1), r.randrange(2, K - 1)]]})
    # two tiles next to each other, with a region on each side of their border
    flat = [n for n in names + own if not s["sheet"]["looks"][n]["offset"]]
    spans, v = [], 0
    for _ in range(r.choice([0, 1, 1, 2, 3]) if flat else 0):
        v += r.randrange(1, 120)
        w = v + r.randrange(20, 60)
        spans.append((v, w, r.choice(flat)))
        v = w + 1
    south = r.random() < .5
    for k in range(2):
        rects = []
        for v, w, cls in spans:
            x = r.randrange(20, 300)
            g = turned([[K - x, v], [K, v], [K, w], [K - x, w]] if k == 0 else [[0, v], [x, v], [x, w], [0, w]], True)
            if south:
                g = turned([p[::-1] for p in g], True)
            rects.append((g, cls))
        ops.append({"ev": "surface", "builder": "terrain", "grid": {"lod": 16, "x": gr["x"] + (0 if south else k), "y": gr["y"] + (k if south else 0), "k": K}, "ele": [0, 0, 100], "palette": COLORS,
                    "elements": [{"t": "A", "id": i + 1, "tags": [["t", cls]], "g": g} for i, (g, cls) in enumerate(rects)],
                    "regions": [{"kind": "ring", "rings": [g], "radius": 0, "layer": cls if cls in names else "", "look": cls} for g, cls in rects],
                    "samples": [[100, 100], [K - 10, 250], [5, 120], [330, 7]]})
        if k:
            ops[-1]["joins"] = "south" if south else "east"
    return ops


def run(c):
    r, q = c.rng, c.quick
    c.model("TerrainMC.tla", "TerrainMC.cfg")
    if not q:
        c.model("TerrainMC.tla", "TerrainMCframe.cfg")
        c.model("TerrainMC.tla", "TerrainMC3.cfg")
    drv = build.cpp_driver("mesh", build.harness("mesh_driver.cpp"))
    c.conform([drv], [history(r, i) for i in range(400 if q else 6000)], "TerrainTrace.tla", "Trace.cfg", "terrain of tiles")
