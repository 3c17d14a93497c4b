"""C18: meshes are well formed, whatever they are made from."""
import math

from vf import build
from . import c17, c22, c23
from .c17 import crosses, shoelace, turned

K = 512


def wild(r):
    """points in any order: few, repeated, closed, on a line, there and back, crossing"""
    n = r.choice([1, 2, 3, 3, 4, 4, 5, 6, 8, 12])
    d = r.choice([3, 30, 200])
    cx, cy = r.randrange(0, K), r.randrange(0, K)
    g = [[min(K, max(0, cx + r.randrange(-d, d + 1))), min(K, max(0, cy + r.randrange(-d, d + 1)))] for _ in range(n)]
    x = r.random()
    if x < .15:
        k = r.randrange(n)
        g.insert(k, list(g[k]))
    elif x < .3:
        g.append(list(g[0]))
    elif x < .4:
        g = [[a, cy] for a, b in g]
    elif x < .5:
        g = g + g[::-1]
    return g


def odd(r):
    """a ring which does not cross itself, but has points twice, on a line, its first one at its end, the wrong way round"""
    for _ in range(200):
        n = r.choice([3, 4, 4, 5, 6, 8, 12])
        d = r.choice([3, 30, 200])
        cx, cy = r.randrange(0, K), r.randrange(0, K)
        g = [[min(K, max(0, cx + r.randrange(-d, d + 1))), min(K, max(0, cy + r.randrange(-d, d + 1)))] for _ in range(n)]
        if not crosses(g):
            break
    else:
        g = c22.polygon(r, 250, 250)
    for _ in range(r.choice([0, 1, 2])):
        x, k = r.random(), r.randrange(len(g))
        if x < .35:
            g.insert(k, list(g[k]))
        elif x < .6:
            a, b = g[k], g[(k + 1) % len(g)]
            if (a[0] + b[0]) % 2 == 0 and (a[1] + b[1]) % 2 == 0:
                g.insert(k + 1, [(a[0] + b[0]) // 2, (a[1] + b[1]) // 2])
        elif x < .7:
            g.append(list(g[0]))
        elif x < .8:
            g = g[::-1]
        elif x < .9:
            g = g[:r.choice([1, 2])]
    return g


def shape(r, i, looks, ring, depth=0, areas=False):
    t = "A" if areas else r.choice("NWAAAR" if depth < 2 else "NWAA")
    look = r.choice(looks)
    if t == "R":
        multi = r.random() < .4
        return {"t": "R", "id": i, "tags": [["t", look]] + ([["multi", "yes"]] if multi else []),
                "m": [shape(r, 100 * i + j, looks, ring, depth + 1, multi) for j in range(r.randrange(4))]}
    g = ring(r)
    return {"t": t, "id": i, "tags": [["t", look]], "g": g[:1] if t == "N" else g}


def any_history(r, i):
    b = ["terrain", "building", "barrier", "tree", "lamp", "building"][i % 6]
    if b == "terrain":
        s, names, own = c17.sheet(r, True)
        looks = names + own
    else:
        s = c22.sheet(r) if b == "building" else c23.sheet(r, b)
        looks = sorted(s["looks"])
    ring = odd if b == "building" else wild
    return [s] + [{"ev": "formed", "builder": b, "grid": {"lod": 16, "x": r.choice([1, 9000, 65530]), "y": r.choice([32768, 20000, 50000]), "k": K},
                   "ele": [0, 0, r.choice([0, 0, 90000, -400])], "elements": [shape(r, k + 1, looks, ring) for k in range(r.choice([1, 2]))]} for _ in range(8)]


def formed(h):
    return [dict(o, ev="formed") if "elements" in o else o for o in h]


def ring(r, d):
    while True:
        n = r.choice([3, 4, 4, 5, 7])
        g = [[r.randrange(-d, d + 1), r.randrange(-d, d + 1)] for _ in range(n)]
        if not crosses(g) and abs(shoelace(g)) > d * d / 4:
            return turned(g, r.random() < .5)


def own_history(r, i):
    """building meshes call by call"""
    ops = [{"ev": "new"}]
    there, made = {}, 0          # name -> [triangles, whether all of them have their texture]

    def p3():
        return [r.randrange(-50, 50), r.randrange(-50, 50), r.choice([0, 5, -7, 30])]
    for _ in range(r.choice([12, 30])):
        if not there or (len(there) < 3 and r.random() < .15):
            n = r.choice([x for x in ["a", "b", "building:17"] if x not in there])
            ops.append({"ev": "get", "m": n, "large": r.random() < .5})
            there[n] = [0, True]
            continue
        n = r.choice(sorted(there))
        m = there[n]
        x = r.random()
        look = {"color": r.randrange(1, 4), "scale": r.choice([1, 1, 2, 5])}
        if x < .3:
            ops.append(dict({"ev": "triangle", "m": n, "at": [p3(), p3(), p3()], "uv": [[r.randrange(3), r.randrange(3)] for _ in range(3)], "back": r.random() < .3}, **look))
            m[0] += 2
            m[1] = False
        elif x < .45:
            p, q = p3(), p3()
            if p[:2] == q[:2]:
                continue
            o = dict({"ev": r.choice(["plane", "plane2"]), "m": n, "p": p, "q": q, "h": r.choice([1, 10, 40, 100])}, **look)
            if o["ev"] == "plane2":
                o["ele"] = r.choice([0, 4, -30])
            ops.append(o)
            m[0] += 2
            m[1] = False
        elif x < .55 and m[0] < 40:
            d = r.choice([10, 40])
            g = ring(r, d)
            rings = [g]
            cx, cy = sum(p[0] for p in g) / len(g), sum(p[1] for p in g) / len(g)
            if r.random() < .3 and all(((b[0] - a[0]) * (cy - a[1]) - (b[1] - a[1]) * (cx - a[0])) * shoelace(g) < 0 for a, b in zip(g, g[1:] + g[:1])):
                h = [[round(cx + (p[0] - cx) * .3), round(cy + (p[1] - cy) * .3)] for p in g]
                if not crosses(h) and abs(shoelace(h)) > 4:
                    rings.append(h if r.random() < .5 else h[::-1])
            ops.append(dict({"ev": "polygon", "m": n, "rings": rings, "flip": r.random() < .4, "ele": r.choice([0, 12, -5]), "h": r.choice([0, 3]),
                             "area": r.choice([0, 0, d * d // 4]), "split": r.choice([0, 0, 1]), "tex": r.choice([1, 2, 7])}, **look))
            m[0] += 30
            m[1] = False
        elif x < .8:
            ops.append({"ev": "map", "m": n, "tex": r.choice([1, 1, 2, 3, 4, 5, 6, 7])})
            m[1] = True
        elif x < .9 and len(there) > 1:
            f = r.choice([k for k in sorted(there) if k != n])
            if not m[1] or not there[f][1] or m[0] + there[f][0] > 60:
                continue
            ops.append({"ev": "copy", "m": n, "from": f, "by": [r.randrange(-9, 9), r.randrange(-9, 9), r.randrange(-3, 9)]})
            m[0] += there[f][0]
        elif x < .93:
            ops.append({"ev": "clear", "m": n})
            there[n] = [0, True]
        elif x < .95 and made < 2:
            ops.append({"ev": "many", "m": n, "n": r.choice([100, 2600]), "color": 1})
            there[n] = [0, True]
            made += 1
        elif x < .98:
            ops.append({"ev": "release", "m": n})
            del there[n]
    return ops


def run(c):
    r, q = c.rng, c.quick
    c.model("MeshMC.tla", "MeshMC.cfg")
    drv = build.cpp_driver("mesh", build.harness("mesh_driver.cpp"))
    own = build.cpp_driver("meshes", build.harness("meshes_driver.cpp"))
    c.known_findings({"mesh": drv})
    c.conform([own], [own_history(r, i) for i in range(200 if q else 3000)], "MeshTrace.tla", "Trace.cfg", "meshes made call by call")
    c.conform([drv], [any_history(r, i) for i in range(240 if q else 6000)], "FormedTrace.tla", "Trace.cfg", "tiles of any elements")
    # and the scenes of the other checks of meshes
    n = 60 if q else 1000
    c.conform([drv], [formed(f(r, i)) for i in range(n) for f in (c17.history, c22.history, c23.history)], "FormedTrace.tla", "Trace.cfg", "tiles of usual elements")
