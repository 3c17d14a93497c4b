"""C23: walls, pillars, trees and lamps stand where and as their style says."""
import math

from vf import build
from .c17 import COLORS, crosses, shoelace, turned

K = 512
MM = 1194.33


def system(r, first=False):
    """an L-system of one generation, and the commands it comes to"""
    scale = r.choice([2, 2, 3])
    angle = r.choice([0, 90, 90, 180])
    while True:
        path, depth, level, wide, long, cross = [], 0, 0, 0, 0, []
        if first:
            path.append("cylinder")
        for _ in range(r.choice([1, 2, 3, 5, 8])):
            x = r.random()
            if x < .45:
                path.append(r.choice(["cylinder", "cylinder", "cone", "sphere", "F"]))
            elif x < .55:
                path.append("G")
            elif x < .7:
                path.append(r.choice(["+", "-", "|"]))
            elif x < .85:
                path.append(r.choice("$!><"))
            elif x < .9:
                path.append("@")
            elif x < .95:
                path.append("[")
                depth += 1
            elif depth:
                path.append("]")
                depth -= 1
        if r.random() < .5:
            path += ["]"] * depth
        things = sum(p in ("cylinder", "cone", "sphere", "F") for p in path)
        if things == 0 or things > 4:
            continue
        # sizes must stay within reason
        w = l = 0
        stack, ok = [], True
        for p in path:
            w += {"$": 1, "!": -1}.get(p, 0)
            l += {">": 1, "<": -1}.get(p, 0)
            if p == "[":
                stack.append((w, l))
            if p == "]":
                w, l = stack.pop()
            ok = ok and abs(w) <= 1 and abs(l) <= 1
        if ok:
            break
    if r.random() < .5:
        text = "root -> " + " ".join(path)
        gens = 1
    else:
        k = r.randrange(len(path) + 1)
        text = "root -> " + " ".join(path[:k] + ["rest"]) + ("\nrest -> " + " ".join(path[k:]) if path[k:] else "")
        gens = 2
        if not path[k:]:
            text, gens = "root -> " + " ".join(path), 1
    return path, angle, scale, "generations: %d\nangle: %d\nscale: %d\naxiom: root\n%s\n" % (gens, angle, scale, text)


def sheet(r, builder, n=3):
    text, looks, files = [], {}, []
    for i in range(n):
        k = {"builder": builder}
        name = "l%d" % i
        d = ""
        if builder == "barrier":
            k["type"] = r.choice(["wall", "wall", "pillar"])
            k["color"] = r.randrange(len(COLORS)) + 1
            k["height"] = r.choice([500, 2000, 5000, 7300])
            d += "color:%s;texture-index:%d;texture-type:background;texture-scale:%d;height:%gm;" % (COLORS[k["color"] - 1], r.choice([0, 1]), r.choice([0, 100]), k["height"] / 1000.0)
            if k["type"] == "wall":
                k["width"] = r.choice([300, 1200, 2400])
                k["length"] = r.choice([3000, 8000, 15000, 60000])
                k["gap"] = r.choice([0, 1000, 4000, 20000])
                d += "width:%gm;length:%gm;gap:%g;type:wall;" % (k["width"] / 1000.0, k["length"] / 1000.0, k["gap"] / 1000.0)
            else:
                k["radius"] = r.choice([600, 1000, 2500])
                k["step"] = r.choice([8000, 20000, 55000])
                d += "radius:%gm;step:%gm;type:pillar;" % (k["radius"] / 1000.0, k["step"] / 1000.0)
        else:
            path, k["angle"], k["scale"], f = system(r, builder == "terrain")
            k["path"] = path
            k["size"] = r.choice([1800, 3600])
            # the first look is for cylinders
            k["looks"] = [r.randrange(len(COLORS)) + 1 for _ in range(r.choice([2, 2, 3]))]
            k["step"] = r.choice([30000, 55000, 100000])
            k["width"] = r.choice([0, 5000, 12000]) if builder == "lamp" else 0
            n0 = len(k["looks"])
            d += "lsys:%s;lsys-size:%gm;lsys-colors:%s;lsys-texture-indices:%s;lsys-texture-types:%s;lsys-texture-scales:%s;" % (
                name, k["size"] / 1000.0, ",".join(COLORS[c - 1] for c in k["looks"]), ",".join(r.choice("01") for _ in range(n0)),
                ",".join(["background"] * n0), ",".join(["200"] * n0))
            d += "tree-step:%gm;lamp-step:%gm;width:%gm;" % (k["step"] / 1000.0, k["step"] / 1000.0, k["width"] / 1000.0)
            files.append([name + ".lsys", f])
            text.insert(0, '@lsystem url("%s.lsys");' % name)
            if builder == "terrain":
                k["every"] = r.choice([1, 1, 2, 3, 5])
                k["chunk"] = r.choice([1, 2, 3, 5, 100])
                k["color"] = 1
                k["looks"] = [c if c != 1 else 2 for c in k["looks"]]
                d = d.replace("lsys-colors:" + ",".join(COLORS[c - 1] for c in k["looks"]), "lsys-colors:x")
                d = d.split("lsys-colors:")[0] + "lsys-colors:" + ",".join(COLORS[c - 1] for c in k["looks"]) + ";" + d.split("lsys-colors:")[1].split(";", 1)[1]
                d += "color:%s;texture-index:0;mesh-extras:forest;tree-frequency:%d;tree-chunk-size:%d;" % (COLORS[0], k["every"], k["chunk"])
        text.append("node,way,area,relation|z16[t=%s]{builder:%s;%s}" % (name, builder, d))
        looks[name] = k
    if builder == "terrain":
        text.append("canvas|z16{grid-cell-size:20%;color:blue;texture-index:0;}")
    return {"ev": "sheet", "text": "\n".join(text), "files": files, "looks": looks}


def clear(ss, full):
    """whether it is beyond doubt how often it fits"""
    for a, b in ss:
        d = math.hypot(a[0] - b[0], a[1] - b[1]) * MM / full
        if abs(d - round(d)) < .01 * d + .02 and d > .5 or d > 30:
            return False
    return True


def line(r, closed, look, limit):
    full = look["length"] + look["gap"] if look.get("type") == "wall" else look["step"]
    while True:
        n = r.choice([2, 2, 3, 4]) if not closed else r.choice([3, 4, 5])
        cx, cy, d = r.randrange(120, 390), r.randrange(120, 390), r.choice([15, 50, 110])
        g = [[cx + r.randrange(-d, d + 1), cy + r.randrange(-d, d + 1)] for _ in range(n)]
        if closed and (crosses(g) or abs(shoelace(g)) < 100):
            continue
        if closed:
            g = turned(g, True)
        ss = list(zip(g, g[1:] + (g[:1] if closed else [])))
        if any(math.hypot(a[0] - b[0], a[1] - b[1]) < 6 for a, b in ss) or not clear(ss, full):
            continue
        if sum(int(math.hypot(a[0] - b[0], a[1] - b[1]) * MM / full) for a, b in ss) > limit:
            continue
        if any((a[0] - b[0]) * (c[1] - b[1]) == (a[1] - b[1]) * (c[0] - b[0]) for a, b, c in zip(g, g[1:], g[2:])):
            continue       # what goes back over itself
        x = r.random()
        if x < .1:
            k = r.randrange(n)
            g.insert(k, list(g[k]))        # a point twice
        elif x < .2 and closed:
            g.append(list(g[0]))
        return g


def member(r, i, look, k, limit, depth=0):
    t = r.choice("NWWWA")
    g = [[r.randrange(20, 490), r.randrange(20, 490)]] if t == "N" else line(r, t == "A", k, limit)
    return {"t": t, "id": i, "tags": [["t", look]], "g": g, "look": look}


def element(r, i, looks, builder):
    look = r.choice(sorted(looks))
    limit = 12
    if r.random() < .85:
        return member(r, i, look, looks[look], limit)
    m = []
    for j in range(r.choice([1, 2, 3])):
        inner = look if builder == "barrier" else r.choice(sorted(looks))
        e = member(r, 10 * i + j, inner, looks[inner], limit)
        if builder == "barrier" and r.random() < .5:
            e["look"], e["tags"] = "", []
        m.append(e)
    return {"t": "R", "id": i, "tags": [["t", look]], "m": m, "look": look}


def history(r, i):
    builder = ["barrier", "tree", "lamp", "terrain", "barrier"][i % 5]
    s = sheet(r, builder)
    ops = [s]
    for _ in range(3):
        ele = [r.choice([0, 0, 7, -20]), r.choice([0, 0, 3, -11]), r.choice([0, 5000, -400])]
        op = {"ev": "solids", "points": True, "builder": builder, "grid": {"lod": 16, "x": r.choice([1, 9000, 32767, 32768, 50000, 65530]), "y": r.choice([32760, 32767, 32768, 32775]), "k": K},
              "ele": ele, "palette": COLORS}
        if builder == "terrain":
            op["look"] = r.choice(sorted(s["looks"]))
            op["middles"], op["besides"] = 1, "forest"
            while True:
                a = r.choice([80, 160, 300])
                x, y = r.randrange(10, 500 - a), r.randrange(10, 500 - a)
                g = [[x, y], [x + a, y + r.randrange(-5, 6)], [x + a, y + a], [x, y + a - r.randrange(5)]]
                if r.random() < .4:
                    g.pop(r.randrange(4))
                if not crosses(g):
                    break
            op["elements"] = [{"t": "A", "id": 9, "tags": [["t", op["look"]]], "g": turned(g, True), "look": op["look"]}]
        else:
            op["elements"] = [element(r, k + 1 + r.choice([0, 100, 4000000]), s["looks"], builder) for k in range(r.choice([1, 2]))]
        ops.append(op)
    return ops


def run(c):
    r, q = c.rng, c.quick
    c.model("FurnitureMC.tla", "FurnitureMC.cfg")
    drv = build.cpp_driver("mesh", build.harness("mesh_driver.cpp"))
    c.conform([drv], [history(r, i) for i in range(150 if q else 2000)], "FurnitureTrace.tla", "Trace.cfg", "furniture of tiles")
