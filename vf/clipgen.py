"""Random rectilinear elements and histories for clipping (spec/Clip.tla)."""
from .sheet import store_sheet


def odd(r, lo, hi):
    return r.randrange(lo // 2, hi // 2) * 2 + 1


def comb(r, span):
    """A simple polygon, monotone in one direction: columns between a lower and an upper profile."""
    n = r.choice([1, 2, 3, 4, 6])
    xs = sorted(r.sample(range(1, span, 2), n + 1))
    lo, hi = odd(r, 0, span // 2), None
    cols = []
    for i in range(n):
        while True:
            a, b = sorted(r.sample(range(1, span, 2), 2))
            if not cols or (a < cols[-1][1] and cols[-1][0] < b):
                break
        cols.append((a, b))
    top, bottom = [], []
    for i, (a, b) in enumerate(cols):
        top += [(xs[i], a), (xs[i + 1], a)]
        bottom += [(xs[i], b), (xs[i + 1], b)]
    pts = top + bottom[::-1]
    out = []
    for p in pts:
        if not out or out[-1] != p:
            out.append(p)
    # no three in a row on a line
    ch = True
    while ch:
        ch = False
        for i in range(len(out)):
            a, b, c = out[i - 1], out[i], out[(i + 1) % len(out)]
            if (a[0] == b[0] == c[0]) or (a[1] == b[1] == c[1]):
                del out[i]
                ch = True
                break
    if r.random() < .5:
        out = [(y, x) for x, y in out]
    if r.random() < .5:
        out.reverse()
    k = r.randrange(len(out))
    return [list(p) for p in out[k:] + out[:k]]


def path(r, span):
    """A rectilinear path that does not meet itself."""
    while True:
        n = r.choice([1, 2, 3, 5, 8])
        p = [odd(r, 0, span), odd(r, 0, span)]
        pts, used, ok = [list(p)], {tuple(p)}, True
        horizontal = r.random() < .5
        for _ in range(n):
            q = list(p)
            i = 0 if horizontal else 1
            while q[i] == p[i]:
                q[i] = odd(r, 0, span) if r.random() < .6 else max(1, min(span - 1, p[i] + 2 * r.choice([-3, -2, -1, 1, 2, 3])))
            step = 1 if q[i] > p[i] else -1
            c = list(p)
            while c != q:
                c[i] += step
                if tuple(c) in used:
                    ok = False
                    break
                used.add(tuple(c))
            if not ok:
                break
            pts.append(list(q))
            p, horizontal = q, not horizontal
        if ok:
            return pts


def star(r, span):
    """A simple polygon: points around a centre in the order of their angles."""
    import math
    while True:
        n = r.choice([3, 3, 3, 4, 4, 5, 6, 8])
        c = (r.uniform(0, span), r.uniform(0, span))
        ps = {}
        for _ in range(n):
            a, d = r.uniform(0, 2 * math.pi), r.uniform(1.5, span)
            p = [int(c[0] + d * math.cos(a)) // 2 * 2 + 1, int(c[1] + d * math.sin(a)) // 2 * 2 + 1]
            if 0 < p[0] < span and 0 < p[1] < span:
                ps[math.atan2(p[1] - c[1], p[0] - c[0])] = p
        out = [ps[a] for a in sorted(ps)]
        ang = sorted(ps)
        if len(out) < 3 or len(set(map(tuple, out))) < len(out):
            continue
        if max((b - a) % (2 * math.pi) for a, b in zip(ang, ang[1:] + ang[:1])) > 3:
            continue
        if any(abs((out[i][0] - out[i - 1][0]) * (out[i - 2][1] - out[i - 1][1]) - (out[i][1] - out[i - 1][1]) * (out[i - 2][0] - out[i - 1][0])) < 6
               for i in range(len(out))):
            continue
        if r.random() < .5:
            out.reverse()
        return out


def track(r, span):
    """A way in any directions."""
    while True:
        n = r.choice([2, 2, 3, 4, 6, 9])
        pts = [[odd(r, 0, span), odd(r, 0, span)]]
        while len(pts) < n:
            q = [odd(r, 0, span), odd(r, 0, span)]
            if r.random() < .4:
                q = [max(1, min(span - 1, pts[-1][0] + 2 * r.randint(-3, 3))), max(1, min(span - 1, pts[-1][1] + 2 * r.randint(-3, 3)))]
            if q != pts[-1]:
                pts.append(q)
        return pts


class ClipGen:
    def __init__(self, r, shapes=False):
        self.r = r
        self.shapes = shapes
        lod = r.choice([2, 5, 9, 12])
        if shapes:
            lod = r.choice([13, 14, 15])
        n = 2 ** lod
        self.k = 8
        self.tiles = r.choice([2, 3])
        self.grid = {"lod": lod, "x": r.randint(0, n - self.tiles - 1), "y": r.randint(0, n - self.tiles - 1), "k": 8, "skew": 1}
        if shapes:  # straight lines of degrees are nearly straight lines of the grid
            self.grid["y"] = r.randint(n // 4, 3 * n // 4)
        self.span = self.tiles * 8
        self.id = 1

    def element(self, depth=0):
        r = self.r
        t = r.choice("NWWWAAA" + ("RR" if depth < 2 else ""))
        e = {"t": t, "id": self.id, "tags": [["any", "1"]] if depth == 0 else r.choice([[], [["part", r.choice("ab")]]])}
        self.id += 1
        if depth == 0 and r.random() < .4:
            e["tags"].append(["name", r.choice(["x", "y"])])
        if t == "R":
            e["m"] = [self.element(depth + 1) for _ in range(r.choice([1, 2, 3, 4]))]
        elif t == "N":
            e["g"] = [[odd(r, 0, self.span), odd(r, 0, self.span)]]
        else:
            e["g"] = ((track if t == "W" else star) if self.shapes else (path if t == "W" else comb))(r, self.span)
        return e

    def history(self, kind, n):
        r = self.r
        g = self.grid
        lods = [max(1, g["lod"] - 1), g["lod"] + 1]
        rules = [{"t": t, "z1": lods[0], "z2": lods[1], "conds": [{"op": "has", "k": "any"}], "decl": "clip"}
                 for t in ("node", "way", "area", "relation")]
        h = [{"ev": "es.new", "kind": kind, "grid": g, "sheet": store_sheet(rules)}]
        for _ in range(n):
            a = r.randint(*lods)
            b = r.randint(a, lods[1])
            h.append({"ev": "es.put", "el": self.element(), "lods": [a, b] if r.random() < .4 else lods})
        for l in range(lods[0], lods[1] + 1):
            f = (lambda o, c: (o * 8 + c) // (8 * 2 ** (g["lod"] - l))) if l <= g["lod"] else \
                (lambda o, c: ((o * 8 + c) * 2 ** (l - g["lod"])) // 8)
            for x in range(f(g["x"], 0), f(g["x"], self.span - 1) + 1):
                for y in range(f(g["y"], 0), f(g["y"], self.span - 1) + 1):
                    h.append({"ev": "es.shape" if self.shapes else "es.geo", "tile": [l, x, y]})
        return h
