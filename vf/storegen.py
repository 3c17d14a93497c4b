"""Random histories for element stores (operations of harness/cpp/index_driver.cpp)."""

from .sheet import store_sheet

WORDS = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "x1", "42", "Eta", "a-b"]
LONG = ["w" * 65, "q" * 256, "z" * 1000]
SEPS = list(" _:;!@#$%^&*(){}[],.?`/\\\"'")
K = 32


class StoreGen:
    def __init__(self, rng, lod=None, tiles=3):
        self.r = rng
        lod = lod or rng.choice([3, 5, 9, 14])
        n = 2 ** lod
        self.grid = {"hi": rng.choice([0, 1, 1, 70000]), "lod": lod, "x": rng.randint(1, n - tiles - 2) if n > tiles + 3 else 1,
                     "y": rng.randint(1, n - tiles - 2) if n > tiles + 3 else 1, "k": K}
        self.lods = [l for l in range(max(1, lod - 1), min(19, lod + 2) + 1)]
        self.span = tiles * K
        self.words = WORDS if rng.random() < .8 else WORDS[:4] + LONG
        self.next_id = 1
        self.big = False       # elements with very many points or members
        self.put = []          # boxes of what was put

    def odd(self, lo, hi):
        return self.r.randrange(lo // 2, hi // 2) * 2 + 1

    def text(self):
        r = self.r
        n = r.choice([1, 1, 1, 2, 2, 3])
        out = []
        for i in range(n):
            if i:
                out.append(r.choice(SEPS))
            out.append(r.choice(self.words))
        if r.random() < .08:
            out.insert(0, r.choice(SEPS))
        if r.random() < .08:
            out.append(r.choice(SEPS))
        return out

    def tags(self):
        seen, out = {"any"}, ([[["any"], ["1"]]] if self.r.random() < .85 else [])
        for _ in range(self.r.choice([0, 1, 1, 2, 3, 5])):
            k = self.r.choice([["alpha"], ["beta"], ["kind"], self.text()])
            if "".join(k) in seen:
                continue
            seen.add("".join(k))
            out.append([k, self.text()])
        return out

    def points(self, n, size=None):
        r = self.r
        size = size or r.choice([8, 16, 40, self.span])
        u0, v0 = r.randint(0, max(0, self.span - size)), r.randint(0, max(0, self.span - size))
        return [[self.odd(u0, u0 + size), self.odd(v0, v0 + size)] for _ in range(n)]

    def element(self, depth=0):
        r = self.r
        t = r.choice("NNWWA" + ("R" if depth < 2 else ""))
        e = {"t": t, "id": self.next_id if r.random() < .9 else r.randint(1, self.next_id), "tags": self.tags()}
        self.next_id += 1
        if t == "R":
            e["m"] = [self.element(depth + 1) for _ in range(r.choice([1, 2, 3]))]
        else:
            e["g"] = self.points({"N": 1, "W": r.choice([2, 3, 5, 12]), "A": r.choice([3, 4, 7])}[t])
        if self.big and depth == 0 and t != "N" and r.random() < .5:
            e["rep"] = r.choice([255, 256, 32768, 65534, 65535, 65536, 65537, 66000, 70001])
        return e

    def rules(self):
        r = self.r
        out = []
        for t in ["node", "way", "area", "relation"]:
            a = r.choice(self.lods)
            if r.random() < .85:
                out.append({"t": t, "z1": self.lods[0], "z2": self.lods[-1], "conds": [{"op": "has", "k": ["any"], "v": []}], "decl": "key"})
            for _ in range(r.choice([0, 1, 1, 2])):
                b = r.choice([l for l in self.lods if l >= a])
                k = [r.choice(["alpha", "beta", "kind"])]
                c = [{"op": "has", "k": k, "v": []}] if r.random() < .5 else [{"op": "eq", "k": k, "v": [r.choice(WORDS[:7])]}]
                out.append({"t": t, "z1": a, "z2": b, "conds": c, "decl": r.choice(["key", "skip", "skip", "noskip"])})
        return out

    def tile(self):
        r = self.r
        l = r.choice(self.lods)
        g = self.grid
        u, v = r.randrange(self.span), r.randrange(self.span)

        def of(o, c):
            return (o * K + c) // (K * 2 ** (g["lod"] - l)) if l <= g["lod"] else ((o * K + c) * 2 ** (l - g["lod"])) // K
        return [l, of(g["x"], u), of(g["y"], v)]

    def box(self):
        r = self.r
        p = self.points(2, r.choice([10, 30, self.span, self.span]))
        return [min(p[0][0], p[1][0]), min(p[0][1], p[1][1]), max(p[0][0], p[1][0]), max(p[0][1], p[1][1])]

    def lodrange(self):
        a, b = sorted([self.r.choice(self.lods), self.r.choice(self.lods)])
        return [a, b]

    def terms(self, n):
        out = []
        for i in range(n):
            if i:
                out.append(self.r.choice(SEPS))
            out.append(self.r.choice(self.words + ["nowhere"]))
        return out

    def new(self, kind):
        rules = self.rules()
        return {"ev": "es.new", "kind": kind, "grid": self.grid, "rules": rules, "sheet": store_sheet(rules)}

    def op_put(self):
        r = self.r
        e = {"ev": "es.put", "el": self.element()}
        x = r.random()
        if x < .4:
            e["lods"] = [self.lods[0], self.lods[-1]] if r.random() < .5 else self.lodrange()
        elif x < .65:
            e["lods"] = self.lodrange()
            e["box"] = self.box()
        else:
            e["tile"] = self.tile()
        return e

    def op_get(self, tile=None):
        return {"ev": "es.get", "tile": tile or self.tile(), "stop": self.r.choice([-1, -1, -1, 0, 1, 2, 4])}

    def op_text(self):
        r = self.r
        return {"ev": "es.text", "nots": self.terms(r.choice([0, 0, 1, 2])), "ands": self.terms(r.choice([0, 0, 1, 1, 2])),
                "ors": self.terms(r.choice([0, 1, 2, 3])), "box": self.box(), "lods": self.lodrange()}

    def history(self, kind, n, weights):
        ops = {"put": self.op_put, "get": self.op_get, "text": self.op_text,
               "has": lambda: {"ev": "es.has", "tile": self.tile()},
               "erase": lambda: {"ev": "es.erase", "tile": self.tile()},
               "reopen": lambda: {"ev": "es.reopen"}, "flush": lambda: {"ev": "es.flush"}}
        names = list(weights)
        h = [self.new(kind)]
        for _ in range(n):
            h.append(ops[self.r.choices(names, [weights[k] for k in names])[0]]())
        return h


def dense(rng, kind, n, reopen=.04):
    """Many elements in few tiles, so that the bitmaps of a tile get long; searched over and over."""
    g = StoreGen(rng, tiles=1)
    g.lods = [g.grid["lod"], g.grid["lod"] + 1]
    h = [{"ev": "es.new", "kind": kind, "grid": g.grid,
          "rules": [{"t": t, "z1": g.lods[0], "z2": g.lods[1], "conds": [{"op": "has", "k": ["any"], "v": []}], "decl": "key"}
                    for t in ("node", "way", "area", "relation")]}]
    h[0]["sheet"] = store_sheet(h[0]["rules"])
    rare = 0
    for i in range(n):
        x = rng.random()
        if x < .86:
            e = {"t": "N", "id": g.next_id, "tags": [[["any"], ["1"]]], "g": g.points(1, 32)}
            g.next_id += 1
            # words in long runs and words that come once in a while
            if (i // 70) % 2 == 0:
                e["tags"].append([["alpha"], ["beta"]])
            if rng.random() < .03:
                e["tags"].append([["gamma"], ["delta", " ", "eps"]])
            h.append({"ev": "es.put", "el": e, "lods": g.lods})
        elif x < .86 + reopen:
            h.append({"ev": rng.choice(["es.reopen", "es.flush"])})
        else:
            op = g.op_text()
            op["box"] = [1, 1, 31, 31] if rng.random() < .7 else op["box"]
            op["nots"] = rng.choice([[], [], ["eps"], ["beta"]])
            op["ands"] = rng.choice([[], ["any"], ["alpha"], ["delta"]])
            op["ors"] = rng.choice([[], ["gamma"], ["eps", "/", "beta"], ["nowhere"]])
            op["lods"] = rng.choice([g.lods, [g.lods[0], g.lods[0]]])
            h.append(op)
    return h
