"""Random sessions of a client of the exported interface (operations of harness/cpp/api_driver.cpp)."""
import math

from . import stylegen
from .storegen import WORDS

K = 32
KEYS = ["alpha", "beta", "kind", "Eta"]
VALUES = ["1", "5", "42", "zeta", "x1"]
BUILDING = [["building", "true"], ["builder", "building"], ["height", "10m"], ["min-height", "0m"], ["facade-type", "flat"], ["facade-color", "red"],
            ["facade-texture-index", "0"], ["facade-texture-type", "background"], ["facade-texture-scale", "50"], ["roof-type", "flat"], ["roof-height", "0m"],
            ["roof-direction", "N"], ["roof-color", "red"], ["roof-texture-index", "0"], ["roof-texture-type", "background"], ["roof-texture-scale", "50"]]
TERRAIN = [["builder", "terrain"], ["color", "blue"], ["texture-index", "0"]]
CANVAS = "canvas|z1-19{grid-cell-size:20%;color:blue;texture-index:0;}\n"


class Session:
    def __init__(self, r, lod=14):
        self.r = r
        n = 1 << lod
        # a place in the middle of a cell of one degree
        la, lo = r.choice([1, 10, 20, -11]) + .3 + .3 * r.random(), r.choice([5, -31, 100]) + .3 + .3 * r.random()
        self.grid = {"hi": r.choice([0, 1, 1, 20000]), "lod": lod, "x": int((lo + 180) / 360 * n), "y": int((1 - math.asinh(math.tan(math.radians(la))) / math.pi) / 2 * n), "k": K}
        self.lods = [lod - 1, lod, lod + 1, lod + 2]
        self.id = r.choice([1, 1000, 40000000])
        self.sheets, self.stores, self.paths = {}, {}, 0
        self.eles, self.cell = set(), False
        self.ops = [{"ev": "reset", "grid": self.grid}]

    def rule(self, kinds=("node", "way", "area")):
        r = self.r
        z = sorted(r.choice(self.lods) for _ in range(2)) if r.random() < .5 else [1, 19]
        conds = [{"k": k, "op": "has", "v": ""} if r.random() < .5 else {"k": k, "op": "eq", "v": r.choice(VALUES)}
                 for k in r.sample(KEYS, r.choice([1, 1, 1, 2]))]
        x = r.random()
        t = r.choice(kinds)
        if x < .25 and t == "area":
            decls = BUILDING
        elif x < .9:
            decls = [["builder", r.choice(["info", "place", "shop"])]] + [[k, r.choice(["1", "red", "a b", "50%"])] for k in r.sample(["tone", "w", "note"], r.choice([0, 1, 2]))]
        else:
            decls = [["skip", r.choice(["true", "true", "false"])]]
        return {"sels": [{"names": [t], "z1": z[0], "z2": z[1], "conds": conds}], "decls": [list(d) for d in decls]}

    def sheet(self, name):
        r = self.r
        # sheets which say the same share what is kept of them; else they are to differ surely
        if self.sheets and r.random() < .2:
            rules = r.choice(list(self.sheets.values()))
            self.sheets[name] = rules
            self.ops.append({"ev": "write", "sheet": name, "rules": rules, "text": CANVAS + "\n".join(stylegen.rule_text(r, x) for x in rules) + "\n", "files": []})
            return
        rules = [{"sels": [{"names": ["node"], "z1": 1, "z2": 19, "conds": [{"k": "only" + name, "op": "has", "v": ""}]}], "decls": [["builder", "info"]]}]
        for t in ("node", "way", "area"):
            if r.random() < .9:
                rules.append({"sels": [{"names": [t], "z1": 1, "z2": 19, "conds": [{"k": "any", "op": "has", "v": ""}]}], "decls": [["builder", "info"]]})
        if r.random() < .5:
            rules.append({"sels": [{"names": ["area"], "z1": 1, "z2": 19, "conds": [{"k": "house", "op": "has", "v": ""}]}], "decls": [list(d) for d in BUILDING]})
        if r.random() < .5:
            rules.append({"sels": [{"names": ["area"], "z1": 1, "z2": 19, "conds": [{"k": "land", "op": "has", "v": ""}]}], "decls": [list(d) for d in TERRAIN]})
        rules += [self.rule() for _ in range(r.choice([0, 1, 2, 4]))]
        # buildings and terrain in one style would spoil each other's colours
        self.sheets[name] = rules
        text = CANVAS + "\n".join(stylegen.rule_text(r, x) for x in rules) + "\n"
        self.ops.append({"ev": "write", "sheet": name, "rules": rules, "text": text, "files": []})

    def odd(self, lo, hi):
        return self.r.randrange(lo // 2, hi // 2) * 2 + 1

    def element(self, file=False):
        r = self.r
        self.id += r.choice([1, 1, 2, 17])
        t = r.choice("NW" if file else "NWAA")
        u, v, d = self.odd(0, 3 * K - 20), self.odd(0, 3 * K - 20), r.choice([4, 8, 20])
        tags = [["any", "1"]] if r.random() < .8 else []
        for k in r.sample(KEYS, r.choice([0, 1, 2, 3])):
            tags.append([k, r.choice(VALUES)])
        if t == "A":
            if r.random() < .4:
                tags.append(["house", "yes"])
            elif r.random() < .4:
                tags.append(["land", "yes"])
                # terrain is not cut at the edges of tiles here: it stays in one tile of every level
                u, v = u // 8 * 8 + 1, v // 8 * 8 + 1
        tags = [[[a], [b]] for a, b in tags]
        if r.random() < .3:
            tags.append([["name"], [r.choice(WORDS), r.choice([" ", "_", ";", ","]), r.choice(WORDS)]])
        r.shuffle(tags)
        if t == "N":
            g = [[u, v]]
        elif t == "W":
            g = [[self.odd(u - 1, u + d), self.odd(v - 1, v + d)] for _ in range(r.choice([2, 3, 6]))]
            if g[0] == g[-1]:
                g.append([g[-1][0] + 2, g[-1][1]])
        else:
            a, b = [r.choice([2, 4, 6] if [["land"], ["yes"]] in tags else [2, 4, 8]) for _ in range(2)]
            g = [[u, v + b], [u + a, v + b], [u + a, v], [u, v]] if r.random() < .7 else [[u, v + b], [u + a, v + b], [u + a, v]]
            k = r.randrange(len(g))
            g = g[k:] + g[:k]
            g.append(list(g[0]))
        return {"t": t, "id": self.id, "tags": tags, "g": g}

    def tile(self):
        r, g = self.r, self.grid
        l = r.choice(self.lods)
        u, v = r.randrange(3 * K), r.randrange(3 * K)

        def of(o, c):
            return (o * K + c) // (K * 2 ** (g["lod"] - l)) if l <= g["lod"] else ((o * K + c) * 2 ** (l - g["lod"])) // K
        return [l, of(g["x"], u), of(g["y"], v)]

    def box(self):
        r = self.r
        if r.random() < .4:
            return [-1, -1, 3 * K + 1, 3 * K + 1]
        a, b = sorted([self.odd(0, 3 * K), self.odd(0, 3 * K)])
        c, d = sorted([self.odd(0, 3 * K), self.odd(0, 3 * K)])
        # coordinates in files are not exact: nothing is on the edges of boxes
        return [x + 1 + 2 * ((x + 1) % 8 == 0) for x in [a, c, b, d]]

    def range(self):
        r = self.r
        x = r.random()
        if x < .5:
            return [self.lods[0], self.lods[-1]]
        if x < .57:
            return r.choice([[0, 14], [14, 20], [-1, 3]])
        return sorted(r.choice(self.lods) for _ in range(2))

    def some(self, names, odd):
        return odd if self.r.random() < .05 or not names else self.r.choice(sorted(names))

    def need_ele(self, kind, tile):
        r = self.r
        if kind == 1 and not self.cell:
            self.cell = True
            self.ops.append({"ev": "cell", "h": r.choice([7, 300, 2000])})
        if kind == 2 and tuple(tile) not in self.eles and r.random() < .85:
            self.eles.add(tuple(tile))
            self.ops.append({"ev": "ele", "tile": tile, "h": r.choice([3, 50, 1234])})

    def get(self, tile=None, sheet=None):
        r = self.r
        t = tile or self.tile()
        kind = r.choice([0, 0, 1, 2, 2])
        self.need_ele(kind, t)
        return {"ev": "get", "sheet": sheet or self.some(self.sheets, "missing"), "tile": t, "ele": kind, "tag": r.choice([0, 1, -5, 99999]),
                "cancel": r.choices(["", "before", "first"], [12, 1, 1])[0]}

    def terms(self, n):
        out = []
        for i in range(n):
            if i:
                out.append(self.r.choice([" ", ";", ","]))
            out.append(self.r.choice(["any", "house"] + KEYS + VALUES + WORDS + ["nowhere"]))
        return out

    def text(self):
        r = self.r
        return {"ev": "text", "nots": self.terms(r.choice([0, 0, 1, 2])), "ands": self.terms(r.choice([0, 1, 1, 2])), "ors": self.terms(r.choice([0, 0, 1, 3])),
                "box": self.box(), "lods": self.range(), "tag": r.choice([0, 1, 77]), "cancel": r.choices(["", "before", "first"], [12, 1, 1])[0]}

    def add(self):
        r = self.r
        return {"ev": "add", "key": self.some(self.stores, "nobody"), "sheet": self.some(self.sheets, "missing"), "el": self.element(), "lods": self.range()}

    def imported(self):
        r = self.r
        o = {"ev": "import", "key": self.some(self.stores, "nobody"), "sheet": self.some(self.sheets, "missing"), "as": "xml" if r.random() < .95 else "txt",
             "els": [self.element(True) for _ in range(r.choice([0, 1, 3, 6]))]}
        x = r.random()
        if x < .4:
            o["tile"] = self.tile()
        elif x < .7:
            o["lods"] = self.range()
        else:
            o["lods"], o["box"] = self.range(), self.box()
        return o

    def connect(self):
        self.ops.append({"ev": "connect"})
        self.stores = {}
        for s in sorted(self.sheets):
            if self.r.random() < .7:
                self.ops.append({"ev": "style", "sheet": s})

    def register(self):
        r = self.r
        key = r.choice(["osm", "mem", "user", "x"])
        # two stores in one folder are not for one session
        path = "d_" + key
        if r.random() < .5 or (key in self.stores):
            self.ops.append({"ev": "memory", "key": key})
            self.stores.setdefault(key, "")
        else:
            self.ops.append({"ev": "disk", "key": key, "path": path})
            self.stores[key] = path

    def history(self, n):
        r = self.r
        for name in ["one", "two", "three"][:r.choice([1, 2, 3])]:
            self.sheet(name)
        self.connect()
        for _ in range(r.choice([1, 2, 3])):
            self.register()
        last = None
        for _ in range(n):
            x = r.random()
            if x < .34:
                self.ops.append(self.add())
            elif x < .42:
                self.ops.append(self.imported())
            elif x < .72:
                o = self.get() if last is None or r.random() < .6 else self.get(last["tile"], last["sheet"])
                last = o
                self.ops.append(o)
            elif x < .84:
                self.ops.append(self.text())
            elif x < .88:
                self.ops.append({"ev": "has", "tile": self.tile()})
            elif x < .91:
                t = self.tile()
                kind = r.choice([0, 1, 2])
                self.need_ele(kind, t)
                if kind != 2 or tuple(t) in self.eles:
                    self.ops.append({"ev": "height", "tile": t, "ele": kind, "at": [r.randrange(3 * K), r.randrange(3 * K)]})
            elif x < .93:
                self.register()
            elif x < .96:
                self.ops.append({"ev": "cache", "on": r.random() < .5})
            else:
                if r.random() < .5:
                    self.ops.append({"ev": "disconnect", "twice": r.random() < .5})
                self.connect()
                for _ in range(r.choice([1, 2, 3])):
                    self.register()
        self.ops.append({"ev": "disconnect", "twice": False})
        return self.ops


class Crowd(Session):
    """Sessions in which several threads ask at once. Nobody cancels; land is given before."""

    def element(self, file=False):
        e = super().element(file)
        if self.crowded:
            e["tags"] = [t for t in e["tags"] if t[0] != ["land"]]
        return e

    def range(self):
        return sorted(self.r.choice(self.lods) for _ in range(2)) if self.r.random() < .6 else [self.lods[0], self.lods[-1]]

    def need_ele(self, kind, tile):
        if kind == 2 and tuple(tile) not in self.eles:
            self.eles.add(tuple(tile))
            self.ops.append({"ev": "ele", "tile": tile, "h": self.r.choice([3, 50, 1234])})
        elif kind == 1:
            super().need_ele(kind, tile)

    def some(self, names, odd):
        return self.r.choice(sorted(names))

    def request(self, tiles, sheet):
        r = self.r
        x = r.random()
        if x < .55:
            o = self.get(r.choice(tiles), sheet if r.random() < .8 else None)
            # what is kept of terrain does not depend on who was first
            o["ele"], o["cancel"] = self.kind, ""
            self.need_ele(self.kind, o["tile"])
            return o
        if x < .7:
            o = self.text()
            o["cancel"] = ""
            return o
        if x < .75:
            return {"ev": "has", "tile": r.choice(tiles)}
        if x < .95:
            return self.add()
        o = self.imported()
        o["as"] = "xml"
        return o

    def history(self, n, crowds=1, threads=(2, 3, 4, 6), reqs=(2, 4, 6)):
        r = self.r
        self.crowded, self.kind = False, r.choice([0, 1, 2])
        for name in ["one", "two"][:r.choice([1, 2])]:
            self.sheet(name)
        self.connect()
        for _ in range(r.choice([1, 1, 2])):
            self.register()
        for _ in range(n):
            self.ops.append(self.add())
        self.crowded = True
        for _ in range(crowds):
            tiles = [self.tile() for _ in range(r.choice([1, 2, 4]))]
            if r.random() < .4:
                # the threads are the first who use it
                self.sheet(["late", "later"][_])
            sheet = r.choice(sorted(self.sheets))
            k = r.choice(threads)
            everyone = [[self.request(tiles, sheet) for _ in range(r.choice(reqs))] for _ in range(k)]
            self.ops.append({"ev": "par", "threads": everyone})
            for t in tiles:
                for s in sorted(self.sheets):
                    self.ops.append({"ev": "get", "sheet": s, "tile": t, "ele": 0, "tag": 1, "cancel": ""})
                self.ops.append({"ev": "has", "tile": t})
            o = self.text()
            o["cancel"] = ""
            self.ops.append(o)
        self.ops.append({"ev": "disconnect", "twice": False})
        return self.ops
