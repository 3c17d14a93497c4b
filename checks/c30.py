"""C30: geocoders ask what they are asked, and tell what is answered."""
import json
import math

from vf.apigen import K, Session
from .c29 import client, driver

CULTURES = ["", "en-US", "de-DE", "fr-FR", "ru-RU"]
NAMES = ["Berlin", "invalidenstrasse 117, berlin", "a & b = c?", "50% + 1 #2", "\u041c\u043e\u0441\u043a\u0432\u0430", "q=x&format=xml", "S\u00e3o Paulo/Se", "\"x\"", "{0}"]
BAD = ["{\"error\":\"Unable to geocode\"}", "<html>busy</html>", "[{\"place\":1}]", "{", "\"", "[1,2", "nothing"]


def number(r, v):
    """v of 1e-7 degrees as a server may write it"""
    s = "%s%d.%07d" % ("-" if v < 0 else "", abs(v) // 10**7, abs(v) % 10**7)
    if r.random() < .5:
        s = s.rstrip("0")
        s += "0" if s[-1] == "." else ""
    return s


def place(r):
    def deg(most):
        x = r.random()
        return r.randrange(-most * 10**7, most * 10**7 + 1) if x < .8 else r.randrange(-most, most + 1) * 10**7
    lat, lon = deg(90), deg(180)
    name = r.choice(NAMES + ["Main street, 5, Town", "a\tb", "x: [y], {z}"])
    box = []
    if r.random() < .7:
        a, b = sorted([deg(90), deg(90)])
        c, d = sorted([deg(180), deg(180)])
        box = [a, c, b, d]
    return {"id": str(r.choice([1, 7, 4294967296, 123456789012, r.randrange(10**9)])), "at": [lat, lon], "name": name, "box": box}


def written(r, p):
    fields = [("osm_id", p["id"] if r.random() < .5 else json.dumps(p["id"])),
              ("lat", json.dumps(number(r, p["at"][0]))), ("lon", json.dumps(number(r, p["at"][1]))),
              ("display_name", json.dumps(p["name"], ensure_ascii=r.random() < .5)),
              ("class", "\"place\""), ("importance", "0.65"), ("licence", "\"Data \\u00a9 OpenStreetMap contributors, http:\\/\\/x.org\""), ("address", "{\"city\":\"Osm id\",\"lat\":\"7\"}"),
              ("none", "[]")]
    if p["box"]:
        b = p["box"]
        four = [number(r, b[i]) for i in (0, 2, 1, 3)]
        fields.append(("boundingbox", json.dumps(four) if r.random() < .7 else json.dumps(",".join(four))))
    r.shuffle(fields)
    sp = r.choice(["", " ", "\n  "])
    return "{" + ",".join(sp + json.dumps(k) + ":" + sp + v for k, v in fields) + sp + "}"


def far(r):
    cult = r.choice(CULTURES) if r.random() < .7 else None
    ops, kinds, open_ = [], [], []

    def op(**o):
        o["culture"] = cult if cult is not None else r.choice(CULTURES)
        ops.append(o)

    def coder():
        kinds.clear()
        open_.clear()
        op(ev="coder", search=r.choice(["", "http://here/find"]), reverse=r.choice(["", "https://there:80/rev"]))
    coder()
    closed = False
    for _ in range(25):
        x = r.random()
        if x < .15 and not closed:
            op(ev="listen")
        elif x < .35 and not closed:
            box = []
            if r.random() < .6:
                a, b = sorted(r.randrange(-850000, 850001) for _ in range(2))
                c, d = sorted(r.randrange(-1800000, 1800001) for _ in range(2))
                box = [a, c, b, d]
            op(ev="search", name=r.choice(NAMES), box=box)
            kinds.append("s")
        elif x < .5 and not closed:
            op(ev="where", at=[r.randrange(-85 * 10**6, 85 * 10**6), r.randrange(-180 * 10**6, 180 * 10**6)], size=r.choice([1, 100, 5000]))
            kinds.append("w")
        elif x < .93 and kinds:
            n = r.randrange(len(kinds))
            y = r.random()
            places, text = [], ""
            if y < .1:
                pass
            elif y < .2:
                text = r.choice(BAD)
                if text == "[{\"place\":1}]" and kinds[n] == "w":
                    text = "{}"
            elif kinds[n] == "s":
                places = [place(r) for _ in range(r.choice([0, 1, 1, 2, 5]))]
                text = "[" + ",".join(written(r, p) for p in places) + "]"
            else:
                places = [place(r)]
                text = written(r, places[0])
            op(ev="reply", n=n + 1, places=places, text=text, end=r.random() < .5)
        elif x < .96 and not closed:
            op(ev="close")
            closed = True
        elif closed:
            coder()
            closed = False
    return ops


ADDR = ["country", "city", "suburb", "state", "province", "district", "postcode", "place", "street", "housenumber", "name", "door"]


class Near(Session):
    """Things have addresses, and are asked for."""

    def __init__(self, r):
        super().__init__(r)
        self.seen = []

    def some(self, names, odd):
        return odd if odd != "missing" and not names else self.r.choice(sorted(names))

    def element(self, file=False):
        r = self.r
        e = super().element(file)
        e["tags"] = [t for t in e["tags"] if t[0][0] in ("any", "house", "land")]
        if r.random() < .9:
            some = set(r.sample(ADDR, r.choice([1, 2, 4, 7])))
            if r.random() < .8:
                some |= {"street", "housenumber"}
            for k in sorted(some):
                e["tags"].append([["addr", ":", k], [r.choice(["Mitte", "5", "10115", "Hof", "Nord"])] + ([" ", r.choice(["Ufer", "a", "5"])] if r.random() < .4 else [])])
        r.shuffle(e["tags"])
        self.seen += e["g"][:2]
        return e

    def range(self):
        return [self.lods[0], self.lods[-1]] if self.r.random() < .75 else sorted(self.r.choice(self.lods) for _ in range(2))

    def mm(self):
        g = self.grid
        n = 2 ** g["lod"]
        lat = math.atan(math.sinh(math.pi * (1 - 2 * (g["y"] + 1.5) / n)))
        return int(2 * math.pi * 6378137 * math.cos(lat) / n / K * 1000)

    def ask(self):
        r = self.r
        if r.random() < .5:
            name = []
            for i in range(r.choice([0, 1, 1, 2, 3])):
                if i:
                    name.append(r.choice([" ", ",", ";"]))
                name.append(r.choice(["Mitte", "5", "10115", "Hof", "Ufer", "a", "addr", "street", "any", "nowhere", "mitte"]))
            return {"ev": "find", "readers": r.choice([1, 2, 3]), "name": name, "box": self.box()}
        mm = self.mm()
        # nothing is on the edge of the box, and the box not on that of a tile
        while True:
            half = r.choice([2, 4, 6, 10, 20])
            if self.seen and r.random() < .7:
                # close to something, or just not
                at = [x + r.choice([-1, 1]) * (r.choice([1, half - 1, half + 1])) for x in r.choice(self.seen)]
            else:
                at = [2 * r.randrange(1, 3 * K // 2) for _ in range(2)]
            if all((x + h) % 8 for x in at for h in (half, -half)):
                break
        return {"ev": "around", "readers": r.choice([1, 2, 3]), "at": at,
                "metres": (2 * half * mm + 500) // 1000, "mm": mm}

    def history(self, n):
        out = []
        for o in super().history(n):
            out.append(o)
            if o["ev"] in ("add", "import", "memory", "disk") and self.r.random() < .8:
                out.append(self.ask())
            if self.r.random() < .03 and any(x["ev"] in ("find", "around") for x in out):
                out.append(None)
        # only while connected, after being asked
        res, on, used = [], False, False
        for o in out:
            if o is None:
                if used:
                    res.append({"ev": "leave", "readers": 0})
                    used = False
                continue
            if o["ev"] in ("connect", "disconnect"):
                on, used = o["ev"] == "connect", False
            if o["ev"] in ("find", "around"):
                if not on:
                    continue
                used = True
            res.append(o)
        return res


def run(c):
    r, q = c.rng, c.quick
    drv = driver()
    c.model("GeocodeMC.tla", "GeocodeMC.cfg")
    c.conform(drv, [far(r) for _ in range(150 if q else 4000)], "GeocodeTrace.tla", "Trace.cfg", "questions to a server")
    c.conform(drv, [client(r, Near(r).history(24)) for _ in range(60 if q else 1500)], "PlacesTrace.tla", "PlacesTrace.cfg", "questions to the stores")
