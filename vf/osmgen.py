"""Documents of OSM data: made at random, written as XML and PBF; features for JSON and shape files."""
import struct
import zlib

KEYS = ["name", "building", "highway", "landuse", "type", "height", "addr:street", "ref", "z"]
VALS = ["yes", "no", "residential", "1", "12.5", "a b", "multipolygon", "site", "x"]
BIG = [1 << 31, (1 << 32) + 5, 4300000007, (1 << 40) + 3]


def tags(r, n=None, keys=KEYS, vals=VALS):
    n = r.choice([0, 0, 1, 2, 3, 5]) if n is None else n
    return [[k, r.choice(vals)] for k in r.sample(keys, min(n, len(keys)))]


def ids(r, n, pool=None):
    base = list(range(1, n + 4)) if pool is None else list(pool)
    if r.random() < .3:
        base += BIG
    return [str(i) for i in r.sample(base, n)]


class Doc:
    def __init__(self, r):
        self.r = r
        self.nodes, self.ways, self.rels = [], [], []
        self.used = {"n": set(), "w": set(), "r": set()}
        # numbers of nodes, ways and relations are unrelated: the same small numbers are used for all
        self.next = {k: r.choice([1, 1, 5, 1000, (1 << 32) - 3]) for k in "nwr"}

    def id(self, k):
        while True:
            i = self.next[k] + self.r.choice([0, 1, 1, 2])
            self.next[k] = i + 1
            if str(i) not in self.used[k]:
                self.used[k].add(str(i))
                return str(i)

    def node(self, lat, lon, t=()):
        for n in self.nodes:
            if n["lat"] == lat and n["lon"] == lon and not n.get("own"):
                return n["id"]
        i = self.id("n")
        self.nodes.append({"id": i, "lat": lat, "lon": lon, "tags": list(t)})
        return i

    def way(self, pts, t=None):
        i = self.id("w")
        self.ways.append({"id": i, "refs": [self.node(*p) for p in pts], "tags": tags(self.r) if t is None else t})
        return i

    def rel(self, members, t):
        i = self.id("r")
        self.rels.append({"id": i, "members": members, "tags": t})
        return i

    def out(self):
        r = self.r
        for k in (self.nodes, self.ways, self.rels):
            r.shuffle(k)
        return {"nodes": self.nodes, "ways": self.ways, "rels": self.rels}


def m(t, ref, role=""):
    return {"t": t, "ref": ref, "role": role}


def simple_doc(r, big=False):
    """Nodes, ways, areas, and relations of every kind over them, with references to what is missing."""
    d = Doc(r)
    n = r.choice([3, 6, 10])
    pool = [(r.randrange(-9, 10), r.randrange(-9, 10)) for _ in range(n)]
    for p in pool:
        d.node(p[0], p[1], tags(r))
    for _ in range(r.choice([0, 1, 3, 5])):
        k = r.choice([1, 2, 3, 4, 5, 7])
        pts = [r.choice(pool) for _ in range(k)]
        if r.random() < .5:
            pts.append(pts[0])
        d.way(pts)
    if r.random() < .4:  # nodes outside of the extract
        for w in d.ways:
            if r.random() < .5:
                for _ in range(r.choice([1, 1, 2, len(w["refs"])])):
                    w["refs"][r.randrange(len(w["refs"]))] = str(90000 + r.randrange(3))
    rids = [d.id("r") for _ in range(r.choice([0, 1, 2, 3, 4, 6]))]
    refs = {"n": [x["id"] for x in d.nodes], "w": [x["id"] for x in d.ways], "r": rids}
    style = r.random()
    for k, i in enumerate(rids):
        ms = []
        kind = r.choice(["plain", "plain", "building", "multi"])
        for _ in range(r.choice([1, 2, 3, 5])):
            t = r.choice("nwwr" if style < .7 else "rrrw")
            if t == "r" and style < .35:
                pool_r = rids[k + 1:]       # no cycles
            else:
                pool_r = refs[t]
            ref = r.choice(pool_r) if pool_r and r.random() < .93 else str(77777 + r.randrange(2))
            ms.append(m(t, ref, r.choice(["", "outer", "inner", "outline", "part"])))
        if kind == "building":   # a part is listed once
            seen, u = set(), []
            for x in ms:
                if (x["t"], x["ref"]) not in seen:
                    seen.add((x["t"], x["ref"]))
                    u.append(x)
            ms = u
        t = [x for x in tags(r) if x[0] != "type"]
        if kind != "plain":
            t.append(["type", {"building": "building", "multi": "multipolygon"}[kind]])
        elif r.random() < .5:
            t.append(["type", r.choice(["site", "route", "outline"])])
        r.shuffle(t)
        d.rels.append({"id": i, "members": ms, "tags": t})
    return d.out()


# ---- multipolygons -------------------------------------------------------------------------------

def ring(r, cx, cy, s):
    """A ring around (cx, cy) within [-s, s], star shaped."""
    n = r.choice([3, 4, 4, 5, 7])
    import math
    a0 = r.random() * 6.28
    pts = []
    for k in range(n):
        a = a0 + 2 * math.pi * (k + r.random() * .5) / n
        q = s * (.8 + .2 * r.random())
        p = (round(cy + q * math.sin(a)), round(cx + q * math.cos(a)))
        if p not in pts:
            pts.append(p)
    return pts


def area2(p):
    return sum(p[i - 1][1] * p[i][0] - p[i][1] * p[i - 1][0] for i in range(len(p)))


def rings(r):
    """[(points, depth)]: nested or apart, never touching."""
    res = []

    def fill(cx, cy, s, depth):
        # radius of the circle surely within a star ring of 3 points: half of .8 s
        p = ring(r, cx, cy, s)
        if len(p) < 3 or area2(p) == 0:
            return
        res.append((p, depth))
        inner = s * .25
        if depth < 3 and inner > 20 and len(res) < 6 and r.random() < (.75 if depth < 2 else .5):
            k = r.choice([1, 1, 2, 3])
            if k == 1:
                fill(cx, cy, inner * .8, depth + 1)
            else:
                for j in range(k):
                    fill(cx - inner * .7 + j * inner * 1.4 / max(1, k - 1), cy, inner * .5 / k * 1.1, depth + 1)
    for j in range(r.choice([1, 1, 1, 2])):
        fill(j * 5000, r.choice([0, 300, -2500]), r.choice([2000, 2000, 2000, 400]), 0)
    return res


def cut(r, p, k):
    """The ring in k pieces, each one turned round or not. k=1: closed way."""
    n = len(p)
    if k <= 1:
        i = r.randrange(n)
        q = p[i:] + p[:i] + [p[i]]
        return [q if r.random() < .5 else q[::-1]]
    at = sorted(r.sample(range(n), min(k, n)))
    res = []
    for a, b in zip(at, at[1:] + [at[0] + n]):
        q = [p[i % n] for i in range(a, b + 1)]
        res.append(q if r.random() < .5 else q[::-1])
    return res


def multi_doc(r):
    d = Doc(r)
    rels = []
    for _ in range(r.choice([1, 1, 2])):
        rs = rings(r)
        if not rs:
            continue
        ms = []
        closed_only = r.random() < .35
        if closed_only and r.random() < .3:   # one outer ring, inner ones may touch it and each other
            q = 1000
            rs = [([(-q, -q), (-q, q), (q, q), (q, -q)], 0)]
            if r.random() < .7:
                rs.append(([(-q, -q), (-q // 2, 0), (0, -q // 2)], 1))
            if r.random() < .7:
                rs.append(([(q, q), (q // 2, 0), (0, q // 2)], 1))
            if r.random() < .5:
                rs.append(([(0, -q // 2), (-q // 2, 0), (0, 0)], 1))
        for p, depth in rs:
            k = 1 if closed_only else r.choice([1, 1, 2, 2, 3, 4])
            for q in cut(r, p, k):
                ms.append(m("w", d.way(q, tags(r, r.choice([0, 0, 1, 3]), [x for x in KEYS if x != "type"])), "inner" if depth % 2 else "outer"))
        y = r.random()
        if y < .12:
            ms.pop(r.randrange(len(ms)))                    # a piece the relation does not list
        elif y < .2:
            r.choice(ms)["ref"] = r.choice(["88888", rels[0] if rels else "88889"])   # a way outside of the extract
        if r.random() < .25:
            for _ in range(r.choice([1, 2])):
                ms.append(m(r.choice("nr"), r.choice(["1", "2", rels[0] if rels else "3"]), r.choice(["outer", "inner", "label", ""])))
        if r.random() < .2 and d.ways:
            w = d.way([(9000, 9000), (9001, 9005), (9004, 9002)])
            ms.append(m("w", w, r.choice(["", "label", "entrance"])))
        if r.random() < .7:
            r.shuffle(ms)
        t = [["type", "multipolygon"]] + (tags(r, r.choice([1, 2]), [x for x in KEYS if x != "type"]) if r.random() < .5 else [])
        if r.random() < .5:
            r.shuffle(t)
        rels.append(d.rel(ms, t))
    if rels and r.random() < .5:   # a relation over them, which is resolved before or after them
        for _ in range(r.choice([1, 2])):
            d.rel([m("r", x, r.choice(["", "outer", "part"])) for x in rels] + ([m("n", d.nodes[0]["id"])] if r.random() < .5 else []),
                  [["type", r.choice(["site", "building", "collection"])]])
    return d.out()


# ---- XML -----------------------------------------------------------------------------------------

NOISE = [["version", "3"], ["timestamp", "2014-07-06T22:02:22Z"], ["changeset", "23992071"], ["uid", "114161"], ["user", "Polarbear"],
         ["user", ""], ["visible", "true"], ["user", "A &amp; B"], ["user", "Карл"]]


def esc(r, s):
    o = ""
    for ch in s:
        if ch == "&":
            o += r.choice(["&amp;", "&#38;"])
        elif ch == '"':
            o += r.choice(["&quot;", "&#34;", "&#x22;"])
        elif ch == "<":
            o += r.choice(["&lt;", "&#60;"])
        elif ch == ">":
            o += r.choice(["&gt;", ">"])
        elif ch == "'":
            o += r.choice(["&apos;", "'", "&#39;"])
        elif ch == "\n":
            o += r.choice(["&#10;", "&#xA;"])
        elif ord(ch) > 127 and r.random() < .1:
            o += "&#%d;" % ord(ch) if r.random() < .5 else "&#x%x;" % ord(ch)
        else:
            o += ch
    return o


def deg(v, dec, r):
    """v units of 10^-dec degrees as decimal text"""
    s = "-" if v < 0 else ""
    v = abs(v)
    a, b = divmod(v, 10 ** dec)
    f = ("%0*d" % (dec, b))
    if r.random() < .5:
        f = f.rstrip("0")
    return s + str(a) + ("." + f if f else r.choice(["", ".0"]))


def xml(r, doc, dec):
    nl = r.choice(["\n", "\n", "\r\n", ""])
    ind = r.choice(["  ", " ", "\t", ""])
    long_ = {"n": "node", "w": "way", "r": "relation"}

    def noise():
        return r.sample(NOISE, r.choice([0, 0, 2, 4]))

    def attrs(fixed):
        """fixed attributes keep their order; others come before, between or after them"""
        seq = list(fixed)
        names = {a for a, _ in fixed}
        for a in noise():
            if a[0] not in names:
                names.add(a[0])
                seq.insert(r.randrange(1, len(seq) + 1), a)
        return "".join(' %s="%s"' % (a, b) for a, b in seq)

    def tagx(ts):
        return "".join('%s%s<tag k="%s" v="%s"/>%s' % (ind, ind, esc(r, k), esc(r, v), nl) for k, v in ts)
    o = '<?xml version="1.0" encoding="UTF-8"?>' + r.choice(["\n", nl])
    o += "<osm" + r.choice(['', ' version="0.6"', ' version="0.6" generator="Overpass API" copyright="OpenStreetMap and contributors"']) + ">" + nl
    x = r.random()
    if x < .2:
        o += "<note>The data included in this document is from www.openstreetmap.org.</note>" + nl + '<meta osm_base="2017-04-09T17:46:02Z"/>' + nl + nl
    elif x < .7:
        o += ind + '<bounds minlat="52.5272589" minlon="13.3796209" maxlat="52.5362611" maxlon="13.3944191"/>' + nl
    for n in doc["nodes"]:
        o += ind + "<node" + attrs([["id", n["id"]], ["lat", deg(n["lat"], dec, r)], ["lon", deg(n["lon"], dec, r)]])
        o += ("/>" if not n["tags"] else ">" + nl + tagx(n["tags"]) + ind + "</node>") + nl
    for w in doc["ways"]:
        o += ind + "<way" + attrs([["id", w["id"]]]) + ">" + nl
        o += "".join('%s%s<nd ref="%s"/>%s' % (ind, ind, x, nl) for x in w["refs"]) + tagx(w["tags"]) + ind + "</way>" + nl
    for w in doc["rels"]:
        o += ind + "<relation" + attrs([["id", w["id"]]]) + ">" + nl
        o += "".join('%s%s<member type="%s" ref="%s" role="%s"/>%s' % (ind, ind, long_[x["t"]], x["ref"], esc(r, x["role"]), nl) for x in w["members"])
        o += tagx(w["tags"]) + ind + "</relation>" + nl
    return o + "</osm>" + r.choice(["", "\n", nl])


# ---- PBF -----------------------------------------------------------------------------------------

def vint(v):
    if v < 0:
        v += 1 << 64
    o = b""
    while True:
        if v < 128:
            return o + bytes([v])
        o += bytes([v & 127 | 128])
        v >>= 7


def zz(v):
    return vint((v << 1) ^ (v >> 63) if v >= 0 else ((-v) << 1) - 1)


def fv(n, v):
    return vint(n << 3) + vint(v)


def fb(n, b):
    if isinstance(b, str):
        b = b.encode()
    return vint(n << 3 | 2) + vint(len(b)) + b


def packed(n, vals, f):
    return fb(n, b"".join(f(v) for v in vals)) if vals else b""


def blob(r, kind, payload, how):
    if how == "raw":
        b = fb(1, payload)
        if r.random() < .5:
            b += fv(2, len(payload))
    else:
        b = fv(2, len(payload)) + fb(3, zlib.compress(payload, r.choice([1, 6, 9])))
    h = fb(1, kind)
    if r.random() < .3:
        h += fb(2, b"index")
    h += fv(3, len(b))
    return struct.pack(">I", len(h)) + h + b


def pbf(r, doc, dec):
    """units of 10^-dec degrees"""
    per = 10 ** (9 - dec)    # nanodegrees per unit
    how = [r.choice(["raw", "zlib", "zlib"]) for _ in range(1)] * 20 if r.random() < .7 else [r.choice(["raw", "zlib"]) for _ in range(20)]
    out = b""
    if r.random() < .8:
        out += blob(r, "OSMHeader", fb(4, "OsmSchema-V0.6") + fb(4, "DenseNodes"), how[0])
    items = [("n", x) for x in doc["nodes"]] + [("w", x) for x in doc["ways"]] + [("r", x) for x in doc["rels"]]
    cuts = sorted(r.sample(range(len(items) + 1), min(len(items), r.choice([0, 0, 1, 2, 3]))))
    blocks = [items[a:b] for a, b in zip([0] + cuts, cuts + [len(items)])]
    for bi, blk in enumerate(blocks):
        strings = [b""]

        def s(t):
            t = t.encode()
            if t not in strings:
                strings.append(t)
            return strings.index(t)
        if r.random() < .3:
            s("unused")
        gran = r.choice([g for g in (100, 100, 100, 1, 10, 1000, 500, 25) if per % g == 0] or [1])
        lat0 = r.choice([0, 0, 0, per * 37, -per * 1000])
        lon0 = r.choice([0, 0, 0, per * 5, -per * 77])

        def q(v, o):
            return (v * per - o) // gran
        groups = b""
        i = 0
        while i < len(blk):
            k = blk[i][0]
            j = i
            stop = r.choice([1, 2, 5, 100, 100])
            while j < len(blk) and blk[j][0] == k and j - i < stop:
                j += 1
            part = [x for _, x in blk[i:j]]
            i = j
            g = b""
            if k == "n" and r.random() < .7:
                def deltas(vals):
                    p, o = 0, []
                    for v in vals:
                        o.append(v - p)
                        p = v
                    return o
                kv = []
                if any(x["tags"] for x in part) or r.random() < .3:
                    for x in part:
                        for t in x["tags"]:
                            kv += [s(t[0]), s(t[1])]
                        kv.append(0)
                dn = packed(1, deltas([int(x["id"]) for x in part]), zz) + packed(8, deltas([q(x["lat"], lat0) for x in part]), zz) + \
                    packed(9, deltas([q(x["lon"], lon0) for x in part]), zz) + packed(10, kv, vint)
                g += fb(2, dn)
            else:
                for x in part:
                    kvs = packed(2, [s(t[0]) for t in x["tags"]], vint) + packed(3, [s(t[1]) for t in x["tags"]], vint)
                    if k == "n":
                        g += fb(1, vint(1 << 3) + zz(int(x["id"])) + kvs + vint(8 << 3) + zz(q(x["lat"], lat0)) + vint(9 << 3) + zz(q(x["lon"], lon0)))
                    elif k == "w":
                        p, o = 0, []
                        for v in x["refs"]:
                            o.append(int(v) - p)
                            p = int(v)
                        g += fb(3, fv(1, int(x["id"])) + kvs + packed(8, o, zz))
                    else:
                        p, o = 0, []
                        for v in x["members"]:
                            o.append(int(v["ref"]) - p)
                            p = int(v["ref"])
                        g += fb(4, fv(1, int(x["id"])) + kvs + packed(8, [s(v["role"]) for v in x["members"]], vint) + packed(9, o, zz) +
                                packed(10, ["nwr".index(v["t"]) for v in x["members"]], vint))
            groups += fb(2, g)
        body = fb(1, b"".join(fb(1, x) for x in strings)) + groups
        if gran != 100 or r.random() < .3:
            body += fv(17, gran)
        if lat0:
            body += fv(19, lat0)
        if lon0:
            body += fv(20, lon0)
        out += blob(r, "OSMData", body, how[(bi + 1) % len(how)])
    return out


def latin(b):
    """bytes as the string the driver turns into them again"""
    return (b.encode() if isinstance(b, str) else b).decode("latin-1")


# ---- GeoJSON tiles, shape files --------------------------------------------------------------------

def line(r, n, closed):
    p = [[r.randrange(-900, 900), r.randrange(-900, 900)] for _ in range(n)]
    return p + [p[0]] if closed else p


def jstr(r, s):
    import json
    return json.dumps(s, ensure_ascii=r.random() < .5)


def geojson(r, dec):
    """(features, text)"""
    layers = r.sample(["water", "earth", "roads", "buildings", "pois", "boundaries"], r.choice([1, 2, 3]))
    feats, text = [], []
    for ly in layers:
        fs = []
        for _ in range(r.choice([0, 1, 2, 5])):
            t = r.choice(["Point", "LineString", "Polygon", "MultiLineString", "MultiPolygon"])
            if t == "Point":
                geom = [[line(r, 1, False)]]
            elif t == "LineString":
                geom = [[line(r, r.choice([2, 3, 6]), r.random() < .2)]]
            elif t == "Polygon":
                geom = [[line(r, r.choice([3, 4, 6]), True) for _ in range(r.choice([1, 1, 2, 3]))]]
            elif t == "MultiLineString":
                geom = [[line(r, r.choice([2, 3, 6]), r.random() < .2) for _ in range(r.choice([1, 2, 3]))]]
            else:
                geom = [[line(r, r.choice([3, 4, 6]), True) for _ in range(r.choice([1, 1, 2, 3]))] for _ in range(r.choice([1, 2, 3]))]
            raw = []
            for k in r.sample(["kind", "name", "name:de", "area", "sort_rank", "min_zoom", "intermittent", "a b"], r.choice([0, 1, 3, 5])):
                v = r.choice([("s", "lake"), ("s", "Größe"), ("s", 'a "b" \\ c'), ("s", "x&y"), ("n", "13891"), ("n", "11.0"), ("n", "-5"), ("n", "true"), ("n", "false"), ("n", "null"), ("s", "")])
                raw.append((k, v))
            ident = r.choice([None, "0", "1", "182511971", "-182511971", "4300000007", "-4300000007", "18446744073709551615"])
            props = ['%s: %s' % (jstr(r, k), jstr(r, v[1]) if v[0] == "s" else v[1]) for k, v in raw]
            if ident is not None:
                props.insert(r.randrange(len(props) + 1), '"id": ' + (ident if r.random() < .7 else '"%s"' % ident))

            def pt(p):
                return "[%s, %s]" % (deg(p[1], dec, r), deg(p[0], dec, r))

            def ln(l):
                return "[" + ", ".join(pt(p) for p in l) + "]"
            co = {"Point": lambda: pt(geom[0][0][0]), "LineString": lambda: ln(geom[0][0]),
                  "MultiPolygon": lambda: "[" + ", ".join("[" + ", ".join(ln(l) for l in pg) + "]" for pg in geom) + "]"}.get(
                      t, lambda: "[" + ", ".join(ln(l) for l in geom[0]) + "]")()
            parts = ['"geometry": ' + ", ".join(r.sample(['{"type": "%s", "coordinates": %s}' % (t, co), '{"coordinates": %s, "type": "%s"}' % (co, t)], 1)),
                     '"type": "Feature"', '"properties": {%s}' % ", ".join(props)]
            r.shuffle(parts)
            fs.append("{" + ", ".join(parts) + "}")
            feats.append({"layer": ly, "type": t, "id": (ident or "0").lstrip("-"), "geom": geom,
                          "props": [[latin(k), latin(v[1])] for k, v in raw]})
        parts = ['"type": "FeatureCollection"', '"features": [%s]' % ", ".join(fs)]
        r.shuffle(parts)
        text.append('"%s": {%s}' % (ly, ", ".join(parts)))
    return feats, "{" + ", ".join(text) + "}"


def shape(r):
    t = r.choice(["point", "arc", "polygon"])
    fields = [[k, r.choice("ssid")] for k in r.sample(["name", "scalerank", "featurecla", "pop_max", "label"], r.choice([1, 2, 4]))]
    feats = []
    for _ in range(r.choice([1, 2, 5])):
        if t == "point":
            parts = [line(r, 1, False)]
        elif t == "arc":
            parts = [line(r, r.choice([2, 3, 7]), r.random() < .3) for _ in range(r.choice([1, 1, 1, 2]))]
        else:
            parts = [line(r, r.choice([3, 4, 7]), True) for _ in range(r.choice([1, 1, 2, 3]))]
        vals, texts = [], []
        for _, ft in fields:
            if r.random() < .2:
                vals.append(None)
                texts.append("")
            elif ft == "s":
                v = r.choice(["river", "Lake 1", "x", "a,b;c"])
                vals.append(v)
                texts.append(v)
            elif ft == "i":
                v = r.choice([0, 1, 12345, -7])
                vals.append(v)
                texts.append(str(v))
            else:
                v = r.choice([0.125, 12.5, 3, -1.75])
                vals.append(v)
                texts.append("%g" % v)
        feats.append({"parts": parts, "_vals": vals, "texts": texts})
    return {"ev": "osm.parse", "format": "shape", "type": t, "z": r.random() < .3, "fields": fields, "features": feats, "unit": .001}
