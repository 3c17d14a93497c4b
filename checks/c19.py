"""C19: all formats give what they say, and the same data gives the same elements."""
from vf import build, osmgen as g

TEXTS = ["Fish & Chips", 'the "x"', "a<b", "b>a", "it's", "Größe", "Ветошный переулок", "日本", "a\nb", "&amp;", "&#38;", "100%", "", "a=b;c", "\U0001F600", "x' or 'y"]


def retext(r, doc):
    """Other texts for some tags and roles."""
    for k in ("nodes", "ways", "rels"):
        for x in doc[k]:
            for t in x["tags"]:
                if t[0] != "type" and r.random() < .4:
                    t[1] = r.choice(TEXTS)
                if t[0] not in ("type",) and r.random() < .1:
                    t[0] = t[0] + r.choice([":de", "&", "ß"])
            for m in x.get("members", []):
                if m["role"] not in ("outer", "inner", "outline") and r.random() < .4:
                    m["role"] = r.choice(TEXTS)
    return doc


def spread(r, doc, dec):
    """Moves the document to somewhere on the earth, with all digits in use."""
    a = r.randrange(-80 * 10 ** dec, 80 * 10 ** dec)
    b = r.randrange(-179 * 10 ** dec, 179 * 10 ** dec)
    for n in doc["nodes"]:
        n["lat"] += a
        n["lon"] += b
    return doc


def texts(doc):
    """What the driver sees: texts as bytes."""
    def f(ts):
        return [[g.latin(k), g.latin(v)] for k, v in ts]
    return {"nodes": [dict(n, tags=f(n["tags"])) for n in doc["nodes"]],
            "ways": [dict(n, tags=f(n["tags"])) for n in doc["ways"]],
            "rels": [dict(n, tags=f(n["tags"]), members=[dict(m, role=g.latin(m["role"])) for m in n["members"]]) for n in doc["rels"]]}


def history(r):
    if r.random() < .8:
        doc, dec = g.simple_doc(r), r.choice([7, 7, 7, 3, 5])
        for n in doc["nodes"]:   # some metres apart
            n["lat"] *= 300
            n["lon"] *= 300
    else:
        doc, dec = g.multi_doc(r), r.choice([3, 4, 5])
    retext(r, doc)
    if r.random() < .2:
        for x in doc["rels"]:
            if r.random() < .4:
                x["members"] = []
    if r.random() < .1:   # extracts without some kinds of elements, or without any
        for k in doc:
            if r.random() < .6:
                doc[k] = []
    h = []
    for _ in range(r.choice([1, 2])):
        d = spread(r, {k: [dict(x) for x in doc[k]] for k in doc}, dec)
        ops = [("xml", g.xml(r, d, dec)), ("pbf", g.pbf(r, d, dec))]
        r.shuffle(ops)
        for f, t in ops:
            h.append({"ev": "osm.parse", "format": f, "unit": 10 ** -dec, "doc": texts(d), "_text": g.latin(t)})
    return h


def files(r):
    h = []
    for _ in range(3):
        if r.random() < .5:
            fs, text = g.geojson(r, 3)
            h.append({"ev": "osm.parse", "format": "json", "features": fs, "_text": g.latin(text), "unit": .001})
        else:
            h.append(g.shape(r))
    return h


def damaged(r):
    """Files cut short or with bytes changed: refused or read, but nothing worse."""
    h = []
    for _ in range(4):
        doc = g.simple_doc(r)
        f = r.choice(["xml", "pbf", "json"])
        t = g.xml(r, doc, 3).encode() if f == "xml" else g.pbf(r, doc, 3) if f == "pbf" else g.geojson(r, 3)[1].encode()
        cut = False
        if r.random() < .5 and len(t) > 10:
            t = t[:r.randrange(1, len(t) - 8)]
            cut = f != "pbf"
        else:
            b = bytearray(t)
            for _ in range(r.choice([1, 2, 5])):
                b[r.randrange(len(b))] = r.choice([0, 255, 127, 128, 60, 34, 47, r.randrange(256)])
            t = bytes(b)
        h.append({"ev": "osm.damaged", "format": f, "unit": .001, "cut": cut, "_text": g.latin(t)})
    return h


def run(c):
    drv = build.cpp_driver("osm", build.harness("osm_driver.cpp"))
    r, q = c.rng, c.quick
    c.conform([drv], [history(r) for _ in range(250 if q else 4000)], "OsmTrace.tla", "Trace.cfg", "the same documents as XML and as PBF")
    c.conform([drv], [files(r) for _ in range(200 if q else 3000)], "OsmTrace.tla", "Trace.cfg", "GeoJSON tiles and shape files")
    c.conform([drv], [damaged(r) for _ in range(200 if q else 5000)], "OsmTrace.tla", "Trace.cfg", "damaged files")
    c.assumptions.append("XML in the order and layout in which OSM services write it: nodes, ways, relations; id, lat, lon and k, v in this order; double quotes")
