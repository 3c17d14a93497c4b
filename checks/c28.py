"""C28: where the map data of tiles comes from."""
import base64
import hashlib
import io
import json
import math
import zipfile

from checks.c16 import driver_cs

CONTINENTS = ["Eurasia", "South_America", "Africa", "North_America", "Australia", "Islands"]


def digest(b):
    return "%d %s" % (len(b), hashlib.sha1(b).digest()[:6].hex())


def payload(b, content=None):
    return {"bytes": base64.b64encode(b).decode(), "content": "" if content is None else digest(content), "good": content is not None}


def archive(r, data, name="X.hgt"):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_DEFLATED]), compresslevel=r.choice([1, 6, 9])) as z:
        z.writestr(name, data)
    return b.getvalue()


def cell_bytes(r):
    k = r.choice(["flat", "random", "smooth", "short", "empty", "text"])
    n = r.choice([10, 300, 5000, 70000])
    if k == "flat":
        return bytes(n)
    if k == "random":
        return bytes(r.randrange(256) for _ in range(min(n, 5000)))
    if k == "smooth":
        return bytes((i * i // 97 + r.randrange(3)) % 256 for i in range(n))
    if k == "text":
        return b"".join(b"%d " % r.randrange(100) for _ in range(n // 3))
    return b"x" if k == "short" else b""


def good(r):
    hs = [r.choice([r.randrange(-400, 9000), r.randrange(0, 50), round(r.uniform(-5, 5), 1)]) for _ in range(r.choice([1, 4, 9, 676]))]
    j = json.dumps({"encoded_polyline": "abc", "height": hs} if r.random() < .5 else {"height": hs, "x": [1, 2]}, separators=r.choice([(",", ":"), (", ", ": ")]))
    c = cell_bytes(r)
    d = r.choice([b"<osm/>", b"{}", b"", bytes(r.randrange(256) for _ in range(200)), b"\xef\xbb\xbfx"]) + b"%d" % r.randrange(10 ** 6)
    return {"ele": payload(j.encode(), " ".join(str(h) for h in hs).encode()), "srtm": payload(archive(r, c), c), "data": payload(d, d)}


def bad(r):
    z = archive(r, b"heights" * 40)
    two = io.BytesIO()
    with zipfile.ZipFile(two, "w") as f:
        f.writestr("a", b"1")
        f.writestr("b", b"2")
    i = z.index(b"PK\1\2")
    crc = z[:14] + bytes([z[14] ^ 1]) + z[15:]
    crc = crc[:i + 16] + bytes([z[i + 16] ^ 1]) + crc[i + 17:]
    d = b"whatever %d" % r.randrange(10 ** 6)
    return {"ele": payload(r.choice([b"", b"<html>busy</html>", b"{}", b'{"height":[]}', b'{"error":"no"}'])),
            "srtm": payload(r.choice([b"", b"<html>404</html>", z[:30], crc, two.getvalue()])), "data": payload(d, d)}


def cell_of(x, y, lod):
    n = 2 ** lod
    lat = lambda v: math.degrees(math.atan(math.sinh(math.pi * (1 - 2 * v / n))))
    return math.floor((lat(y) + lat(y + 1)) / 2), math.floor((x + .5) / n * 360 - 180)


def name_of(c):
    return "%s%02d%s%03d" % ("N" if c[0] >= 0 else "S", abs(c[0]), "E" if c[1] >= 0 else "W", abs(c[1]))


def tile(r):
    lod = r.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 16, 16, 16])
    n = 2 ** lod
    k = r.random()
    if k < .5:   # near the middle of the map, on either side
        x, y = n // 2 + r.randrange(-2, 2), n // 2 + r.randrange(-2, 2)
    elif k < .6:
        x, y = r.choice([0, n - 1]), r.choice([0, n - 1])
    else:
        x, y = r.randrange(n), r.randrange(n)
    return [min(max(x, 0), n - 1), min(max(y, 0), n - 1)], lod


def key_of(t, lod):
    return "".join(str((t[0] >> i & 1) + 2 * (t[1] >> i & 1)) for i in range(lod - 1, -1, -1))


def history(r, threads=False):
    tiles = [tile(r) for _ in range(r.choice([1, 2, 4, 6]))]
    if r.random() < .5:   # neighbours, whose files are the same
        t, lod = r.choice(tiles)
        tiles += [([t[0] ^ 1, t[1]], lod), ([t[0], t[1] ^ 1], lod)]
    cells, lines = {}, []
    for t, lod in tiles:
        n = name_of(cell_of(t[0], t[1], lod))
        if n not in cells:
            c = r.randrange(6)
            odd = r.random() < .3
            cells[n] = {"continent": CONTINENTS[c], "file": n + ("hgt.zip" if odd else ".hgt.zip")}
            lines.append("%s%s %d" % (n, "hgt.zip" if odd else "", c))
    for _ in range(5):
        n = name_of((r.randrange(-60, 60), r.randrange(-180, 180)))
        if n not in cells:
            cells[n] = {"continent": CONTINENTS[0], "file": n + ".hgt.zip"}
            lines.append(n + " 0")
    r.shuffle(lines)
    fine = all(lod >= 9 for _, lod in tiles)
    m1, m2 = r.choice([("http://map.example/v1/", ".json?api_key="), ("http://m.example/", "/t?k=")])
    e = {"ev": "dt.reset", "cells": cells, "schema": r.choice(["\n", "\r\n"]).join(lines), "files": [], "library": [], "grid": r.choice([1, 2, 4, 5] + ([25] if fine else [])),
         "limit": r.random() < .5, "osm": r.choice(["http://osm.example/api?data=", "http://o.example/?"]),
         "query": r.choice(["(node({0},{1},{2},{3}); <; >;);out body;", "{0}_{1}/{2}_{3}", "s={0}&w={1}&n={2}&e={3}"]),
         "osmformat": r.choice(["xml", "osm"]), "map": m1 + "{0}/{1}/{2}/{3}" + m2 + "{4}", "map1": m1, "map2": m2, "layers": r.choice(["all", "water,roads"]),
         "mapkey": "mk", "mapformat": r.choice(["json", "mvt"]), "ele": "http://ele.example/height?json={0}&api_key={1}", "elekey": "ek", "eleformat": r.choice(["ele", "txt"]),
         "srtm": "http://srtm.example/SRTM3"}
    for t, lod in tiles:
        if r.random() < .15:
            e["library"].append(key_of(t, lod))
        if r.random() < .15:
            e["files"].append("import/%s.%s" % (key_of(t, lod), e["osmformat"] if lod == 16 else e["mapformat"]))
        if r.random() < .1:
            e["files"].append("ele/data/%d/%s.%s" % (lod, key_of(t, lod), e["eleformat"]))
        if r.random() < .1:
            e["files"].append("ele/data/%s.hgt" % name_of(cell_of(t[0], t[1], lod)))
    h = [e]
    asked = 0
    sorts = r.choice([[0], [0, 1, 2], [1, 2], [1], [2]])
    big = lambda: r.randrange(1000)
    for _ in range(r.choice([10, 30, 60])):
        k = r.choice(["tile", "tile", "reply", "reply", "reply", "clock", "imported", "loaded", "fail", "add"])
        if k == "tile":
            for _ in range(r.choice([1, 1, 2, 4])):
                t, lod = r.choice(tiles)
                asked += 1
                h.append({"ev": "dt.tile", "id": "t%d" % asked, "tile": t, "lod": lod, "elevation": r.choice(sorts)})
        elif k == "reply":
            if r.random() < .15:
                h.append({"ev": "dt.reply", "mode": "fifo", "replies": [dict(bad(r), pick=big())]})
            else:
                h.append({"ev": "dt.reply", "mode": "threads" if threads else r.choice(["fifo", "lifo"]),
                          "replies": [dict(good(r), pick=big()) for _ in range(r.choice([1, 2, 4]) + (2 if threads else 0))]})
        elif k == "clock":
            for _ in range(r.choice([1, 1, 3])):
                h.append({"ev": "dt.clock", "ms": r.choice([200, 500, 999, 1000])})
        elif k == "fail":
            if r.random() < .3:
                h.append({"ev": "dt.fail", "pick": big()})
        elif k == "add":
            if r.random() < .3:
                t, lod = r.choice(tiles)
                h.append({"ev": "dt.add", "store": r.choice(["first", "second"]), "path": "mine", "tile": t, "lod": lod, "range": r.random() < .3})
        else:
            h.append({"ev": "dt." + k, "pick": big()})
    return h


def run(c):
    c.model("AcquireMC.tla", "AcquireMC.cfg" if c.quick else "AcquireDeepMC.cfg")
    c.conform(driver_cs(), [history(c.rng) for _ in range(150 if c.quick else 3000)], "AcquireTrace.tla", "Trace.cfg", "tiles asked for, servers which answer")
    c.conform(driver_cs(), [history(c.rng, True) for _ in range(40 if c.quick else 800)], "AcquireTrace.tla", "Trace.cfg", "answers which arrive at once")
