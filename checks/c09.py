"""C09: the mesh cache."""
from vf import build, stylegen, tilegen as g

TILES = [[1, 0, 0], [1, 0, 1], [2, 1, 0], [3, 1, 0], [16, 35000, 21000]]
CACHES = ["terrain", "mesh"]


def history(r, n):
    sheets = ["way|z1[any] { key: 1; }", "way|z1[any] { key: 2; }"]
    if r.random() < .3:
        sheets.append(sheets[0])
    lods = r.sample([1, 2, 3, 16], r.choice([2, 3, 4]))
    h = [{"ev": "mc.new", "grid": g.GRID, "sheets": sheets, "caches": CACHES, "lods": lods}]
    tiles = r.sample(TILES, r.choice([1, 2, 3]))
    size = {}
    opened, nid, cancelled = {}, 1, set()

    def key():
        return {"cache": CACHES[0] if r.random() < .7 else CACHES[1], "style": r.randrange(len(sheets)), "tile": r.choice(tiles)}

    def el():
        e = g.element(r, 12)
        if r.random() < .3:
            e["id"] = r.choice([4, 9, 19, 34, 1004, 0])
        return e
    for _ in range(n):
        x = r.random()
        if x < .3 and len(opened) < 4:
            k = key()
            if opened and r.random() < .5:
                k = dict(r.choice(list(opened.values())))
            h.append(dict(k, ev="mc.open", s=nid, cancel=r.choice([-1] * 6 + [1, 2, 4])))
            opened[nid] = k
            nid += 1
        elif x < .58 and opened:
            h.append({"ev": "mc.visit", "s": r.choice(list(opened)), "el": el()})
        elif x < .8 and opened:
            s = r.choice(list(opened))
            h.append({"ev": "mc.complete", "s": s})
            del opened[s]
        elif x < .84 and opened:
            h.append({"ev": "mc.cancel", "s": r.choice(list(opened))})
        elif x < .88 and opened:
            s = r.choice(list(opened))
            h.append({"ev": "mc.drop", "s": s})
            del opened[s]
        elif x < .91:
            h.append({"ev": "mc.enable", "cache": r.choice(CACHES), "on": r.random() < .6})
        elif x < .95:
            left = [dict(k, bytes=r.choice([0, 0, 1, 2, 5, 50, 5000])) for k in opened.values()]
            if r.random() < .3:
                left.append(dict(key(), bytes=r.choice([0, 1])))
            h.append({"ev": "mc.crash", "caches": CACHES, "left": left})
            opened = {}
        else:
            lst, els = [], {}
            for _ in range(r.choice([2, 3, 5])):
                k = key() if not lst or r.random() < .5 else {f: lst[-1][f] for f in ("cache", "style", "tile")}
                i = (k["cache"], sheets[k["style"]], tuple(k["tile"]))
                if i not in els:
                    els[i] = [el() for _ in range(r.choice([0, 1, 3, 8]))]
                lst.append(dict(k, els=els[i]))
            h.append({"ev": "mc.par", "list": lst})
    return h


def run(c):
    c.model("MeshCacheMC.tla", "MeshCacheMC.cfg")
    drv = build.cpp_driver("tile", build.harness("tile_driver.cpp"))
    q = c.quick
    c.conform([drv], [history(c.rng, c.rng.choice([12, 30, 60])) for _ in range(300 if q else 6000)], "MeshCacheTrace.tla", "Trace.cfg",
              "sessions of builders through the cache")
    c.assumptions.append("meshes are compared with their numbers rounded to single precision: that is how the cache keeps them")
