"""C16: quad keys, boxes and coordinates agree, in the library and in its C# client."""
import glob
from vf import build

W = 1 << 26


def driver_cs():
    return ["mono", build.cs_driver("lib", sorted(glob.glob(build.VERIF + "/harness/cs/*.cs")))]


def lod(r):
    return r.choice([0, 1, 1, 2, 3, 5, 8, 13, 16, 17, 18, 19])


def tile(r, l):
    n = 1 << l
    return [r.choice([0, n - 1, n // 2, max(0, n // 2 - 1), r.randrange(n), r.randrange(n)]) for _ in range(2)]


def odd(v):
    return v | 1


def point(r, l):
    """a point which is on no border of a tile; often close to one, sometimes beyond the map"""
    def c():
        s = W >> l
        x = r.random()
        if x < .4:
            return odd(r.randrange(W))
        if x < .8:
            return odd(r.randrange((1 << l) + 1) * s + r.choice([-1, 1, -3, 3]))
        return odd(r.choice([-5, -W // 3, W + 3, W + W // 4, -1, W]))
    return [c(), c()]


def covered(r, l, cs):
    s = W >> l
    x, y = [r.randrange(1 << l) * s for _ in range(2)]

    def size():
        return r.choice([0, 0, s // 2, s, s * 2, s * 3, s * 5 // 2, s * r.choice([4, 5, 6, 7]), r.randrange(8 * s)])
    b = [odd(x + r.choice([0, r.randrange(s), s - 2, -2])), odd(y + r.choice([0, r.randrange(s), s - 2, -2]))]
    b += [b[0] + 2 * (size() // 2), b[1] + 2 * (size() // 2)]
    if r.random() < .06:
        b = [-11, -11, W + 11, W + 11] if l <= 3 else b
    if not cs and r.random() < .15:   # exactly on borders of tiles
        b = [x, y, x + s * r.choice([0, 1, 2]), y + s * r.choice([0, 1, 2])]
        b = [min(W, v) for v in b]
    if not cs and r.random() < .04:
        b = [b[2] + 2, b[1], b[0], b[3]]
    return b


def small(r):
    a = sorted([r.randrange(-9, 10), r.randrange(-9, 10)])
    o = sorted([r.randrange(-9, 10), r.randrange(-9, 10)])
    return [a[0], o[0], a[1], o[1]]


def micro(r, top=84):
    return [r.randrange(-top * 10 ** 6, top * 10 ** 6), r.randrange(-179 * 10 ** 6, 179 * 10 ** 6)]


def op(r, cs):
    k = r.choice(["key"] * 4 + ["box"] * 3 + ["str"] * 2 + ["range"] * 5 + ["ops"] * 2 + ["dist", "move"] + (["parse", "around", "rect", "sphere"] if cs else []))
    l = lod(r)
    if k == "key":
        return {"ev": "q.key", "lod": l, "p": point(r, l)}
    if k in ("box", "str"):
        return {"ev": "q." + k, "lod": l, "tile": tile(r, l)}
    if k == "parse":
        return {"ev": "q.parse", "digits": [r.choice([0, 1, 2, 3] * 20 + [4, -1, 17]) for _ in range(r.choice([0, 1, 2, 5, 16, 19]))]}
    if k == "range":
        l = r.choice([1, 2, 3, 5, 13, 16, 19])
        return {"ev": "q.range", "lod": l, "box": covered(r, l, cs)}
    if k == "ops":
        a = small(r)
        b = small(r) if r.random() < .6 else [a[2], a[3], a[2] + r.choice([0, 2]), a[3] + r.choice([0, 2])]
        p = [r.choice([a[0], a[2], r.randrange(-9, 10)]), r.choice([a[1], a[3], r.randrange(-9, 10)])]
        if not cs and r.random() < .1:
            a[0] = a[2] + 1
        return {"ev": "q.box.ops", "a": a, "b": b, "p": p, "extend": r.random() < .5}
    if k == "dist":
        a = micro(r)
        b = micro(r) if r.random() < .5 else [a[0] + r.randrange(-20000, 20000), a[1] + r.randrange(-20000, 20000)]
        return {"ev": "g.dist", "a": a, "b": b}
    if k == "move":
        x, y = r.choice([0, 1000, -1000, r.randrange(-20000, 20000)]), r.choice([0, 1000, r.randrange(-20000, 20000)])
        return {"ev": "g.move", "a": micro(r, 70), "x": x, "y": y, "projection": r.random() < .5}
    if k == "around":
        return {"ev": "g.around", "a": micro(r, 70), "width": r.choice([100, 1000, 5000, 20000]), "height": r.choice([100, 1000, 5000, 20000])}
    if k == "rect":
        l = r.choice([13, 16, 17, 19])
        t = tile(r, l)
        t[1] = min(max(t[1], (1 << l) // 8), (1 << l) * 7 // 8)
        return {"ev": "g.rect", "lod": l, "tile": t, "scaled": r.random() < .3}
    return {"ev": "g.sphere", "a": micro(r, 89), "radius": r.choice([100, 6371]), "height": r.choice([0, 5, 100])}


def run(c):
    c.model("QuadMC.tla", "QuadMC.cfg")
    r, q = c.rng, c.quick
    n = 120 if q else 3000
    cpp = build.cpp_driver("geo", build.harness("geo_driver.cpp"))
    c.conform([cpp], [[op(r, False) for _ in range(40)] for _ in range(n)], "QuadTrace.tla", "QuadTrace.cfg", "quad keys, boxes and distances of the library")
    c.conform(driver_cs(), [[op(r, True) for _ in range(40)] for _ in range(n)], "QuadTrace.tla", "QuadTrace.cfg", "quad keys, boxes, distances and projections of the client")
