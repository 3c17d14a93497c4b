"""C26: animations of the client."""
from checks.c16 import driver_cs

CURVES = ["linear", "faster", "faster2", "slower", "slower2"]


def history(r):
    h = [{"ev": "an.reset"}]
    roots, all_ids, groups = [], [], []

    def new(i, kind, **kw):
        h.append(dict({"ev": "an.new", "id": i, "kind": kind, "next": "", "chain": 0}, **kw))
        all_ids.append(i)

    def single(i, **kw):
        new(i, "single", length=r.choice([0, 1, 2, 4, 8, 16, 32, 64, 64]), loop=r.random() < .15, curve=r.choice(CURVES), **kw)

    def group(i, depth, **kw):
        parts = []
        for k in range(r.choice([0, 1, 2, 2, 3])):
            p = i + "x%d" % k
            if depth and r.random() < .3:
                group(p, depth - 1)
            else:
                single(p)
            parts.append(p)
        new(i, "group", parts=parts, **kw)
        groups.append(i)
    # whoever is next has to be there when one ends; names are given before
    names = ["r%d" % k for k in range(r.choice([1, 2, 3]))]
    for n in names:
        kw = {}
        if r.random() < .5:
            kw = {"next": r.choice(names), "chain": r.choice([1, 2, 3])}
        if r.random() < .6:
            group(n, 2, **kw)
        else:
            single(n, **kw)
        roots.append(n)
    for _ in range(r.choice([10, 25, 50])):
        k = r.choice(["start"] * 3 + ["stop"] + ["update"] * 6 + ["plan"] + ["engine"] * 6)
        if k == "engine":
            h.append({"ev": "an.engine", "do": r.choice(["start", "frame", "frame", "frame", "cancel"] if r.random() < .5 else ["start", "frame", "frame"]),
                      "dt": r.choice([1, 2, 5, 8, 16, 31, 64, 100])})
        elif k == "update":
            h.append({"ev": "an.update", "id": r.choice(roots * 3 + all_ids), "dt": r.choice([0, 1, 1, 2, 4, 8, 16, 32, 64, 65, 130])})
        else:
            h.append({"ev": "an." + k, "id": r.choice(roots * 3 + all_ids if k != "plan" else roots)})
    return h


def shapes(r):
    h = [{"ev": "an.reset"}] + [{"ev": "an.curve", "curve": c} for c in CURVES + ["both"]]
    for _ in range(30):
        kind = r.choice(["linear", "spline", "spline"])
        n = r.choice([2, 2, 2, 1, 3, 0]) if kind == "linear" else r.choice([3, 4, 4, 7, 7, 10, 13, 2, 1])
        h.append({"ev": "an.path", "kind": kind, "points": [[r.randrange(-100, 101) for _ in range(3)] for _ in range(n)], "k": r.randrange(9)})
    return h


def run(c):
    c.model("AnimMC.tla", "AnimMC.cfg")
    n = 150 if c.quick else 4000
    c.conform(driver_cs(), [history(c.rng) for _ in range(n)], "AnimTrace.tla", "Trace.cfg", "histories of animations")
    c.conform(driver_cs(), [shapes(c.rng) for _ in range(20 if c.quick else 400)], "AnimTrace.tla", "Trace.cfg", "curves and paths")
