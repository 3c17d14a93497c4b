"""Random tiles and their elements for building (operations of harness/cpp/tile_driver.cpp)."""
from . import stylegen

GRID = {"lod": 4, "x": 5, "y": 5, "k": 32}
KEYS = ["a", "b", "c"]
VALUES = ["1", "5", "yes"]
OWN = ["terrain", "building", "tree"]
FOREIGN = ["lamp", "barrier", "info"]


def rules(r, lods, noid=True):
    out = []
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        sels = []
        for _ in range(r.choice([1, 1, 2])):
            z1 = r.randint(1, lods)
            sels.append({"names": r.sample(stylegen.KINDS, r.choice([1, 1, 2, 4])), "z1": z1, "z2": r.randint(z1, lods),
                         "conds": [stylegen.cond(r, KEYS, VALUES) for _ in range(r.choice([1, 1, 2]))]})
        decls = []
        for _ in range(r.choice([1, 1, 2, 3])):
            decls.append(["builder", r.choice(OWN + FOREIGN)] if r.random() < .8 else ["color", "red"])
        out.append({"sels": sels, "decls": decls})
    return out


def ids(r, n):
    x = r.random()
    if x < .08:
        return 0
    if x < .2:
        return r.randint(1, 3) + 1000 * r.randint(1, 3)
    return r.randint(1, n)


def element(r, n, depth=0):
    t = r.choice("NWA" + ("RR" if depth < 2 else ""))
    e = {"t": t, "id": ids(r, n), "tags": [[k, r.choice(VALUES)] for k in r.sample(KEYS, r.choice([1, 1, 2, 3]))]}
    if t == "R":
        e["m"] = [element(r, n, depth + 1) for _ in range(r.choice([0, 1, 2, 3]))]
        if r.random() < .6:
            e["tags"] = []
            x = r.random()
            if x < .6:       # the pieces of one element
                k = r.choice("WA")
                tags = [[k2, r.choice(VALUES)] for k2 in r.sample(KEYS, 1)]
                e["m"] = [{"t": k, "id": 0, "tags": tags, "g": points(r, 3)} for _ in range(r.choice([2, 2, 3, 5]))]
    else:
        e["g"] = points(r, {"N": 1, "W": 2, "A": 3}[t])
        if r.random() < .1:
            e["tags"] = []
    return e


def points(r, n):
    return [[r.randint(0, 60), r.randint(0, 60)] for _ in range(n)]
