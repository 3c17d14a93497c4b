"""C27: tiles of the client, and the collections its threads share."""
from checks.c16 import driver_cs


def history(r):
    h = [{"ev": "tl.reset"}]
    ids = []
    for _ in range(r.choice([10, 25, 40])):
        k = r.choice(["new", "load", "load", "load", "again", "dispose", "equal"])
        if k == "new" or len(ids) < 2:
            if len(ids) > 6:
                continue
            i = "t%d" % len(ids)
            if r.random() < .2 and ids:
                ids.remove(i) if i in ids else None
            ids.append(i)
            h.append({"ev": "tl.new", "id": i, "tile": [r.randrange(2), r.randrange(2)], "lod": r.choice([1, 1, 2]), "sheet": r.choice([0, 0, 0, 1]),
                      "projection": r.choice([0, 0, 0, 1]), "elevation": r.choice([0, 0, 0, 1, 2])})
        elif k == "load":
            h.append({"ev": "tl.load", "id": r.choice(ids), "element": r.randrange(1, 7)})
        elif k == "again":   # the same tile registers the same element again
            x = [e for e in h if e["ev"] == "tl.load"]
            if x:
                e = r.choice(x)
                h.append({"ev": "tl.load", "id": e["id"], "element": e["element"]})
        elif k == "dispose":
            if r.random() < .5:
                h.append({"ev": "tl.dispose", "id": r.choice(ids)})
        else:
            h.append({"ev": "tl.equal", "a": r.choice(ids), "b": r.choice(ids)})
    return h


def race(r):
    h = [{"ev": "tl.reset"}]
    for _ in range(3):
        h.append({"ev": "tl.race", "threads": r.choice([1, 2, 3]), "each": r.choice([1, 1, 2, 10, 40]), "rounds": 400, "at": r.choice([0, 1, 5, 20, 60]),
                  "tile": [0, 0], "lod": 1, "sheet": 0, "projection": 0, "elevation": 0})
    for _ in range(3):
        h.append({"ev": "cc.race", "kind": r.choice(["set", "set", "dict"]), "walk": r.random() < .5, "keep": r.choice([1, 1, 2, 5]), "rounds": 400,
                  "programs": [[r.choice(["add", "add", "remove", "has"]) for _ in range(r.choice([1, 2, 3]))] for _ in range(r.choice([2, 3, 4]))]})
    return h


def run(c):
    c.model("TilesMC.tla", "TilesMC.cfg")
    c.conform(driver_cs(), [history(c.rng) for _ in range(120 if c.quick else 3000)], "TilesTrace.tla", "Trace.cfg", "histories of tiles")
    c.conform(driver_cs(), [race(c.rng) for _ in range(8 if c.quick else 150)], "TilesTrace.tla", "Trace.cfg", "threads which share tiles and collections", max_violations=2)
