"""C08: building a tile gives every element once to the builders of its style."""
import copy

from vf import build, stylegen, tilegen as g

TILES = [[1, 0, 0], [2, 1, 1], [2, 1, 2], [3, 4, 4], [4, 5, 5], [4, 6, 5]]


def history(r, size):
    rules = g.rules(r, 4)
    stores = ["s%d" % i for i in range(r.choice([1, 2, 2, 3]))]
    own = r.sample(g.OWN, r.choice([0, 1, 2, 3, 3]))
    h = [{"ev": "tile.new", "grid": g.GRID, "stores": stores, "rules": rules, "sheets": [stylegen.text(r, rules)[0]], "builders": own}]
    tiles = r.sample(TILES, 3)
    n = r.choice([2, 4, 40])
    for t in tiles:
        shared = []
        for s in stores:
            els = [g.element(r, n) for _ in range(r.choice([0, 1, 2, 3, size]))]
            # the same element from several stores, whole or in pieces
            for e in shared:
                if r.random() < .5:
                    f = copy.deepcopy(e)
                    if f["t"] == "R" and not f["tags"] and r.random() < .4:
                        f["m"] = f["m"][:1]
                    els.insert(r.randrange(len(els) + 1), f)
            shared += els
            h.append({"ev": "tile.put", "key": s, "tile": t, "els": els})
    for _ in range(6):
        op = {"ev": "tile.build", "tile": r.choice(tiles + TILES[:1]), "cancel": -1, "throw": -1}
        x = r.random()
        if x < .2:
            op["cancel"] = r.choice([0, 1, 2, 3, 5])
        elif x < .35:
            op["throw"] = r.choice([1, 2, 3, 5])
        h.append(op)
        if r.random() < .3:
            # a change between two builds
            h.append({"ev": "tile.put", "key": r.choice(stores), "tile": r.choice(tiles), "els": [g.element(r, n)]})
    h.append({"ev": "tile.par", "builds": [{"tile": r.choice(tiles), "cancel": -1, "throw": -1} for _ in range(r.choice([2, 4, 6]))]})
    return h


def run(c):
    c.model("BuildMC.tla", "BuildMC.cfg")
    drv = build.cpp_driver("tile", build.harness("tile_driver.cpp"))
    q = c.quick
    c.conform([drv], [history(c.rng, c.rng.choice([4, 10, 25])) for _ in range(250 if q else 6000)], "BuildTrace.tla", "Trace.cfg",
              "builds of random tiles from several stores")
    c.assumptions.append("stores answer with fixed elements here; what real stores answer is C01 to C04")
