"""C05: the store of stores."""
from vf import build
from vf.storegen import StoreGen
from vf.sheet import store_sheet


def history(r, n):
    g = StoreGen(r, tiles=r.choice([1, 2]))
    keys = r.sample(["osm", "a", "zz", "user"], r.choice([1, 2, 3]))
    rules = g.rules()
    h = [{"ev": "gs.new", "grid": g.grid, "rules": rules, "sheet": store_sheet(rules),
          "stores": [{"key": k, "kind": r.choice(["mem", "disk"])} for k in keys]}]
    keys = keys * 4 + ["nobody"]
    used = []

    def tile():
        return r.choice(used) if used and r.random() < .6 else g.tile()

    def simple():
        while True:
            e = g.element(2)
            if e["t"] == "W":
                # open ways only, without repeated points
                pts = []
                for p in e["g"]:
                    if p not in pts:
                        pts.append(p)
                if len(pts) < 2:
                    continue
                e["g"] = pts
            if e["t"] in "NW":
                e["id"] = g.next_id
                g.next_id += 1
                return e
    for _ in range(n):
        x = r.random()
        if x < .2:
            h.append({"ev": "gs.add", "key": r.choice(keys), "el": g.element(), "lods": g.lodrange()})
        elif x < .5:
            els = [simple() for _ in range(r.choice([1, 2, 4, 8]))]
            els.sort(key=lambda e: e["t"])
            op = {"ev": "gs.import", "key": r.choice(keys), "els": els, "stop": -1}
            y = r.random()
            if y < .6:
                op["tile"] = tile()
                used.append(op["tile"])
                op["stop"] = r.choice([-1, -1, 0, 1, 2, 5])
            else:
                op["lods"] = g.lodrange()
                if y < .8:
                    op["box"] = g.box()
            h.append(op)
        elif x < .75:
            h.append({"ev": "gs.get", "tile": tile(), "stop": r.choice([-1, -1, 0, 1, 2, 4])})
        elif x < .85:
            h.append({"ev": "gs.has", "tile": tile()})
        else:
            t = g.op_text()
            t["ev"] = "gs.text"
            h.append(t)
    return h


def run(c):
    c.model("GeoStoreMC.tla", "GeoStoreMC.cfg")
    drv = build.cpp_driver("index", build.harness("index_driver.cpp"))
    hs = [history(c.rng, 40) for _ in range(80 if c.quick else 1000)]
    c.conform([drv], hs, "GeoStoreTrace.tla", "Trace.cfg", "random histories of a store of stores")
