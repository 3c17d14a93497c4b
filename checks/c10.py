"""C10: which declarations apply to an element."""
import copy

from vf import build, stylegen as g


def mutate(rng, rules):
    """A sheet which differs from another one in one small thing."""
    r = copy.deepcopy(rules)
    x = rng.randint(0, 8)
    ru = rng.choice(r)
    s = rng.choice(ru["sels"])
    if x == 0 and s["names"][0] in g.KINDS:
        s["names"] = [rng.choice(g.KINDS)]
    elif x == 1:
        s["z2"] = s["z2"] + 1
    elif x == 2 and s["z1"] > 1:
        s["z1"] -= 1
    elif x == 3 and s["conds"] and s["names"][0] != "element":
        c = rng.choice(s["conds"])
        c["op"] = rng.choice(list(g.OPS))
        c["v"] = "" if c["op"] == "has" else (c["v"] or "5")
    elif x == 4:
        d = rng.choice(ru["decls"])
        d[1] = rng.choice(g.DECLVALUES)
    elif x == 5:
        d = rng.choice(ru["decls"])
        d[0] = rng.choice(g.PROPS)
    elif x == 6 and len(r) > 1:
        i = rng.randrange(len(r) - 1)
        r[i], r[i + 1] = r[i + 1], r[i]
    elif x == 7 and len(r) > 1:
        r.remove(ru)
    elif s["names"][0] == "element":
        s["conds"][0]["v"] = str(rng.choice(g.IDS))
    else:
        s["conds"] = s["conds"][:-1] if len(s["conds"]) > 1 else s["conds"]
    return r


def wide(e):
    """Ids are told as text, so that they may have 64 bits."""
    return dict(e, id=0, ids=str(e["id"]))


def history(c):
    rng = c.rng
    lods = rng.choice([4, 4, 4, 20])
    h = [{"ev": "ss.new"}]
    rules = g.sheet(rng, rng.randint(1, 7), lods, True)
    t, files = g.text(rng, rules, imports=rng.random() < .4)
    h.append({"ev": "ss.load", "slot": 1, "rules": rules, "sheet": t, "files": files})
    els = []
    for _ in range(14):
        el, lod = g.matching(rng, rules) if rng.random() < .7 else (g.element(rng), rng.randint(1, lods))
        el = wide(el)
        els.append(el)
        h.append({"ev": "ss.el", "slot": 1, "el": el, "lod": lod})
    for lod in range(1, lods + 2):
        h.append({"ev": "ss.canvas", "slot": 1, "lod": lod})
    # the same rules written otherwise, and a sheet which differs a little
    t, files = g.text(rng, rules)
    h.append({"ev": "ss.load", "slot": 2, "rules": rules, "sheet": t, "files": files})
    h.append({"ev": "ss.el", "slot": 2, "el": els[0], "lod": 1})
    other = mutate(rng, rules)
    t, files = g.text(rng, other)
    h.append({"ev": "ss.load", "slot": 3, "rules": other, "sheet": t, "files": files})
    probes = els + [wide(g.matching(rng, other)[0]) for _ in range(6)]
    h.append({"ev": "ss.tags", "slot": 1, "other": 3, "els": probes, "lods": lods + 1})
    return h


def pairs(c):
    """Sheets of one rule which are alike but for one thing."""
    hs = []
    base = {"names": ["node"], "z1": 1, "z2": 1, "conds": [{"k": "a", "op": "has", "v": ""}]}

    def sheet(sel=None, decls=(("x", "1"),)):
        s = dict(base)
        s.update(sel or {})
        return [{"sels": [s], "decls": [list(d) for d in decls]}]
    alts = [sheet(), sheet({"names": ["way"]}), sheet({"names": ["area"]}), sheet({"names": ["relation"]}), sheet({"z2": 2}),
            sheet({"z1": 2, "z2": 2}), sheet({"names": ["canvas"], "conds": []}), sheet(decls=[("x", "11")]), sheet(decls=[("x", "1"), ("y", "1")]),
            sheet({"conds": [{"k": "a", "op": "eq", "v": "1"}]}), sheet({"conds": [{"k": "a", "op": "ne", "v": "1"}]}),
            sheet({"conds": [{"k": "a", "op": "lt", "v": "1"}]}), sheet({"conds": [{"k": "a", "op": "gt", "v": "1"}]}),
            sheet({"names": ["element"], "conds": [{"k": "id", "op": "eq", "v": "1"}]}),
            sheet({"names": ["element"], "conds": [{"k": "id", "op": "eq", "v": "11"}]}),
            sheet() + sheet(decls=[("y", "1")]), sheet({"names": ["node", "way"]}), sheet(decls=[("builder", "terrain")]),
            sheet({"conds": [{"k": "b", "op": "has", "v": ""}]}), sheet({"conds": [{"k": "a", "op": "has", "v": ""}, {"k": "b", "op": "has", "v": ""}]})]
    els = [{"t": t, "id": i, "tags": tags} for t in g.KINDS for i in (1, 11)
           for tags in ([], [["a", "1"]], [["a", "5"]], [["a", "0"]], [["b", "1"]], [["a", "1"], ["b", "1"]])]
    for i in range(len(alts)):
        for j in range(i):
            h = [{"ev": "ss.new"}]
            for slot, rules in ((1, alts[i]), (2, alts[j])):
                t, f = g.text(c.rng, rules)
                h.append({"ev": "ss.load", "slot": slot, "rules": rules, "sheet": t, "files": f})
            h.append({"ev": "ss.tags", "slot": 1, "other": 2, "els": els, "lods": 2})
            hs.append(h)
    return hs


def concurrent(c, n):
    hs = []
    for _ in range(n):
        rules = g.sheet(c.rng, 6, 12)
        t, files = g.text(c.rng, rules)
        grads = ["gradient(#%02x0000, #00%02x00 50%%, #0000ff)" % (c.rng.randint(0, 255), i) for i in range(40)]
        hs.append([{"ev": "ss.new"}, {"ev": "ss.load", "slot": 1, "rules": rules, "sheet": t, "files": files},
                   {"ev": "ss.par", "slot": 1, "els": [wide(g.matching(c.rng, rules)[0]) for _ in range(4)], "lods": 19,
                    "rounds": 3, "threads": 8, "gradients": grads}])
    return hs


def run(c):
    c.model("StyleMC.tla", "StyleMC.cfg")
    drv = build.cpp_driver("style", build.harness("style_driver.cpp"))
    c.conform([drv], [history(c) for _ in range(300 if c.quick else 4000)], "StyleTrace.tla", "Trace.cfg", "random sheets and elements")
    c.conform([drv], pairs(c), "StyleTrace.tla", "Trace.cfg", "tags of similar sheets")
    c.conform([drv], concurrent(c, 40 if c.quick else 400), "StyleTrace.tla", "Trace.cfg", "concurrent readers")
