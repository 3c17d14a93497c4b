"""C11: values and expressions in style sheets."""
from vf import build

VALUES = ["0", "1", "2", "3", "10", "16", "-3", "-1", "2.5", "0.5", "-0.5", "1e1", "+4", ".25", "1000", "yes", "2 3", "12px"]
NUMS = [(0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (8, 1), (5, 2), (1, 2), (1, 4), (3, 4), (7, 1), (10, 1), (-2, 1), (-1, 2), (100, 1)]
LARGE = [(16777217, 1), (-16777219, 1), (2469135, 2), (1000000007, 1), (123456789, 1), (-39999999, 4)]
KEYS = ["a", "height", "building:levels", "x_1"]


def num_text(n, d):
    return ("%d" % n) if d == 1 else ("%.2f" % (n / d)).rstrip("0")


def operand_text(o):
    if o["k"] == "num":
        return num_text(o["n"], o["d"])
    return ("tag('%s')" if o["k"] == "tag" else "'%s'") % o["s"]


def expr_text(rng, e):
    sp = lambda: rng.choice(["", " ", " ", "  "])
    t = sp() + operand_text(e["first"])
    for r in e["rest"]:
        t += sp() + r["op"] + sp() + operand_text(r["o"])
    return 'eval("%s")' % (t + sp())


def operand(rng, divisor=False):
    x = rng.random()
    if divisor:
        n, d = rng.choice([(1, 1), (2, 1), (4, 1), (8, 1), (1, 2), (-2, 1), (1, 4), (3, 1)])
        return {"k": "num", "n": n, "d": d, "s": ""}
    if x < .5:
        n, d = rng.choice(NUMS if rng.random() < .9 else LARGE)
        return {"k": "num", "n": n, "d": d, "s": ""}
    if x < .8:
        return {"k": "tag", "n": 0, "d": 1, "s": rng.choice(KEYS)}
    return {"k": "str", "n": 0, "d": 1, "s": rng.choice(VALUES + ["m", "floor "])}


def expression(rng):
    e = {"k": "eval", "first": operand(rng), "rest": []}
    text = rng.random() < .35
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        op = "+" if text else rng.choice("+-*/")
        e["rest"].append({"op": op, "o": operand(rng, op == "/" and rng.random() < .8)})
    return e


def declaration(rng):
    x = rng.random()
    if x < .5:
        e = expression(rng)
        t = expr_text(rng, e)
        return e, t
    if x < .65:
        n, d = rng.choice(NUMS + [(49381, 4), (100001, 1), (-8193, 4), (1234567, 1)])
        return {"k": "m", "n": n, "d": d, "text": num_text(n, d) + "m"}, num_text(n, d) + "m"
    if x < .78:
        n, d = rng.choice([(50, 1), (25, 1), (100, 1), (200, 1), (150, 1), (0, 1), (-50, 1), (25, 2), (1000, 1), (1600, 1)])
        return {"k": "pc", "n": n, "d": d, "text": num_text(n, d) + "%"}, num_text(n, d) + "%"
    if x < .95:
        t = rng.choice([v for v in VALUES if not v.endswith("m")] + ["red", "eval(tag)", "eval(\"1 +\")", "eval(\"tag(a)\")", "eval(\"1 ^ 2\")",
                                                                     "eval(\"(1 + 2) * 3\")", "eval(\"1\") + 2"])
        return {"k": "text", "text": t}, t
    return None, None


def element(rng):
    ks = rng.sample(KEYS, rng.randint(0, len(KEYS)))
    return {"t": "node", "id": 1, "tags": [["here", "1"]] + [[k, rng.choice(VALUES)] for k in ks]}


def load(decls):
    """decls: [key, structure, text]"""
    sheet = "node|z1[here] {\n" + "".join("%s: %s;\n" % (k, t) for k, _, t in decls) + "}\n"
    return {"ev": "ss.load", "slot": 1, "decls": [[k, s] for k, s, _ in decls], "sheet": sheet}


def history(rng):
    h = [{"ev": "ss.new"}]
    decls = []
    for i in range(8):
        s, t = declaration(rng)
        if s:
            decls.append(["p%d" % i, s, t])
    if not decls:
        decls = [["p0", {"k": "text", "text": "1"}, "1"]]
    h.append(load(decls))
    kinds = dict((k, s["k"]) for k, s, _ in decls)
    for i in range(9):
        k = "p%d" % i
        for _ in range(2):
            el = element(rng)
            base = {"ev": "ss.value", "slot": 1, "lod": 1, "k": k, "el": el}
            h.append(dict(base, **{"as": "text"}))
            h.append(dict(base, **{"as": "num"}))
            h.append(dict(base, **{"as": "rel", "size": rng.choice([[1, 1], [2, 1], [8, 1], [1, 4], [64, 1]])}))
            lat, hh = rng.choice([0, 10, 45, -30, 60, 80.5]), rng.choice([[1, 1], [1, 4], [1, 8]])
            if kinds.get(k) == "m":
                h.append(dict(base, **{"as": "metres", "lat": lat, "h": hh[0] / hh[1]}))
            else:
                h.append(dict(base, **{"as": "box", "lat": lat, "h": hh[0] / hh[1], "size": hh}))
    return h


def enumerated(c):
    """Every small expression, in one history per few."""
    es = c.enumerate("ExprMC.tla", "ExprMC.cfg")
    hs = []
    el = {"t": "node", "id": 1, "tags": [["here", "1"], ["a", "2.5"]]}
    for i in range(0, len(es), 40):
        decls = []
        for j, e in enumerate(es[i:i + 40]):
            e = dict(e, k="eval")
            decls.append(["p%d" % j, e, expr_text(c.rng, e)])
        h = [{"ev": "ss.new"}, load(decls)]
        for k, _, _ in decls:
            for a in ("num", "text"):
                h.append({"ev": "ss.value", "slot": 1, "lod": 1, "k": k, "el": el, "as": a})
        hs.append(h)
    return hs


def run(c):
    drv = build.cpp_driver("style", build.harness("style_driver.cpp"))
    c.conform([drv], enumerated(c), "ExprTrace.tla", "Trace.cfg", "all small expressions")
    c.conform([drv], [history(c.rng) for _ in range(200 if c.quick else 3000)], "ExprTrace.tla", "Trace.cfg", "random declarations")
