"""Random style sheets, as rules of spec/Style.tla and as text."""

OPS = {"has": "", "eq": "=", "ne": "!=", "lt": "<", "gt": ">"}
VALUES = ["0", "1", "2", "5", "10", "12", "100", "-3", "-1", "2.5", "0.5", "-0.5", "1e1", "+4", "1.0", "01", "1e0", "10.0", "05", "16777216", "16777217",
          "1000000000", "1000000001", "yes", "no", "tower", "12m"]
KEYS = ["a", "b", "building", "height", "kind:x", "n_1"]
MORE = ["k%d" % i for i in range(17)]      # elements with many tags
IDS = [1, 2, 3, 4294967297, 4294967298, 2147483649, 18446744073709551615]
PROPS = ["color", "height", "min-height", "builder", "width", "skip", "roof-type"]
DECLVALUES = ["red", "10", "2.5m", "50%", "#ff0000", "gradient(#0fffff, #00ff00 50%, #0000ff)", "terrain", "building", "tree",
              "flat", "true", "eval(\"tag('height') * 2\")", "a,b,c", "5"]
KINDS = ["node", "way", "area", "relation"]


def cond(rng, keys=KEYS, values=VALUES):
    op = rng.choice(list(OPS))
    return {"k": rng.choice(keys), "op": op, "v": "" if op == "has" else rng.choice(values)}


def selector(rng, lods, wide=False):
    z1 = rng.randint(1, lods)
    z2 = z1 if rng.random() < .4 else rng.randint(z1, lods)
    x = rng.random()
    if x < .12:
        return {"names": ["element"], "z1": z1, "z2": z2, "conds": [{"k": "id", "op": "eq", "v": str(rng.choice(IDS) if wide else rng.randint(1, 3))}]}
    if x < .22:
        return {"names": ["canvas"], "z1": z1, "z2": z2, "conds": []}
    names = [rng.choice(KINDS)]
    while rng.random() < .3:
        k = rng.choice(KINDS)
        if k not in names:
            names.append(k)
    conds = [cond(rng)]
    while rng.random() < .4:
        conds.append(cond(rng))
    return {"names": names, "z1": z1, "z2": z2, "conds": conds}


def rule(rng, lods, wide=False):
    sels = [selector(rng, lods, wide)]
    while rng.random() < .3:
        # selectors of one rule which meet the same elements are the same as one
        sels.append(selector(rng, lods, wide))
    decls = []
    for _ in range(rng.randint(1, 3)):
        decls.append([rng.choice(PROPS), rng.choice(DECLVALUES)])
    return {"sels": sels, "decls": decls}


def sheet(rng, n, lods=4, wide=False):
    return [rule(rng, lods, wide) for _ in range(n)]


def element(rng, keys=KEYS, values=VALUES):
    ks = rng.sample(keys, rng.randint(0, 4)) if keys is not KEYS or rng.random() < .75 else rng.sample(keys + MORE, rng.randint(8, 20))
    return {"t": rng.choice(KINDS), "id": rng.randint(1, 5), "tags": [[k, rng.choice(values)] for k in ks]}


def matching(rng, rules):
    """An element made to satisfy some condition of the sheet, or to miss it narrowly."""
    r = rng.choice(rules)
    s = rng.choice(r["sels"])
    e = element(rng)
    if s["names"][0] == "element":
        e["id"] = int(s["conds"][0]["v"])
        if rng.random() < .3:
            e["id"] = rng.choice(IDS)
    elif s["names"][0] != "canvas":
        e["t"] = rng.choice(s["names"])
        tags = dict((k, v) for k, v in e["tags"])
        for c in s["conds"]:
            tags[c["k"]] = c["v"] if c["op"] == "eq" else rng.choice(VALUES)
        if rng.random() < .3 and tags:
            del tags[rng.choice(sorted(tags))]
        e["tags"] = [[k, v] for k, v in tags.items()]
        rng.shuffle(e["tags"])
    return e, rng.choice([s["z1"], s["z2"], max(1, s["z1"] - 1), s["z2"] + 1])


def _gap(rng):
    x = rng.random()
    if rng is None or x < .4:
        return " "
    if x < .55:
        return "\n"
    if x < .7:
        return "\n  "
    if x < .85:
        return " /* width: 3; way|z1[a] { no } */ "
    return rng.choice(["\n<!-- a comment -->\n", "<!-- a -> b; -- > -->", " /* a * / b -- / */ "])


def sel_text(rng, s):
    z = "|z%d" % s["z1"] if s["z1"] == s["z2"] and rng.random() < .7 else "|z%d-%d" % (s["z1"], s["z2"])
    names = ",".join(s["names"])
    return names + z + "".join("[%s%s%s]" % (c["k"], OPS[c["op"]], c["v"]) for c in s["conds"])


def rule_text(rng, r):
    t = (rng.choice([",", ", ", " ,\n"])).join(sel_text(rng, s) for s in r["sels"])
    t += _gap(rng) + "{"
    for k, v in r["decls"]:
        t += _gap(rng) + k + ":" + rng.choice(["", " "]) + v + ";"
    return t + _gap(rng) + "}"


def text(rng, rules, imports=False):
    """The text of a sheet, and the files it imports."""
    files = []

    def emit(rs, depth):
        out = []
        i = 0
        while i < len(rs):
            if imports and depth < 2 and rng.random() < .3:
                n = rng.randint(1, 2)
                name = rng.choice(["f%d.mapcss", "sub/f%d.mapcss"]) % len(files)
                files.append(None)
                k = len(files) - 1
                body = emit(rs[i:i + n], depth + 1)
                files[k] = [name, body]
                out.append('@import url("%s");' % name)
                i += n
            else:
                out.append(rule_text(rng, rs[i]))
                i += 1
        return _gap(rng).join(out) + rng.choice(["", "\n"])

    t = emit(rules, 0)
    return t, files
