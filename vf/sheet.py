"""Renders structured style rules as a MapCSS sheet."""


def text(v):
    return v if isinstance(v, str) else "".join(v)


def store_sheet(rules):
    """Rules of spec/Store.tla."""
    out = []
    for r in rules:
        s = "%s|z%d%s" % (r["t"], r["z1"], "-%d" % r["z2"] if r["z2"] != r["z1"] else "")
        for c in r["conds"]:
            s += "[%s]" % text(c["k"]) if c["op"] == "has" else "[%s=%s]" % (text(c["k"]), text(c["v"]))
        decl = {"key": "key: 1", "skip": "skip: true", "noskip": "skip: false", "clip": "clip: true"}[r["decl"]]
        out.append("%s { %s; }" % (s, decl))
    return "\n".join(out) + "\n"
