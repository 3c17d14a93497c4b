"""C06: the string table."""
from vf import build

# pairs whose hashes in the table are the same
COLLIDING = [("w30181", "w38066"), ("w30166", "w38081"), ("w62369", "w179494"), ("w102758", "w187266")]


def pool(r):
    p = ["", "a", "b", "ab", "aba", "name", "\u00e9\u00ff", "x" * 300, "with space", "k=v", "y" * 9000]
    for a, b in COLLIDING:
        p += [a, b]
    p += ["s%d" % r.randrange(60) for _ in range(20)]
    return p


def history(r, n, crashes=True):
    p = pool(r)
    h = [{"ev": "st.new"}]
    for _ in range(n):
        x = r.random()
        if x < .4:
            h.append({"ev": "st.id", "s": r.choice(p)})
        elif x < .65:
            h.append({"ev": "st.str", "id": r.randrange(0, 30)})
        elif x < .75:
            h.append({"ev": "st.reopen"})
        elif x < .9:
            k = r.choice([2, 3, 4, 8])
            fresh = ["t%d" % r.randrange(1000) for _ in range(12)]
            h.append({"ev": "st.par", "lists": [[r.choice(p + fresh) for _ in range(r.choice([1, 4, 20]))] for _ in range(k)]})
        elif crashes:
            lst = [r.choice(p + ["c%d" % r.randrange(1000)] * 10) for _ in range(r.choice([1, 3, 8]))]
            lst = ["c%d" % r.randrange(10000) if r.random() < .6 else s for s in lst]
            h.append({"ev": "st.crash", "list": lst, "at": r.randrange(0, 2 * len(lst) + 2), "bytes": 0})
    return h


def large(r, n):
    """More strings than the table keeps in memory."""
    h = [{"ev": "st.new"}, {"ev": "st.fill", "list": ["big%d" % i for i in range(n)]}]
    for _ in range(150):
        x = r.random()
        if x < .4:
            h.append({"ev": "st.id", "s": "big%d" % r.randrange(n + 20)})
        elif x < .97:
            h.append({"ev": "st.str", "id": r.randrange(n)})
        else:
            h.append({"ev": "st.reopen"})
    h.append({"ev": "st.par", "lists": [["big%d" % r.randrange(n + 50) for _ in range(12)] for _ in range(8)]})
    return h


def long(r):
    """Strings of very many characters, longer than any buffer or counter of two bytes."""
    ls = [chr(97 + i) * n for i, n in enumerate([65534, 65535, 65536, 65537, 131073, 300000])]
    r.shuffle(ls)
    h = [{"ev": "st.new"}]
    for i, s in enumerate(ls[:4]):
        h += [{"ev": "st.id", "s": s}, {"ev": "st.id", "s": "s%d" % i}]
    for _ in range(6):
        h.append(r.choice([{"ev": "st.str", "id": r.randrange(8)}, {"ev": "st.id", "s": r.choice(ls)}, {"ev": "st.reopen"}]))
    return h + [{"ev": "st.reopen"}, {"ev": "st.str", "id": 2}, {"ev": "st.id", "s": ls[0]}]


def sweep(r, n):
    """A crash at every write of a list of n new strings."""
    hs = []
    for at in range(2 * n + 2):
        hs.append([{"ev": "st.new"}, {"ev": "st.id", "s": "first"},
                   {"ev": "st.crash", "list": ["c%d" % i for i in range(n)] + ["first"], "at": at, "bytes": 0},
                   {"ev": "st.id", "s": "after"}, {"ev": "st.id", "s": "c0"}, {"ev": "st.str", "id": 1},
                   {"ev": "st.crash", "list": ["d0", "d1"], "at": at % 5, "bytes": 0},
                   {"ev": "st.reopen"}, {"ev": "st.id", "s": "d1"}, {"ev": "st.id", "s": "first"}])
    return hs


def run(c):
    c.model("StringTableMC.tla", "StringTableMC.cfg")
    c.model("StringTableFS.tla", "StringTableFS.cfg")
    drv = build.cpp_driver("index", build.harness("index_driver.cpp"))
    q = c.quick
    c.conform([drv], [history(c.rng, 60) for _ in range(100 if q else 1500)], "StringTableTrace.tla", "Trace.cfg",
              "random histories, callers at once, crashes")
    c.conform([drv], sweep(c.rng, 6 if q else 30), "StringTableTrace.tla", "Trace.cfg", "crash at every write")
    c.conform([drv], [long(c.rng) for _ in range(6 if q else 40)], "StringTableTrace.tla", "Trace.cfg", "very long strings")
    c.conform([drv], [large(c.rng, 1100) for _ in range(2 if q else 12)], "StringTableTrace.tla", "Trace.cfg", "more strings than are cached")
    c.assumptions.append("a crash ends the process between two write calls; single write calls are not torn")
