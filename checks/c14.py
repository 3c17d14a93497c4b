"""C14: L-systems and the turtle."""
from vf import build

COMMANDS = ["F", "G", "+", "-", "|", "^", "&", "\\", "/", "$", "!", ">", "<", "@", "[", "]"]
WORDS = ["leaf", "trunk", "a", "cone", "sphere"]


def text(rng, s):
    def w(xs):
        return " ".join(xs)
    t = ""
    if rng.random() < .3:
        t += "# a comment\n"
    t += "generations: %d\n" % s["gens"]
    if rng.random() < .3:
        t += "#angle: 7\n"
    t += "angle: %s\nscale: %s\naxiom: %s" % (s.get("angle", 45), s.get("scale", 2), w(s["axiom"]))
    for p in s["prods"]:
        t += "\n"
        if rng.random() < .2:
            t += "# F -> F F\n"
        wt = "" if p["w"] == 100 and rng.random() < .5 else "(%s)" % (p["w"] / 100 if p["w"] % 100 else p["w"] // 100)
        t += p["p"] + wt + rng.choice([" -> ", "->", "  ->  "]) + w(p["s"])
    return t + rng.choice(["", "\n"])


def word(rng, syms, n):
    return [rng.choice(syms) for _ in range(n)]


def size(sys):
    """The largest length of a word of the system."""
    m = {}

    def f(x, n):
        if (x, n) not in m:
            ps = [p for p in sys["prods"] if p["p"] == x and p["w"] > 0]
            if n == 0 or not [p for p in sys["prods"] if p["p"] == x]:
                m[x, n] = 1
            else:
                m[x, n] = max(sum(f(y, n - 1) for y in p["s"]) for p in ps)
        return m[x, n]
    return sum(f(x, sys["gens"]) for x in sys["axiom"])


def system(rng, limit=120):
    while True:
        syms = rng.sample(COMMANDS, rng.randint(1, 4)) + rng.sample(WORDS, rng.randint(1, 3))
        s = {"gens": rng.randint(0, 5), "axiom": word(rng, syms, rng.randint(1, 4)), "prods": []}
        for p in rng.sample(syms, rng.randint(1, min(4, len(syms)))):
            k = rng.choice([1, 1, 2, 3])
            ws = [rng.choice([0, 20, 50, 100, 100, 300]) for _ in range(k)]
            ws[rng.randrange(k)] = rng.choice([50, 100])
            for wt in ws:
                s["prods"].append({"p": p, "w": wt, "s": word(rng, syms, rng.randint(1, 3))})
        rng.shuffle(s["prods"])
        if size(s) <= limit:
            return s


def run_history(rng):
    h = [{"ev": "ss.new"}]
    for _ in range(5):
        s = system(rng)
        h.append({"ev": "ls.run", "sys": s, "text": text(rng, s), "times": 6, "freq": False})
    # through a style sheet, two of them under their names
    a, b = system(rng), system(rng)
    h.append({"ev": "ss.load", "slot": 1, "sheet": '@lsystem url("tree.lsys");\n@lsystem url("pine.lsys");\nnode|z1[a] { x: 1; }\n',
              "files": [["tree.lsys", text(rng, a)], ["pine.lsys", text(rng, b)]]})
    h.append({"ev": "ls.run", "slot": 1, "name": "tree", "sys": a, "times": 4, "freq": False})
    h.append({"ev": "ls.run", "slot": 1, "name": "pine", "sys": b, "times": 4, "freq": False})
    return h


def fair_history(rng):
    k = rng.randint(2, 4)
    ws = [rng.choice([0, 10, 20, 30, 50, 100]) for _ in range(k)]
    ws[rng.randrange(k)] = 50
    s = {"gens": 1, "axiom": ["a"], "prods": [{"p": "a", "w": w, "s": ["G"] * i + ["leaf"]} for i, w in enumerate(ws)]}
    return [{"ev": "ls.run", "sys": s, "text": text(rng, s), "times": 400, "freq": True}]


def walk(rng, path, angle, scale=2, length=64, width=32, gens=0):
    s = {"gens": gens, "angle": angle, "scale": scale, "axiom": path, "prods": [{"p": "none", "w": 100, "s": ["F"]}]}
    return {"ev": "ls.walk", "sys": s, "text": text(rng, s), "angle": angle, "scale": scale, "length": length, "width": width}


def random_path(rng, n, angle):
    """A walk in which nothing is restored which was not saved, sizes stay whole and small, and the
    turtle does not turn while its axis is undefined (spec: Defined)."""
    d, r, l, w, stack, path = 1, 0, 0, 0, [], []   # directions in right angles

    def turn(c):
        nonlocal d, r
        q = {0: 0, 90: 1, 180: 2}[angle]
        axis = {1: 1, 3: -1}.get((r - d) % 4, 0)     # sign of the cross product
        s = (1 if c in "-^/" else -1) * q * axis
        if c in "+-^&":
            d = (d + s) % 4
        if c in "+-\\/":
            r = (r + s) % 4
    while len(path) < n:
        c = rng.choice(COMMANDS + ["G", "G", "leaf"])
        par = (r - d) % 2 == 0
        if par and (c == "|" or (angle == 180 and c in "+-^&\\/")):
            continue
        if c == "]":
            if not stack:
                continue
            d, r, l, w = stack.pop()
        elif c == "[":
            stack.append((d, r, l, w))
        elif c == "|":
            d, r = (d + 2) % 4, (r + 2) % 4
        elif c in ("+", "-", "^", "&", "\\", "/"):
            turn(c)
        elif c == ">":
            if l > 5:
                continue
            l += 1
        elif c == "<":
            if l < -3:
                continue
            l -= 1
        elif c == "$":
            if w > 5:
                continue
            w += 1
        elif c == "!":
            if w < -3:
                continue
            w -= 1
        path.append(c)
    return path


def run(c):
    drv = build.cpp_driver("style", build.harness("style_driver.cpp"))
    paths = c.enumerate("LSystemMC.tla", "LSystemMC.cfg")
    hs = [[walk(c.rng, p, 90) for p in paths[i:i + 50]] for i in range(0, len(paths), 50)]
    c.conform([drv], hs, "LSystemTrace.tla", "Trace.cfg", "all short walks")
    hs = []
    for _ in range(60 if c.quick else 1500):
        a = c.rng.choice([0, 90, 90, 180])
        hs.append([walk(c.rng, random_path(c.rng, 60, a), a, 2, 1024, 256) for _ in range(6)])
    c.conform([drv], hs, "LSystemTrace.tla", "Trace.cfg", "long walks")
    bad = []
    for _ in range(20):
        p = random_path(c.rng, c.rng.randint(0, 12), 90)
        p = [x for x in p if x not in "[]"]
        k = c.rng.randint(0, 2)
        p = ["["] * k + p + ["]"] * (k + 1) + ["G"]
        o = walk(c.rng, p, 90)
        o["ev"], o["do"] = "ls.bad", "ls.walk"
        bad.append([o])
    c.conform([drv], bad, "LSystemTrace.tla", "Trace.cfg", "restoring what was not saved")
    c.conform([drv], [run_history(c.rng) for _ in range(80 if c.quick else 1500)], "LSystemTrace.tla", "Trace.cfg", "rewriting")
    c.conform([drv], [fair_history(c.rng) for _ in range(40 if c.quick else 400)], "LSystemTrace.tla", "Trace.cfg", "chances of productions")
