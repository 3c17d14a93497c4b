"""C20: gradients and texture atlases."""

from vf import build

NAMES = """aliceblue antiquewhite aqua aquamarine azure beige bisque black blanchedalmond blue blueviolet brown
burlywood cadetblue chartreuse chocolate coral cornflowerblue cornsilk crimson cyan darkblue darkcyan darkgoldenrod
darkgray darkgreen darkkhaki darkmagenta darkolivegreen darkorange darkorchid darkred darksalmon darkseagreen darkslateblue darkslategray
darkturquoise darkviolet deeppink deepskyblue dimgray dodgerblue firebrick floralwhite forestgreen fuchsia gainsboro ghostwhite
gold goldenrod gray green greenyellow honeydew hotpink indianred indigo ivory khaki lavender
lavenderblush lawngreen lemonchiffon lightblue lightcoral lightcyan lightgoldenrodyellow lightgray lightgreen lightpink lightsalmon lightseagreen
lightskyblue lightslategray lightsteelblue lightyellow lime limegreen linen magenta maroon mediumaquamarine mediumblue mediumorchid
mediumpurple mediumseagreen mediumslateblue mediumspringgreen mediumturquoise mediumvioletred midnightblue mintcream mistyrose moccasin navajowhite navy
oldlace olive olivedrab orange orangered orchid palegoldenrod palegreen paleturquoise palevioletred papayawhip peachpuff
peru pink plum powderblue purple red rosybrown royalblue saddlebrown salmon sandybrown seagreen
seashell sienna silver skyblue slateblue slategray snow springgreen steelblue tan teal thistle
tomato turquoise violet wheat white whitesmoke yellow yellowgreen grey
nosuchcolour abc""".split()


def colour_text(rng, c):
    if c["k"] == "name":
        return c["v"]
    f = rng.choice(["#%02x%02x%02x", "#%02X%02X%02X"])
    return f % tuple(c["v"])


def colour(rng):
    if rng.random() < .4:
        return {"k": "name", "v": rng.choice(NAMES)}
    return {"k": "rgb", "v": [rng.choice([0, 255, rng.randint(0, 255), rng.randint(0, 255)]) for _ in range(3)]}


def text(rng, stops):
    sp = lambda: rng.choice(["", " "])
    return "gradient(" + ", ".join(colour_text(rng, s["c"]) + ("" if i in (0, len(stops) - 1) else " %d%%" % s["t"])
                                   for i, s in enumerate(stops)) + ")"


def times(rng, stops):
    ts = [[0, 1], [1, 1], [1, 2]]
    for s in stops:
        ts.append([s["t"], 100])
    for _ in range(12):
        d = rng.choice([16, 64, 100, 128, 1000])
        ts.append([rng.randint(0, d), d])
    return ts


def gradient(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4, 6])
    if n == 1:
        c = colour(rng)
        if c["k"] == "name" and rng.random() < .5:
            return [{"t": 0, "c": c}], colour_text(rng, c)
        if c["k"] == "rgb":
            return [{"t": 0, "c": c}], colour_text(rng, c)
        return [{"t": 0, "c": c}], "gradient(%s)" % colour_text(rng, c)
    mids = sorted(rng.sample(range(1, 100), n - 2))
    stops = [{"t": t, "c": colour(rng)} for t in [0] + mids + [100]]
    return stops, text(rng, stops)


def history(rng, gradients):
    decls = {}
    gs = []
    for i, (stops, t) in enumerate(gradients):
        gs.append({"ev": "gr.eval", "kind": "stops", "stops": stops, "text": t, "times": times(rng, stops)})
    for t in ["()", "123", "%"]:
        gs.append({"ev": "gr.eval", "kind": "nothing", "text": t, "times": [[0, 1], [1, 2], [1, 1]]})
    gs.append({"ev": "gr.eval", "kind": "empty", "text": "", "times": [[0, 1]]})
    for g in gs:
        if g["kind"] == "empty" or rng.random() < .6:
            g["slot"] = 1
    files, atlases, sheet = [], [], ""
    for k in range(rng.randint(0, 3)):
        a = {"index": rng.randint(0, 4), "w": rng.choice([256, 1024, 2048]), "h": rng.choice([128, 512]), "regions": []}
        t = "%d,%d,%d\n" % (a["index"], a["w"], a["h"])
        for _ in range(rng.randint(1, 7)):
            r = {"g": rng.choice(["brick", "grass", "a-b", "roof"]), "r": [rng.randint(0, 100), rng.randint(0, 100), rng.randint(1, 50), rng.randint(1, 50)]}
            a["regions"].append(r)
            t += "%s,%d,%d,%d,%d\n" % tuple([r["g"]] + r["r"])
        atlases.append(a)
        files.append(["atlas%d.txt" % k, t])
        sheet += '@texture url("atlas%d.txt");\n' % k
    sheet += "node|z1[a] { x: 1; }\n"
    for g in gs:
        if rng.random() < .3 and g["kind"] == "stops":
            sheet += "way|z1[a] { c: %s; }\n" % g["text"]
    h = [{"ev": "ss.new"}, {"ev": "ss.load", "slot": 1, "sheet": sheet, "files": files, "atlases": atlases}] + gs
    for i in range(6):
        for g in ["brick", "grass", "a-b", "roof", "none"]:
            h.append({"ev": "tx.get", "slot": 1, "index": i, "group": g, "seeds": [digits(x) for x in (0, 1, 2, 3, rng.randint(4, 1 << 32), 1 << rng.randint(15, 63), rng.getrandbits(64))]})
    return h




def digits(x):
    r = []
    while x or not r:
        r.insert(0, x % 32768)
        x //= 32768
    return r


def run(c):
    gs = c.enumerate("GradientMC.tla", "GradientMC.cfg")
    drv = build.cpp_driver("style", build.harness("style_driver.cpp"))
    hs = []
    for i in range(0, len(gs), 12):
        hs.append(history(c.rng, [(g, text(c.rng, g)) for g in gs[i:i + 12]]))
    c.conform([drv], hs, "GradientTrace.tla", "Trace.cfg", "small gradients")
    every = [[{"t": 0, "c": {"k": "name", "v": n}}, {"t": 100, "c": {"k": "name", "v": n}}] for n in NAMES]
    hs = [history(c.rng, [(g, text(c.rng, g)) for g in every[i:i + 12]]) for i in range(0, len(every), 12)]
    c.conform([drv], hs, "GradientTrace.tla", "Trace.cfg", "every colour name")
    hs = [history(c.rng, [gradient(c.rng) for _ in range(10)]) for _ in range(60 if c.quick else 1500)]
    c.conform([drv], hs, "GradientTrace.tla", "Trace.cfg", "random gradients and atlases")
