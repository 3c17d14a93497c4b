"""C25: the interval tree of the client."""
from checks.c16 import driver_cs

KINDS = ["int", "int", "reverse", "far", "float", "text"]


def history(r):
    keys = r.choice(KINDS)
    top = r.choice([4, 8, 20, 200])
    h = [{"ev": "rt.new", "keys": keys}]
    known = []

    def item(wrong=.0):
        a, b = sorted([r.randrange(top), r.randrange(top)])
        if r.random() < .25:
            b = a
        if r.random() < .2 and known:      # side by side with another one
            a = min(r.choice(known)[1], top - 1)
            b = max(a, r.randrange(top))
        if keys == "reverse":
            a, b = b, a
        if r.random() < wrong:
            a, b = b, a
        return [a, b, r.randrange(3)]

    def key():
        return r.choice([r.randrange(top), r.randrange(top), r.choice(r.choice(known)[:2]) if known else 0])
    many = r.choice([3, 8, 20, 60])
    for _ in range(r.choice([10, 30, 60])):
        k = r.choice(["add"] * 6 + ["query"] * 5 + ["stab"] * 4 + ["ends"] * 2 + ["remove", "remove", "has", "list", "sync", "rebuild", "auto", "clear"])
        if k == "clear" and r.random() < .6:
            k = "add"
        if k == "add":
            for _ in range(r.choice([1, 1, 2, many])):
                if len(known) > 80:
                    break
                i = item(.1)
                h.append({"ev": "rt.add", "item": i, "pair": r.random() < .5})
                if i[0] == i[1] or (i[0] < i[1]) == (keys != "reverse"):
                    known.append(i)
        elif k in ("remove", "has"):
            i = r.choice(known) if known and r.random() < .8 else item()
            if r.random() < .15:
                i = i[:2] + [i[2] + 1]
            h.append({"ev": "rt." + k, "item": i})
            if k == "remove" and i in known:
                known.remove(i)
        elif k == "query":
            a, b = sorted([key(), key()])
            if r.random() < .15:
                b = a
            h.append({"ev": "rt.query", "from": b if keys == "reverse" else a, "to": a if keys == "reverse" else b})
        elif k == "stab":
            h.append({"ev": "rt.stab", "at": key()})
        elif k == "auto":
            h.append({"ev": "rt.auto", "on": r.random() < .6})
        else:
            if k == "clear":
                known.clear()
            h.append({"ev": "rt." + k})
    h += [{"ev": "rt.auto", "on": True}, {"ev": "rt.ends"}, {"ev": "rt.list"}]
    return h


def run(c):
    c.model("RangeTreeMC.tla", "RangeTreeMC.cfg")
    c.conform(driver_cs(), [history(c.rng) for _ in range(150 if c.quick else 4000)], "RangeTreeTrace.tla", "Trace.cfg", "histories of interval trees")
