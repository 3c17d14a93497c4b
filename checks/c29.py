"""C29: the C# client serves a program as the exported interface does."""
import os
from vf import build
from vf.apigen import Crowd, Session
from .c16 import driver_cs


def driver():
    return ["env", "LD_LIBRARY_PATH=" + os.path.dirname(build.shared_lib())] + driver_cs() + ["client"]


class ClientSession(Session):
    def some(self, names, odd):
        # sheets are there
        return odd if odd != "missing" and (self.r.random() < .05 or not names) else self.r.choice(sorted(names))


def client(r, ops):
    """The client registers a sheet when it is first used, and cannot import what is in a box."""
    out, used = [], set()

    def use(name):
        if name not in used:
            used.add(name)
            out.append({"ev": "style", "sheet": name})
    for o in ops:
        if o["ev"] == "style":
            continue
        if o["ev"] == "connect":
            used.clear()
        if o["ev"] in ("write",):
            used.discard(o["sheet"])
        o = {k: v for k, v in o.items() if k != "box" or o["ev"] != "import"}
        for q in [o] + [q for t in o.get("threads", []) for q in t]:
            q.pop("tag", None)
            if q.get("cancel") in ("first", "before") and r.random() < .5:
                q["cancel"] = "throw"
            if q["ev"] == "import":
                q.pop("box", None)
            if q["ev"] in ("add", "import", "get"):
                use(q["sheet"])
        out.append(o)
        if o.get("cancel") == "throw":
            # others are served
            everything = {"nots": [], "ands": [], "ors": ["any"], "box": [-1, -1, 97, 97], "lods": [13, 16], "cancel": "", "ev": "text"}
            out.append({"ev": "par", "threads": [[everything]] * 2})
    return out


def again(r, ops):
    """configuring once more is of no consequence"""
    out = []
    on = False
    for o in ops:
        out.append(o)
        on = o["ev"] == "connect" or on and o["ev"] != "disconnect"
        if on and r.random() < .03:
            out.append({"ev": "again"})
    return out


def run(c):
    r, q = c.rng, c.quick
    drv = driver()
    c.model("ApiMC.tla", "ApiMC.cfg")
    c.conform(drv, [again(r, client(r, ClientSession(r).history(40))) for _ in range(60 if q else 1500)], "ClientTrace.tla", "ClientTrace.cfg", "sessions of a program")
    late = [client(r, Crowd(r).history(r.choice([5, 12]), crowds=2, threads=(6, 8), reqs=(2, 3))) for _ in range(40 if q else 600)]
    c.conform(drv, late, "ClientTrace.tla", "ClientTrace.cfg", "threads which use a sheet first", repeat=8, timeout=30, max_violations=2)
    c.conform(drv, [client(r, Crowd(r).history(r.choice([5, 12]), crowds=1)) for _ in range(40 if q else 800)], "ClientTrace.tla", "ClientTrace.cfg",
              "threads of a program", repeat=8, timeout=30, max_violations=2)
