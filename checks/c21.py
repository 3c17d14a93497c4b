"""C21: the exported interface serves a client end to end."""
from vf import build
from vf.apigen import Session


def driver(name="api", **kw):
    return build.cpp_driver(name, build.harness("api_driver.cpp"), extra=["-I" + build.REPO + "/core/shared"] + kw.get("extra", []), opt=kw.get("opt", "-O1"))


def run(c):
    r, q = c.rng, c.quick
    drv = driver()
    c.model("ApiMC.tla", "ApiMC.cfg")
    c.conform([drv], [Session(r).history(40) for _ in range(120 if q else 2400)], "ApiTrace.tla", "Trace.cfg", "sessions of a client")
