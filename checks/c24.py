"""C24: requests made at once are served as they are alone."""
from vf.apigen import Crowd
from .c21 import driver


def run(c):
    r, q = c.rng, c.quick
    hs = [Crowd(r).history(r.choice([5, 12, 25]), crowds=r.choice([1, 2])) for _ in range(100 if q else 1500)]
    c.conform([driver("apirace", extra=["-fsanitize=thread"], opt="-O1")], hs, "ApiTrace.tla", "Trace.cfg", "threads at once", repeat=16, timeout=30, max_violations=2)
