"""C07: the LRU cache."""
from vf import build


def random_histories(c, n, length):
    hs = []
    for _ in range(n):
        cap = c.rng.choice([0, 1, 2, 3, 5, 8, 12])
        keys = max(2, cap + c.rng.choice([1, 2, 5]))
        h = [{"ev": "lru.new", "cap": cap}]
        for _ in range(length):
            k = c.rng.randint(1, keys)
            e = c.rng.choice(["lru.put", "lru.put", "lru.put", "lru.get", "lru.get", "lru.peek", "lru.promote",
                              "lru.exists", "lru.size"] + (["lru.clear"] if c.rng.random() < .05 else []))
            op = {"ev": e}
            if e not in ("lru.size", "lru.clear"):
                op["k"] = k
            if e == "lru.put":
                op["v"] = c.rng.randint(0, 99)
            h.append(op)
        # afterwards, what is left, without disturbing the order
        h += [{"ev": "lru.peek", "k": k} for k in range(1, keys + 1)] + [{"ev": "lru.size"}]
        hs.append(h)
    return hs


def run(c):
    c.model("LruCacheMC.tla", "LruCacheMC.cfg")
    drv = build.cpp_driver("index", build.harness("index_driver.cpp"))
    gen = c.generate("LruCacheMC.tla", "LruCacheGen.cfg", 300 if c.quick else 3000, 45)
    for h in gen:
        h += [{"ev": "lru.peek", "k": k} for k in range(1, 6)] + [{"ev": "lru.size"}]
    c.conform([drv], gen, "LruCacheTrace.tla", "Trace.cfg", "behaviours generated from LruCache")
    c.conform([drv], random_histories(c, 150 if c.quick else 2000, 60), "LruCacheTrace.tla", "Trace.cfg", "random histories")
