"""Shared machinery of the checks: scratch space, drivers, trace validation, evidence, reporting."""

import concurrent.futures
import hashlib
import json
import os
import random
import select
import shutil
import subprocess
import sys
import tempfile
import time

from . import build, tlc
from .build import VERIF, REPO

REPLAYS = os.path.join(VERIF, "replays")


def public(v):
    """Without what only the driver needs (fields named _...)."""
    if isinstance(v, dict):
        return {k: public(x) for k, x in v.items() if k[:1] != "_"}
    return [public(x) for x in v] if isinstance(v, list) else v


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.t0 = time.time()
        os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(VERIF, ".work"))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.explored = []
        self.violations = []
        self.known = []
        self.assumptions = []
        self.n_replay = 0

    # ---- reporting -------------------------------------------------------------------------------

    def log(self, *a):
        print("[%s %5.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def violation(self, what, data):
        """Records a violation: `what` is a sentence, `data` goes to the replay file."""
        os.makedirs(os.path.join(REPLAYS, self.pid), exist_ok=True)
        self.n_replay += 1
        path = os.path.join(REPLAYS, self.pid, "%s-%d-%d.json" % (self.tier, self.seed, self.n_replay))
        data = dict(data)
        data.update({"property": self.pid, "what": what, "tier": self.tier, "seed": self.seed})
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        self.violations.append({"what": what[:400], "replay": path})
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        print("  " + what[:1500], flush=True)

    def finish(self, level_explored=True):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples[:12] or ["-"],
                "explored": self.explored, "events_validated": self.events,
            },
            "assumptions": self.assumptions,
            "violations": len(self.violations),
            "violation_list": self.violations,
            "known_findings": self.known,
            "wall_s": round(time.time() - self.t0, 1),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.cleanup()
        self.log("states=%d transitions=%d traces=%d events=%d violations=%d" %
                 (self.states, self.transitions, self.traces, self.events, len(self.violations)))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def known_findings(self, drivers):
        """Runs the recorded history of every finding of this property."""
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            if not line.startswith("finding: property=%s " % self.pid):
                continue
            name = line.split("name=")[1].split()[0]
            f = json.load(open(os.path.join(VERIF, "findings", name + ".json")))
            tr = self.drive([drivers[f["driver"]]] if isinstance(drivers[f["driver"]], str) else drivers[f["driver"]], [f["history"]], jobs=1)[0]
            where, _ = self._tlc_trace(f["module"], f["cfg"], [tr], 300)
            if where is None:
                self.log("recorded finding", name, "does not fail any more")
            else:
                self.known.append(name)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]), flush=True)

    # ---- model checking --------------------------------------------------------------------------

    def model(self, module, cfg, timeout=600, workers=8, env=None, **kw):
        """Exhaustive (or simulated) check of the specification itself. A failure is an error of the
        check, not a violation by the code."""
        t = time.time()
        r = tlc.run(module, cfg, self.work, workers=workers, timeout=timeout, env=env, **kw)
        if not r.ok:
            raise tlc.TlcError("specification %s/%s violates %s\n%s" % (module, cfg, r.violated, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.explored.append("%s/%s: %d states generated, %d distinct, %.0fs" %
                             (os.path.basename(module), os.path.basename(cfg), r.generated, r.distinct, time.time() - t))
        self.log("model", module, cfg, r.generated, r.distinct, "%.1fs" % (time.time() - t))
        return r

    def generate(self, module, cfg, num, depth, env=None, timeout=300, seed=None):
        """Behaviours of the specification, printed by it (lines starting with @@) under -simulate."""
        r = tlc.run(module, cfg, self.work, workers=1, timeout=timeout, simulate=num, depth=depth, env=env,
                    seed=self.seed if seed is None else seed)
        if not r.ok:
            raise tlc.TlcError("simulation of %s/%s violates %s\n%s" % (module, cfg, r.violated, r.out[-3000:]))
        res, seen = [], set()
        for line in r.out.splitlines():
            line = line.strip()
            if line.startswith('"@@'):
                line = json.loads(line)
            if line.startswith("@@"):
                if line not in seen:
                    seen.add(line)
                    res.append(json.loads(line[2:]))
        self.transitions += r.generated
        self.explored.append("%s/%s: %d behaviours of depth %d generated by TLC -simulate for replay" %
                             (module, cfg, len(res), depth))
        self.log("generated", len(res), "behaviours from", module)
        return res

    def enumerate(self, module, cfg, env=None, timeout=600, workers=8):
        """Exhaustive check of a specification which prints every state it reaches (lines with @@):
        returns what was printed."""
        t = time.time()
        r = tlc.run(module, cfg, self.work, workers=workers, timeout=timeout, env=env)
        if not r.ok:
            raise tlc.TlcError("specification %s/%s violates %s\n%s" % (module, cfg, r.violated, r.out[-3000:]))
        res, seen = [], set()
        for line in r.out.splitlines():
            line = line.strip()
            if line.startswith('"@@'):
                line = json.loads(line)
            if line.startswith("@@") and line not in seen:
                seen.add(line)
                res.append(json.loads(line[2:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.explored.append("%s/%s: %d states generated, %d distinct; %d emitted for replay" %
                             (module, cfg, r.generated, r.distinct, len(res)))
        self.log("enumerated", len(res), "from", module, "%.1fs" % (time.time() - t))
        return res

    # ---- drivers ---------------------------------------------------------------------------------

    def drive(self, cmd, histories, timeout=60, jobs=8, env=None):
        """Runs histories (lists of operations, dicts) through a driver process: one JSON line in per
        operation, one JSON line out. Returns the list of observed traces: operations with what the
        driver answered merged in. When the driver dies, the operation it died on gets
        {"crash": ...} and the rest of that history is dropped; the other histories go on. It is ended
        when it does not answer for `timeout` seconds; when that happens again and again, the histories
        which are left get no trace."""
        out = [None] * len(histories)
        stalls = []
        n = max(1, min(jobs, len(histories)))
        chunks = [list(range(i, len(histories), n)) for i in range(n)]

        def work(k):
            idx = chunks[k]
            while idx and len(stalls) < 8:
                d = tempfile.mkdtemp(prefix="drv%d-" % k, dir=self.work)
                with open(os.path.join(d, "stdin"), "w") as f:
                    for i in idx:
                        for op in histories[i]:
                            f.write(json.dumps(op) + "\n")
                e = dict(os.environ)
                e.update(env or {})
                with open(os.path.join(d, "stdin")) as fin, open(os.path.join(d, "stderr"), "w") as ferr:
                    p = subprocess.Popen(cmd, cwd=d, stdin=fin, stdout=subprocess.PIPE, stderr=ferr, env=e)
                parts, why = [], ""
                while True:
                    if not select.select([p.stdout], [], [], timeout)[0]:
                        # no answer for so long: it hangs
                        why = "timeout"
                        stalls.append(k)
                        p.kill()
                    b = os.read(p.stdout.fileno(), 1 << 16)
                    if not b:
                        break
                    parts.append(b)
                p.stdout.close()
                p.wait()
                so = b"".join(parts)
                why = why or "exit %s" % p.returncode
                lines = [l for l in so.decode(errors="replace").split("\n")]
                complete = lines[:-1]
                res = []
                for l in complete:
                    if l.startswith("{"):
                        res.append(json.loads(l))
                pos, done = 0, 0
                for i in idx:
                    h = histories[i]
                    got = res[pos:pos + len(h)]
                    pos += len(h)
                    tr = []
                    for op, r in zip(h, got):
                        o = dict(op)
                        o.update(r)
                        tr.append(o)
                    out[i] = tr
                    done += 1
                    if len(got) < len(h):
                        err = open(os.path.join(d, "stderr"), errors="replace").read()[-1500:]
                        o = dict(h[len(got)])
                        o["crash"] = why
                        o["stderr"] = err
                        tr.append(o)
                        break
                if p.returncode != 0 and done == len(idx) and all("crash" not in o for o in out[idx[-1]][-1:]):
                    # died while shutting down
                    o = dict(histories[idx[-1]][-1])
                    o["crash"] = why + " at exit"
                    o["stderr"] = open(os.path.join(d, "stderr"), errors="replace").read()[-1500:]
                    out[idx[-1]].append(o)
                idx = idx[done:]
                shutil.rmtree(d, ignore_errors=True)

        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            list(ex.map(work, range(n)))
        return out

    # ---- trace validation ------------------------------------------------------------------------

    def _tlc_trace(self, module, cfg, traces, timeout, env=None):
        """Validates the concatenation of traces. Returns None if accepted, else (index of trace,
        index of event) of the first rejected event."""
        path = tempfile.mktemp(prefix="trace-", suffix=".ndjson", dir=self.work)
        index = []
        with open(path, "w") as f:
            for ti, tr in enumerate(traces):
                for ei, ev in enumerate(tr):
                    ev = public({k: v for k, v in ev.items() if k != "stderr"})
                    f.write(json.dumps(ev) + "\n")
                    index.append((ti, ei))
        e = {"TRACE": path}
        e.update(env or {})
        r = tlc.run(module, cfg, self.work, env=e, timeout=timeout, workers=1)
        os.unlink(path)
        self.states += r.distinct
        self.transitions += r.generated
        if r.ok:
            return None, r
        if r.violated == "postcondition":
            # depth d: d-1 events consumed
            return index[max(0, min(len(index) - 1, r.depth - 1))], r
        raise tlc.TlcError("trace check %s: %s\n%s" % (module, r.violated, r.out[-3000:]))

    def validate(self, module, cfg, traces, label, timeout=600, max_violations=3, batch=None, env=None,
                 describe=None, confirm=None, jobs=6):
        """Every trace must be a behaviour of the specification. A rejected trace is reported (after
        `confirm`, given the trace, has reproduced it and TLC has rejected it again) and set aside;
        the others are still checked."""
        traces = [t for t in traces if t]
        if batch is None:
            batch = max(1, (len(traces) + jobs - 1) // jobs)
        groups = [traces[i:i + batch] for i in range(0, len(traces), batch)]
        t0 = time.time()

        def one(group):
            bad = []
            group = list(group)
            while group:
                where, r = self._tlc_trace(module, cfg, group, timeout, env)
                if where is None:
                    break
                ti, ei = where
                bad.append((group[ti], ei, r))
                # what precedes was accepted
                group = group[ti + 1:]
                if len(bad) >= max_violations:
                    break
            return bad

        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            bads = [b for bs in ex.map(one, groups) for b in bs]
        self.traces += len(traces)
        self.events += sum(len(t) for t in traces)
        if traces:
            self.samples.append("%s: %s" % (label, json.dumps(traces[len(traces) // 2])[:300]))
        self.explored.append("%s: %d traces, %d events validated against %s" %
                             (label, len(traces), sum(len(t) for t in traces), module))
        self.log("validated", label, len(traces), "traces", sum(len(t) for t in traces), "events",
                 "%.1fs" % (time.time() - t0), "rejected", len(bads))
        n = 0
        for tr, ei, r in bads:
            if n >= max_violations:
                break
            if confirm:
                again = confirm(tr)
                if not again:
                    self.log("rejection not repeated on a second run; not reported:", json.dumps(tr)[:300])
                    continue
                for tr in again if isinstance(again[0], list) else [again]:
                    where, r = self._tlc_trace(module, cfg, [tr], timeout, env)
                    if where is not None:
                        break
                if where is None:
                    self.log("rejection not repeated on a second run; not reported")
                    continue
                ei = where[1]
            n += 1
            evt = tr[ei]
            what = "%s: the specification %s does not allow event %d of this history: %s" % (
                label, module, ei + 1, json.dumps(evt)[:900])
            if describe:
                what += " | " + describe(tr, ei)
            self.violation(what, {"label": label, "module": module, "cfg": cfg, "trace": tr, "event": ei,
                                  "tlc": r.out[-1500:]})
        return len(bads)

    def conform(self, cmd, histories, module, cfg, label, timeout=60, jobs=6, repeat=1, **kw):
        """drive + validate, with confirmation by a second run of the driver (several, if threads are involved)."""
        traces = self.drive(cmd, histories, timeout=timeout, jobs=8)
        key = {}
        for h, t in zip(histories, traces):
            key[id(t)] = h

        def confirm(tr):
            h = key.get(id(tr))
            if h is None:
                return tr
            return [t for t in self.drive(cmd, [h] * repeat, timeout=timeout, jobs=repeat) if t]

        return self.validate(module, cfg, traces, label, confirm=confirm, jobs=jobs, **kw)
