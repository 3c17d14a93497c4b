"""Runs TLC on modules of /verif/spec."""

import os
import re
import subprocess
import tempfile

from .build import VERIF

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class TlcError(Exception):
    pass


class Result:
    def __init__(self):
        self.out = ""
        self.ok = False
        self.violated = None
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.prints = []


def run(module, cfg, work, env=None, workers=1, timeout=600, simulate=None, depth=None, seed=None,
        heap="4g", deadlock=False, extra=()):
    """Returns a Result. Raises TlcError when TLC itself fails (parse error, evaluation error ...).
    violated is the name of the violated invariant/property, or 'postcondition', or 'deadlock'."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work)
    cfgpath = cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + SPEC, "-cp", JAR, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfgpath, "-workers", str(workers)]
    if not deadlock:
        cmd.append("-deadlock")
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += list(extra)
    cmd.append(module if os.path.isabs(module) else os.path.join(SPEC, module))
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    r = Result()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout, env=e, cwd=work)
        r.out = p.stdout
        rc = p.returncode
    except subprocess.TimeoutExpired as x:
        out = x.stdout or ""
        r.out = out.decode(errors="replace") if isinstance(out, bytes) else out
        raise TlcError("TLC timed out on %s\n%s" % (module, r.out[-2000:]))
    m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", r.out)
    if m:
        r.generated, r.distinct = [int(x.replace(",", "")) for x in m[-1]]
    m = re.search(r"The number of states generated: ([\d,]+)", r.out)
    if m:
        r.generated = int(m.group(1).replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", r.out)
    if m:
        r.depth = int(m.group(1))
    if rc == 0 and "Error:" not in r.out:
        r.ok = True
        return r
    for pat in (r"Error: Invariant (\w+) is violated", r"Error: Action property (\S+) is violated",
                r"Error: Temporal properties were violated", r"Error: Deadlock reached",
                r"(?i)Error: .*postcondition.*", r"Error: The invariant (\w+) is violated",
                r"Error: Property (\S+) is violated"):
        m = re.search(pat, r.out)
        if m:
            r.violated = m.group(1) if m.groups() else ("postcondition" if "ost" in m.group(0) and "ondition" in m.group(0) else m.group(0)[7:])
            return r
    raise TlcError("TLC failed on %s (exit %d)\n%s" % (module, rc, r.out[-5000:]))
