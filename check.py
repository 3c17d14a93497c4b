#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N]: decides one property on /repo's working tree.

Exit 0: the property held on everything explored. Exit 1: a VIOLATION line was printed.
Exit 2: the check itself failed."""

import argparse
import importlib
import os
import shutil
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf import build, ctx, tlc  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    if a.setup:
        # every check builds what it needs from /repo's working tree; here only the tools are looked for
        for t in ("java", "g++", "mcs", "mono", "protoc"):
            if not shutil.which(t):
                print("missing", t)
                sys.exit(1)
        sys.exit(0)
    c = ctx.Ctx(a.id, a.tier, a.seed)
    try:
        mod = importlib.import_module("checks." + a.id.lower())
        mod.run(c)
        rc = c.finish()
    except (build.BuildError, tlc.TlcError) as e:
        print("CHECK ERROR: %s" % e, flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        c.cleanup()
    sys.exit(rc)


if __name__ == "__main__":
    main()
