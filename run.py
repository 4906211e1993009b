#!/usr/bin/env python3
"""run.py setup | check ID [--tier T] [--seed N] [--scale X] [--facet F] | replay FILE | list"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vfy import bootstrap  # noqa: E402

bootstrap.reexec_if_needed()


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    sub.add_parser("setup")
    sub.add_parser("list")
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    c.add_argument("--scale", type=float, default=1.0)
    c.add_argument("--facet")
    c.add_argument("--jobs", type=int)
    r = sub.add_parser("replay")
    r.add_argument("file")
    a = ap.parse_args()
    bootstrap.vendor()
    if a.cmd == "setup":
        import hypothesis

        bootstrap.load_sut()
        print("hypothesis", hypothesis.__version__, "ready")
        return 0
    bootstrap.load_sut()
    from vfy import checks  # noqa: F401
    from vfy import core

    if a.cmd == "list":
        for p in sorted(core.FACETS):
            for f in core.FACETS[p]:
                print(p, f.name, f.n)
        return 0
    if a.cmd == "replay":
        return core.replay(a.file)
    tier = a.tier if a.tier in (core.QUICK, core.THOROUGH) else core.QUICK
    return core.run_check(a.prop, tier, a.seed, a.scale, a.facet, a.jobs)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    try:
        code = main()
    except Exception:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
