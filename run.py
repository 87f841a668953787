#!/usr/bin/env python
"""/opt/venv/bin/python run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--scale X]"""

import argparse
import json
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("TZ", "UTC")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--case", help="scenario:index")
    a = ap.parse_args()
    from mon import boot

    try:
        boot.load()
    except Exception:
        # the tree under test cannot even be imported: nothing can be decided
        import traceback

        traceback.print_exc()
        print("INCONCLUSIVE property=%s cannot import gridded" % a.prop)
        return 2
    from mon import core, taps
    import mon.props  # noqa: registers everything

    taps.install()
    only = None
    if a.replay:
        d = json.load(open(a.replay))
        a.seed, a.tier = d["seed"], d["tier"]
        only = [(c["scen"], c["idx"]) for c in d["cases"]]
    if a.case:
        s, i = a.case.split(":")
        only = [(s, int(i))]
    ids = sorted(core.PROPS) if a.prop == "all" else [a.prop]
    rc = 0
    for pid in ids:
        rc = max(rc, core.run(pid, a.tier, a.seed, only=only, scale=a.scale))
    return rc


if __name__ == "__main__":
    sys.exit(main())
