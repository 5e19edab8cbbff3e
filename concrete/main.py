"""/opt/venv/bin/python concrete/main.py PROP [--seed N] [--tier T] [--hints F] [--out F] | --replay F"""
import argparse
import json
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [REPO, HERE]
os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--hints")
    ap.add_argument("--only")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    a = ap.parse_args()
    import warnings

    warnings.simplefilter("ignore")
    import regain

    if not os.path.abspath(regain.__file__).startswith(os.path.abspath(REPO) + os.sep):
        sys.exit("regain imported from %s, not from %s" % (regain.__file__, REPO))
    import importlib

    from concrete import core

    for f in sorted(os.listdir(os.path.join(HERE, "concrete"))):
        if f.startswith("c_") and f.endswith(".py"):
            importlib.import_module("concrete." + f[:-3])
    if a.replay:
        rec = json.load(open(a.replay))
        for f in rec.get("failures", [rec]):
            if "case" not in f:
                continue
            for n, g, run in core.CHECKS.get(rec["property"], []):
                if n == f["check"]:
                    try:
                        run(f["case"])
                        print("%s: holds" % n)
                    except core.Skip:
                        print("%s: undecided" % n)
                    except Exception as e:
                        print("%s: FAILS %s: %s" % (n, type(e).__name__, e))
        return 0
    hints = json.load(open(a.hints)) if a.hints else {}
    out = core.run_checks(a.prop, a.seed, a.tier, hints, a.budget, only=a.only.split(",") if a.only else None)
    s = core.dumps(out)
    if a.out:
        open(a.out, "w").write(s)
    else:
        print(json.dumps(json.loads(s), indent=1)[:6000])
    return 0


sys.exit(main())
