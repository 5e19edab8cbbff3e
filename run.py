#!/usr/bin/env python3-vt
"""Decide one property on the current tree: python3-vt run.py C01 [--tier quick|thorough] [--seed N]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PYR = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
OUT = os.environ.get("VERIF_OUT", os.path.join(HERE, "out"))
EVD = os.environ.get("VERIF_EVD", os.path.join(HERE, "evidence"))


def load_units():
    for f in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        if f.startswith("c_") and f.endswith(".py"):
            importlib.import_module("contracts." + f[:-3])
    from contracts.registry import UNITS

    return UNITS


def _work(name, conn, filt, patience=1):
    try:
        from vc import prover

        for k in ("timeout_ms", "quick_ms", "budget_s"):
            prover.OPTS[k] *= patience
        from contracts.registry import run_unit
        import props

        conn.send(run_unit(name, REPO, lambda o: props.relevant(o, filt)))
    except BaseException as e:  # harness error: not evidence of anything
        conn.send(dict(unit=name, function="?", obligations=[], unsupported=["harness: %r" % (e,)], paths=0, secs=0.0))
    finally:
        conn.close()


def run_units(names, sel, limit_s, total_s, jobs=8, patience=1):
    """each unit in its own process with a hard wall-clock limit."""
    todo, live, res = list(names), [], []
    begin = time.time()
    while todo or live:
        while todo and time.time() - begin > total_s:
            res.append(dict(unit=todo.pop(0), function="?", obligations=[], unsupported=["total time limit"], paths=0, secs=0))
        while todo and len(live) < jobs:
            n = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_work, args=(n, b, sel[n], patience))
            p.start()
            b.close()
            live.append((n, p, a, time.time()))
        nxt = []
        for n, p, a, t0 in live:
            if a.poll(0):
                try:
                    res.append(a.recv())
                except EOFError:
                    res.append(dict(unit=n, function="?", obligations=[], unsupported=["unit process died"], paths=0, secs=time.time() - t0))
                p.join(5)
            elif time.time() - t0 > limit_s or time.time() - begin > total_s + 30:
                p.kill()
                p.join(5)
                res.append(dict(unit=n, function="?", obligations=[], unsupported=["wall-clock limit %ds" % limit_s], paths=0, secs=limit_s))
            elif not p.is_alive() and not a.poll(0.05):
                res.append(dict(unit=n, function="?", obligations=[], unsupported=["unit process died"], paths=0, secs=time.time() - t0))
            else:
                nxt.append((n, p, a, t0))
        live = nxt
        if live:
            time.sleep(0.02)
    return sorted(res, key=lambda r: r["unit"])


def concrete(prop, seed, tier, budget, hints=None, tag=""):
    os.makedirs(OUT, exist_ok=True)
    of = os.path.join(OUT, "concrete-%s-%d%s.json" % (prop, os.getpid(), tag))
    cmd = [PYR, os.path.join(HERE, "concrete", "main.py"), prop, "--seed", str(seed), "--tier", tier, "--out", of, "--budget", str(budget)]
    if hints:
        hf = of + ".hints"
        json.dump(hints, open(hf, "w"))
        cmd += ["--hints", hf]
    env = dict(os.environ, PYTHONPATH=REPO, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True, cwd=HERE), of


def collect(p, of, timeout):
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return dict(cases=0, skipped=0, per_check={}, failures=[], errors=["time limit"], wall_s=timeout)
    try:
        r = json.load(open(of))
    except Exception:
        r = dict(cases=0, skipped=0, per_check={}, failures=[], errors=["did not run: " + err[-600:]], wall_s=0, import_error=err[-3000:])
    for f in (of, of + ".hints"):
        if os.path.exists(f):
            os.remove(f)
    return r


def clean(h):
    """the part of a model that names inputs: solver parameters and loop-state scalars."""
    out = {}
    for k, v in h.items():
        if "{" in k:
            continue
        if k.startswith("h_") and "!" in k:
            k = k[2:].split("!")[0]
        out.setdefault(k, v)
    return out


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    import props

    U = load_units()
    sel = props.units_of(prop, [n for n, u in U.items() if tier == "thorough" or not u.thorough])
    cp, of = concrete(prop, a.seed, tier, 150 if tier == "quick" else 1500)
    # longest first
    recs = run_units(sorted(sel, key=lambda n: -COST(n)), sel, 300 if tier == "quick" else 900, 420 if tier == "quick" else 3600)
    conc = collect(cp, of, 400 if tier == "quick" else 2400)
    # what a loaded machine left open is tried once more, with longer solver limits
    again = [r["unit"] for r in recs if any(o["status"] not in ("proved", "unsupported") for o in r["obligations"]) or any("died" in u for u in r["unsupported"])]
    first = {}
    if 0 < len(again) <= 8 and not conc["failures"]:
        first = {r["unit"]: [(o["name"], o["status"], str(o.get("backend"))[:80], o["secs"]) for o in r["obligations"] if o["status"] != "proved"][:6] + r["unsupported"][:3] for r in recs if r["unit"] in again}
        second = {r["unit"]: r for r in run_units(again, sel, 200, max(30, min(150, 560 - (time.time() - t0))) if tier == "quick" else 900, patience=3)}
        # a complete proof counts; anything else leaves the first answer
        done = lambda r: r["obligations"] and not r["unsupported"] and all(o["status"] == "proved" for o in r["obligations"])  # noqa
        recs = [second[r["unit"]] if r["unit"] in second and done(second[r["unit"]]) else r for r in recs]

    obls, failed, unsup = [], [], []
    for r in recs:
        for u in r["unsupported"]:
            unsup.append((r["unit"], u))
        for o in r["obligations"]:
            if not props.relevant(o["name"], sel[r["unit"]]):
                continue
            o = dict(o, unit=r["unit"], function=r["function"])
            if o.get("hints"):
                o["hints"] = clean(o["hints"])
            if o["status"] == "proved":
                obls.append(o)
            elif o["status"] == "unsupported":
                unsup.append((r["unit"], "%s: %s" % (o["name"], o["backend"])))
            else:
                obls.append(o)
                failed.append(o)
    fails = list(conc["failures"])
    if failed and not fails:
        # look for a failing input: the verifier's models first, then more inputs
        models = [o["hints"] for o in failed if o.get("hints")][:20]
        for k in range(3):
            left = 800 - (time.time() - t0) if tier == "quick" else 400
            if left < 20:
                break
            cp, of = concrete(prop, a.seed + 101 * (k + 1), "thorough" if k == 2 else "quick", min(120, left), {"*": {"models": models}}, "-s%d" % k)
            r2 = collect(cp, of, min(200, left + 40))
            conc["cases"] += r2["cases"]
            if r2["failures"]:
                fails = r2["failures"]
                break
            if time.time() - t0 > 600:
                break
    elif unsup and not fails and tier == "quick":
        # part of the source is outside the verifier's reach: the bounded stand-in works harder
        cp, of = concrete(prop, a.seed + 777, "thorough", 120, None, "-b")
        r2 = collect(cp, of, 200)
        conc["cases"] += r2["cases"]
        conc["skipped"] += r2["skipped"]
        fails = r2["failures"]
    kn = [k for k in known()["known"] if k["property"] == prop]
    listed = [f for f in fails if any(k.get("check") == f["check"] and k.get("match", "\0") in f["detail"] for k in kn)]
    fails = [f for f in fails if f not in listed]
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for e in conc["errors"]:
        print("note: concrete: %s" % e.strip().splitlines()[-1][:300])
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVD, exist_ok=True)
    violated = bool(failed or fails)
    import_broken = "import_error" in conc and not conc["cases"]
    assumptions = sorted({x for r in recs for x in r.get("assumed", [])})
    funcs = sorted({r["function"] for r in recs if r["obligations"] and not r["unit"].startswith("lemma:")})
    proof_level = LEVEL.get(prop, "proof")
    backends = {}
    for o in obls:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    cov = dict(
        obligations=len(obls), discharged=len([o for o in obls if o["status"] == "proved"]),
        checker_cmd="bash /verif/check.sh %s" % prop, trusted_base=TRUSTED,
        functions_under_contract=funcs, units=len(recs), obligations_by_backend=backends,
        tried_again=first,
        slowest_obligation_s=round(max([o["secs"] for o in obls] + [0]), 2), solver_s=round(sum(o["secs"] for o in obls), 2), paths=sum(r["paths"] for r in recs),
        obligations_per_unit={r["unit"]: len([o for o in r["obligations"] if props.relevant(o["name"], sel[r["unit"]])]) for r in recs},
        units_outside_reach=[dict(unit=u, why=w[:300]) for u, w in unsup],
        bounded_contract_executions=dict(cases=conc["cases"], undecided=conc["skipped"], per_check=conc["per_check"],
                                         label="bounded: executable form of the contract on the real code; never counted as proved"),
        evaluations=conc["cases"],
    )
    ev = dict(
        property=prop, tier=tier, seed=a.seed, level=proof_level, coverage=cov,
        assumptions=ASSUME + ["library function assumed: " + x for x in assumptions], wall_s=round(time.time() - t0, 2), violations=len(failed) + len(fails),
    )
    if proof_level == "other":
        cov["explanation"] = "see level_note in MANIFEST.json: %d obligations discharged plus bounded contract executions" % cov["discharged"]
    json.dump(ev, open(os.path.join(EVD, prop + ".json"), "w"), indent=1)
    if a.v:
        for u, w in unsup:
            print("unsupported", u, w[:300])
        for o in failed[:40]:
            print("FAILED", o["unit"], o["name"], o["status"], o["path"], o.get("goal", "")[:300])
    print("%s: %d/%d obligations discharged over %d functions, %d units outside reach (bounded), %d bounded executions, %.1fs" % (
        prop, cov["discharged"], cov["obligations"], len(funcs), len({u for u, _ in unsup}), conc["cases"], time.time() - t0))
    if violated:
        rp = os.path.join(OUT, "replay-%s.json" % prop)
        json.dump(dict(property=prop, failures=fails, failed_obligations=failed[:60],
                       how="PYTHONPATH=%s %s %s/concrete/main.py --replay %s" % (REPO, PYR, HERE, rp)), open(rp, "w"), indent=1)
        for f in fails[:3]:
            print("failing input: %s %s: %s" % (f["check"], json.dumps(f["case"])[:300], f["detail"][:300]))
        for o in failed[:5]:
            print("failed obligation: %s / %s (%s)" % (o["unit"], o["name"], o["status"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if fails else " no-failing-input-found"))
        return 1
    if import_broken:
        print("error: the code under /repo could not be executed\n" + conc["import_error"])
        return 2
    return 0


SLOW = {"group_lasso": 14, "lasso[": 12, "fb:iteration": 12, "kltgl[": 9, "ltmd[": 9, "ltgl[": 8, "ktgl[": 4, "tgl[": 4}


def COST(n):
    return next((v for k, v in SLOW.items() if n.startswith(k)), 1)


LEVEL = {}
TRUSTED = [
    "vc/: symbolic executor for the Python/numpy subset (AST of /repo's files, re-read on every run) and its array theory",
    "z3 4.x / normal-form prover", "CPython semantics of the supported constructs",
]
ASSUME = [
    "machine floating point is treated as exact real arithmetic",
    "python integers are mathematical; array shapes are as declared in the unit's precondition",
]

if __name__ == "__main__":
    sys.exit(main())
