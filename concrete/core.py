"""Concrete side: runs the *real* code under /repo (imported from the working tree) against the executable
form of the contracts.  It replays counterexamples of failed obligations and is the bounded stand-in where
the verifier cannot reach.  Every check is (generator of JSON-able cases, run(case)); run raises Bad."""
import contextlib
import io
import json
import os
import traceback
import warnings

import numpy as np

CHECKS = {}  # property -> [(name, gen, run)]


class Bad(Exception):
    """The contract does not hold on this input."""


class Skip(Exception):
    """This input does not decide the contract (e.g. a threshold is met up to rounding)."""


def check(props, name, gen):
    def deco(run):
        for p in props.split():
            CHECKS.setdefault(p, []).append((name, gen, run))
        return run

    return deco


def rng_of(case):
    return np.random.default_rng(int(case.get("seed", 0)))


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def close(a, b, what, rtol=1e-6, atol=1e-8):
    """agreement up to rounding; scale is that of the whole array."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    need(a.shape == b.shape, "%s: shape %s, expected %s" % (what, a.shape, b.shape))
    if a.size == 0:
        return
    fa, fb = np.isfinite(a), np.isfinite(b)
    need((fa == fb).all(), "%s: not finite: got %r, expected %r" % (what, _s(a), _s(b)))
    bad = (~fa) & ~((a == b) | (np.isnan(a) & np.isnan(b)))
    need(not bad.any(), "%s: got %r, expected %r" % (what, _s(a), _s(b)))
    a, b = np.where(fa, a, 0), np.where(fb, b, 0)
    sc = np.abs(b).max()
    err = np.abs(a - b).max()
    need(err <= atol + rtol * sc, "%s: differs by %.3g (scale %.3g): got %s, expected %s" % (what, err, sc, _s(a), _s(b)))


def _s(a):
    a = np.asarray(a)
    return np.array2string(a.ravel()[:6], precision=8) + ("" if a.size <= 6 else "... (%d entries)" % a.size)


@contextlib.contextmanager
def quiet():
    """collect warnings, swallow output."""
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("always")
        yield w


def frozen(*arrays):
    """snapshot for frame conditions."""
    return [(a, np.array(a, copy=True)) for a in arrays if isinstance(a, np.ndarray)]


def unchanged(snaps, what="argument"):
    for k, (a, b) in enumerate(snaps):
        need(np.array_equal(a, b, equal_nan=True) if a.dtype.kind in "fc" else np.array_equal(a, b), "%s %d was modified in place" % (what, k))


LAYOUTS = ("C", "F", "last", "strided", "rev")


def layout(a, how):
    """the same values in another memory layout."""
    if how in (None, "C"):
        return np.array(a, order="C")
    if how == "F":
        return np.array(a, order="F")
    if how == "last":  # leading axis stored last
        return np.moveaxis(np.array(np.moveaxis(a, 0, -1), order="C"), -1, 0)
    if how == "strided":
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],))
        b[..., ::2] = a
        return b[..., ::2]
    b = np.array(a[::-1], order="C")
    return b[::-1]


def spd(rng, d, cond=4.0):
    Q, _ = np.linalg.qr(rng.standard_normal((d, d)))
    w = np.exp(rng.uniform(-np.log(cond), np.log(cond), d) / 2)
    return (Q * w) @ Q.T


def cov(rng, d, n=None):
    """empirical covariance (full rank when n > d)."""
    n = 3 * d + 5 if n is None else n
    X = rng.standard_normal((n, d)) @ spd(rng, d)
    X = X - X.mean(0)
    return X.T @ X / n


def run_checks(prop, seed, tier, hints, budget=None, stop_first=True, only=None):
    """-> dict(cases, skipped, errors, failures)"""
    import time

    t0 = time.time()
    out = dict(cases=0, skipped=0, per_check={}, failures=[], errors=[])
    for name, gen, run in CHECKS.get(prop, []):
        if only and name not in only:
            continue
        rng = np.random.default_rng([seed, sum(map(ord, name))])
        cnt = 0
        for case in gen(rng, tier, hints.get(name, hints.get("*", {}))):
            if budget and time.time() - t0 > budget:
                out["errors"].append("time budget reached in %s" % name)
                break
            try:
                with quiet():
                    pass
                run(case)
                cnt += 1
            except Skip:
                out["skipped"] += 1
            except Bad as e:
                out["failures"].append(dict(check=name, case=case, detail=str(e)))
                if len([f for f in out["failures"] if f["check"] == name]) >= 1:
                    break
            except Exception as e:  # the real code raised where the contract promises a result
                tb = traceback.format_exc()
                if in_repo(tb):
                    out["failures"].append(dict(check=name, case=case, detail="raised %s: %s" % (type(e).__name__, e), tb=tb[-1500:]))
                    break
                out["errors"].append("%s: %s" % (name, tb[-800:]))
        out["cases"] += cnt
        out["per_check"][name] = cnt
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def in_repo(tb):
    """the exception came out of code under /repo (not from the harness itself)."""
    return (os.sep + "regain" + os.sep) in tb


def jd(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    raise TypeError(type(o))


def dumps(o):
    return json.dumps(o, default=jd)
