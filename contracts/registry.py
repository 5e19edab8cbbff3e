"""Units of verification: a contract for one function, with the contracts its callees are replaced by."""
UNITS = {}


class Unit:
    def __init__(self, name, mod, fn, case, stubs=None, thorough=False, max_s=240, also=()):
        self.name, self.mod, self.fn, self.case = name, mod, fn, case
        self.stubs, self.thorough, self.max_s, self.also = stubs or {}, thorough, max_s, tuple(also)


def unit(name, mod, fn, stubs=None, **k):
    def deco(case):
        if name in UNITS:
            raise KeyError(name)
        UNITS[name] = Unit(name, mod, fn, case, stubs, **k)
        return case

    return deco


def add(name, mod, fn, case, stubs=None, **k):
    UNITS[name] = Unit(name, mod, fn, case, stubs, **k)


def run_unit(name, repo=None, keep=None):
    """Execute one unit; returns a JSON-able record."""
    import time

    from vc import terms as T
    from vc import npshim as NS
    from vc import prover
    from vc.engine import Runner
    from vc.loader import Loader

    u = UNITS[name]
    t0 = time.time()
    T.reset()
    NS.ASSUMED.clear()
    rec = dict(unit=name, function="%s.%s" % (u.mod, u.fn), obligations=[], unsupported=[], paths=0, secs=0.0)
    try:
        L = Loader(repo=repo, contracts=dict(u.stubs))
        fn = L.func(u.mod, u.fn) if u.fn else None
    except Exception as e:
        rec["unsupported"].append("load: %s: %s" % (type(e).__name__, e))
        rec["secs"] = time.time() - t0
        return rec

    def case(c):
        c.fn, c.L = fn, L
        u.case(c)

    R = Runner(name, case, max_s=u.max_s)
    R.keep = keep  # obligations that decide another property are not attempted
    R.run()
    rec["paths"] = R.paths
    rec["unsupported"] = [str(x) for x in R.unsupported]
    if not rec["unsupported"] and (not R.live or not (R.obls or R.skipped)):
        rec["unsupported"].append("vacuous: no feasible path / no obligation")
    rec["assumed"] = sorted(NS.ASSUMED)
    rec["contracts_used"] = sorted(u.stubs)
    for o in R.obls:
        d = dict(name=o.name, status=o.status, backend=o.backend, secs=round(o.secs, 3), path=o.path)
        if o.status != "proved":
            d["goal"] = str(o.goal)[:1500]
            d["hints"] = o.hints
        rec["obligations"].append(d)
    rec["secs"] = round(time.time() - t0, 2)
    return rec
