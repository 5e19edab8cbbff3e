"""Discharging obligations: ring normaliser, z3 (primary), cvc5 (second back end)."""
import subprocess
import tempfile
import time
import os
from fractions import Fraction

import z3

from . import terms as T

STATS = {"normaliser": 0, "z3": 0, "cvc5": 0, "unknown": 0, "refuted": 0, "solver_s": 0.0, "queries": 0}
OPTS = {"timeout_ms": 15000, "quick_ms": 1500, "budget_s": 30, "cvc5_cross": False}


class Translator:
    def __init__(self):
        self.cache = {}
        self.side = []  # z3 side constraints (definitions of sqrt etc.)
        self.atoms = {}  # key -> atom
        self.decl = {}
        self.atom_consts = {}

    def fn(self, name, n):
        k = (name, n)
        if k not in self.decl:
            self.decl[k] = z3.Function("%s/%d" % (name, n), *([z3.IntSort()] * n), z3.RealSort())
        return self.decl[k]

    def poly(self, p, want="R"):
        c = p.const()
        if c is not None:
            if want == "I":
                if c.denominator != 1:
                    raise T.Unsupported("non-integer index")
                return z3.IntVal(c.numerator)
            return z3.RealVal(c)
        k = (p.key, want)
        if k in self.cache:
            return self.cache[k]
        tot = []
        for m, co in p.t.items():
            if want == "I" and co.denominator != 1:
                raise T.Unsupported("non-integer coefficient in index")
            f = []
            den = []
            for a, e in m:
                x = self.atom(a, want)
                (f if e > 0 else den).extend([x] * abs(e))
            cv = z3.RealVal(co) if want == "R" else z3.IntVal(co.numerator)
            if f or den:
                t = None
                for x in f:
                    t = x if t is None else t * x
                if t is None:
                    t = cv
                elif co != 1:
                    t = cv * t
                for x in den:
                    if want == "I":
                        raise T.Unsupported("division in index")
                    t = t / x
            else:
                t = cv
            tot.append(t)
        r = tot[0]
        for t in tot[1:]:
            r = r + t
        self.cache[k] = r
        return r

    def atom(self, a, want="R"):
        k = (a.key, want)
        if k in self.cache:
            return self.cache[k]
        self.atoms[a.key] = a
        kind, d = a.kind, a.data
        if kind == "sym":
            if d[1] == T.INT:
                r = z3.Int(d[0])
                if want == "R":
                    r = z3.ToReal(r)
            else:
                r = z3.Real(d[0])
                if want == "I":
                    raise T.Unsupported("real used as index")
        elif kind == "app":
            r = self.fn(d[0], len(d[1]))(*[self.poly(i, "I") for i in d[1]]) if d[1] else z3.Real(d[0] + "/0")
            if want == "I":
                r = z3.ToInt(r)
        elif kind == "ite":
            r = z3.If(self.bool(d[0]), self.poly(d[1], want), self.poly(d[2], want))
        elif kind == "paren":
            r = self.poly(d[0], want)
        elif kind == "abs":
            x = self.poly(d[0], want)
            r = z3.If(x >= 0, x, -x)
        elif kind == "sign":
            x = self.poly(d[0])
            r = z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))
        elif kind == "max":
            x, y = self.poly(d[0], want), self.poly(d[1], want)
            r = z3.If(x >= y, x, y)
        elif kind == "sqrt":
            x = self.poly(d[0])
            r = z3.Real("sqrt{%s}" % a.key)
            self.side.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
            self.side.append(z3.Implies(x > 0, r > 0))
        elif kind == "exp":
            x = self.poly(d[0])
            f = z3.Function("exp", z3.RealSort(), z3.RealSort())
            r = f(x)
            self.side.append(r > 0)
        elif kind == "log":
            x = self.poly(d[0])
            f = z3.Function("log", z3.RealSort(), z3.RealSort())
            r = f(x)
        elif kind == "idiv":
            x, y = self.poly(d[0], "I"), self.poly(d[1], "I")
            r = x / y
            if want == "R":
                r = z3.ToReal(r)
        elif kind == "mod":
            x, y = self.poly(d[0], "I"), self.poly(d[1], "I")
            r = x % y
            if want == "R":
                r = z3.ToReal(r)
        elif kind in ("skip", "unskip"):
            x, y = self.poly(d[0], "I"), self.poly(d[1], "I")
            r = z3.If(x < y, x, x + 1) if kind == "skip" else z3.If(x < y, x, x - 1)
            if want == "R":
                r = z3.ToReal(r)
        elif kind == "sum":
            r = z3.Real("sum{%s}" % a.key)
            if nonneg_syntactic(d[2]):
                self.side.append(r >= 0)
            if want == "I":
                r = z3.ToInt(r)
        elif kind == "fapp":
            sc = [x for x in d[1] if isinstance(x, T.Poly)]
            la = [x for x in d[1] if not isinstance(x, T.Poly)]
            nm = "F:%s{%s}" % (d[0], ",".join(x.key for x in la))
            if a.sort == T.INT:
                if sc:
                    f = z3.Function(nm + "/%d" % len(sc), *([z3.RealSort()] * len(sc)), z3.IntSort())
                    r = f(*[self.poly(x) for x in sc])
                else:
                    r = z3.Int(nm)
                if want == "R":
                    r = z3.ToReal(r)
            else:
                if sc:
                    f = z3.Function(nm + "/%d" % len(sc), *([z3.RealSort()] * len(sc)), z3.RealSort())
                    r = f(*[self.poly(x) for x in sc])
                else:
                    r = z3.Real(nm)
                if want == "I":
                    r = z3.ToInt(r)
        else:
            raise T.Unsupported("translate " + kind)
        self.cache[k] = r
        return r

    def bool(self, b):
        k = ("b", b.key)
        if k in self.cache:
            return self.cache[k]
        o = b.op
        if o == "true":
            r = z3.BoolVal(True)
        elif o == "false":
            r = z3.BoolVal(False)
        elif o in ("le", "lt", "eq"):
            p = b.args[0]
            ints = all(a.sort == T.INT for m in p.t for a, _ in m) and all(
                c.denominator == 1 for c in p.t.values()
            )
            # split positive and negative parts for readability of models
            x = self.poly(p, "I" if ints else "R")
            r = x <= 0 if o == "le" else (x < 0 if o == "lt" else x == 0)
        elif o == "and":
            r = z3.And([self.bool(x) for x in b.args])
        elif o == "or":
            r = z3.Or([self.bool(x) for x in b.args])
        elif o == "not":
            r = z3.Not(self.bool(b.args[0]))
        elif o == "bapp":
            sc = [x for x in b.args[1] if isinstance(x, T.Poly)]
            la = [x for x in b.args[1] if not isinstance(x, T.Poly)]
            nm = "B:%s{%s}" % (b.args[0], ",".join(x.key for x in la))
            if sc:
                f = z3.Function(nm, *([z3.RealSort()] * len(sc)), z3.BoolSort())
                r = f(*[self.poly(x) for x in sc])
            else:
                r = z3.Bool(nm)
        elif o == "all":
            r = z3.Bool("ALL{%s}" % b.args[0].key)
            self.atoms["ALL" + b.args[0].key] = b
        else:
            raise T.Unsupported("translate bool " + o)
        self.cache[k] = r
        return r


def nonneg_syntactic(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0:
                continue
            if a.kind in ("abs", "sqrt", "exp"):
                continue
            if a.kind == "ite" and nonneg_syntactic(a.data[1]) and nonneg_syntactic(a.data[2]):
                continue
            if a.kind == "max" and (nonneg_syntactic(a.data[0]) or nonneg_syntactic(a.data[1])):
                continue
            if a.kind == "sum" and nonneg_syntactic(a.data[2]):
                continue
            return False
    return True


def walk_atoms(t, seen):
    """All atoms reachable (not under binders)."""
    if isinstance(t, T.Poly):
        for m in t.t:
            for a, _ in m:
                if a.key in seen:
                    continue
                seen[a.key] = a
                if a.kind in ("sum",):
                    for d in a.data[1]:
                        walk_atoms(d, seen)
                    continue
                if a.kind == "app":
                    for i in a.data[1]:
                        walk_atoms(i, seen)
                elif a.kind == "fapp":
                    for i in a.data[1]:
                        if isinstance(i, T.Poly):
                            walk_atoms(i, seen)
                elif a.kind == "sym":
                    pass
                else:
                    for i in a.data:
                        walk_atoms(i, seen)
    elif isinstance(t, T.Bool):
        for x in t.args:
            if isinstance(x, (T.Poly, T.Bool)):
                walk_atoms(x, seen)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T.Poly):
                        walk_atoms(y, seen)


class Result:
    def __init__(self, status, backend, model=None, detail="", secs=0.0):
        self.status, self.backend, self.model, self.detail, self.secs = status, backend, model, detail, secs

    @property
    def ok(self):
        return self.status == "proved"


class Theory:
    """Facts with triggers: base array symbol / function symbol -> fact makers."""

    def __init__(self):
        self.app_facts = {}  # f -> list of fn(*idx)->Bool
        self.fapp_facts = {}  # name -> list of fn(*args)->Bool
        self.globals = []  # Bool

    def instantiate(self, roots, rounds=3):
        seen_inst = set()
        out = []
        work = list(roots)
        for _ in range(rounds):
            atoms = {}
            for t in work:
                walk_atoms(t, atoms)
            new = []
            for a in list(atoms.values()):
                if a.kind == "app":
                    for n, f in enumerate(self.app_facts.get(a.data[0], ())):
                        k = ("a", a.data[0], n, tuple(i.key for i in a.data[1]))
                        if k in seen_inst:
                            continue
                        seen_inst.add(k)
                        r = f(*a.data[1])
                        new.extend(r if isinstance(r, (list, tuple)) else [r])
                elif a.kind == "fapp":
                    for n, f in enumerate(self.fapp_facts.get(a.data[0], ())):
                        k = ("f", a.data[0], n, a.key)
                        if k in seen_inst:
                            continue
                        seen_inst.add(k)
                        r = f(*a.data[1])
                        new.extend(r if isinstance(r, (list, tuple)) else [r])
            new = [x for x in new if x.op != "true"]
            if not new:
                break
            out.extend(new)
            work = new
            if len(out) > 400:
                break
        return out


def index_ranges(ts):
    """0<=i<dim facts for the free index symbols of ts."""
    out = []
    done = set()
    work = set()
    for t in ts:
        work |= set(t.fv)
    while work:
        n = work.pop()
        if n in done:
            continue
        done.add(n)
        if n in T.RANGE:
            d = T.RANGE[n]
            s = T.sym(n, T.INT)
            out.append(T.le(T.ZERO, s))
            out.append(T.lt(s, d))
            work |= set(d.fv)
    return out


class Late(Exception):
    pass


DEADLINE = [None]


def attempt(goal, hyps, theory, budget):
    """prove with a wall-clock budget: what is not settled in time is unknown."""
    t0 = time.time()
    DEADLINE[0] = t0 + budget
    try:
        return prove(goal, hyps, theory)
    except Late:
        STATS["unknown"] += 1
        return Result("unknown", "time budget", secs=time.time() - t0)
    finally:
        DEADLINE[0] = None


def _run_z3(hyps, goal, timeout):
    """hyps: list Bool; goal Bool.  Returns (status, model, smt2)."""
    if DEADLINE[0] is not None:
        left = DEADLINE[0] - time.time()
        if left < 0:
            raise Late()
        timeout = max(100, min(timeout, int(left * 1000)))
    tr = Translator()
    g = tr.bool(goal)
    hs = [tr.bool(h) for h in hyps]
    s = z3.Solver()
    s.set("timeout", timeout)
    s.set("random_seed", 1)
    for h in hs:
        s.add(h)
    s.add(z3.Not(g))
    n = 0
    while n < len(tr.side):
        s.add(tr.side[n])
        n += 1
    t0 = time.time()
    r = s.check()
    STATS["solver_s"] += time.time() - t0
    STATS["queries"] += 1
    if r == z3.unsat:
        return "proved", None, s, tr
    if r == z3.sat:
        return "refuted", s.model(), s, tr
    return "unknown", None, s, tr


def _run_cvc5(smt2, timeout):
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt2)
        name = f.name
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, name], capture_output=True, text=True, timeout=timeout / 1000 + 10)
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(name)
        STATS["solver_s"] += time.time() - t0
        STATS["queries"] += 1


def abstract_divisions(hyps, goal):
    return hyps, goal


def _clear_denominators(goal, hyps, theory):
    """p = 0  <=>  q^e p = 0  for a denominator q != 0 (which is proved)."""
    p = goal.args[0]
    for _ in range(4):
        best = None
        for m in p.t:
            for a, e in m:
                if a.kind == "paren" and e < 0:
                    if best is None or e < best[1] or (e == best[1] and a.key < best[0].key):
                        best = (a, e)
        if best is None:
            break
        a, e = best
        q = a.data[0]
        if not nonneg_syntactic(q) or q.t.get((), 0) <= 0:
            if not prove(T.ne(q, T.ZERO), hyps, theory, 1500, False, 0, 2).ok:
                break
        out = []
        for m, co in p.t.items():
            k = 0
            rest = []
            for b, f in m:
                if b.key == a.key:
                    k = f
                else:
                    rest.append((b, f))
            out.append(T.mul(T.Poly({tuple(rest): co}), T.power(q, k - e)))
        p = T.add(*out)
    if p is goal.args[0]:
        return goal
    return T.eq(p, T.ZERO)


def _index_cond(t):
    """An if-then-else condition over integer indices occurring (outside binders and index positions) in t."""
    best = [None]
    seen = set()

    def poly(p):
        for m in p.t:
            for a, _ in m:
                if a.key in seen or not T._has_ite(a):
                    continue
                seen.add(a.key)
                if a.kind == "ite":
                    c = a.data[0]
                    if c.op in ("eq", "le", "lt") and _intlin(c.args[0]):
                        k = (c.op != "eq", len(c.args[0].t), c.key)
                        if best[0] is None or k < best[0][0]:
                            best[0] = (k, c)
                for x in a.data:
                    if isinstance(x, T.Poly):
                        poly(x)

    poly(t.args[0])
    return best[0] and best[0][1]


def _intlin(p):
    for m in p.t:
        if len(m) > 1 or any(e != 1 or a.kind != "sym" or a.sort != T.INT for a, e in m):
            return False
    return True


def _case_split(goal, c, hyps, theory, timeout, use_cvc5, depth, split):
    last = None
    lin0 = [x for x in hyps if x.op in ("le", "lt", "eq") and _intlin(x.args[0])]
    feas = []
    for v in (True, False):
        h = c if v else T.bnot(c)
        lin = lin0 + [h]
        st, _, _, _ = _run_z3(lin + index_ranges([goal] + lin), T.FALSE, 1500)
        if st != "proved":
            feas.append(v)
    nsplit = split - (len(feas) > 1)
    for v in feas:
        h = c if v else T.bnot(c)
        g2 = T.assign(goal, c, v)
        h2 = hyps + [h]
        if v and c.op == "eq":
            for s in sorted(c.args[0].fv, key=lambda z: (not z.startswith("sk"), z)):
                t = T.solve_linear(c.args[0], s)
                if t is not None:
                    g2 = T.subst(g2, {s: t})
                    # keep the hypotheses: they still mention s, linked by h
                    h2 = [T.subst(x, {s: t}) if s in x.fv else x for x in hyps]
                    r = T.RANGE.get(s)
                    if r is not None:
                        h2 = h2 + [T.le(T.ZERO, t), T.lt(t, T.subst(r, {s: t}))]
                    break
        r = prove(g2, h2, theory, timeout, use_cvc5, depth, nsplit)
        if not r.ok:
            return r
        last = r
    return last or Result("proved", "normaliser")


def prove(goal, hyps, theory=None, timeout=None, use_cvc5=True, depth=2, split=8):
    """Try to prove hyps |- goal."""
    t0 = time.time()
    if goal.op == "true":
        STATS["normaliser"] += 1
        return Result("proved", "normaliser")
    if goal.op == "and":
        worst = None
        for g in goal.args:
            r = prove(g, hyps, theory, timeout, use_cvc5, depth)
            if not r.ok:
                return r
            worst = r if worst is None or r.backend != "normaliser" else worst
        return worst
    # open universally quantified goals
    if goal.op == "all":
        L = goal.args[0]
        tmp = [T.fresh_name("sk") for _ in L.bv]
        for t, d in zip(tmp, L.dims):
            T.RANGE[t] = d
        return prove(L.open([T.sym(t, T.INT) for t in tmp]), hyps, theory, timeout, use_cvc5, depth)
    hyps = list(hyps)
    if goal.op == "eq":
        g2 = _clear_denominators(goal, hyps, theory)
        if g2 is not goal:
            if g2.op == "true":
                STATS["normaliser"] += 1
                return Result("proved", "normaliser", secs=time.time() - t0)
            goal = g2
    if goal.op == "eq" and split > 0:
        c = _index_cond(goal)
        if c is not None:
            r = _case_split(goal, c, hyps, theory, timeout, use_cvc5, depth, split)
            if r is not None and r.ok:
                return r
    qh = [h for h in hyps if h.op == "all"]
    hyps = [h for h in hyps if h.op != "all"]
    roots = [goal] + hyps
    inst = theory.instantiate(roots) if theory else []
    gl = theory.globals if theory else []
    allh = hyps + inst + list(gl)
    allh = _relevant(goal, allh)
    rng = index_ranges([goal] + allh)
    H = allh + rng
    status, model, s, tr = _run_z3(H, goal, timeout or OPTS["timeout_ms"])
    if status == "proved":
        STATS["z3"] += 1
        return Result("proved", "z3", secs=time.time() - t0)
    facts = log_facts(goal, H)
    if facts:
        H = H + facts
        st2, model2, s2, tr2 = _run_z3(H, goal, timeout or OPTS["timeout_ms"])
        if st2 == "proved":
            STATS["z3"] += 1
            return Result("proved", "z3", secs=time.time() - t0)
        status, model, s, tr = st2, model2, s2, tr2
    # congruence on sums / lambdas
    for level in (1, 2):
        if depth < level:
            break
        extra = congruence(goal, H, theory, depth, level)
        if extra:
            st2, model2, s2, tr2 = _run_z3(H + extra, goal, timeout or OPTS["timeout_ms"])
            if st2 == "proved":
                STATS["z3"] += 1
                return Result("proved", "z3", secs=time.time() - t0)
            status, model, s, tr = st2, model2, s2, tr2
    if status == "unknown" and use_cvc5:
        r = _run_cvc5(s.to_smt2(), timeout or OPTS["timeout_ms"])
        if r == "unsat":
            STATS["cvc5"] += 1
            return Result("proved", "cvc5", secs=time.time() - t0)
    STATS["unknown" if status == "unknown" else "refuted"] += 1
    return Result(status, "z3", model=model, secs=time.time() - t0)


def _relevant(goal, hyps):
    """Cone of influence on atoms (keeps queries small); sound: drops hyps."""
    def names(t):
        at = {}
        walk_atoms(t, at)
        return {k for k, a in at.items() if a.kind in ("sym", "app", "sum", "fapp", "sqrt")} | {
            "f:" + a.data[0] for a in at.values() if a.kind == "app"
        }

    cone = names(goal)
    rest = [(h, names(h)) for h in hyps]
    out = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for h, ns in rest:
            if ns & cone or not ns:
                out.append(h)
                if not ns <= cone:
                    cone |= ns
                    changed = True
            else:
                nxt.append((h, ns))
        rest = nxt
    return out


def _norm_log(p, conds):
    """log p as a sum of logarithms of its factors (valid under `conds`, which are appended)."""
    if not p.t:
        return None
    ms = [dict(m) for m in p.t]
    common = {}
    for a in ms[0]:
        e = [m.get(a, 0) for m in ms]
        if min(e) > 0:
            common[a] = min(e)
        elif max(e) < 0:
            common[a] = max(e)
    for m in ms:  # negative exponents: common denominator
        for a, e in m.items():
            if e < 0 and a not in common:
                common[a] = min(x.get(a, 0) for x in ms)
    mono = T.ONE
    for a, e in common.items():
        f = T.patom(a)
        for _ in range(abs(int(e))):
            mono = T.mul(mono, f if e < 0 else T.inv(f))
    q = T.mul(p, mono)
    lead = q.t[min(q.t, key=T._monokey)]
    q = T.scale(q, 1 / abs(lead))
    out = _log_const(abs(lead))
    if q.const() is None:
        conds.append(T.lt(T.ZERO, q))
        out = T.add(out, T.log(q))
    elif q.const() < 0:
        return None
    for a, e in common.items():
        if a.kind == "sqrt":
            conds.append(T.lt(T.ZERO, a.data[0]))
            l = _norm_log(a.data[0], conds)
            if l is None:
                return None
            out = T.add(out, T.scale(l, Fraction(int(e), 2)))
        elif a.kind == "exp":
            out = T.add(out, T.scale(a.data[0], Fraction(int(e))))
        else:
            conds.append(T.lt(T.ZERO, T.patom(a)))
            out = T.add(out, T.scale(T.log(T.patom(a)), Fraction(int(e))))
    return out


def _log_const(c):
    out = T.ZERO
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        f = 2
        while f * f <= n and f < 1000:
            while n % f == 0:
                out = T.add(out, T.scale(T.log(T.num(f)), Fraction(s)))
                n //= f
            f += 1
        if n > 1:
            out = T.add(out, T.scale(T.log(T.num(n)), Fraction(s)))
    return out


def log_facts(goal, H=()):
    """laws of the logarithm for the logarithms of the goal and the hypotheses."""
    at = {}
    walk_atoms(goal, at)
    for h in H:
        walk_atoms(h, at)
    out = []
    for a in [a for a in at.values() if a.kind == "log"][:24]:
        conds = []
        n = _norm_log(a.data[0], conds)
        if n is not None and n != T.patom(a):
            out.append(T.implies(T.band(*conds), T.eq(T.patom(a), n)))
    return out


def congruence(goal, H, theory, depth, level=1):
    """Derive equalities between sum/lambda atoms of the goal by pointwise proof."""
    at = {}
    walk_atoms(goal, at)
    for h in H:
        walk_atoms(h, at)
    extra = []
    # 1. goal p == 0 linear in sums: combine and prove the summand is zero
    if goal.op == "eq":
        p = goal.args[0]
        groups = {}
        ok = True
        for m, c in p.t.items():
            sums = [(a, e) for a, e in m if a.kind == "sum"]
            if len(sums) == 1 and sums[0][1] == 1:
                a = sums[0][0]
                co = T.Poly({tuple(x for x in m if x[0] is not a and x[0] != a): c})
                groups.setdefault(tuple(d.key for d in a.data[1]), []).append((a, co))
        if groups:
            for dk, lst in groups.items():
                a0 = lst[0][0]
                import itertools

                # binders of equal range may be exchanged: try the alignments
                tmp = [T.fresh_name("k") for _ in a0.data[0]]
                for t, d in zip(tmp, a0.data[1]):
                    T.RANGE[t] = d
                for ps in itertools.islice(itertools.product(*[_perms(a.data[1]) for a, _ in lst[1:]]), 48 if level > 1 else 1):
                    body = T.ZERO
                    for (a, co), pm in zip(lst, ((range(len(tmp)),) + tuple(ps))):
                        b = T.subst(a.data[2], {v: T.sym(tmp[q], T.INT) for v, q in zip(a.data[0], pm)})
                        body = T.add(body, T.mul(co, b))
                    r = prove(T.eq(body, T.ZERO), H, theory, OPTS["quick_ms"] * 4, False, depth - 1)
                    if r.ok:
                        extra.append(T.eq(T.add(*[T.mul(co, T.patom(a)) for a, co in lst]), T.ZERO))
                        break
            # leftover terms may be the value of the summand at one index: R = sum_b [b == x] R
            if len(groups) == 1 and level > 1:
                (lst,) = groups.values()
                used_ = T.add(*[T.mul(co, T.patom(a)) for a, co in lst])
                R = T.sub(p, used_)
                a0 = lst[0][0]
                if R.t and R.const() is None and len(a0.data[0]) == 1 and not any(x.kind == "sum" for x in R.atoms()):
                    d0 = a0.data[1][0]
                    tmp = T.fresh_name("k")
                    T.RANGE[tmp] = d0
                    kk = T.sym(tmp, T.INT)
                    body = T.add(*[T.mul(co, T.subst(a.data[2], {a.data[0][0]: kk})) for a, co in lst])
                    for x in sorted(R.fv):
                        if x in T.RANGE and T.RANGE[x].key == d0.key:
                            g2 = T.eq(T.add(body, T.ite(T.eq(kk, T.sym(x, T.INT)), R, T.ZERO)), T.ZERO)
                            if prove(g2, H, theory, OPTS["quick_ms"] * 4, False, depth - 1).ok:
                                extra.append(goal)
                                break
    # 2. pairs of fapps with same function: pointwise equal lambda args
    fapps = [a for a in at.values() if a.kind == "fapp" and any(isinstance(x, T.Lam) for x in a.data[1])]
    by = {}
    for a in fapps:
        by.setdefault((a.data[0], len(a.data[1])), []).append(a)
    for lst in by.values():
        if len(lst) > 8:
            continue
        for i in range(len(lst)):
            for j in range(i):
                if _args_equal(lst[i], lst[j], H, theory, depth):
                    extra.append(T.eq(T.patom(lst[i]), T.patom(lst[j])))
    # unary functions of sums: equal arguments
    for kind in ("sqrt", "log", "exp"):
        un = [a for a in at.values() if a.kind == kind and any(x.kind in ("sum", "fapp") for x in a.data[0].atoms())]
        if 2 <= len(un) <= 5 and depth > 0 and level > 1:
            for i in range(len(un)):
                for j in range(i):
                    if prove(T.eq(un[i].data[0], un[j].data[0]), H, theory, OPTS["quick_ms"] * 4, False, depth).ok:
                        extra.append(T.eq(T.patom(un[i]), T.patom(un[j])))
    # 3. pairs of sums with same dims
    sums = [a for a in at.values() if a.kind == "sum"]
    if len(sums) <= 10:
        for i in range(len(sums)):
            for j in range(i):
                a, b = sums[i], sums[j]
                if [d.key for d in a.data[1]] != [d.key for d in b.data[1]]:
                    continue
                tmp = [T.fresh_name("k") for _ in a.data[0]]
                for t, d in zip(tmp, a.data[1]):
                    T.RANGE[t] = d
                ba = T.subst(a.data[2], {v: T.sym(t, T.INT) for v, t in zip(a.data[0], tmp)})
                for pm in _perms(b.data[1])[: 48 if level > 1 else 1]:
                    bb = T.subst(b.data[2], {v: T.sym(tmp[q], T.INT) for v, q in zip(b.data[0], pm)})
                    if not (ba.syms & bb.syms):
                        break
                    if prove(T.eq(ba, bb), H, theory, OPTS["quick_ms"], False, 0).ok:
                        extra.append(T.eq(T.patom(a), T.patom(b)))
                        break
    return extra


def _perms(dims):
    """rearrangements of the binders that keep every range (identity first)."""
    import itertools

    n = len(dims)
    cls = {}
    for k, d in enumerate(dims):
        cls.setdefault(d.key, []).append(k)
    cnt = 1
    for v in cls.values():
        for j in range(2, len(v) + 1):
            cnt *= j
    if cnt > 48:
        return [tuple(range(n))]
    out = []
    for ps in itertools.product(*[list(itertools.permutations(v)) for v in cls.values()]):
        q = [None] * n
        for v, pv in zip(cls.values(), ps):
            for k, t in zip(v, pv):
                q[k] = t
        out.append(tuple(q))
    return sorted(out)


def _args_equal(a, b, H, theory, depth):
    for x, y in zip(a.data[1], b.data[1]):
        if isinstance(x, T.Poly) != isinstance(y, T.Poly):
            return False
        if x.key == y.key:
            continue
        if isinstance(x, T.Poly):
            if not prove(T.eq(x, y), H, theory, OPTS["quick_ms"], False, 0).ok:
                return False
            continue
        if len(x.dims) != len(y.dims):
            return False
        for d, e in zip(x.dims, y.dims):
            if d.key != e.key and not prove(T.eq(d, e), H, theory, OPTS["quick_ms"], False, 0).ok:
                return False
        tmp = [T.fresh_name("k") for _ in x.bv]
        for t, d in zip(tmp, x.dims):
            T.RANGE[t] = d
        ii = [T.sym(t, T.INT) for t in tmp]
        bx, by_ = x.open(ii), y.open(ii)
        g = T.eq(bx, by_) if isinstance(bx, T.Poly) else T.iff(bx, by_)
        if not prove(g, H, theory, OPTS["quick_ms"], False, depth - 1).ok:
            return False
    return True


def model_hints(model):
    """Scalar values of the model, for input generation."""
    if model is None:
        return {}
    out = {}
    for d in model.decls():
        if d.arity() == 0:
            v = model[d]
            try:
                if z3.is_int_value(v):
                    out[d.name()] = v.as_long()
                elif z3.is_rational_value(v):
                    out[d.name()] = float(v.as_fraction())
                elif z3.is_algebraic_value(v):
                    out[d.name()] = float(v.approx(10).as_fraction())
            except Exception:
                pass
    return out
