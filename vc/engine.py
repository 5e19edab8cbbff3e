"""Symbolic execution of the real functions against contracts."""
import time
import traceback

from . import terms as T
from . import prover
from .arrays import (CTX, SArr, SNum, SBool, Buffer, P, B, wrap, as_arr, idx_syms, INT, REAL, Masked, memo)
from .terms import Poly, Bool, Unsupported
from .seq import SymSeq, SRange, is_symbolic, as_seq


class PathEnd(BaseException):
    """This path is finished (invariant cut)."""


class Restart(BaseException):
    """Re-run with more loop information: everything, or (prefix given) only the path with these choices."""

    def __init__(self, prefix=None):
        self.prefix = prefix


class OpaqueList(list):
    """A list with an unknown prefix (loop-carried history)."""

    def __init__(self, name):
        super().__init__()
        self.name = name


class Undefined:
    def __init__(self, name):
        self.name = name

    def _f(self, *a, **k):
        raise Unsupported("value of %s after/at a cut loop is not tracked" % self.name)

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __getitem__ = __call__ = __bool__ = __iter__ = _f

    def __getattr__(self, a):
        raise Unsupported("value of %s after/at a cut loop is not tracked" % self.name)


class Obligation:
    def __init__(self, name, status, backend, goal, hints=None, secs=0.0, path=""):
        self.name, self.status, self.backend, self.goal = name, status, backend, goal
        self.hints, self.secs, self.path = hints or {}, secs, path


class Ctx:
    def __init__(self, runner, prefix):
        self.runner = runner
        self.prefix = list(prefix)
        self.taken = []
        self.path = []
        self.theory = prover.Theory()
        self.local = None
        self.generic = []  # generic index symbols in scope (Poly)
        self.warnings = []
        self.prints = []
        self.written = []  # labelled buffers written
        self.watch = []  # stack of (marker id, set) for loops
        self.contract_depth = 0
        self.break_state = None
        self.loop_cuts = []
        self.loop_spec = None
        self.divs = {}
        self.check_div = True
        self.extra = {}
        self.left_loop, self.open_loops = [], []
        self.entail_cache = {}
        self.eigh_cache = {}
        self.rng = 0

    # ----------------------------------------------------------- symbols
    def int(self, name, lo=None, hi=None):
        s = T.sym(name, INT)
        if lo is not None:
            self.assume(T.le(P(lo), s))
        if hi is not None:
            self.assume(T.le(s, P(hi)))
        return SNum(s, True)

    def real(self, name, pos=False, nonneg=False):
        s = T.sym(name, REAL)
        if pos:
            self.assume(T.lt(T.ZERO, s))
        if nonneg:
            self.assume(T.le(T.ZERO, s))
        return SNum(s)

    def array(self, name, shape, symmetric=False, label=None, dtype="f"):
        g = tuple(self.generic)
        if symmetric:
            T.SYMMETRIC[name] = True
        a = SArr.make([P(d) for d in shape], lambda i: T.app(name, g + tuple(i)), dtype, label)
        return a

    def fresh_array(self, base, shape, symmetric=False, dtype="f"):
        return self.array(T.fresh_name(base), shape, symmetric, dtype=dtype)

    def fresh_real(self, base):
        n = T.fresh_name(base)
        if self.generic:
            return wrap(T.app(n, tuple(self.generic)))
        return wrap(T.sym(n, REAL))

    # ----------------------------------------------------------- logic
    def assume(self, b):
        b = B(b)
        if b.op == "true":
            return
        self.path.append(b)

    def fact(self, fname, fn):
        """forall idx: fn(*idx); instantiated on occurrences of fname[g..., idx]."""
        gs = [next(iter(g.fv)) for g in self.generic]
        if gs:
            k = len(gs)

            def f(*idx, fn=fn):
                r = fn(*idx[k:])
                m = dict(zip(gs, idx[:k]))
                if isinstance(r, (list, tuple)):
                    return [T.subst(x, m) for x in r]
                return T.subst(r, m)

            self.theory.app_facts.setdefault(fname, []).append(f)
        else:
            self.theory.app_facts.setdefault(fname, []).append(fn)

    def ffact(self, fname, fn):
        self.theory.fapp_facts.setdefault(fname, []).append(fn)

    def abstract_count(self, p):
        """a name for a count (sum of 0/1 terms): only its non-negativity is used until concrete_counts."""
        tab = self.extra["abstract_counts"]
        for n, q in tab.items():
            if q == p:
                return SNum(T.sym(n, REAL), True)
        n = T.fresh_name("cnt")
        tab[n] = p
        self.assume(T.le(T.ZERO, T.sym(n, REAL)))
        return SNum(T.sym(n, REAL), True)

    def concrete_counts(self, p):
        return T.subst(p, dict(self.extra["abstract_counts"]))

    def hyps(self):
        return self.path

    def entails(self, b):
        b = B(b)
        if b.op == "true":
            return True
        if b.op == "false":
            return False
        k = (b.key, len(self.path))
        r = self.entail_cache.get(k)
        if r is None:
            for h in self.path:
                if h.key == b.key:
                    r = True
                    break
            if r is None:
                r = self._sat(T.bnot(b)) == "unsat"
            self.entail_cache[k] = r
        return r

    def _sat(self, b, timeout=None):
        """sat/unsat/unknown of path /\\ b."""
        inst = self.theory.instantiate([b] + self.path, rounds=2)
        hyp = [h for h in self.path + inst + self.theory.globals if h.op != "all"]
        rel = prover._relevant(b, hyp)
        H = rel + prover.index_ranges([b] + rel)
        try:
            st, model, s, tr = prover._run_z3(H, T.bnot(b), timeout or prover.OPTS["quick_ms"])
        except Unsupported:
            return "unknown"
        return {"proved": "unsat", "refuted": "sat", "unknown": "unknown"}[st]

    def decide(self, b):
        # fork
        L = self.local
        if L is not None and L.get("auto") is not None and L["auto"] not in b.fv:
            L = None  # loop body: only conditions on the loop index are merged
        if L is not None:
            i = len(L["taken"])
            if i < len(L["prefix"]):
                v = L["prefix"][i]
            else:
                if self.entails(b):
                    return True
                if self.entails(T.bnot(b)):
                    return False
                v = True
                L["alts"].append(L["taken"] + [False])
            L["taken"].append(v)
            c = b if v else T.bnot(b)
            L["conds"].append(c)
            self.path.append(c)
            return v
        if self.generic:
            if self.entails(b):
                return True
            if self.entails(T.bnot(b)):
                return False
            gs = set()
            for g in self.generic:
                gs |= g.fv
            if b.fv & gs:
                raise Unsupported("branch on a loop-index dependent condition")
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            if v == "T!":
                v = True
            elif v == "F!":
                v = False
        else:
            if self.entails(b):
                v = "T!"
            elif self.entails(T.bnot(b)):
                v = "F!"
            else:
                v = True
                self.runner.schedule(self.taken + [False])
            if v in ("T!", "F!"):
                self.taken.append(v)
                return v == "T!"
        if i < len(self.prefix) and self.prefix[i] in ("T!", "F!"):
            self.taken.append(self.prefix[i])
            return self.prefix[i] == "T!"
        self.taken.append(v)
        self.path.append(b if v else T.bnot(b))
        return v

    def choice(self, n):
        """Non-deterministic choice among n alternatives."""
        if n <= 1:
            return 0
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for j in range(1, n):
                self.runner.schedule(self.taken + [j])
        self.taken.append(v)
        return v

    def prove(self, name, goal, hint=None, hyps=()):
        """Record an obligation."""
        if self.runner.keep is not None and not self.runner.keep(name):
            self.runner.skipped += 1
            return True
        goal = B(goal)
        try:
            r = prover.attempt(goal, list(self.path) + [B(h) for h in hyps], self.theory, self.runner.budget())
            st, be, model = r.status, r.backend, r.model
            secs = r.secs
        except Unsupported as e:
            st, be, model, secs = "unsupported", str(e), None, 0
        o = Obligation(name, st, be, goal, prover.model_hints(model) if model is not None else {}, secs, self.pathname())
        self.runner.record(o)
        return st == "proved"

    def prove_all(self, name, shape, fn, hyps=()):
        """forall indices in shape: fn(*idx)."""
        ok = True
        for idx in _index_cases([P(d) for d in shape]):
            ok = self.prove(name, fn(*idx), hyps=hyps) and ok
        return ok

    def prove_eq_arr(self, name, a, b):
        a, b = as_arr(a), as_arr(b)
        if a.ndim != b.ndim:
            self.prove(name + ".ndim", T.FALSE)
            return False
        for k in range(a.ndim):
            if a.vshape[k] != b.vshape[k]:
                self.prove(name + ".shape%d" % k, T.eq(a.vshape[k], b.vshape[k]))
        ra, rb = a.reader(), b.reader()
        ok = True
        for idx in _index_cases(a.vshape):
            x, y = ra(idx), rb(idx)
            ok = self.prove(name, T.eq(x, y) if isinstance(x, Poly) else T.iff(x, y)) and ok
        return ok

    def fail(self, name, why=""):
        """Obligation refuted outright on this path (structural mismatch)."""
        hints = {}
        if self.runner.keep is not None and not self.runner.keep(name):
            self.runner.skipped += 1
            return
        try:
            st, model, s, tr = prover._run_z3([h for h in self.path if h.op != "all"] + prover.index_ranges(self.path), T.FALSE, 3000)
            if st == "proved":
                return  # infeasible path
            if model is not None:
                hints = prover.model_hints(model)
        except Unsupported:
            pass
        self.runner.record(Obligation(name, "refuted", "execution", why, hints, 0.0, self.pathname()))

    def ok(self, name, why=""):
        self.runner.record(Obligation(name, "proved", "execution", why, {}, 0.0, self.pathname()))

    def check(self, name, cond, why=""):
        """Concrete (meta-level) condition."""
        if isinstance(cond, (SBool, Bool)):
            return self.prove(name, cond)
        if cond:
            self.ok(name, why)
        else:
            self.fail(name, why)
        return cond

    def pathname(self):
        return "".join("T" if t in (True,) else "F" if t is False else "t" if t == "T!" else "f" if t == "F!" else str(t) for t in self.taken)

    # ----------------------------------------------------------- hooks
    def note_div(self, b):
        if self.check_div and not self.generic and not self._known_positive(b):
            self.divs.setdefault(b.key, b)

    def _known_positive(self, b):
        """b is a term that a library contract or precondition declares positive for every index."""
        for nm, build in self.extra.get("positive", ()):
            found = []
            T.map_app(b, {nm}, lambda n, i: found.append(tuple(i)) or T.app(n, i))
            if any(build(i) == b for i in found):
                return True
        return False

    def note_write(self, buf):
        if buf.label is not None:
            self.written.append(buf.label)
        for w in self.watch:
            if buf.id <= w["start"]:
                w["writes"].add(buf.id)
                w["bufs"][buf.id] = buf

    # ----------------------------------------------------------- merging
    def unwatch(self, w):
        self.watch[:] = [x for x in self.watch if x is not w]

    def merge_eval(self, fn):
        outs = []
        todo = [[]]
        saved = self.local
        while todo:
            pre = todo.pop()
            L = {"prefix": pre, "taken": [], "conds": [], "alts": []}
            n = len(self.path)
            if saved is not None:
                pass
            self.local = L
            try:
                v = fn()
            finally:
                self.local = saved
                added = self.path[n:]
                del self.path[n:]
            cond = T.band(*L["conds"])
            for f in added:
                if not any(f.key == c.key for c in L["conds"]):
                    self.path.append(T.implies(cond, f))
            outs.append((cond, v))
            todo.extend(L["alts"])
            if len(outs) > 32:
                raise Unsupported("too many merged branches")
        v = outs[-1][1]
        for c, w in reversed(outs[:-1]):
            v = merge(c, w, v)
        return v

    # ----------------------------------------------------------- generic sequences
    def comp(self, fn, it, filtered=True):
        """Comprehension. fn(elem) -> list of 0/1 elements."""
        if isinstance(it, SymSeq) or is_symbolic(it):
            seq = as_seq(it)
            c = seq.length.const()
            if c is None:
                out = self._filtered(fn, seq) if filtered else None
                if out is not None:
                    return out
                return self.generic_map(seq, lambda e: _single(fn(e)))
            it = [seq.elem(T.num(i)) for i in range(int(c))]
        out = []
        for e in it:
            out.extend(fn(e))
        return out

    def _filtered(self, fn, seq):
        """[e for e in seq if e != r]: a filter leaving out exactly one position, else None (no filter)."""
        g = T.fresh_name("g")
        T.RANGE[g] = seq.length
        runs, todo = [], [[]]
        saved = self.local
        writes = {"start": Buffer._n[0], "writes": set(), "bufs": {}}
        while todo:
            L = {"prefix": todo.pop(), "taken": [], "conds": [], "alts": [], "auto": g}
            n = len(self.path)
            self.local = L
            self.generic.append(T.sym(g, INT))
            self.watch.append(writes)
            try:
                v = fn(seq.elem(T.sym(g, INT)))
            finally:
                self.local = saved
                self.generic.pop()
                self.unwatch(writes)
                del self.path[n:]
            runs.append((L["conds"], v))
            todo.extend(L["alts"])
            if len(runs) > 2:
                break
        if all(len(v) == 1 for _, v in runs):
            return None
        if len(runs) != 2 or any(len(c) != 1 for c, _ in runs) or writes["writes"]:
            raise Unsupported("filtered comprehension over a symbolic range")
        keep = [(c[0], v) for c, v in runs if len(v) == 1]
        drop = [(c[0], v) for c, v in runs if len(v) == 0]
        if len(keep) != 1 or len(drop) != 1 or drop[0][0].op != "eq":
            raise Unsupported("filtered comprehension over a symbolic range")
        r = T.solve_linear(drop[0][0].args[0], g)
        if r is None:
            raise Unsupported("filtered comprehension over a symbolic range")
        v = keep[0][1][0]
        if not (T.in_range_syntactic(r, seq.length) or bool(SBool(T.band(T.le(T.ZERO, r), T.lt(r, seq.length))))):
            return SymSeq(seq.length, lambda i: subst_val(v, {g: i}))
        out = SymSeq(T.sub(seq.length, T.ONE), lambda i: subst_val(v, {g: T.skip(i, r)}))
        if isinstance(v, SNum) and v.p == T.sym(g, INT):
            out.skip = (r, seq.length)
        return out

    def generic_map(self, seq, fn):
        g = T.fresh_name("g")
        T.RANGE[g] = seq.length
        gp = T.sym(g, INT)
        self.generic.append(gp)
        mark = Buffer._n[0]
        w = {"start": mark, "writes": set(), "bufs": {}}
        self.watch.append(w)
        n = len(self.path)
        try:
            e = seq.elem(gp)
            v = self.merge_eval(lambda: fn(e))
        finally:
            self.generic.pop()
            self.unwatch(w)
        if w["writes"]:
            raise Unsupported("side effect in a comprehension over a symbolic range")
        new = self.path[n:]
        del self.path[n:]
        for f in new:
            self.path.append(T.forall([g], [seq.length], f) if g in f.fv else f)
            if g in f.fv:
                # keep as a fact triggered by array symbols
                for s in f.syms:
                    pass
                self.extra.setdefault("qfacts", []).append((g, seq.length, f))
        return SymSeq(seq.length, lambda i: subst_val(v, {g: i}))

    # ----------------------------------------------------------- loops
    def loop(self, site, it, get, set_):
        if not (isinstance(it, SymSeq) or is_symbolic(it)):
            return iter(it)
        seq = as_seq(it)
        if seq.length.const() is not None:
            return iter([seq.elem(T.num(i)) for i in range(int(seq.length.const()))])
        spec = self.loop_spec
        if spec is not None and spec.wants(self, site, seq):
            return self._cut(site, seq, get, set_, spec)
        return self._auto(site, seq, get, set_)

    def while_(self, site, cond, get, set_):
        spec = self.loop_spec
        if spec is not None and spec.wants_while(self, site):
            return self._cut_while(site, cond, get, set_, spec)
        return self._native_while(cond)

    def _native_while(self, cond):
        n = 0
        while True:
            if not cond():
                return
            n += 1
            if n > 60:
                raise Unsupported("unbounded while loop without a contract")
            yield None

    def _havoc(self, site, get, pre, stores, key):
        info = self.runner.loop_info.setdefault(key, {"bufs": set(), "alias": [frozenset()]})
        variants = info["alias"]
        var = variants[self.choice(len(variants))]
        st = {}
        bufmap = {}
        for name, v in pre.items():
            if isinstance(v, Undefined):
                continue
            isstored = name in stores
            if isinstance(v, SArr) and (isstored or v.buf.id in info["bufs"]):
                rep = name
                for cls in var:
                    if name in cls:
                        rep = min(cls)
                bk = (rep,) if isstored else ("b", v.buf.id)
                if isstored and not any(name in cls for cls in var) and v.buf.id in [x.buf.id for n2, x in pre.items() if n2 != name and isinstance(x, SArr)] and False:
                    pass
                if bk in bufmap:
                    st[name] = bufmap[bk]
                else:
                    nm = T.fresh_name("h_" + name)
                    g = tuple(self.generic)
                    if isstored:
                        a = SArr.make(v.vshape, (lambda nm: lambda i: T.app(nm, g + tuple(i)))(nm), v.kind, v.buf.label)
                    else:
                        a = SArr.make(v.buf.shape, (lambda nm: lambda i: T.app(nm, g + tuple(i)))(nm), v.kind, v.buf.label)
                        a = SArr(a.buf, v.vshape, v.vmap)
                    bufmap[bk] = a
                    st[name] = a
            elif isstored:
                if isinstance(v, bool):
                    st[name] = SBool(T.bapp(T.fresh_name("h_" + name)))
                elif isinstance(v, int) or (isinstance(v, SNum) and v.isint and not isinstance(v, float)):
                    nm = T.fresh_name("h_" + name)
                    # python ints may become floats in the loop: use a real
                    st[name] = wrap(T.sym(nm, REAL))
                elif isinstance(v, (float, SNum)):
                    st[name] = wrap(T.sym(T.fresh_name("h_" + name), REAL))
                elif isinstance(v, SBool):
                    st[name] = SBool(T.bapp(T.fresh_name("h_" + name)))
                elif v is None:
                    raise Unsupported("loop variable %s starts as None" % name)
                elif isinstance(v, (list, dict)):
                    st[name] = self._havoc_container(name, v, info)
                elif isinstance(v, tuple) and all(isinstance(x, SArr) for x in v):
                    st[name] = tuple(self._havoc_container(name, list(v)))
                elif callable(v) or isinstance(v, str):
                    raise Unsupported("loop variable %s" % name)
                else:
                    raise Unsupported("loop variable %s of type %s" % (name, type(v).__name__))
            elif isinstance(v, list) and not isinstance(v, OpaqueList) and name in site["mutated"]:
                st[name] = self._havoc_container(name, v, info)
            elif isinstance(v, dict) and name in site["mutated"]:
                st[name] = self._havoc_container(name, v, info)
        return st, info, var

    def _havoc_container(self, name, v, info=None):
        def hv(x, path):
            if isinstance(x, SArr):
                return self.fresh_array("h_%s_%s" % (name, path), x.vshape, dtype=x.kind)
            if isinstance(x, tuple):
                return tuple(hv(y, "%s_%d" % (path, i)) for i, y in enumerate(x))
            if isinstance(x, list):
                return [hv(y, "%s_%d" % (path, i)) for i, y in enumerate(x)]
            if isinstance(x, (float, SNum, int)):
                return wrap(T.sym(T.fresh_name("h_%s_%s" % (name, path)), REAL))
            raise Unsupported("havoc of container element %s" % type(x).__name__)

        if isinstance(v, dict):
            return {k: hv(x, str(k)) for k, x in v.items()}
        if v and info is not None and name not in info.setdefault("opaque", set()) and type(v) is list and all(isinstance(x, (float, SNum, int)) and not isinstance(x, bool) for x in v):
            # a list of numbers whose length no iteration changes (dropped, with a restart, if one does)
            info.setdefault("lists", {})[name] = len(v)
            return [hv(x, str(i)) for i, x in enumerate(v)]
        try:
            if v and all(isinstance(x, (SArr, tuple)) for x in v) and not (isinstance(v[0], tuple) and hasattr(v[0], "_fields")):
                return [hv(x, str(i)) for i, x in enumerate(v)]
        except Unsupported:
            raise
        return OpaqueList(name)

    def _cut(self, site, seq, get, set_, spec):
        n = seq.length
        pre0 = get()
        spec.entry(self, pre0, n)
        if not bool(SBool(T.lt(T.ZERO, n))):
            spec.zero(self, pre0)
            return
        key = ("cut", site["id"])
        k = T.fresh_name("it")
        T.RANGE[k] = n
        kp = T.sym(k, INT)
        self.path.append(T.le(T.ZERO, kp))
        self.path.append(T.lt(kp, n))
        pre, info, var = self._havoc(site, get, pre0, site["stores"], key)
        # inferred invariant: a scalar that no iteration changes keeps its value (dropped, with a restart, if one does)
        const = {}
        changed = info.setdefault("changed", set())
        for name in list(pre):
            v0 = pre0.get(name)
            if name in site["stores"] and name not in changed and isinstance(v0, (SNum, float, int)) and not isinstance(v0, bool):
                const[name] = v0
                pre[name] = v0
        state0 = dict(pre0)
        state0.update(pre)
        spec.assume(self, state0, wrap(kp, True), n)
        snap = spec.snapshot(self, state0)
        set_(pre)
        mark = Buffer._n[0]
        fresh_ids = {v.buf.id for v in pre.values() if isinstance(v, SArr)}
        w = {"start": mark, "writes": set(), "bufs": {}}
        self.watch.append(w)
        self.loop_cuts.append({"site": site, "k": kp, "n": n, "pre": snap, "pre0": pre0})
        elem = seq.elem(kp)
        try:
            yield elem
        except GeneratorExit:
            self.break_state = {"site": site, "state": get(), "pre": snap, "k": kp, "n": n, "kind": "break"}
            self.unwatch(w)
            self._unknown_writes(w, fresh_ids, info)
            raise
        self.unwatch(w)
        if self._unknown_writes(w, fresh_ids, info):
            raise Restart()
        st = get()
        self._list_check(st, info)
        new = {nm for nm, v in const.items() if not _same_scalar(st.get(nm), v)}
        if new:
            changed |= new
            self.runner.need_restart = True
            raise Restart()
        self._alias_check(st, state0, info, var)
        spec.step(self, snap, st, wrap(kp, True), n)
        if bool(SBool(T.eq(T.add(kp, T.ONE), n))):
            self.break_state = {"site": site, "state": st, "pre": snap, "k": kp, "n": n, "kind": "exhausted"}
            return
        raise PathEnd()

    def _cut_while(self, site, cond, get, set_, spec):
        pre0 = get()
        spec.entry(self, pre0, None)
        key = ("cut", site["id"])
        kp = T.sym(T.fresh_name("it"), INT)
        self.path.append(T.le(T.ZERO, kp))
        pre, info, var = self._havoc(site, get, pre0, site["stores"], key)
        state0 = dict(pre0)
        state0.update(pre)
        spec.assume(self, state0, wrap(kp, True), None)
        snap = spec.snapshot(self, state0)
        set_(pre)
        mark = Buffer._n[0]
        fresh_ids = {v.buf.id for v in pre.values() if isinstance(v, SArr)}
        w = {"start": mark, "writes": set(), "bufs": {}}
        if not cond():
            self.break_state = {"site": site, "state": get(), "pre": snap, "k": kp, "n": None, "kind": "exhausted"}
            return
        self.watch.append(w)
        try:
            yield None
        except GeneratorExit:
            self.break_state = {"site": site, "state": get(), "pre": snap, "k": kp, "n": None, "kind": "break"}
            self.unwatch(w)
            raise
        self.unwatch(w)
        if self._unknown_writes(w, fresh_ids, info):
            raise Restart()
        st = get()
        self._list_check(st, info)
        self._alias_check(st, state0, info, var)
        spec.step(self, snap, st, wrap(kp, True), None)
        raise PathEnd()

    def _unknown_writes(self, w, fresh_ids, info):
        new = {b for b in w["writes"] if b not in fresh_ids and b not in info["bufs"]}
        if new:
            info["bufs"] |= new
            self.runner.need_restart = True
            return True
        return False

    def _list_check(self, st, info):
        new = {nm for nm, k in info.get("lists", {}).items() if nm not in info["opaque"] and not (type(st.get(nm)) is list and len(st[nm]) == k)}
        if new:
            info["opaque"] |= new
            self.runner.need_restart = True
            raise Restart()

    def _alias_check(self, st, state0, info, var):
        by = {}
        for n, v in st.items():
            if isinstance(v, SArr) and n in state0:
                by.setdefault(v.buf.id, []).append(n)
        cls = frozenset(frozenset(x) for x in by.values() if len(x) > 1)
        # classes already present at entry through unmodified variables do not matter
        cls = frozenset(c for c in cls if any(True for _ in c))
        if cls and cls not in info["alias"]:
            info["alias"].append(cls)
            self.runner.need_restart = True

    def _auto(self, site, seq, get, set_):
        """Map / accumulate template loops (invariant inferred, checked by one generic iteration)."""
        n = seq.length
        key = ("auto", site["id"], len(self.taken), Buffer._n[0])
        taken0 = list(self.taken)
        info = self.runner.loop_info.setdefault(key, {"bufs": set()})
        pre0 = get()
        g = T.fresh_name("g")
        T.RANGE[g] = n
        gp = T.sym(g, INT)
        # scalar accumulators
        st = {}
        accs = {}
        lists = {}
        for name in site["stores"]:
            v = pre0.get(name)
            if isinstance(v, (SNum, float, int)) and not isinstance(v, bool):
                nm = T.fresh_name("acc_" + name)
                accs[name] = (nm, v)
                st[name] = wrap(T.app(nm, (gp,)))
            elif isinstance(v, SArr):
                nm = T.fresh_name("acc_" + name)
                accs[name] = (nm, v)
                st[name] = SArr.make(v.vshape, (lambda nm: lambda i: T.app(nm, (gp,) + tuple(i)))(nm), v.kind)
        for name in site["mutated"]:
            v = pre0.get(name)
            if isinstance(v, list):
                lists[name] = (v, len(v))
        # buffers known to be written in the body
        st0 = st
        hb = {}
        bufs = {}
        for v in list(pre0.values()):
            for x in v if isinstance(v, (list, tuple)) else (v,):
                if isinstance(x, SArr):
                    bufs[x.buf.id] = x.buf
        seqbuf = getattr(seq, "bufs", [])
        for b in self.runner.all_bufs(self):
            bufs.setdefault(b.id, b)
        for bid in info["bufs"]:
            b = bufs.get(bid)
            if b is None:
                raise Unsupported("loop writes an untracked buffer")
            nm = T.fresh_name("hb")
            hb[bid] = (nm, b, b.get)
            b.get = memo((lambda nm: lambda i: T.app(nm, (gp,) + tuple(i)))(nm))
        w = {"start": Buffer._n[0], "writes": set(), "bufs": {}}
        npath = len(self.path)
        runs, todo = [], [[]]
        fresh_acc = set()
        hget = {bid: b.get for bid, (nm, b, orig) in hb.items()}
        # the body is executed once per combination of the index-dependent branches it takes; the
        # resulting states are merged
        while todo:
            pre = todo.pop()
            st = {name: (v if not isinstance(v, SArr) else v.copy()) for name, v in st0.items()}
            fresh_acc |= {v.buf.id for v in st.values() if isinstance(v, SArr)}
            w["start"] = max(w["start"], Buffer._n[0]) if not runs else w["start"]
            for bid, (nm, b, orig) in hb.items():
                b.get = hget[bid]
            for name, (lst, ln) in lists.items():
                del lst[ln:]
            set_(st)
            self.generic.append(gp)
            self.watch.append(w)
            saved, L = self.local, {"prefix": pre, "taken": [], "conds": [], "alts": [], "auto": g}
            self.local = L
            n1 = len(self.path)
            done = False
            self.open_loops.append((L, runs))
            try:
                elem = seq.elem(gp)
                yield elem
                done = True
                self.open_loops.pop()
            finally:
                self.local = saved
                if self.generic and self.generic[-1] is gp:
                    self.generic.pop()
                self.unwatch(w)
                if not done:
                    self.left_loop.append(bool(L["conds"] or runs))
            cond = T.band(*L["conds"])
            added = self.path[n1:]
            del self.path[n1:]
            for f in added:
                if not any(f.key == c.key for c in L["conds"]):
                    self.path.append(T.implies(cond, f) if g in f.fv else f)
            runs.append((cond, get(), {bid: b.get for bid, (nm, b, orig) in hb.items()}, {k: list(l[ln:]) for k, (l, ln) in lists.items()}))
            todo.extend(L["alts"])
            if len(runs) > 8:
                raise Unsupported("too many merged branches")
        post = runs[-1][1]
        if len(runs) > 1 and not {b for b in w["writes"] if b not in hb and b not in fresh_acc}:
            post = dict(post)
            grown = runs[-1][3]
            gets = dict(runs[-1][2])
            for cond, p2, g2, l2 in reversed(runs[:-1]):
                for k in list(post):
                    if k in p2:
                        a, b2 = p2[k], post[k]
                        if a is b2:
                            continue
                        try:
                            post[k] = merge(cond, a, b2)
                        except Unsupported:
                            post[k] = Undefined(k)
                    else:
                        post[k] = Undefined(k)
                for bid in gets:
                    gets[bid] = memo((lambda x, y, cond: lambda i: T.ite(cond, x(i), y(i)) if isinstance(y(i), Poly) else _imerge(cond, x(i), y(i)))(g2[bid], gets[bid], cond))
                for k in grown:
                    if len(grown[k]) != len(l2[k]):
                        raise Unsupported("list %s appended under a condition on the loop index" % k)
                    grown[k] = [merge(cond, a, b2) for a, b2 in zip(l2[k], grown[k])]
            for bid, (nm, b, orig) in hb.items():
                b.get = gets[bid]
            for name, (lst, ln) in lists.items():
                lst[ln:] = grown[name]
        new = {b for b in w["writes"] if b not in hb and b not in fresh_acc}
        if new:
            info["bufs"] |= new
            self.runner.live_bufs.update({b: w["bufs"][b] for b in new})
            info["n"] = info.get("n", 0) + 1
            if info["n"] > 12:
                raise Unsupported("loop information did not stabilise")
            raise Restart(list(taken0))
        facts = self.path[npath:]
        del self.path[npath:]
        for f in facts:
            if g in f.fv:
                self.extra.setdefault("qfacts", []).append((g, n, f))
                self.path.append(T.forall([g], [n], f))
            else:
                self.path.append(f)
        bad = {x[0] for x in hb.values()} | {x[0] for x in accs.values()}
        out = {}
        # buffers: a map writes only row g (along some axis) in iteration g, reading only row g of buffers of this kind
        maps = {}
        for bid, (nm, b, orig) in hb.items():
            idx = idx_syms(b.shape, "z")
            full = b.get(idx)
            if not isinstance(full, Poly):
                continue
            oldv = T.app(nm, (gp,) + idx)
            # iteration g writes row g + off, off the loop's constant start
            offs = [T.ZERO]
            for e in elem if isinstance(elem, tuple) else (elem,):
                if isinstance(e, SNum):
                    o = T.sub(P(e), gp)
                    if g not in o.fv and o not in offs:
                        offs.append(o)
            for ax, off in [(a, o) for a in range(len(idx)) for o in offs]:
                if off == T.ZERO:
                    if T.sub(b.shape[ax], n).const() != 0 and not self.entails(T.le(n, b.shape[ax])):
                        continue
                elif not (self.entails(T.le(T.ZERO, off)) and self.entails(T.le(T.add(n, off), b.shape[ax]))):
                    continue
                if prover.prove(T.eq(full, oldv), list(self.path) + [T.ne(idx[ax], T.add(gp, off))], self.theory, 3000, False, 0).ok:
                    maps[nm] = (ax, orig, off)
                    break
        names = frozenset(maps)

        def old_row(nm, i):
            ax, orig, off = maps[nm]
            return orig(tuple(i[1:])) if i[0] == gp and i[1 + ax] == T.add(gp, off) else None

        for bid, (nm, b, orig) in hb.items():
            newget = b.get
            idx = idx_syms(b.shape, "z")
            if nm in maps:
                ax, _, off = maps[nm]
                hit = T.map_app(newget(idx[:ax] + (T.add(gp, off),) + idx[ax + 1 :]), names, old_row)
                if not (hit.syms & bad):

                    def fin(i, ax=ax, newget=newget, orig=orig, b=b, off=off):
                        h = T.map_app(newget(tuple(i[:ax]) + (T.add(gp, off),) + tuple(i[ax + 1 :])), names, old_row)
                        h = T.subst(h, {g: T.sub(i[ax], off)})
                        if off != T.ZERO:
                            return T.ite(T.band(T.le(off, i[ax]), T.lt(i[ax], T.add(off, n))), h, orig(i))
                        if b.shape[ax] != n:
                            return T.ite(T.lt(i[ax], n), h, orig(i))
                        return h

                    b.get = memo(fin)
                    continue
            full = newget(idx)
            if isinstance(full, Poly):
                D = T.sub(full, T.app(nm, (gp,) + idx))
                if not (D.syms & bad):

                    def fin2(i, newget=newget, nm=nm, orig=orig):
                        d = T.sub(newget(i), T.app(nm, (gp,) + tuple(i)))
                        t = T.fresh_name("k")
                        T.RANGE[t] = n
                        return T.add(orig(i), T.mk_sum([(t, n)], T.subst(d, {g: T.sym(t, INT)})))

                    b.get = memo(fin2)
                    continue
            raise Unsupported("loop is neither a map nor an accumulation")
        for name, (nm, v) in accs.items():
            pv = post.get(name)
            if isinstance(v, SArr):
                if not isinstance(pv, SArr):
                    raise Unsupported("accumulator %s changes type" % name)
                pr = pv.rnum()
                idx = idx_syms(v.vshape, "z")
                D = T.sub(pr(idx), T.app(nm, (gp,) + idx))
                if D.syms & bad:
                    if nm in pr(idx).syms or True:
                        if not (pr(idx).syms & bad):
                            out[name] = subst_val(pv, {g: T.sub(n, T.ONE)})
                            continue
                    raise Unsupported("array loop variable %s is not an accumulation" % name)
                vr = v.rnum()

                def fin3(i, pr=pr, nm=nm, vr=vr):
                    d = T.sub(pr(i), T.app(nm, (gp,) + tuple(i)))
                    t = T.fresh_name("k")
                    T.RANGE[t] = n
                    return T.add(vr(i), T.mk_sum([(t, n)], T.subst(d, {g: T.sym(t, INT)})))

                out[name] = SArr.make(v.vshape, fin3)
            else:
                if isinstance(pv, SArr) and pv.ndim == 0:
                    pv = pv.item()
                if not isinstance(pv, (SNum, int, float)):
                    raise Unsupported("accumulator %s changes type" % name)
                p = P(pv)
                D = _delta(p, T.app(nm, (gp,)), bad)
                if D.syms & bad:
                    if not (p.syms & bad):
                        out[name] = wrap(T.subst(p, {g: T.sub(n, T.ONE)}))
                        continue
                    raise Unsupported("loop variable %s is not an accumulation" % name)
                t = T.fresh_name("k")
                T.RANGE[t] = n
                tot = T.add(P(v), T.mk_sum([(t, n)], T.subst(D, {g: T.sym(t, INT)})))
                out[name] = wrap(tot)
        for name, (lst, ln) in lists.items():
            grew = len(lst) - ln
            if grew == 0:
                continue
            if ln != 0 or grew != 1:
                raise Unsupported("list %s appended irregularly in a loop" % name)
            e = lst.pop()
            if not _free_of(e, bad):
                raise Unsupported("list element depends on loop state")
            out[name] = SymSeq(n, (lambda e: lambda i: subst_val(e, {g: i}))(e))
        for name in site["stores"]:
            if name not in accs and name in post:
                try:
                    v = post[name]
                    if not _free_of(v, bad):
                        raise Unsupported("x")
                    out[name] = subst_val(v, {g: T.sub(n, T.ONE)})
                except Unsupported:
                    out[name] = Undefined(name)
        set_(out)
        return


def _delta(p, acc, bad):
    """p - acc, looking into conditional updates."""
    D = T.sub(p, acc)
    if D.syms & bad and len(p.t) == 1:
        (mono, c), = p.t.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == "ite":
            cnd, a, b = mono[0][0].data
            return T.ite(cnd, _delta(a, acc, bad), _delta(b, acc, bad))
    return D


def _index_cases(shape):
    """Skolem indices; small constant dimensions are enumerated."""
    import itertools

    opts = []
    tot = 1
    for d in shape:
        k = d.const()
        if k is not None and tot * max(k, 1) <= 16:
            tot *= max(int(k), 1)
            opts.append([T.num(v) for v in range(int(k))])
        else:
            opts.append([None])
    for combo in itertools.product(*opts):
        sk = idx_syms(shape, "sk")
        yield tuple(s if v is None else v for s, v in zip(sk, combo))


def _free_of(v, bad):
    if isinstance(v, SNum):
        return not (v.p.syms & bad)
    if isinstance(v, SArr):
        x = v.get(idx_syms(v.vshape, "z"))
        return not (x.syms & bad)
    if isinstance(v, (tuple, list)):
        return all(_free_of(x, bad) for x in v)
    return True


def replace_app(t, fname, value, when):
    """Replace app(fname, idx) by value(idx) when when(idx); only outside binders."""
    if isinstance(t, Bool):
        if fname in t.syms:
            return None
        return t
    if fname not in t.syms:
        return t
    out = T.ZERO
    for m, c in t.t.items():
        r = T.num(c)
        for a, e in m:
            if fname not in a.syms:
                r = T.mul(r, T.power(T.patom(a), e) if e > 0 else T.inv(T.power(T.patom(a), -e)))
                continue
            if a.kind == "app" and a.data[0] == fname and when(a.data[1]):
                x = value(a.data[1])
            elif a.kind in ("abs", "sqrt", "exp", "log", "sign", "paren", "max"):
                args = [replace_app(y, fname, value, when) for y in a.data]
                if any(y is None for y in args):
                    return None
                x = args[0] if a.kind == "paren" else T._REBUILD[a.kind](*args)
            elif a.kind == "ite":
                args = [replace_app(y, fname, value, when) for y in a.data]
                if any(y is None for y in args):
                    return None
                x = T.ite(*args)
            else:
                return t  # leaves symbol in place; caller checks
            r = T.mul(r, T.power(x, e))
        out = T.add(out, r)
    return out


def _single(lst):
    if len(lst) != 1:
        raise Unsupported("filtered comprehension over a symbolic range")
    return lst[0]


def subst_val(v, m):
    if isinstance(v, SNum):
        return wrap(T.subst(v.p, m), v.isint)
    if isinstance(v, SBool):
        return SBool(T.subst(v.b, m))
    if isinstance(v, Masked):
        return Masked(subst_val(v.base, m), subst_val(v.m, m))
    if isinstance(v, SArr):
        r = v.reader()
        # evaluate at placeholders to avoid capture, then substitute
        def fn(idx, r=r):
            ph = []
            mm = {}
            for i, ix in enumerate(idx):
                nm = T.fresh_name("ph")
                T.RANGE[nm] = v.vshape[i]
                ph.append(T.sym(nm, INT))
                mm[nm] = ix
            return T.subst(T.subst(r(tuple(ph)), m), mm)

        return SArr.make([T.subst(d, m) for d in v.vshape], fn, v.kind)
    if isinstance(v, tuple):
        return type(v)(*[subst_val(x, m) for x in v]) if hasattr(v, "_fields") else tuple(subst_val(x, m) for x in v)
    if isinstance(v, list):
        return [subst_val(x, m) for x in v]
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    if isinstance(v, SymSeq):
        def el(i):
            nm = T.fresh_name("ph")
            T.RANGE[nm] = v.length
            return subst_val(subst_val(v.elem(T.sym(nm, INT)), m), {nm: i})
        return SymSeq(T.subst(v.length, m), el)
    raise Unsupported("generic value of type " + type(v).__name__)


def merge(c, a, b):
    if a is b:
        return a
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        x, y = B(a), B(b)
        return SBool(T.bor(T.band(c, x), T.band(T.bnot(c), y)))
    if isinstance(a, (SNum, int, float)) and isinstance(b, (SNum, int, float)):
        from .arrays import isint

        return wrap(T.ite(c, P(a), P(b)), isint(a) and isint(b))
    if isinstance(a, SArr) and isinstance(b, SArr) and a.buf is b.buf and a.vmap == b.vmap:
        return a
    if isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim and all(x == y for x, y in zip(a.vshape, b.vshape)):
        ra, rb = a.reader(), b.reader()
        return SArr.make(a.vshape, lambda i: T.ite(c, ra(i), rb(i)), a.kind)
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        return type(a)([merge(c, x, y) for x, y in zip(a, b)]) if not hasattr(a, "_fields") else type(a)(*[merge(c, x, y) for x, y in zip(a, b)])
    if a is None and b is None:
        return None
    if type(a) is type(b) and isinstance(a, str) and a == b:
        return a
    raise Unsupported("cannot merge branch results")


def _imerge(c, x, y):
    return T.bor(T.band(c, x), T.band(T.bnot(c), y))


def _same_scalar(a, b):
    if a is b:
        return True
    ok = (SNum, float, int)
    if isinstance(a, bool) or isinstance(b, bool) or not (isinstance(a, ok) and isinstance(b, ok)):
        return False
    return P(a) == P(b)


class LoopSpec:
    """Contract of the main loop of a function (cut at an arbitrary iteration)."""

    def wants(self, ctx, site, seq):
        return False

    def wants_while(self, ctx, site):
        return False

    def entry(self, ctx, pre, n):
        pass

    def zero(self, ctx, pre):
        pass

    def assume(self, ctx, state, k, n):
        pass

    def snapshot(self, ctx, state):
        out = {}
        for k, v in state.items():
            out[k] = freeze(v)
        return out

    def step(self, ctx, pre, post, k, n):
        pass


def freeze(v):
    if isinstance(v, Masked):
        return v
    if isinstance(v, SArr):
        return v.copy()
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v) if not hasattr(v, "_fields") else v
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, list) and not isinstance(v, OpaqueList):
        return [freeze(x) for x in v]
    return v


class GiveUp(Exception):
    """the unit has failed often enough"""


class Runner:
    """Enumerates all paths of one contract case."""

    def __init__(self, name, fn, max_paths=400, max_s=240):
        self.name, self.fn = name, fn
        self.max_paths, self.max_s = max_paths, max_s
        self.keep, self.skipped = None, 0
        self.obls = []
        self.unsupported = []
        self.paths = 0
        self.loop_info = {}
        self.live_bufs = {}
        self.work = []
        self.errors = []
        self.feasible = 0
        self.live = False

    def schedule(self, prefix):
        self.work.append(prefix)

    def budget(self):
        """seconds for the next obligation: short once the unit has failed; after several failures the unit ends."""
        n = len([o for o in self.obls + self.cur if o.status in ("refuted", "unknown")]) if self.bad else 0
        if n >= 5:
            raise GiveUp()
        return prover.OPTS["budget_s"] if n == 0 else prover.OPTS["budget_s"] / 6

    def record(self, o):
        self.bad = self.bad or o.status in ("refuted", "unknown")
        self.cur.append(o)

    def all_bufs(self, c):
        return []

    def run(self):
        t0 = time.time()
        for attempt in range(8):
            self.obls = []
            self.unsupported = []
            self.paths = 0
            self.errors = []
            self.work = [[]]
            self.need_restart = False
            self.bad = False
            self.feasible = 0
            while self.work:
                pre = self.work.pop()
                self.paths += 1
                if self.paths > self.max_paths or time.time() - t0 > self.max_s:
                    self.unsupported.append("path/time budget exhausted")
                    self.work = []
                    break
                try:
                    self._one(pre)
                except GiveUp:
                    self.obls.extend(self.cur)
                    self.live, self.work, self.need_restart = True, [], False
                    CTX[0] = None
                    break
                if self.need_restart:
                    break
            if not self.need_restart:
                break
        else:
            self.unsupported.append("loop information did not stabilise")
        return self

    def _one(self, pre):
        T.reset()
        Buffer._n[0] = 0
        c = Ctx(self, pre)
        CTX[0] = c
        self.ctx = c
        T.RANGE_ORACLE[0] = lambda b: c.entails(b)
        self.cur = []
        try:
            self.fn(c)
            if c.left_loop:
                raise Unsupported("a loop over a symbolic range is left early")
            self._finish_path(c)
        except PathEnd:
            self._finish_path(c)
        except Restart as e:
            if e.prefix is None:
                self.need_restart = True
            else:
                # only this path: what it scheduled beyond the loop is rescheduled by the rerun
                n = len(e.prefix)
                self.work = [w for w in self.work if not (len(w) > n and w[:n] == e.prefix)]
                self.work.append(e.prefix)
                return
        except Unsupported as e:
            if c._sat(T.TRUE) != "unsat":
                self.unsupported.append("%s [%s]" % (e, _where()))
        except GiveUp:
            raise
        except RecursionError:
            self.unsupported.append("recursion limit")
        except Exception as e:  # an exception escaping the contract
            # definite only if the path is feasible
            where = _where()
            # definite: raised by the code under verification itself, or a documented numpy error
            if any(L["conds"] or runs for L, runs in c.open_loops):
                self.unsupported.append("exception under a condition on the loop index: %r at %s" % (e, where))
            elif not (_raised_by_repo() or isinstance(e, (ValueError, IndexError, ZeroDivisionError))):
                self.unsupported.append("%r at %s" % (e, where))
            else:
                c.fail("no-unexpected-exception", "%s: %s at %s" % (type(e).__name__, e, where))
        finally:
            CTX[0] = None
        if not self.need_restart:
            self.obls.extend(self.cur)
            self.feasible += 1

    def _finish_path(self, c):
        if self.need_restart:
            return
        for k, b in list(c.divs.items()):
            if not c.extra.get("skip_defined"):
                c.prove("defined:denominator-nonzero", T.ne(b, T.ZERO))
        if not self.live:
            hyp = [h for h in c.path + c.theory.globals if h.op != "all"]
            try:
                st = prover._run_z3(hyp + prover.index_ranges(hyp), T.FALSE, 3000)[0]
            except Unsupported:
                st = "unknown"
            self.live = st != "proved"


def _raised_by_repo():
    import sys

    fr = traceback.extract_tb(sys.exc_info()[2])
    return bool(fr) and "<repo>" in fr[-1].filename and (fr[-1].line or _src(fr[-1])).lstrip().startswith(("raise", "assert"))


def _src(f):
    import linecache
    import os

    return linecache.getline(f.filename.replace("<repo>", os.environ.get("VERIF_REPO", "/repo")), f.lineno)


def _where():
    import sys

    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    if not fr:
        return "?"
    repo = [f for f in fr if "<repo>" in f.filename or "/repo/" in f.filename]
    last = fr[-1]
    s = "%s:%d" % (last.filename, last.lineno)
    if repo:
        s = "%s:%d < %s" % (repo[-1].filename, repo[-1].lineno, s)
    return s
