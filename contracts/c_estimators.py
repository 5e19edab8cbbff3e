"""Estimators: what fit() hands to the solver, what it stores, what the getters and score() return."""
import inspect

from .common import *
from .c_prox import total
from .c_scores import inner, logdet_plus
from .registry import unit

CV = "regain.covariance."


class Tag:
    """an opaque parameter value (never inspected by the estimator)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (SNum, int, float)) and isinstance(b, (SNum, int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return P(a) == P(b)
    if isinstance(a, (str, bool, type(None))):
        return type(a) is type(b) and a == b
    return False


def solver_stub(names, flags=True):
    """contract of a solver seen by its caller: parameters bound by name, fresh results."""

    def stub(c, real, *a, **k):
        b = inspect.signature(real).bind(*a, **k)
        b.apply_defaults()
        args = dict(b.arguments)
        S = as_arr(next(iter(args.values())))
        out = []
        for n in names:
            out.append(c.fresh_array("out_" + n, S.vshape))
        res = dict(zip(names, out))
        if args.get("return_history"):
            h = Tag("history")
            res["history"] = h
            out.append(h)
        if args.get("return_n_iter"):
            n = wrap(T.sym(T.fresh_name("n_iter"), T.INT), True)
            res["n_iter"] = n
            out.append(n)
        if args.get("return_n_linesearch"):
            res["n_linesearch"] = Tag("n_linesearch")
            out.append(res["n_linesearch"])
        c.extra.setdefault("solver", []).append((real.__name__, args, res))
        return tuple(out)

    return stub


# module, class, solver key, outputs, passed-through parameters, how sample sizes arrive
NUM = "alpha beta tau eta rho tol rtol over_relax stop_when".split()
EST = {
    "GraphicalLasso": (CV + "graphical_lasso_", "graphical_lasso", ["precision", "covariance"]),
    "LatentGraphicalLasso": (CV + "latent_graphical_lasso_", "latent_graphical_lasso", ["precision", "latent", "covariance"]),
    "TimeGraphicalLasso": (CV + "time_graphical_lasso_", "time_graphical_lasso", ["precision", "covariance"]),
    "LatentTimeGraphicalLasso": (CV + "latent_time_graphical_lasso_", "latent_time_graphical_lasso", ["precision", "latent", "covariance"]),
    "KernelTimeGraphicalLasso": (CV + "kernel_time_graphical_lasso_", "kernel_time_graphical_lasso", ["precision", "covariance"]),
    "SimilarityTimeGraphicalLasso": (CV + "kernel_time_graphical_lasso_", "kernel_time_graphical_lasso", ["precision", "covariance"]),
    "KernelLatentTimeGraphicalLasso": (CV + "kernel_latent_time_graphical_lasso_", "kernel_latent_time_graphical_lasso", ["precision", "latent", "covariance"]),
    "SimilarityLatentTimeGraphicalLasso": (CV + "kernel_latent_time_graphical_lasso_", "kernel_latent_time_graphical_lasso", ["precision", "latent", "covariance"]),
    "TimeGraphicalLassoForwardBackward": ("regain.forward_backward.time_graphical_lasso_", "tgl_forward_backward", ["precision", "covariance"]),
    "LatentTimeMatrixDecomposition": (CV + "latent_time_matrix_decomposition", "latent_time_matrix_decomposition", ["precision", "latent"]),
}
STATIC = ("GraphicalLasso", "LatentGraphicalLasso")


def build(c, cls, centered, history, **fixed):
    """estimator with an arbitrary value for every hyper-parameter."""
    ps = [p for p in inspect.signature(cls.__init__).parameters if p != "self"]
    vals = {}
    for p in ps:
        if p in fixed:
            vals[p] = fixed[p]
        elif p == "assume_centered":
            vals[p] = centered
        elif p in ("return_history", "return_n_linesearch"):
            vals[p] = history
        elif p in NUM:
            vals[p] = c.real(p, pos=True)
        elif p in ("psi", "phi", "mode", "init"):
            vals[p] = "value-of-" + p
        elif p == "max_iter":
            vals[p] = c.int(p, 1)
        else:
            vals[p] = Tag(p)
    return cls(**vals), vals


def expected(c, X, y, centered):
    """location and covariance of the rows of each class (1/n)."""
    n, d = X.vshape
    cl, cnt = NS.unique(y, return_counts=True)
    w = lambda s, k: T.ite(T.eq(y.get((s,)), cl.get((k,))), T.ONE, T.ZERO)  # noqa

    def ssum(f):
        s = T.fresh_name("s")
        T.RANGE[s] = n
        return T.mk_sum([(s, n)], f(T.sym(s, T.INT)))

    mean = lambda k, i: T.mul(T.inv(cnt.get((k,))), ssum(lambda s: T.mul(w(s, k), X.get((s, i)))))  # noqa

    def cov(k, i, j):
        m = T.mul(T.inv(cnt.get((k,))), ssum(lambda s: T.mul(w(s, k), X.get((s, i)), X.get((s, j)))))
        return m if centered else T.sub(m, T.mul(mean(k, i), mean(k, j)))

    return cl, cnt, mean, cov


def factory(c, k, kern):
    """a kernel class: parametrised by length_scale, or by constant_value only."""

    def ev(param):
        def at(times):
            n = times.vshape[0]
            v = c.fresh_array("kernel_value", (n, n))
            c.extra.setdefault("kernels", {})[k] = dict(param=param, times=times, value=v)
            return v

        return at

    if kern == "length-scale":
        return lambda length_scale=1.0: ev(length_scale)

    def const(constant_value=1.0):
        return ev(constant_value)

    return const


def reject_case(name, which):
    def case(c):
        cls = c.fn
        n, d, m = c.int("n", 2), c.int("d", 2), c.int("m", 1)
        X = c.array("X", (n, d), label="X")
        y = c.array("y", (n,), label="y", dtype="i")
        C = NS.unique(y).vshape[0]
        c.assume(T.ne(P(m), C))
        ks = [k for k in ("kernel", "kernel_psi", "kernel_phi") if k in inspect.signature(cls.__init__).parameters]
        fixed = {k: c.array(k, (m, m) if k == which else (C, C), label=k) for k in ks}
        est, _ = build(c, cls, False, False, **fixed)
        try:
            est.fit(X, y)
        except ValueError:
            c.ok("wrong-kernel-size-rejected")
        else:
            c.fail("wrong-kernel-size-rejected", which)

    return case


def fit_case(name, centered, history, kern="array"):
    mod, solver, outs = EST[name]
    static = name in STATIC

    def case(c):
        cls = c.fn
        fixed = {}
        n, d = c.int("n", 2), c.int("d", 2)
        X = c.array("X", (n, d), label="X")
        y = None if static else c.array("y", (n,), label="y", dtype="i")
        ks = [k for k in ("kernel", "kernel_psi", "kernel_phi") if k in inspect.signature(cls.__init__).parameters]
        if ks:
            cl0 = NS.unique(y)
            for k in ks:
                if kern == "array":
                    fixed[k] = c.array(k, (cl0.vshape[0], cl0.vshape[0]), label=k)
                elif kern == "none":
                    fixed[k] = None
                else:
                    fixed[k] = factory(c, k, kern)
        est, vals = build(c, cls, centered, history, **fixed)
        for p, v in vals.items():
            c.check("parameter-stored", same(getattr(est, p, None), v), p)
        if static:
            r = est.fit(X)
        else:
            r = est.fit(X, y)
        c.check("fit-returns-self", r is est)
        calls = c.extra.get("solver") or []
        if len(calls) != 1:
            raise Unsupported("%d solver calls" % len(calls))
        _, args, res = calls[0]
        first = next(iter(args))
        for p, v in args.items():
            if p in vals and p not in ks and p not in ("return_history", "verbose", "assume_centered", first):
                c.check("parameter-passed", same(v, vals[p]), p)
        for k in ks:
            if kern == "array":
                c.check("kernel-passed", args[k] is fixed[k] or same_kernel(c, args[k], fixed[k]), k)
            elif kern != "none":
                made = c.extra["kernels"][k]
                pn = {"kernel": "ker_param", "kernel_psi": "ker_psi_param", "kernel_phi": "ker_phi_param"}[k]
                c.check("kernel-parameter", made["param"] is vals[pn], k)
                c.prove_eq_arr("kernel-passed-unchanged", args[k], made["value"])
                t = made["times"]
                c.check("kernel-times-shape", t.ndim == 2)
                c.prove_all("kernel-evaluated-at-the-classes", t.vshape, lambda i, j: T.eq(t.get((i, j)), est.classes_.get((i,))))
            else:
                c.prove_all("no-kernel-is-identity", args[k].vshape, lambda i, j: T.eq(args[k].get((i, j)), T.ite(T.eq(i, j), T.ONE, T.ZERO)))
        S = args[first]
        if static:
            m = lambda i: T.mul(T.inv(P(n)), _sum(X, n, lambda s: X.get((s, i))))  # noqa
            cv = lambda i, j: T.sub(T.mul(T.inv(P(n)), _sum(X, n, lambda s: T.mul(X.get((s, i)), X.get((s, j))))), T.ZERO if centered else T.mul(m(i), m(j)))  # noqa
            c.check("covariance-shape", S.ndim == 2)
            c.prove_all("covariance-of-the-data", S.vshape, lambda i, j: T.eq(S.get((i, j)), cv(i, j)))
            c.prove_all("location", est.location_.vshape, lambda i: T.eq(est.location_.get((i,)), T.ZERO if centered else m(i)))
        else:
            cl, cnt, mean, cov = expected(c, X, y, centered)
            c.check("covariance-shape", S.ndim == 3)
            c.prove("one-covariance-per-class", T.eq(S.vshape[0], cl.vshape[0]))
            c.prove_all("covariance-of-each-class", S.vshape, lambda k, i, j: T.eq(S.get((k, i, j)), cov(k, i, j)))
            c.prove_all("location-of-each-class", est.location_.vshape, lambda k, i: T.eq(est.location_.get((k, i)), T.ZERO if centered else mean(k, i)))
            c.prove_all("sample-sizes", cl.vshape, lambda k: T.eq(as_arr(args["n_samples"]).get((k,)), cnt.get((k,))))
            c.prove_all("classes", cl.vshape, lambda k: T.eq(est.classes_.get((k,)), cl.get((k,))))
        for o in outs:
            c.prove_eq_arr("stored:" + o, getattr(est, o + "_"), res[o])
        if "n_iter" in res:
            c.check("stored:n_iter", est.n_iter_ is res["n_iter"])
        else:
            c.fail("stored:n_iter", "not requested")
        if history and "history" in res:
            c.check("stored:history", est.history_ is res["history"])
        if history and "return_history" in vals and name not in ("LatentTimeGraphicalLasso",):
            c.check("history-requested", "history" in res)
        if "n_linesearch" in res:
            c.check("stored:n_linesearch", est.n_linesearch_ is res["n_linesearch"])
        pr = getters(c, est, res, name)
        c.check("frame:argument-not-written", not c.written)
        if not static:
            score_case(c, est, pr, cl)

    return case


def _sum(X, n, f):
    s = T.fresh_name("s")
    T.RANGE[s] = P(n)
    return T.mk_sum([(s, P(n))], f(T.sym(s, T.INT)))


def same_kernel(c, a, b):
    return isinstance(a, SArr) and c.prove_eq_arr("kernel-passed-unchanged", a, b) is not False


def getters(c, est, res, name):
    want = res["precision"]
    if "latent" in res:
        want = res["precision"] - res["latent"]
    if name == "LatentGraphicalLasso":
        c.prove_eq_arr("get_precision-is-observed", est.get_precision(), want)
    elif name != "GraphicalLasso":
        c.prove_eq_arr("get_observed_precision", est.get_observed_precision(), want)
    return want


def score_case(c, est, K, cl):
    """score = sum over classes of n_k * log-likelihood of the test rows around the fitted location."""
    n2, d = c.int("n_test", 1), K.vshape[-1]
    Xt = c.array("Xt", (n2, d), label="X_test")
    yt = c.array("yt", (n2,), label="y_test", dtype="i")
    nm = next(iter(c.extra["unique"].values()))[1]
    # precondition: every class has a test sample
    c.extra["positive"].append((nm, lambda i: _sum(None, n2, lambda s: T.ite(T.eq(yt.get((s,)), T.app(nm, i)), T.ONE, T.ZERO))))
    # score holds for any fitted location
    est.location_ = c.fresh_array("location", est.location_.vshape)
    r = est.score(Xt, yt)
    N = P(n2)
    loc = est.location_
    w = lambda s, k: T.ite(T.eq(yt.get((s,)), cl.get((k,))), T.ONE, T.ZERO)  # noqa

    def ssum(f):
        s = T.fresh_name("s")
        T.RANGE[s] = N
        return T.mk_sum([(s, N)], f(T.sym(s, T.INT)))

    def term(k):
        nk = ssum(lambda s: w(s, k))
        S = SArr.make((d, d), lambda i: T.mul(T.inv(nk), ssum(lambda s: T.mul(w(s, k), T.sub(Xt.get((s, i[0])), loc.get((k, i[0]))), T.sub(Xt.get((s, i[1])), loc.get((k, i[1])))))))
        Kk = SArr.make((d, d), lambda i: K.get((k,) + tuple(i)))
        const = T.mul(d, P(NS.log(2 * NS.PI)))
        return T.mul(nk, HALF, T.sub(T.sub(logdet_plus(Kk), inner(S, Kk)), const))

    k = T.fresh_name("k")
    T.RANGE[k] = cl.vshape[0]
    c.prove("score-value", T.eq(P(r), T.mk_sum([(k, cl.vshape[0])], term(T.sym(k, T.INT)))))


for nm, (mod, solver, outs) in EST.items():
    if nm == "LatentTimeMatrixDecomposition":
        continue
    for cen in (False, True):
        for kern in ("array", "none", "length-scale", "constant"):
            if kern != "array" and nm not in ("KernelTimeGraphicalLasso", "KernelLatentTimeGraphicalLasso"):
                continue
            unit("estimator:%s[%s,%s]" % (nm, "centered" if cen else "data", kern), mod, nm, stubs={mod + ":" + solver: solver_stub(outs)})(
                fit_case(nm, cen, cen, kern)
            )

for nm, ks_ in (("KernelTimeGraphicalLasso", ("kernel",)), ("SimilarityTimeGraphicalLasso", ("kernel",)), ("KernelLatentTimeGraphicalLasso", ("kernel_psi", "kernel_phi")), ("SimilarityLatentTimeGraphicalLasso", ("kernel_psi", "kernel_phi"))):
    for k_ in ks_:
        mod, solver, outs = EST[nm]
        unit("estimator:%s[rejects,%s]" % (nm, k_), mod, nm, stubs={mod + ":" + solver: solver_stub(outs)})(reject_case(nm, k_))


def decomposition_case(axis):
    def case(c):
        cls = c.fn
        t, p = c.int("t", 1), c.int("p", 2)
        X = c.array("X", (t, p, p) if axis == "first" else (p, p, t), label="X")
        est, vals = build(c, cls, False, False, time_on_axis=axis)
        for q, v in vals.items():
            c.check("parameter-stored", same(getattr(est, q, None), v), q)
        r = est.fit(X)
        c.check("fit-returns-self", r is est)
        calls = c.extra.get("solver") or []
        if len(calls) != 1:
            raise Unsupported("%d solver calls" % len(calls))
        _, args, res = calls[0]
        first = next(iter(args))
        for q, v in args.items():
            if q in vals and q not in ("return_history", "verbose", "assume_centered", first):
                c.check("parameter-passed", same(v, vals[q]), q)
        S = as_arr(args[first])
        c.check("input-shape", S.ndim == 3)
        c.prove_all("input-is-the-data", (P(t), P(p), P(p)), lambda k, i, j: T.eq(S.get((k, i, j)), X.get((k, i, j) if axis == "first" else (i, j, k))))
        for o in ("precision", "latent"):
            c.prove_eq_arr("stored:" + o, getattr(est, o + "_"), res[o])
        c.check("stored:n_iter", est.n_iter_ is res.get("n_iter"))
        c.prove_eq_arr("get_observed_precision", est.get_observed_precision(), res["precision"] - res["latent"])
        E = SArr.make(S.vshape, lambda i: T.sub(S.get(i), T.sub(res["precision"].get(i), res["latent"].get(i))))
        c.prove("reconstruction-error", T.eq(P(est.reconstruction_err_), total(E, lambda i: T.mul(E.get(i), E.get(i)))))
        c.check("frame:argument-not-written", not c.written)

    return case


for ax in ("first", "last"):
    nm = "LatentTimeMatrixDecomposition"
    mod, solver, outs = EST[nm]
    unit("estimator:%s[%s]" % (nm, ax), mod, nm, stubs={mod + ":" + solver: solver_stub(outs)})(decomposition_case(ax))
