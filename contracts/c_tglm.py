"""Temporal Ising and Poisson models: ADMM around the per-time fits."""
import inspect

from .c_glm import *
from .c_solvers import STUBS
from .solvers import KAdmm, after, need, pair, kdiag, psi_sum, recs, rt, sym3, zero, padL, padR, kern, lags, vmax, l1od_obj
from vc.arrays import lam_of

TI = "regain.generalized_linear_model.glm_time_ising"
TP = "regain.generalized_linear_model.glm_time_poisson"


def loss_value(x, k):
    x, k = as_arr(x), as_arr(k)
    return wrap(T.fapp("LOSS", lam_of(x, 2)(()), lam_of(k, 2)(())))


def bound(real, a, k):
    b = inspect.signature(real).bind(*a, **k)
    b.apply_defaults()
    return dict(b.arguments)


def stub_inner_ising(c, real, *a, **k):
    args = bound(real, a, k)
    out = c.fresh_array("FIT", (c.d, c.d), symmetric=True)
    c.extra.setdefault("inner", []).append((args, out.copy()))
    return [out]


def stub_inner_poisson(c, real, *a, **k):
    args = bound(real, a, k)
    v = P(args["ix"])
    nm = "NBH!%d" % len(c.extra["adj"])
    c.extra.setdefault("inner", []).append((args, v, nm))
    th = SArr.make((T.sub(P(c.d), T.ONE),), lambda i: T.app(nm, (v, i[0])))
    return [th, [], []]


def stub_adj(c, real, neighbours, how="union"):
    nb = as_arr(neighbours)
    out = c.fresh_array("FIT", (c.d, c.d), symmetric=True)
    c.extra.setdefault("adj", []).append((nb, how, out.copy()))
    return out


TS = dict(STUBS)
TS[GI + ":_fit"] = stub_inner_ising
TS[GI + ":loss"] = TS[GP + ":loss"] = lambda c, real, X, theta: loss_value(X, theta)
TS[GP + ":fit_each_variable"] = stub_inner_poisson
TS[GB + ":build_adjacency_matrix"] = stub_adj


def tglm_iteration(kind):
    def it(c, pre, post):
        nT, n, X = c.nT, T.num(c.nT), c.X
        (rho,) = one_based(pre, "rho")
        K = post["K"]
        tot = NS.zeros((nT, c.d, c.d))
        for m in lags(c):
            zl, zr = c.snap["Z_M"][m]
            ul, ur = c.snap["U_M"][m]
            tot = tot + padL(zl - ul, n) + padR(zr - ur, n)
        tot = sym3(tot)
        fits = c.extra["inner"]
        if len(fits) != nT or (kind == "poisson" and len(c.extra["adj"]) != nT):
            raise Unsupported("%d per-time fits" % len(fits))
        for t in range(nT):
            a = fits[t][0]
            same(c, "kkt:fit.data", a["X"], X[t])
            same(c, "kkt:fit.target-is-the-mean-of-the-copies", a["T"] * as_arr(a["A"]), tot[t])
            c.prove("kkt:fit.number-of-copies", T.eq(P(a["T"]), T.num(nT - 1)))
            c.prove("kkt:fit.alpha", T.eq(P(a["alpha"]), P(c.alpha)))
            c.prove("kkt:fit.rho", T.eq(P(a["rho"]), P(rho)))
            c.prove("stop:fit.tol", T.eq(P(a["tol"]), P(c.tol)))
            if kind == "ising":
                c.prove("stop:fit.gamma", T.eq(P(a["gamma"]), P(c.gamma)))
                c.prove("stop:fit.max_iter", T.eq(P(a["max_iter"]), P(c.max_iter)))
                same(c, "kkt:K-is-the-fit", K[t], fits[t][1])
            else:
                nb, how, out = c.extra["adj"][t]
                c.check("kkt:union-of-neighbourhoods", how == "union" and nb.ndim == 2 and nb.vshape[0] == P(c.d))
                nm = fits[t][2]
                c.prove_all("kkt:neighbourhoods-in-order", nb.vshape, lambda i, k: T.eq(nb.get((i, k)), T.app(nm, (i, k))))
                same(c, "kkt:K-is-the-fit", K[t], out)
        ps = recs(c, "psi:" + c.psi)
        if len(ps) != len(lags(c)):
            raise Unsupported("%d temporal prox calls for %d lags" % (len(ps), len(lags(c))))
        pr, du, kk, yy, un = [], [], [K], [], []
        pen = 0
        for m in lags(c):
            ul, ur = c.snap["U_M"][m]
            ol, orr = c.snap["Z_M_old"][m]
            yl, yr = need(post, "Z_M", m)
            kl, kr = K[:-m], K[m:]
            p = next((q for q in ps if q["out"].vshape[0] == yl.vshape[0]), None)
            if p is None:
                raise Unsupported("temporal prox for lag %d not identified" % m)
            pair(c, "Z_lag%d" % m, p, kdiag(c.kernel, m), kl + ul, kr + ur, yl, yr, rho)
            dl, dr = need(post, "U_M", m)
            same(c, "kkt:dual.U_lag%d.left" % m, post["rho"] * dl, rho * (ul + kl - yl))
            same(c, "kkt:dual.U_lag%d.right" % m, post["rho"] * dr, rho * (ur + kr - yr))
            a, b = need(post, "Z_M_old", m)
            same(c, "kkt:lagged.Z_lag%d.left" % m, a, yl)
            same(c, "kkt:lagged.Z_lag%d.right" % m, b, yr)
            pr += [kl - yl, kr - yr]
            du += [yl - ol, yr - orr]
            kk += [kl, kr]
            yy += [yl, yr]
            un += [ul + kl - yl, ur + kr - yr]
            pen = pen + psi_sum(c.psi, kdiag(c.kernel, m), yr - yl)
        sz = c.d * nT
        return dict(
            rnorm=rt(*pr), snorm=rho * rt(*du), e_pri=sz * c.tol + c.rtol * vmax(rt(*yy), rt(*kk)),
            e_dual=sz * c.tol + c.rtol * rho * rt(*un), obj=tobj(c, X, K, nT) + pen,
        )

    return it


def tobj(c, X, K, nT):
    v = 0
    for t in range(nT):
        v = v + loss_value(X[t], K[t])
    return v + l1od_obj(c.alpha, K)


def tglm_case(kind, variant, nT):
    def case(c):
        d, N = c.int("d", 2), c.int("n", 1)
        c.d, c.nT, c.n = d, nT, nT
        c.X = c.array("X", (nT, N, d), label="X")
        c.alpha, c.gamma, c.rho = c.real("alpha", nonneg=True), c.real("gamma", pos=True), c.real("rho0", pos=True)
        c.tol, c.rtol = c.real("tol", nonneg=True), c.real("rtol", nonneg=True)
        c.max_iter = c.int("max_iter", 1)
        c.obj_on = c.want_iter = variant != "b"
        c.want_hist = True
        c.stop_at, c.rho_opts = None, ({"mu": c.real("mu")} if variant == "b" else None)
        c.kernel = kern(c, "kernel", nT)
        c.psi = "laplacian"
        c.extra["inner"], c.extra["adj"] = [], []
        kw = {}
        if variant == "s":
            c.stop_at, c.stop_when = c.real("stop_at"), c.real("stop_when", pos=True)
            c.assume(T.ne(P(c.stop_at), T.ZERO))
            kw.update(stop_at=c.stop_at, stop_when=c.stop_when)

        class Spec(KAdmm):
            def assume(self, c, st, k, n):
                super().assume(c, st, k, n)
                c.extra["inner"], c.extra["adj"] = [], []

        c.loop_spec = spec = Spec(tglm_iteration(kind), ("K", "Z_M", "U_M", "Z_M_old", "rho"))

        def ent(c, pre):
            for m in lags(c):
                for q in ("U_M", "Z_M_old"):
                    for side in (0, 1):
                        zero(c, "kkt:entry.%s-is-zero" % q, pre[q][m][side])

        c.entry_check = ent
        ret = c.fn(c.X, alpha=c.alpha, rho=c.rho, kernel=c.kernel, max_iter=c.max_iter, psi=c.psi, gamma=c.gamma, tol=c.tol, rtol=c.rtol,
                   return_history=True, return_n_iter=c.want_iter, compute_objective=c.obj_on, update_rho_options=c.rho_opts, **kw)
        r = after(c, spec, ret, 1)
        if r:
            same(c, "kkt:returns-the-last-fits", r[0][0], r[1]["state"]["K"])

    return case


for v in "abs":
    for nT in (1, 2, 3, 4):
        if v == "s" and nT != 2:
            continue
        add("tising[%s,T=%d]" % (v, nT), TI, "_fit_time_ising_model", tglm_case("ising", v, nT), TS, thorough=nT > 3)
        add("tpoisson[%s,T=%d]" % (v, nT), TP, "_fit_time_poisson_model", tglm_case("poisson", v, nT), TS, thorough=nT > 3)

for nm, mod in (("tising", TI), ("tpoisson", TP)):
    for nT in (1, 2, 3, 4, 5):

        @unit("%s.objective[T=%d]" % (nm, nT), mod, "objective", stubs=TS)
        def _(c, nT=nT):
            d, N = c.int("d", 2), c.int("n", 1)
            X, K = c.array("X", (nT, N, d), label="X"), c.array("K", (nT, d, d), label="K")
            c.alpha, c.nT = c.real("alpha", nonneg=True), nT
            kr = kern(c, "kernel", nT)
            ZM, pen = {}, 0
            for m in lags(c):
                ZM[m] = tuple(c.array("Z%s%d" % (s, m), (nT - m, d, d), label="Z") for s in "LR")
                pen = pen + psi_sum("laplacian", kdiag(kr, m), ZM[m][1] - ZM[m][0])
            v = c.fn(X, K, ZM, c.alpha, kr, psi_value("laplacian"))
            c.prove("value", T.eq(P(v), P(tobj(c, X, K, nT) + pen)))
            frame(c)
