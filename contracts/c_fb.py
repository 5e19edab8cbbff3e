"""Forward-backward splitting: loss, gradient, penalty, line searches, and one arbitrary iteration."""
from .c_objectives import *
from .common import bcast
from .registry import add, unit
from vc.arrays import lam_of

FBM = "regain.forward_backward.forward_backward"
UT = "regain.utils"


def dot(a, b):
    return asum(a * b)


def fval(name, x):
    """value of an abstract real function of an array."""
    x = as_arr(x)
    return wrap(T.fapp(name, lam_of(x, x.ndim)(())))


def pinv_t(K):
    return NS.pinvh(K)


def fb_args(c, nT=None, ns=True):
    d, n, full, part = args3(c, nT)
    S, K = full("S", "K")
    N = c.array("n_samples", (n,)) if ns else None
    return S, K, N, d, n


def lap(K):
    """gradient of 1/2 sum |K_t+1 - K_t|^2"""
    n = K.vshape[0]
    D = K[1:] - K[:-1]
    return padR(D, n) - padL(D, n)


for v in "ab":

    @unit("fb:loss[%s]" % v, FB, "loss")
    def _(c, v=v):
        S, K, N, d, n = fb_args(c, ns=v == "a")
        ve = c.real("vareps", nonneg=True)
        r = c.fn(S, K, n_samples=N, vareps=ve)
        c.prove("value", T.eq(P(r), P(neg_ll_t(S, K, N) + ve / 2 * dot(K, K))))
        frame(c)

    for given in (True, False):

        @unit("fb:grad_loss[%s,%s]" % (v, "inverse-given" if given else "inverse-computed"), FB, "grad_loss")
        def _(c, v=v, given=given):
            S, K, N, d, n = fb_args(c, ns=v == "a")
            ve = c.real("vareps", nonneg=True)
            Ki = c.array("Kinv", K.vshape, label="x_inv") if given else None
            r = c.fn(K, S, N, x_inv=Ki, vareps=ve)
            inv = Ki if given else pinv_t(K)
            g = S - inv
            if v == "a":
                g = N[:, None, None] * g
            same(c, "value", r, g + ve * K)
            frame(c)

    @unit("fb:loss_laplacian[%s]" % v, FB, "loss_laplacian")
    def _(c, v=v):
        S, K, N, d, n = fb_args(c, ns=v == "a")
        ve, be = c.real("vareps", nonneg=True), c.real("beta", nonneg=True)
        r = c.fn(S, K, beta=be, n_samples=N, vareps=ve)
        D = K[1:] - K[:-1]
        c.prove("value", T.eq(P(r), P(neg_ll_t(S, K, N) + ve / 2 * dot(K, K) + be * dot(D, D))))
        frame(c)

    @unit("fb:grad_loss_laplacian[%s]" % v, FB, "grad_loss_laplacian")
    def _(c, v=v):
        S, K, N, d, n = fb_args(c, ns=v == "a")
        c.assume(T.le(T.num(2), P(n)))
        ve, be = c.real("vareps", nonneg=True), c.real("beta", nonneg=True)
        Ki = c.array("Kinv", K.vshape, label="x_inv")
        r = c.fn(K, S, beta=be, n_samples=N, x_inv=Ki, vareps=ve)
        g = S - Ki
        if v == "a":
            g = N[:, None, None] * g
        same(c, "value", r, g + ve * K + 2 * be * lap(K))
        frame(c)

    @unit("fb:penalty[%s]" % v, FB, "penalty")
    def _(c, v=v):
        S, K, N, d, n = fb_args(c)
        D = K[1:] - K[:-1]
        od = NS.absolute(K) * offm(K)
        if v == "a":
            al, be = c.real("alpha", nonneg=True), c.real("beta", nonneg=True)
            r = c.fn(K, al, be, lambda x: fval("PSI_all", x))
            want = al * asum(od) + be * fval("PSI_all", D)
        else:
            al, be = c.array("alpha", (n, 1, 1)), c.array("beta", (n - 1, 1, 1))
            r = c.fn(K, al, be, psi_value("psi"))
            want = asum(al * od) + psi_sum("psi", be, D)
        c.prove("value", T.eq(P(r), P(want)))
        frame(c)

    @unit("fb:penalty_laplacian[%s]" % v, FB, "penalty_laplacian")
    def _(c, v=v):
        S, K, N, d, n = fb_args(c)
        al = c.real("alpha", nonneg=True) if v == "a" else c.array("alpha", (n, 1, 1))
        c.prove("value", T.eq(P(c.fn(K, al)), P(asum(bc(al, K) * NS.absolute(K) * offm(K)))))
        frame(c)


@unit("fb:objective", FB, "objective")
def _(c):
    S, K, N, d, n = fb_args(c)
    ve, al, be = c.real("vareps", nonneg=True), c.real("alpha", nonneg=True), c.real("beta", nonneg=True)
    r = c.fn(N, S, K, al, be, lambda x: fval("PSI_all", x), vareps=ve)
    want = neg_ll_t(S, K, N) + ve / 2 * dot(K, K) + al * asum(NS.absolute(K) * offm(K)) + be * fval("PSI_all", K[1:] - K[:-1])
    c.prove("value", T.eq(P(r), P(want)))
    frame(c)


@unit("fb:objective_laplacian", FB, "objective_laplacian")
def _(c):
    S, K, N, d, n = fb_args(c)
    ve, al, be = c.real("vareps", nonneg=True), c.real("alpha", nonneg=True), c.real("beta", nonneg=True)
    r = c.fn(N, S, K, al, be, vareps=ve)
    D = K[1:] - K[:-1]
    c.prove("value", T.eq(P(r), P(neg_ll_t(S, K, N) + ve / 2 * dot(K, K) + al * asum(NS.absolute(K) * offm(K)) + be * dot(D, D))))
    frame(c)


# ------------------------------------------------------------------ line searches
def stub_prox_fl(c, real, a, beta, lamda, p=1, symmetric=False, use_matlab=False, optimize=True):
    """ensures: out is the fused-lasso prox (total variation weight beta, sparsity lamda) of a."""
    a = as_arr(a).copy()
    out = c.fresh_array("FL", a.vshape)
    c.extra.setdefault("fl", []).append(dict(a=a, beta=beta, lamda=lamda, p=p, out=out.copy()))
    return out


def stub_pd(c, real, x, tol=1e-15):
    return SBool(T.lt(T.ZERO, P(fval("PD", x))))


def stub_st(c, real, a, lamda):
    a = as_arr(a).copy()
    out = c.fresh_array("ST", a.vshape)
    c.extra.setdefault("st", []).append(dict(a=a, lamda=lamda, out=out.copy()))
    return out


LS = {"regain.prox:prox_FL": stub_prox_fl, "regain.utils:positive_definite": stub_pd, "regain.prox:soft_thresholding_off_diagonal": stub_st}


def pd(x):
    return T.lt(T.ZERO, P(fval("PD", x)))


class Search(LoopSpec):
    """backtracking: an iteration that does not accept multiplies the step by eps."""

    def __init__(self, var, val):
        self.var, self.val = var, val

    def wants(self, c, site, seq):
        return getattr(seq, "length", None) is not None and seq.length == P(c.max_iter)

    def entry(self, c, pre, n):
        if self.var not in pre:
            raise RoleMissing([self.var], sorted(pre))
        c.prove("starts-from-the-given-step", T.eq(P(pre[self.var]), P(self.val)))

    def assume(self, c, st, k, n):
        c.assume(T.lt(T.ZERO, P(st[self.var])))
        c.extra["fl"], c.extra["st"] = [], []

    def step(self, c, pre, post, k, n):
        c.prove("rejected-step-is-shrunk-by-eps", T.eq(P(post[self.var]), T.mul(P(c.eps), P(pre[self.var]))))
        self.rejected(c, pre)

    def rejected(self, c, pre):
        pass


def gamma_case(choose, laplacian):
    def case(c):
        d, n, full, part = args3(c)
        x, grad = c.array("x", (n, d, d), label="x"), c.array("grad", (n, d, d), label="grad")
        g0, al, be, la, de = (c.real(k, pos=True) for k in ("gamma0", "alpha", "beta", "lamda", "delta"))
        c.eps = c.real("eps", pos=True)
        c.max_iter = c.int("max_iter", 1)
        p = 2
        c.loop_spec = sp = Search("gamma", g0)
        fcalls = []

        def ff(K):
            fcalls.append(K)
            return fval("LOSS", K)

        def accepted(c, gam, prox):
            if choose != "gamma":
                return pd(prox)
            D = prox - x
            return T.band(T.le(P(fval("LOSS", x + la * D) - fval("LOSS", x)), P(la * (dot(D, grad) + de / gam * dot(D, D)))), pd(x + la * D))

        def out(c):
            rs = c.extra["st" if laplacian else "fl"]
            if len(rs) != 1:
                raise Unsupported("%d proximal steps in one line-search iteration" % len(rs))
            return rs[0]

        sp.rejected = lambda c, pre: c.prove("rejects-only-if-not-sufficient", T.bnot(accepted(c, pre["gamma"], out(c)["out"])))
        r = c.fn(g0, x, be, al, la, grad, function_f=ff, delta=de, eps=c.eps, max_iter=c.max_iter, p=p, choose=choose, laplacian_penalty=laplacian)
        bs = c.break_state
        if bs["kind"] != "break":
            return
        gam, prox = r
        o = out(c)
        same(c, "returns-the-accepted-point", prox, o["out"])
        same(c, "forward-step", o["a"], x - gam * grad)
        c.prove("sparsity-weight", T.eq(P(o["lamda"]), P(al * gam)))
        if not laplacian:
            c.prove("temporal-weight", T.eq(P(o["beta"]), P(be * gam)))
            c.check("temporal-norm", o["p"] == p)
        c.prove("accepted-step-decreases-enough" if choose == "gamma" else "accepted-point-is-positive-definite", accepted(c, gam, prox))
        frame(c)

    return case


for ch in ("gamma", "both"):
    for lp in (True, False):
        unit("fb:choose_gamma[%s,%s]" % (ch, "laplacian" if lp else "fused"), FBM, "choose_gamma", stubs=LS)(gamma_case(ch, lp))


def lamda_case(crit):
    def case(c):
        d, n, full, part = args3(c)
        x, grad, prox = (c.array(k, (n, d, d), label=k) for k in ("x", "grad", "prox"))
        l0, gam, de = (c.real(k, pos=True) for k in ("lamda0", "gamma", "delta"))
        c.eps = c.real("eps", pos=True)
        c.max_iter = c.int("max_iter", 1)
        c.loop_spec = sp = Search("lamda", l0)
        D = prox - x

        def gf(K):
            K = as_arr(K)
            f = lam_of(K, K.ndim)(())
            return SArr.make(K.vshape, lambda i: T.fapp("GRAD", f, *i))

        def cond(la):
            x1 = x + la * D
            if crit == "b":
                return T.band(T.le(P(fval("LOSS", x1) - fval("LOSS", x)), P(la * (dot(D, grad) + de / gam * dot(D, D)))), pd(x1))
            if crit == "c":
                return T.le(P(fval("OBJ", x1) - fval("OBJ", x)), P(la * (1 - de) * (fval("PEN", prox) - fval("PEN", x) + dot(D, grad))))
            G = gf(x1) - grad
            return T.le(T.sqrt(P(dot(G, G))), P(de / (gam * la) * wrap(T.sqrt(P(dot(x1 - x, x1 - x))))))

        sp.rejected = lambda c, pre: c.prove("rejects-only-if-not-sufficient", T.bnot(cond(pre["lamda"])))
        r = c.fn(l0, x, gam, delta=de, eps=c.eps, function_f=lambda K: fval("LOSS", K), objective_f=lambda precision: fval("OBJ", precision), gradient_f=gf, function_g=lambda K: fval("PEN", K), max_iter=c.max_iter, criterion=crit, grad=grad, prox=prox)
        bs = c.break_state
        c.prove("counts-line-search-iterations", T.eq(P(r[1]), T.add(P(bs["k"]), T.ONE)))
        if bs["kind"] == "break":
            c.prove("accepted-step-decreases-enough", cond(r[0]))
        frame(c)

    return case


for cr in "abc":
    unit("fb:choose_lamda[%s]" % cr, FBM, "choose_lamda", stubs=LS)(lamda_case(cr))


@unit("fb:choose_lamda[rejects]", FBM, "choose_lamda", stubs=LS)
def _(c):
    x, grad, prox = (c.array(k, (2, 2, 2), label=k) for k in ("x", "grad", "prox"))
    try:
        c.fn(1.0, x, 1.0, function_f=lambda K: fval("LOSS", K), criterion="z", grad=grad, prox=prox, max_iter=3)
    except ValueError:
        c.ok("unknown-criterion-rejected")
    else:
        c.fail("unknown-criterion-rejected", "no error")


# ------------------------------------------------------------------ the iteration
def stub_choose_gamma(c, real, *a, **k):
    import inspect

    b = inspect.signature(real).bind(*a, **k)
    b.apply_defaults()
    g = c.fresh_real("gamma_new")
    c.assume(T.lt(T.ZERO, P(g)))
    y = c.fresh_array("Y", as_arr(b.arguments["x"]).vshape)
    c.extra.setdefault("cg", []).append((dict(b.arguments), g, y.copy()))
    return g, y


def stub_choose_lamda(c, real, *a, **k):
    import inspect

    b = inspect.signature(real).bind(*a, **k)
    b.apply_defaults()
    l, n = c.fresh_real("lamda_new"), wrap(T.sym(T.fresh_name("nls"), T.INT), True)
    c.extra.setdefault("cl", []).append((dict(b.arguments), l, n))
    return l, n


ITS = dict(LS)
ITS[FBM + ":choose_gamma"] = stub_choose_gamma
ITS[FBM + ":choose_lamda"] = stub_choose_lamda
ITS["regain.covariance.graphical_lasso_:init_precision"] = lambda c, real, emp_cov, mode="empirical": c.fresh_array("Kinit", as_arr(emp_cov).vshape)
ITS["regain.norm:vector_p_norm"] = lambda c, real, a, p=1: fval("VPN_%s" % p, a)


class Fbs(LoopSpec):
    def __init__(self, it):
        self.it = it

    def wants(self, c, site, seq):
        return getattr(seq, "length", None) is not None and seq.length == P(c.max_iter)

    def entry(self, c, pre, n):
        if "K" not in pre:
            raise RoleMissing(["K"], sorted(pre))
        c.prove("entry:gamma", T.eq(P(pre["gamma"]), P(c.g0)))
        c.prove("entry:lamda", T.eq(P(pre["lamda"]), P(c.l0)))

    def assume(self, c, st, k, n):
        c.assume(T.lt(T.ZERO, P(st["gamma"])))
        for x in ("fl", "st", "cg", "cl"):
            c.extra[x] = []

    def step(self, c, pre, post, k, n):
        self.it(c, pre, post, k, "continue")


def iter_case(choose, laplacian, stop=True):
    def case(c):
        c.extra["skip_defined"] = not stop  # the default criterion divides by the largest residual so far (0/0 at a fixed point: no claim)
        d, n, full, part = args3(c)
        S = c.array("S", (n, d, d), symmetric=True, label="emp_cov")
        if laplacian:
            c.assume(T.le(T.num(2), P(n)))
        N = c.array("n_samples", (n,), label="n_samples")
        c.g0, c.l0 = c.real("gamma0", pos=True), c.real("lamda0", nonneg=True)
        al, be, de, eps, ve, tol = (c.real(k, pos=True) for k in ("alpha", "beta", "delta", "eps", "vareps", "tol"))
        c.max_iter = c.int("max_iter", 1)

        def obj(K):
            D = K[1:] - K[:-1]
            pen = be * dot(D, D) if laplacian else be * fval("VPN_2", D)
            return neg_ll_t(S, K, N) + ve / 2 * dot(K, K) + al * asum(NS.absolute(K) * offm(K)) + pen

        def it(c, pre, post, k, kind):
            K, K1 = pre["K"], post["K"]
            gam, la = P(pre["gamma"]), P(pre["lamda"])
            g = N[:, None, None] * (S - pinv_t(K)) + ve * K
            if laplacian:
                g = g + 2 * be * lap(K)
            first = T.eq(P(k), T.ZERO)
            if choose in ("gamma", "both"):
                (a, gam1, y), = need1(c, "cg")
                c.prove("gamma-search-starts-from", T.eq(P(a["gamma"]), T.ite(first, gam, T.mul(gam, T.inv(P(eps))))))
                same(c, "gamma-search-at", a["x"], K)
                same(c, "gradient", a["grad"], g)
                for nm, w in (("alpha", al), ("beta", be), ("lamda", pre["lamda"]), ("delta", de), ("eps", eps)):
                    c.prove("gamma-search-" + nm, T.eq(P(a[nm]), P(w)))
                c.check("gamma-search-mode", a["choose"] == choose and bool(a["laplacian_penalty"]) == laplacian and a["p"] == 2)
                X = c.fresh_array("probe", K.vshape)
                c.prove("gamma-search-loss", T.eq(P(a["function_f"](K=X)), P(smooth(X))))
            else:
                gam1 = pre["gamma"]
                rs = c.extra["st" if laplacian else "fl"]
                if len(rs) != 1:
                    raise Unsupported("%d proximal steps" % len(rs))
                o = rs[0]
                y = o["out"]
                same(c, "forward-step", o["a"], K - pre["gamma"] * g)
                c.prove("sparsity-weight", T.eq(P(o["lamda"]), P(al * pre["gamma"])))
                if not laplacian:
                    c.prove("temporal-weight", T.eq(P(o["beta"]), P(be * pre["gamma"])))
            c.prove("gamma-kept", T.eq(P(post["gamma"]), P(gam1)))
            if choose in ("lamda", "both"):
                (a, la1, nls), = need1(c, "cl")
                c.prove("lamda-search-starts-from", T.eq(P(a["lamda"]), T.minv(T.ite(first, la, T.mul(la, T.inv(P(eps)))), T.ONE)))
                same(c, "lamda-search-at", a["x"], K)
                same(c, "lamda-search-gradient", a["grad"], g)
                same(c, "lamda-search-towards", a["prox"], y)
                for nm, w in (("gamma", gam1), ("delta", de), ("eps", eps)):
                    c.prove("lamda-search-" + nm, T.eq(P(a[nm]), P(w)))
                c.check("lamda-search-criterion", a["criterion"] == "c")
                X = c.fresh_array("probe", K.vshape)
                c.prove("lamda-search-loss", T.eq(P(a["function_f"](K=X)), P(smooth(X))))
                c.prove("lamda-search-objective", T.eq(P(a["objective_f"](precision=X)), P(obj(X))))
                c.prove("lamda-search-penalty", T.eq(P(a["function_g"](X)), P(obj(X) - smooth(X))))
                same(c, "lamda-search-gradient-function", a["gradient_f"](X), grad_at(X))
                c.prove("line-search-counter", T.eq(P(post["n_linesearch"]), T.add(P(pre["n_linesearch"]), P(nls))))
            else:
                la1 = pre["lamda"]
            c.prove("lamda-kept", T.eq(P(post["lamda"]), P(la1)))
            w = wrap(T.minv(T.maxv(P(la1), T.ZERO), T.ONE))
            same(c, "relaxed-step", K1, K + w * (y - K))
            if not stop:
                return
            h = history(post)
            if not c.check("one-history-entry-per-iteration", len(h) == 1, "%d" % len(h)):
                return
            c.prove("history-objective", T.eq(P(h[0].obj), P(obj(K1))))
            met = T.lt(T.mul(T.absv(T.sub(P(h[0].obj), P(sa))), T.inv(T.absv(P(sa)))), P(sw))
            c.prove("stops-iff-target-met", met if kind == "break" else T.bnot(met))

        def smooth(K):
            D = K[1:] - K[:-1]
            return neg_ll_t(S, K, N) + ve / 2 * dot(K, K) + (be * dot(D, D) if laplacian else 0)

        def grad_at(K):
            g = N[:, None, None] * (S - pinv_t(K)) + ve * K
            return g + 2 * be * lap(K) if laplacian else g

        c.loop_spec = sp = Fbs(it)
        sa, sw = c.real("stop_at", pos=True), c.real("stop_when", pos=True)
        kw = dict(stop_at=sa, stop_when=sw) if stop else {}
        r = c.fn(S, alpha=al, beta=be, max_iter=c.max_iter, n_samples=N, tol=tol, delta=de, gamma=c.g0, lamda=c.l0, eps=eps, return_history=True,
                 return_n_iter=True, choose=choose, lamda_criterion="c", time_norm=2, return_n_linesearch=True, vareps=ve, laplacian_penalty=laplacian, **kw)
        bs = c.break_state
        it(c, bs["pre"], bs["state"], wrap(bs["k"], True), bs["kind"])
        c.check("arity", len(r) == 5)
        same(c, "returns-the-last-iterate", r[0], bs["state"]["K"])
        same(c, "covariance-is-its-inverse", r[1], pinv_t(bs["state"]["K"]))
        c.prove("n_iter-counts-iterations", T.eq(P(r[3]), T.add(P(bs["k"]), T.ONE)))
        c.prove("returns-line-search-count", T.eq(P(r[4]), P(bs["state"]["n_linesearch"])))
        c.check("warning-iff-exhausted", (bs["kind"] == "exhausted") == any("converge" in str(w) for w in c.warnings), str(c.warnings))
        frame(c)

    return case


def need1(c, key):
    rs = c.extra[key]
    if len(rs) != 1:
        raise Unsupported("%d calls of %s" % (len(rs), key))
    return rs


for ch in ("gamma", "lamda", "fixed", "both"):
    for lp in (True, False):
        unit("fb:iteration[%s,%s]" % (ch, "laplacian" if lp else "fused"), FB, "tgl_forward_backward", stubs=ITS)(iter_case(ch, lp))
        if ch in ("fixed", "gamma"):
            unit("fb:iteration[%s,%s,default-stop]" % (ch, "laplacian" if lp else "fused"), FB, "tgl_forward_backward", stubs=ITS)(iter_case(ch, lp, False))


@unit("fb:choose[rejects]", FB, "tgl_forward_backward", stubs=ITS)
def _(c):
    S = c.array("S", (2, 2, 2), symmetric=True, label="emp_cov")
    for bad in ("lambda", "", "other", None):
        try:
            c.fn(S, choose=bad, max_iter=1)
        except ValueError:
            c.ok("unknown-strategy-rejected")
        else:
            c.fail("unknown-strategy-rejected", repr(bad))
