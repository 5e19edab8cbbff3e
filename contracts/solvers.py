"""Loop contracts of the ADMM solvers.

One arbitrary iteration is executed symbolically from an arbitrary loop state (positive rho, arbitrary
arrays of the right shape), with the proximal operators replaced by their contracts.  Obligations:

  kkt:   block optimality of every update (resolvent form), multiplier updates including the rescaling
         that accompanies a change of rho, lagged copies; together with the lemmas of `fixed_point`
         these make every fixed point of the iteration a KKT point of the documented objective
  stop:  reported residuals, tolerances and objective; stop <=> both residuals below tolerance
         (or documented stop_at), warning <=> iterations exhausted, n_iter, returned values
  frame: no array handed in by the caller is written
  requires:/defined:  preconditions of callees, denominators non-zero
"""
from .common import *
from vc.engine import OpaqueList

GLM = "regain.covariance.graphical_lasso_"
TGLM = "regain.covariance.time_graphical_lasso_"
LGLM = "regain.covariance.latent_graphical_lasso_"
LTGLM = "regain.covariance.latent_time_graphical_lasso_"
KTGLM = "regain.covariance.kernel_time_graphical_lasso_"
KLTGLM = "regain.covariance.kernel_latent_time_graphical_lasso_"
LTMDM = "regain.covariance.latent_time_matrix_decomposition"
IMGLM = "regain.covariance.infimal_convolution_"


# ------------------------------------------------------------------ spec vocabulary
def sym2(x):
    return (x + x.T) / 2


def sym3(x):
    return (x + x.transpose(0, 2, 1)) / 2


def padL(X, n):
    """(n-m, d, d) -> (n, d, d), zero rows appended."""
    r, m = X.reader(), X.vshape[0]
    return SArr.make((n,) + tuple(X.vshape[1:]), lambda i: T.ite(T.lt(i[0], m), r(i), T.ZERO))


def padR(X, n):
    """(n-m, d, d) -> (n, d, d), zero rows prepended."""
    r, s = X.reader(), T.sub(n, X.vshape[0])
    return SArr.make((n,) + tuple(X.vshape[1:]), lambda i: T.ite(T.le(s, i[0]), r((T.sub(i[0], s),) + tuple(i[1:])), T.ZERO))


def zeros_as(x):
    return SArr.make(x.vshape, lambda i: T.ZERO)


def offm(x):
    """0/1 off-diagonal mask with the shape of x."""
    return SArr.make(x.vshape, lambda i: T.ite(T.eq(i[-1], i[-2]), T.ZERO, T.ONE))


def bc(x, like):
    """parameter (scalar or array broadcasting to `like`)."""
    f = bcast(x, list(like.vshape))
    return SArr.make(like.vshape, f)


def rt(*xs):
    """sqrt of the sum of squares."""
    return wrap(T.sqrt(sqn(*xs)))



def logdet(K):
    """log det with -inf when the determinant is not positive."""
    s, l = NS.slogdet(K)
    if K.ndim == 2:
        return wrap(T.ite(T.lt(T.ZERO, P(s)), P(l), P(-float("inf"))))
    rs, rl = s.reader(), l.reader()
    return SArr.make(l.vshape, lambda i: T.ite(T.lt(T.ZERO, rs(i)), rl(i), P(-float("inf"))))


def nuc(X):
    return NS.norm(X, ord="nuc", axis=(-2, -1)) if X.ndim == 3 else NS.norm(X, ord="nuc")


def asum(x):
    return NS.reduce_sum(x)


def l1od(w, Z):
    """sum of w |Z| over off-diagonal entries."""
    return NS.reduce_sum(bc(w, Z) * NS.absolute(Z) * offm(Z))


def psi_sum(tag, weights, D):
    """sum_t w_t PSI_tag(D_t)."""
    n = D.vshape[0]
    t = T.fresh_name("k")
    T.RANGE[t] = n
    tp = T.sym(t, T.INT)
    r = D.reader()
    Dt = SArr.make(D.vshape[1:], lambda i: r((tp,) + tuple(i)))
    v = P(psi_value(tag)(Dt))
    if isinstance(weights, (int, float, SNum)):
        w = P(weights)
    else:
        wa = as_arr(weights)
        w = wa.reader()((tp,) + (T.ZERO,) * (wa.ndim - 1))
    return wrap(T.mk_sum([(t, n)], T.mul(w, v)))


def one_based(st, *names):
    miss = [n for n in names if n not in st]
    if miss:
        raise RoleMissing(miss, sorted(st))
    return [st[n] for n in names]


# ------------------------------------------------------------------ generic loop contract
class Admm(LoopSpec):
    """iteration(c, pre, post) proves the kkt: obligations and returns the specified convergence fields."""

    roles = ()
    lagged = {}
    inf_break = False

    def __init__(self, iteration, roles):
        self.iteration, self.roles = iteration, roles

    def wants(self, c, site, seq):
        return getattr(seq, "length", None) is not None and seq.length == P(c.max_iter)

    def entry(self, c, pre, n):
        miss = [r for r in self.roles if r not in pre]
        if miss:
            raise RoleMissing(miss, sorted(pre))
        c.prove("kkt:entry.rho-is-the-parameter", T.eq(P(pre["rho"]), P(c.rho)))
        if c.entry_check:
            c.entry_check(c, pre)

    def assume(self, c, st, k, n):
        c.assume(T.lt(T.ZERO, P(st["rho"])))
        c.extra["prox"] = []
        c.extra["update_rho"] = []

    def step(self, c, pre, post, k, n):
        finish(c, self, pre, post, k, "continue")


def history(st):
    ls = [v for v in st.values() if isinstance(v, OpaqueList)]
    if len(ls) != 1:
        raise Unsupported("history list not identified (%d candidates)" % len(ls))
    return ls[0]


def finish(c, spec, pre, post, k, kind):
    F = spec.iteration(c, pre, post)
    h = history(post)
    if not c.check("stop:one-history-entry-per-iteration", len(h) == 1, "%d entries appended" % len(h)):
        return
    ck = h[0]
    rn, sn, ep, ed = (F[x] for x in ("rnorm", "snorm", "e_pri", "e_dual"))
    for f in ("rnorm", "snorm", "e_pri", "e_dual"):
        c.prove("stop:history.%s" % f, T.eq(P(getattr(ck, f)), P(F[f])))
    if c.obj_on:
        c.prove("stop:history.obj", T.eq(P(ck.obj), P(F["obj"])))
    else:
        c.check("stop:history.obj-is-nan-when-not-computed", isinstance(ck.obj, float) and ck.obj != ck.obj)
    done = T.band(T.le(P(rn), P(ep)), T.le(P(sn), P(ed)))
    alt = T.FALSE
    if spec.inf_break and c.obj_on:
        alt = T.eq(P(ck.obj), P(float("inf")))
    if c.stop_at is not None:
        sa = P(c.stop_at)
        alt = T.lt(T.mul(T.absv(T.sub(P(ck.obj), sa)), T.inv(T.absv(sa))), P(c.stop_when))
    if kind == "break":
        c.prove("stop:break-only-at-tolerance", T.bor(done, alt))
        c.check("stop:no-warning-on-convergence", not c.warnings, str(c.warnings))
    else:
        c.prove("stop:break-when-at-tolerance", T.bnot(T.bor(done, alt)))
        u = c.extra["update_rho"]
        if kind == "continue" or u:
            if len(u) != 1:
                raise Unsupported("%d rho updates in one iteration" % len(u))
            u = u[0]
            c.prove("stop:update_rho.rho", T.eq(P(u["rho"]), P(pre["rho"])))
            c.prove("stop:update_rho.rnorm", T.eq(P(u["rnorm"]), P(rn)))
            c.prove("stop:update_rho.snorm", T.eq(P(u["snorm"]), P(sn)))
            c.prove("stop:update_rho.iteration", T.eq(P(u["iteration"]), P(k)))
            c.check("stop:update_rho.options", all(u["kw"].get(o) is v for o, v in (c.rho_opts or {}).items()))
            c.prove("kkt:rho-update", T.eq(P(post["rho"]), P(u["out"])))


def after(c, spec, ret, n_ret):
    """Called when the solver returned."""
    bs = c.break_state
    if bs is None:
        c.check("stop:loop-reached", T.eq(P(c.max_iter), T.ZERO))
        return
    k = bs["k"]
    finish(c, spec, bs["pre"], bs["state"], k, bs["kind"])
    if bs["kind"] == "exhausted":
        c.check("stop:warning-when-not-converged", len(c.warnings) == 1, str(c.warnings))
    c.check("frame:caller-arrays-not-written", not c.written, str(sorted(set(c.written))))
    ret = list(ret)
    want = n_ret + (1 if c.want_hist else 0) + (1 if c.want_iter else 0)
    if not c.check("stop:return-arity", len(ret) == want, "%d values" % len(ret)):
        return
    if c.want_hist:
        c.check("stop:returns-history", ret[n_ret] is history(bs["state"]) or isinstance(ret[n_ret], OpaqueList))
    if c.want_iter:
        c.prove("stop:n_iter-counts-iterations", T.eq(P(ret[-1]), T.add(P(k), T.ONE)))
    return ret, bs


def same(c, name, a, b):
    a, b = as_arr(a), as_arr(b)
    c.prove_eq_arr(name, a, b)


def zero(c, name, e):
    same(c, name, e, zeros_as(as_arr(e)))


def dual(c, name, post, pre, d):
    """rho' U' = rho (U + d)"""
    same(c, "kkt:dual." + name, post["rho"] * post[name], pre["rho"] * (pre[name] + d))


def prox_block(c, name, r, out, weight, curv, arg):
    """`out` is the minimiser of  weight * f(X) + curv/2 |X - arg|^2  for the f of record r:
    the contract of r's prox says so iff its argument is arg and its lamda is weight/curv."""
    same(c, "kkt:%s.is-prox-output" % name, out, r["out"])
    same(c, "kkt:%s.argument" % name, r["a"], arg)
    _weight(c, name, r, weight, curv, arg)


def _weight(c, name, r, weight, curv, like):
    w, cv, lam = bcast(weight, list(like.vshape)), bcast(curv, list(like.vshape)), r["lam"]
    c.prove_all("kkt:%s.weight" % name, like.vshape, lambda *i: T.eq(T.mul(lam(i), cv(i)), w(i)))


def logdet_block(c, name, r, n, S, curv, M):
    """prox output K minimises n*(tr(S K) - logdet K) + curv/2 |K - M|^2  (n, curv scalars or per-time arrays)."""
    same(c, "kkt:%s.argument" % name, n * r["a"], n * S - curv * M)
    _weight(c, name, r, n, curv, M)


def find(c, kind, out):
    """the recorded prox call whose output is `out` (syntactically); else the only call of that kind."""
    rs = recs(c, kind)
    if len(rs) == 1:
        return rs[0]
    idx = idx_syms(out.vshape, "sk")
    for r in rs:
        if len(r["out"].vshape) == len(idx) and r["out"].reader()(idx) == out.reader()(idx):
            return r
    raise Unsupported("no unique %s call produced this variable" % kind)


def setup(c, variant, T_dim=None, latent=False, temporal=True, over=False):
    """Symbolic arguments.  variant 'a': scalar penalties, n_samples array, objective on;
    'b': array penalties, n_samples None, objective off, no n_iter."""
    d = c.int("d", 1)
    n = None
    if temporal:
        n = c.int("T", 1) if T_dim is None else T_dim
        shape = (n, d, d)
    else:
        shape = (d, d)
    c.S = c.array("S", shape, symmetric=True, label="emp_cov")
    c.d, c.n = d, n
    c.rho = c.real("rho0", pos=True)
    c.max_iter = c.int("max_iter", 1)
    c.tol, c.rtol = c.real("tol", nonneg=True), c.real("rtol", nonneg=True)
    c.obj_on = variant != "b"
    c.want_hist = True
    c.want_iter = variant != "b"
    c.stop_at = None
    c.entry_check = None
    c.rho_opts = {"mu": c.real("mu")} if variant == "b" else None
    kw = dict(
        rho=c.rho, max_iter=c.max_iter, tol=c.tol, rtol=c.rtol, return_history=True,
        compute_objective=c.obj_on, return_n_iter=c.want_iter, update_rho_options=c.rho_opts,
    )

    def par(name, arr_shape):
        if variant == "b" and arr_shape is not None:
            nm = name
            a = c.array(nm, arr_shape, label=name)
            c.fact(nm, lambda *i: T.le(T.ZERO, T.app(nm, i)))
            return a
        return c.real(name, nonneg=True)

    if temporal:
        if variant == "a" or variant == "s":
            c.ns = c.array("nsamp", (n,), label="n_samples")
            c.fact("nsamp", lambda i: T.lt(T.ZERO, T.app("nsamp", (i,))))
            kw["n_samples"] = c.ns
        else:
            c.ns = SArr.make((P(n),), lambda i: T.ONE)
            kw["n_samples"] = None
    return kw, par


# ------------------------------------------------------------------ graphical lasso
def gl_iteration(c, pre, post):
    S = c.S
    Z, U, Zo, rho = one_based(pre, "Z", "U", "Z_old", "rho")
    Z1 = post["Z"]
    r, s = one(c, "logdet"), one(c, "l1od")
    K = r["out"]
    logdet_block(c, "K", r, 1, S, rho, sym2(Z - U))
    Kh = c.orx * K + (1 - c.orx) * Z
    prox_block(c, "Z", s, Z1, c.alpha, rho, Kh + U)
    Un = U + Kh - Z1
    dual(c, "U", post, pre, Kh - Z1)
    same(c, "kkt:lagged.Z", post["Z_old"], Z1)
    n = wrap(T.mul(P(c.d), P(c.d)))
    return dict(
        rnorm=rt(K - Z1), snorm=rho * rt(Z1 - Zo),
        e_pri=NS.sqrt(n) * c.tol + c.rtol * vmax(rt(K), rt(Z1)),
        e_dual=NS.sqrt(n) * c.tol + c.rtol * rho * rt(Un),
        obj=asum(S * K) - logdet(K) + asum(NS.absolute(c.alpha * Z1) * offm(Z1)),
    )


def vmax(a, b):
    return wrap(T.maxv(P(a), P(b)))


def gl_case(variant):
    def case(c):
        kw, par = setup(c, variant, temporal=False)
        c.alpha = par("alpha", (c.d, c.d))
        c.orx = c.real("over_relax")
        init_variants(c, kw, variant)
        c.loop_spec = spec = Admm(gl_iteration, ("Z", "U", "Z_old", "rho"))
        c.entry_check = lambda c, pre: entry_zero(c, pre, ("U", "Z_old"), Z="init")
        ret = c.fn(c.S, alpha=c.alpha, over_relax=c.orx, **kw)
        r = after(c, spec, ret, 2)
        if r:
            same(c, "kkt:returns-the-constrained-copy", r[0][0], r[1]["state"]["Z"])
            same(c, "stop:returns-emp_cov", r[0][1], c.S)

    return case


def init_variants(c, kw, variant):
    """init: 'empirical' (value specified by init_precision's own contract), 'zeros', ndarray."""
    if variant == "b":
        kw["init"] = c.array("init", c.S.vshape, label="init")
        c.extra["init_is"] = kw["init"]
    else:
        kw["init"] = "empirical"


def entry_zero(c, pre, zeros, Z=None, **k):
    for z in zeros:
        zero(c, "kkt:entry.%s-is-zero" % z, pre[z])


def init_stub_checked(c, real, emp_cov, mode="empirical"):
    """callers must initialise from emp_cov and the requested mode."""
    c.check("requires:init_precision.emp_cov", as_arr(emp_cov).buf is c.S.buf)
    if "init_is" in c.extra:
        c.check("requires:init_precision.mode", mode is c.extra["init_is"])
        return mode
    c.check("requires:init_precision.mode", mode == "empirical")
    return c.fresh_array("Kinit", c.S.vshape)


# ------------------------------------------------------------------ time graphical lasso
def tdiv(c):
    """number of consensus copies of each time point: 3, less one at each end."""
    n = P(c.n)
    return SArr.make(
        (n,),
        lambda i: T.sub(T.sub(T.num(3), T.ite(T.eq(i[0], T.ZERO), T.ONE, T.ZERO)), T.ite(T.eq(i[0], T.sub(n, T.ONE)), T.ONE, T.ZERO)),
    )


def temporal_pair(c, name, tag, weight, A1, A2, Y1, Y2, rho):
    """(Y1, Y2) minimises weight*PSI(Y2-Y1) + rho/2 (|Y1-A1|^2 + |Y2-A2|^2)."""
    p = one(c, "psi:" + tag)
    G = p["a"] - p["out"]
    same(c, "kkt:%s.difference-is-prox-output" % name, Y2 - Y1, p["out"])
    zero(c, "kkt:%s.right-stationarity" % name, G / 2 + Y2 - A2)
    zero(c, "kkt:%s.left-stationarity" % name, -G / 2 + Y1 - A1)
    _weight(c, name, p, 2 * weight, rho, G)


def tgl_iteration(c, pre, post):
    S, n = c.S, P(c.n)
    Z0, Z1, Z2, U0, U1, U2, O0, O1, O2, rho = one_based(pre, "Z_0", "Z_1", "Z_2", "U_0", "U_1", "U_2", "Z_0_old", "Z_1_old", "Z_2_old", "rho")
    r, s = one(c, "logdet"), one(c, "l1od")
    K = r["out"]
    N = c.ns[:, None, None]
    D = tdiv(c)[:, None, None]
    Y0, Y1, Y2 = post["Z_0"], post["Z_1"], post["Z_2"]
    tot = Z0 - U0 + padL(Z1 - U1, n) + padR(Z2 - U2, n)
    logdet_block(c, "K", r, N, S, rho * D, sym3(tot) / D)
    prox_block(c, "Z_0", s, Y0, c.alpha, rho, sym3(K + U0))
    temporal_pair(c, "Z_12", c.psi, c.beta, K[:-1] + U1, K[1:] + U2, Y1, Y2, rho)
    dual(c, "U_0", post, pre, K - Y0)
    dual(c, "U_1", post, pre, K[:-1] - Y1)
    dual(c, "U_2", post, pre, K[1:] - Y2)
    for x in ("Z_0", "Z_1", "Z_2"):
        same(c, "kkt:lagged." + x, post[x + "_old"], post[x])
    d2 = T.mul(P(c.d), P(c.d))
    sz = NS.sqrt(wrap(T.mul(d2, T.sub(T.mul(T.num(3), n), T.num(2)))))
    return dict(
        rnorm=rt(K - Y0, K[:-1] - Y1, K[1:] - Y2),
        snorm=rho * rt(Y0 - O0, Y1 - O1, Y2 - O2),
        e_pri=sz * c.tol + c.rtol * vmax(rt(Y0, Y1, Y2), rt(K, K[:-1], K[1:])),
        e_dual=sz * c.tol + c.rtol * rho * rt(U0 + K - Y0, U1 + K[:-1] - Y1, U2 + K[1:] - Y2),
        obj=tgl_obj(c, K, Y0, Y1, Y2),
    )


def tgl_obj(c, K, Y0, Y1, Y2):
    S = c.S
    fit = NS.reduce_sum(c.ns * (NS.reduce_sum(S * K, axis=(1, 2)) - logdet(K)))
    return fit + l1od_obj(c.alpha, Y0) + psi_sum(c.psi, c.beta, Y2 - Y1)


def l1od_obj(alpha, Z):
    return NS.reduce_sum(NS.absolute(bc(alpha, Z) * Z) * offm(Z))


def tgl_case(variant):
    def case(c):
        kw, par = setup(c, variant)
        n, d = c.n, c.d
        c.alpha = par("alpha", (d, d))
        c.beta = par("beta", (n - 1, 1, 1))
        c.psi = "laplacian"
        init_variants(c, kw, variant)
        if variant == "s":
            c.stop_at, c.stop_when = c.real("stop_at"), c.real("stop_when", pos=True)
            c.assume(T.ne(P(c.stop_at), T.ZERO))
            kw.update(stop_at=c.stop_at, stop_when=c.stop_when)
        roles = ("Z_0", "Z_1", "Z_2", "U_0", "U_1", "U_2", "Z_0_old", "Z_1_old", "Z_2_old", "rho")
        c.loop_spec = spec = Admm(tgl_iteration, roles)
        c.entry_check = lambda c, pre: entry_zero(c, pre, roles[3:9])
        ret = c.fn(c.S, alpha=c.alpha, beta=c.beta, psi=c.psi, **kw)
        r = after(c, spec, ret, 2)
        if r:
            same(c, "kkt:returns-the-constrained-copy", r[0][0], r[1]["state"]["Z_0"])
            same(c, "kkt:covariance-is-pinvh-of-precision", r[0][1], NS.pinvh(r[1]["state"]["Z_0"]))

    return case


# ------------------------------------------------------------------ latent graphical lasso / infimal convolution
def lgl_iteration(c, pre, post):
    S = c.S
    K0, L0, U, Ro, rho = one_based(pre, "K", "L", "U", "R_old", "rho")
    s, t = one(c, "l1od"), one(c, "trace")
    if c.smooth == "logdet":
        r = one(c, "logdet")
        R = r["out"]
        logdet_block(c, "R", r, 1, S, rho, sym2(K0 - L0 - U))
    else:
        # R minimises 1/2|S - R|^2 + rho/2 |R - M|^2
        M = sym2(K0 - L0 - U)
        if recs(c, "lap"):
            # contract: R (1 + 2 lamda) = a;  hence R - S + rho (R - M) = 0 iff a = S + rho M, 2 lamda = rho
            r = one(c, "lap")
            R = r["out"]
            same(c, "kkt:R.argument", r["a"], S + rho * M)
            _weight(c, "R", r, rho, 2, M)
        else:
            R = post["R_old"]
            zero(c, "kkt:R.stationarity", R - S + rho * (R - M))
    K, L = post["K"], post["L"]
    prox_block(c, "K", s, K, c.alpha, rho, L0 + R + U)
    prox_block(c, "L", t, L, c.tau, rho, sym2(K - R - U))
    dual(c, "U", post, pre, R - K + L)
    same(c, "kkt:lagged.R", post["R_old"], R)
    sq = NS.sqrt(wrap(T.mul(P(c.d), P(c.d))))
    fit = asum(S * R) - logdet(R) if c.smooth == "logdet" else NS.squared_norm(S - R) / 2
    return dict(
        rnorm=rt(R - K + L), snorm=rho * rt(R - Ro),
        e_pri=sq * c.tol + c.rtol * vmax(rt(R), rt(K - L)),
        e_dual=sq * c.tol + c.rtol * rho * rt(U + R - K + L),
        obj=fit + l1od_obj(c.alpha, K) + c.tau * nuc(L),
    )


def lgl_case(variant, smooth="logdet"):
    def case(c):
        kw, par = setup(c, variant, temporal=False)
        c.smooth = smooth
        c.alpha = par("alpha", (c.d, c.d) if smooth == "logdet" or variant == "b" else None)
        c.tau = c.real("tau", nonneg=True)
        if smooth == "logdet":
            init_variants(c, kw, variant)
        c.loop_spec = spec = Admm(lgl_iteration, ("K", "L", "U", "R_old", "rho"))
        spec.inf_break = True
        c.entry_check = lambda c, pre: entry_zero(c, pre, ("L", "U", "R_old"))
        ret = c.fn(c.S, alpha=c.alpha, tau=c.tau, **kw)
        r = after(c, spec, ret, 3)
        if r:
            st = r[1]["state"]
            same(c, "kkt:returns-the-sparse-part", r[0][0], st["K"])
            same(c, "kkt:returns-the-latent-part", r[0][1], st["L"])
            same(c, "kkt:covariance-is-pinvh-of-precision", r[0][2], NS.pinvh(st["K"]))

    return case


def inf_case(variant):
    return lgl_case(variant, "frob")


def stub_prox_laplacian(c, real, a, lamda):
    """ensures: out (1 + 2 lamda) = a."""
    a = as_arr(a).copy()
    lam = bcast(lamda, a.vshape)
    idx = idx_syms(a.vshape, "rq")
    c.prove("requires:prox_laplacian.nonneg-lamda", T.le(T.ZERO, lam(idx)))
    out = c.fresh_array("LP", a.vshape)
    rec(c, "lap", a=a, lam=lam, out=out.copy())
    return out


# ------------------------------------------------------------------ latent time graphical lasso / matrix decomposition
LT_ROLES = ("Z_0", "Z_1", "Z_2", "W_0", "W_1", "W_2", "X_0", "X_1", "X_2", "U_1", "U_2", "R_old", "Z_1_old", "Z_2_old", "W_1_old", "W_2_old", "rho")


def ltgl_iteration(c, pre, post):
    S, n = c.S, P(c.n)
    Z0, Z1, Z2, W0, W1, W2, X0, X1, X2, U1, U2, Ro, O1, O2, Q1, Q2, rho = one_based(pre, *LT_ROLES)
    D = tdiv(c)[:, None, None]
    Y0, Y1, Y2 = post["Z_0"], post["Z_1"], post["Z_2"]
    V0, V1, V2 = post["W_0"], post["W_1"], post["W_2"]
    if c.smooth == "logdet":
        r = one(c, "logdet")
        R = r["out"]
        logdet_block(c, "R", r, c.ns[:, None, None], S, rho, sym3(Z0 - W0 - X0))
    else:
        R = post["R_old"]
        zero(c, "kkt:R.stationarity", 2 * (R - S) + rho * (R - (Z0 - W0 - X0)))
    s, t = one(c, "l1od"), one(c, "trace")
    prox_block(c, "Z_0", s, Y0, c.alpha, rho * D, (R + W0 + X0 + padL(Z1 - X1, n) + padR(Z2 - X2, n)) / D)
    temporal_pair(c, "Z_12", c.psi, c.beta, Y0[:-1] + X1, Y0[1:] + X2, Y1, Y2, rho)
    prox_block(c, "W_0", t, V0, c.tau, rho * D, sym3(Y0 - R - X0 + padL(W1 - U1, n) + padR(W2 - U2, n)) / D)
    temporal_pair(c, "W_12", c.phi, c.eta, V0[:-1] + U1, V0[1:] + U2, V1, V2, rho)
    dual(c, "X_0", post, pre, R - Y0 + V0)
    dual(c, "X_1", post, pre, Y0[:-1] - Y1)
    dual(c, "X_2", post, pre, Y0[1:] - Y2)
    dual(c, "U_1", post, pre, V0[:-1] - V1)
    dual(c, "U_2", post, pre, V0[1:] - V2)
    same(c, "kkt:lagged.R", post["R_old"], R)
    for x in ("Z_1", "Z_2", "W_1", "W_2"):
        same(c, "kkt:lagged." + x, post[x + "_old"], post[x])
    d2 = T.mul(P(c.d), P(c.d))
    sz = NS.sqrt(wrap(T.mul(d2, T.sub(T.mul(T.num(5), n), T.num(4)))))
    if c.smooth == "logdet":
        fit = NS.reduce_sum(c.ns * (NS.reduce_sum(S * R, axis=(1, 2)) - logdet(R)))
    else:
        fit = NS.squared_norm(S - R)
    return dict(
        rnorm=rt(R - Y0 + V0, Y0[:-1] - Y1, Y0[1:] - Y2, V0[:-1] - V1, V0[1:] - V2),
        snorm=rho * rt(R - Ro, Y1 - O1, Y2 - O2, V1 - Q1, V2 - Q2),
        e_pri=sz * c.tol + c.rtol * vmax(rt(R, Y1, Y2, V1, V2), rt(Y0 - V0, Y0[:-1], Y0[1:], V0[:-1], V0[1:])),
        e_dual=sz * c.tol
        + c.rtol * rho * rt(X0 + R - Y0 + V0, X1 + Y0[:-1] - Y1, X2 + Y0[1:] - Y2, U1 + V0[:-1] - V1, U2 + V0[1:] - V2),
        obj=fit + l1od_obj(c.alpha, Y0) + nuc_obj(c.tau, V0) + psi_sum(c.psi, c.beta, Y2 - Y1) + psi_sum(c.phi, c.eta, V2 - V1),
    )


def nuc_obj(tau, L):
    if isinstance(tau, SArr):
        return asum(nuc(tau * L))
    return tau * asum(nuc(L))


def ltgl_case(variant, smooth="logdet"):
    def case(c):
        kw, par = setup(c, variant)
        n, d = c.n, c.d
        arr = smooth == "logdet"
        c.smooth = smooth
        c.alpha = par("alpha", (n, 1, 1) if arr else None)
        c.beta = par("beta", (n - 1, 1, 1) if arr else None)
        c.tau = c.real("tau", nonneg=True)
        c.eta = par("eta", (n - 1, 1, 1) if arr else None)
        c.psi, c.phi = "laplacian", "l1"
        if smooth == "logdet":
            init_variants(c, kw, variant)
        else:
            kw.pop("n_samples", None)
        c.loop_spec = spec = Admm(ltgl_iteration, LT_ROLES)
        c.entry_check = lambda c, pre: entry_zero(c, pre, LT_ROLES[3:16])
        ret = c.fn(c.S, alpha=c.alpha, beta=c.beta, tau=c.tau, eta=c.eta, psi=c.psi, phi=c.phi, **kw)
        r = after(c, spec, ret, 3 if smooth == "logdet" else 2)
        if r:
            st = r[1]["state"]
            same(c, "kkt:returns-the-sparse-part", r[0][0], st["Z_0"])
            same(c, "kkt:returns-the-latent-part", r[0][1], st["W_0"])
            if smooth == "logdet":
                same(c, "kkt:covariance-is-pinvh-of-precision", r[0][2], NS.pinvh(st["Z_0"]))

    return case


def ltmd_case(variant):
    return ltgl_case(variant, "frob")


# ------------------------------------------------------------------ kernel solvers (number of time points fixed, features symbolic)
def kdiag(Kr, m):
    """m-th superdiagonal of the kernel as (T-m, 1, 1) weights."""
    n = int(Kr.vshape[0].const())
    r = Kr.reader()
    return SArr.make((T.num(n - m), T.ONE, T.ONE), lambda i: r((i[0], T.add(i[0], T.num(m)))))


def lags(c):
    return range(1, int(c.nT))


def need(st, name, m):
    try:
        return st[name][m]
    except (KeyError, TypeError):
        raise RoleMissing([name], sorted(st))


def ktgl_iteration(c, pre, post):
    S, nT = c.S, c.nT
    n = T.num(nT)
    Z0, U0, O0, rho = one_based(pre, "Z_0", "U_0", "Z_0_old", "rho")
    r, s = one(c, "logdet"), one(c, "l1od")
    K = r["out"]
    Y0 = post["Z_0"]
    tot = Z0 - U0
    for m in lags(c):
        zl, zr = c.snap["Z_M"][m]
        ul, ur = c.snap["U_M"][m]
        tot = tot + padL(zl - ul, n) + padR(zr - ur, n)
    logdet_block(c, "K", r, c.ns[:, None, None], S, rho * nT, sym3(tot) / nT)
    prox_block(c, "Z_0", s, Y0, c.alpha, rho, sym3(K + U0))
    dual(c, "U_0", post, pre, K - Y0)
    same(c, "kkt:lagged.Z_0", post["Z_0_old"], Y0)
    ps = recs(c, "psi:" + c.psi)
    if len(ps) != len(lags(c)):
        raise Unsupported("%d temporal prox calls for %d lags" % (len(ps), len(lags(c))))
    pr, du, kk, yy, un = [K - Y0], [Y0 - O0], [K], [Y0], [U0 + K - Y0]
    pen = 0
    for m in lags(c):
        ul, ur = c.snap["U_M"][m]
        ol, orr = c.snap["Z_M_old"][m]
        yl, yr = need(post, "Z_M", m)
        kl, kr = K[:-m], K[m:]
        p = next((q for q in ps if q["out"].vshape[0] == yl.vshape[0]), None)
        if p is None:
            raise Unsupported("temporal prox for lag %d not identified" % m)
        pair(c, "Z_lag%d" % m, p, kdiag(c.kernel, m), kl + ul, kr + ur, yl, yr, rho)
        dl, dr = need(post, "U_M", m)
        same(c, "kkt:dual.U_lag%d.left" % m, post["rho"] * dl, rho * (ul + kl - yl))
        same(c, "kkt:dual.U_lag%d.right" % m, post["rho"] * dr, rho * (ur + kr - yr))
        a, b = need(post, "Z_M_old", m)
        same(c, "kkt:lagged.Z_lag%d.left" % m, a, yl)
        same(c, "kkt:lagged.Z_lag%d.right" % m, b, yr)
        pr += [kl - yl, kr - yr]
        du += [yl - ol, yr - orr]
        kk += [kl, kr]
        yy += [yl, yr]
        un += [ul + kl - yl, ur + kr - yr]
        pen = pen + psi_sum(c.psi, kdiag(c.kernel, m), yr - yl)
    sz = c.d * nT
    fit = NS.reduce_sum(c.ns * (NS.reduce_sum(S * K, axis=(1, 2)) - logdet(K)))
    return dict(
        rnorm=rt(*pr), snorm=rho * rt(*du), e_pri=sz * c.tol + c.rtol * vmax(rt(*yy), rt(*kk)),
        e_dual=sz * c.tol + c.rtol * rho * rt(*un), obj=fit + l1od_obj(c.alpha, Y0) + pen,
    )


def pair(c, name, p, weight, A1, A2, Y1, Y2, rho):
    G = p["a"] - p["out"]
    same(c, "kkt:%s.difference-is-prox-output" % name, Y2 - Y1, p["out"])
    zero(c, "kkt:%s.right-stationarity" % name, G / 2 + Y2 - A2)
    zero(c, "kkt:%s.left-stationarity" % name, -G / 2 + Y1 - A1)
    _weight(c, name, p, 2 * weight, rho, G)


class KAdmm(Admm):
    def snapshot(self, c, st):
        s = super().snapshot(c, st)
        c.snap = s
        return s


def kernel_setup(c, variant, nT):
    kw, par = setup(c, variant, T_dim=nT)
    c.nT = nT
    c.alpha = c.real("alpha", nonneg=True)
    init_variants(c, kw, variant)
    return kw


def kern(c, name, nT):
    a = c.array(name, (nT, nT), symmetric=True, label=name)
    c.fact(name, lambda i, j: T.le(T.ZERO, T.app(name, (i, j))))
    return a


def ktgl_case(variant, nT=3):
    def case(c):
        kw = kernel_setup(c, variant, nT)
        c.kernel = kern(c, "kernel", nT)
        c.psi = "laplacian"
        if variant == "s":
            c.stop_at, c.stop_when = c.real("stop_at"), c.real("stop_when", pos=True)
            c.assume(T.ne(P(c.stop_at), T.ZERO))
            kw.update(stop_at=c.stop_at, stop_when=c.stop_when)
        c.loop_spec = spec = KAdmm(ktgl_iteration, ("Z_0", "U_0", "Z_0_old", "Z_M", "U_M", "Z_M_old", "rho"))

        def ent(c, pre):
            entry_zero(c, pre, ("U_0", "Z_0_old"))
            for m in lags(c):
                for q in ("U_M", "Z_M_old"):
                    for side in (0, 1):
                        zero(c, "kkt:entry.%s-is-zero" % q, pre[q][m][side])

        c.entry_check = ent
        ret = c.fn(c.S, alpha=c.alpha, kernel=c.kernel, psi=c.psi, **kw)
        r = after(c, spec, ret, 2)
        if r:
            same(c, "kkt:returns-the-constrained-copy", r[0][0], r[1]["state"]["Z_0"])
            same(c, "kkt:covariance-is-pinvh-of-precision", r[0][1], NS.pinvh(r[1]["state"]["Z_0"]))

    return case


def kltgl_iteration(c, pre, post):
    S, nT = c.S, c.nT
    n = T.num(nT)
    Z0, W0, X0, Ro, rho = one_based(pre, "Z_0", "W_0", "X_0", "R_old", "rho")
    r, s, t = one(c, "logdet"), one(c, "l1od"), recs(c, "trace")
    R = r["out"]
    Y0, V0 = post["Z_0"], post["W_0"]
    logdet_block(c, "R", r, c.ns[:, None, None], S, rho, sym3(Z0 - W0 - X0))
    az, aw = R + W0 + X0, Y0 - R - X0
    for m in lags(c):
        zl, zr = c.snap["Z_M"][m]
        yl, yr = c.snap["Y_M"][m]
        wl, wr = c.snap["W_M"][m]
        ul, ur = c.snap["U_M"][m]
        az = az + padL(zl - yl, n) + padR(zr - yr, n)
        aw = aw + padL(wl - ul, n) + padR(wr - ur, n)
    prox_block(c, "Z_0", s, Y0, c.alpha, rho * nT, az / nT)
    aw = sym3(aw) / nT
    if len(t) == 1 and t[0]["out"].ndim == 3:
        prox_block(c, "W_0", t[0], V0, c.tau, rho * nT, aw)
    elif len(t) == nT:
        for k in range(nT):
            prox_block(c, "W_0", t[k], V0[k], c.tau, rho * nT, aw[k])
    else:
        raise Unsupported("%d trace prox calls" % len(t))
    dual(c, "X_0", post, pre, R - Y0 + V0)
    same(c, "kkt:lagged.R", post["R_old"], R)
    pr, du, yy, kk, un = [R - Y0 + V0], [R - Ro], [R], [Y0 - V0], [X0 + R - Y0 + V0]
    pen = 0
    for nm, dn, base, tag, kr in (("Z", "Y", Y0, c.psi, c.kpsi), ("W", "U", V0, c.phi, c.kphi)):
        ps = recs(c, "psi:" + tag)
        if len(ps) != len(lags(c)):
            raise Unsupported("%d temporal prox calls for %d lags" % (len(ps), len(lags(c))))
        for m in lags(c):
            ul, ur = c.snap[dn + "_M"][m]
            ol, orr = c.snap[nm + "_M_old"][m]
            yl, yr = need(post, nm + "_M", m)
            bl, br = base[:-m], base[m:]
            p = next((q for q in ps if q["out"].vshape[0] == yl.vshape[0]), None)
            if p is None:
                raise Unsupported("temporal prox for lag %d not identified" % m)
            pair(c, "%s_lag%d" % (nm, m), p, kdiag(kr, m), bl + ul, br + ur, yl, yr, rho)
            dl, dr = need(post, dn + "_M", m)
            same(c, "kkt:dual.%s_lag%d.left" % (dn, m), post["rho"] * dl, rho * (ul + bl - yl))
            same(c, "kkt:dual.%s_lag%d.right" % (dn, m), post["rho"] * dr, rho * (ur + br - yr))
            a, b = need(post, nm + "_M_old", m)
            same(c, "kkt:lagged.%s_lag%d.left" % (nm, m), a, yl)
            same(c, "kkt:lagged.%s_lag%d.right" % (nm, m), b, yr)
            pr += [bl - yl, br - yr]
            du += [yl - ol, yr - orr]
            kk += [bl, br]
            yy += [yl, yr]
            un += [ul + bl - yl, ur + br - yr]
            pen = pen + psi_sum(tag, kdiag(kr, m), yr - yl)
    sz = c.d * NS.sqrt(wrap(T.num(nT * (2 * nT - 1))))
    fit = NS.reduce_sum(c.ns * (NS.reduce_sum(S * R, axis=(1, 2)) - logdet(R)))
    return dict(
        rnorm=rt(*pr), snorm=rho * rt(*du), e_pri=sz * c.tol + c.rtol * vmax(rt(*yy), rt(*kk)),
        e_dual=sz * c.tol + c.rtol * rho * rt(*un), obj=fit + l1od_obj(c.alpha, Y0) + c.tau * asum(nuc(V0)) + pen,
    )


def kltgl_case(variant, nT=3):
    def case(c):
        kw = kernel_setup(c, variant, nT)
        c.tau = c.real("tau", nonneg=True)
        c.kpsi, c.kphi = kern(c, "kernel_psi", nT), kern(c, "kernel_phi", nT)
        c.psi, c.phi = "laplacian", "l1"
        dicts = ("Z_M", "W_M", "Y_M", "U_M", "Z_M_old", "W_M_old")
        c.loop_spec = spec = KAdmm(kltgl_iteration, ("Z_0", "W_0", "X_0", "R_old", "rho") + dicts)

        def ent(c, pre):
            entry_zero(c, pre, ("W_0", "X_0", "R_old"))
            for m in lags(c):
                for q in dicts[1:]:
                    for side in (0, 1):
                        zero(c, "kkt:entry.%s-is-zero" % q, pre[q][m][side])

        c.entry_check = ent
        ret = c.fn(c.S, alpha=c.alpha, tau=c.tau, kernel_psi=c.kpsi, kernel_phi=c.kphi, psi=c.psi, phi=c.phi, **kw)
        r = after(c, spec, ret, 3)
        if r:
            st = r[1]["state"]
            same(c, "kkt:returns-the-sparse-part", r[0][0], st["Z_0"])
            same(c, "kkt:returns-the-latent-part", r[0][1], st["W_0"])
            same(c, "kkt:covariance-is-pinvh-of-precision", r[0][2], NS.pinvh(st["Z_0"]))

    return case
