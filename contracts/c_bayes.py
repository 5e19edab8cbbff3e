"""Bayesian part: densities, conjugate updates, Metropolis and slice steps."""
from .c_missing import *

BS, WD, SA = "regain.bayesian.stats", "regain.bayesian.wishart_distribution_", "regain.bayesian.sampling"
R_ = lambda a, b=1: T.num(Fraction(a, b))  # noqa


def sq(x):
    return T.mul(x, x)


def mulL(*xs):
    r = T.ONE
    for x in xs:
        r = T.mul(r, x)
    return r


def addL(*xs):
    r = T.ZERO
    for x in xs:
        r = T.add(r, x)
    return r


def logn(x, mu, s):
    """log density of the lognormal distribution."""
    z = T.mul(T.sub(T.log(x), mu), T.inv(s))
    return addL(T.scale(sq(z), Fraction(-1, 2)), T.neg(T.log(x)), T.neg(T.log(s)), T.scale(T.add(T.log(R_(2)), T.log(P(NS.PI))), Fraction(-1, 2)))


def setup_pi(c):
    c.assume(T.lt(R_(3), P(NS.PI)))


@unit("bayes.lognormal.pdf", BS, "lognormal_pdf")
def _(c):
    setup_pi(c)
    x, s, mu = c.real("x", pos=True), c.real("sigma", pos=True), c.real("mu")
    r = P(c.fn(x, mu, s))
    c.prove("lognormal:density", T.eq(T.log(r), logn(P(x), P(mu), P(s))))
    c.prove("lognormal:positive", T.lt(T.ZERO, r))


@unit("bayes.lognormal.logpdf", BS, "lognormal_logpdf")
def _(c):
    setup_pi(c)
    x, s, mu = c.real("x", pos=True), c.real("sigma", pos=True), c.real("mu")
    c.prove("lognormal:log-density", T.eq(P(c.fn(x, mu, s)), logn(P(x), P(mu), P(s))))


def lognstat_ok(c, m, v, mu, s, name="lognstat"):
    """mu, s are the parameters of the lognormal of mean m and variance v (logarithms of exp(mu + s^2/2) = m and exp(s^2) = 1 + v/m^2)."""
    s2 = sq(s)
    c.prove(name + ":mean", T.eq(T.add(mu, T.scale(s2, Fraction(1, 2))), T.log(m)))
    c.prove(name + ":variance", T.eq(s2, T.sub(T.log(T.add(v, sq(m))), T.scale(T.log(m), 2))))


@unit("bayes.lognormal.parameters", BS, "lognstat")
def _(c):
    m, v = c.real("m", pos=True), c.real("v", pos=True)
    mu, s = c.fn(m, v)
    # log(1 + v/m^2) is positive: monotonicity of the logarithm at one
    c.assume(T.le(T.ZERO, T.log(T.add(T.mul(P(v), T.inv(sq(P(m)))), T.ONE))))
    c.assume(T.le(T.ZERO, T.sub(T.log(T.add(P(v), sq(P(m)))), T.scale(T.log(P(m)), 2))))
    lognstat_ok(c, P(m), P(v), P(mu), P(s))


@unit("bayes.frobenius", BS, "log_lik_frob")
def _(c):
    setup_pi(c)
    n, d = c.int("n", 1), c.int("d", 1)
    S, D, v = c.array("S", (n, d), label="S"), c.array("D", (n, d), label="D"), c.real("v", pos=True)
    r = P(c.fn(S, D, v))
    # sum over all entries of log N(S_ij; D_ij, v)
    want = T.scale(T.add(mulL(P(n), P(d), addL(T.log(R_(2)), T.log(P(NS.PI)), T.log(P(v)))), T.mul(sqn(S - D), T.inv(P(v)))), Fraction(-1, 2))
    c.prove("frobenius:gaussian-log-likelihood", T.eq(r, want))
    frame(c)


# ---------------------------------------------------------------- Wishart family
def pd(c, name, d):
    A = c.array(name, (d, d), symmetric=True, label=name)
    s, l = NS.slogdet(A)
    c.assume(T.eq(P(s), T.ONE))
    return A, P(l)


def esum(A, B_):
    d = A.vshape[0]
    return sum2(d, lambda i, j: T.mul(A.get((i, j)), B_.get((i, j))))


def iw_logpdf(nu, p, lS, lX, tr):
    return T.scale(addL(T.mul(nu, lS), T.neg(tr), T.neg(T.mul(addL(nu, p, T.ONE), lX)), T.neg(mulL(nu, p, T.log(R_(2)))), T.scale(P(NS.multigammaln(wrap(T.scale(nu, Fraction(1, 2))), wrap(p))), -2)), Fraction(1, 2))


def w_logpdf(nu, p, lS, lX, tr):
    return T.scale(addL(mulL(addL(nu, T.neg(p), R_(-1)), lX), T.neg(tr), T.neg(mulL(nu, p, T.log(R_(2)))), T.neg(T.mul(nu, lS)), T.scale(P(NS.multigammaln(wrap(T.scale(nu, Fraction(1, 2))), wrap(p))), -2)), Fraction(1, 2))


def same(c, name, a, fn):
    a = as_arr(a)
    c.prove_all(name, a.vshape, lambda i, j: T.eq(a.get((i, j)), fn(i, j)))


@unit("bayes.wishart.density", WD, "WishartDistribution")
def _(c):
    d = c.int("d", 1)
    S, lS = pd(c, "S", d)
    X, lX = pd(c, "X", d)
    nu = c.real("nu", pos=True)
    w = c.fn(nu, S)
    c.prove("wishart:log-density", T.eq(P(w.log_likelihood(X)), w_logpdf(P(nu), P(d), lS, lX, esum(X, as_arr(NS.pinvh(S))))))
    c.prove("wishart:density", T.eq(P(w.likelihood(X)), T.exp(P(w.log_likelihood(X)))))
    frame(c)


@unit("bayes.wishart.moments", WD, "WishartDistribution")
def _(c):
    d = c.int("d", 1)
    S, lS = pd(c, "S", d)
    nu = c.real("nu", pos=True)
    w = c.fn(nu, S)
    same(c, "wishart:mean", w.mean, lambda i, j: T.mul(P(nu), S.get((i, j))))
    c.assume(T.lt(T.add(P(d), T.ONE), P(nu)))
    same(c, "wishart:mode", w.mode, lambda i, j: T.mul(addL(P(nu), T.neg(P(d)), R_(-1)), S.get((i, j))))
    frame(c)


@unit("bayes.invwishart.density", WD, "InverseWishartDistribution")
def _(c):
    d = c.int("d", 1)
    S, lS = pd(c, "S", d)
    X, lX = pd(c, "X", d)
    nu = c.real("nu", pos=True)
    w = c.fn(nu, S)
    c.prove("invwishart:log-density", T.eq(P(w.log_likelihood(X)), iw_logpdf(P(nu), P(d), lS, lX, esum(S, as_arr(NS.pinvh(X))))))
    c.prove("invwishart:density", T.eq(P(w.likelihood(X)), T.exp(P(w.log_likelihood(X)))))
    frame(c)


@unit("bayes.invwishart.moments", WD, "InverseWishartDistribution")
def _(c):
    d = c.int("d", 1)
    S, lS = pd(c, "S", d)
    nu = c.real("nu", pos=True)
    w = c.fn(nu, S)
    c.assume(T.lt(T.add(P(d), T.ONE), P(nu)))
    same(c, "invwishart:mean", w.mean, lambda i, j: T.mul(T.inv(addL(P(nu), T.neg(P(d)), R_(-1))), S.get((i, j))))
    same(c, "invwishart:mode", w.mode, lambda i, j: T.mul(T.inv(addL(P(nu), P(d), T.ONE)), S.get((i, j))))
    frame(c)


@unit("bayes.niw.density", WD, "NormalInverseWishartDistribution")
def _(c):
    d = c.int("d", 1)
    S, lS = pd(c, "S", d)
    X, lX = pd(c, "X", d)
    nu, k = c.real("nu", pos=True), c.real("kappa", pos=True)
    m0, m = c.array("mu0", (d,), label="mu0"), c.array("mu", (d,), label="mu")
    w = c.fn(m0, k, nu, S)
    want = T.add(iw_logpdf(P(nu), P(d), lS, lX, esum(S, as_arr(NS.pinvh(X)))), P(NS.mvn_logpdf(m, m0, SArr.make(X.vshape, lambda i: T.mul(X.get(tuple(i)), T.inv(P(k)))))))
    c.prove("niw:log-density", T.eq(P(w.log_likelihood(m, X)), want))
    mo = w.mode
    c.prove_all("niw:mode-mean", m0.vshape, lambda i: T.eq(as_arr(mo[0]).get((i,)), m0.get((i,))))
    same(c, "niw:mode-covariance", mo[1], lambda i, j: T.mul(T.inv(addL(P(nu), P(d), R_(2))), S.get((i, j))))
    frame(c)


def _mat(a):
    """the matrices of a draw: [one] or the slices of a stack of constant length."""
    a = as_arr(a)
    if a.ndim == 2:
        return [a]
    return [SArr.make(a.vshape[1:], lambda i, k=k: a.get((T.num(k),) + tuple(i))) for k in range(int(P(a.vshape[0]).const()))]


def _drawn(c, label, kind, nu, S, n):
    """the matrices drawn: n of them, all from the stated distribution."""
    d = [x for x in c.extra.get("draws", []) if x[0] in ("wishart", "invwishart")]
    c.check(label + ":distribution", all(x[0] == kind for x in d), str([x[0] for x in d]))
    for _, a, _ in d:
        c.prove(label + ":degrees-of-freedom", T.eq(P(a[0]), P(nu)))
        same(c, label + ":scale", a[1], lambda i, j: S.get((i, j)))
    ms = [m for x in d for m in _mat(x[2])]
    c.check(label + ":count", len(ms) == n, "%d matrices drawn for %d samples" % (len(ms), n))
    return ms


def _sample_unit(cls, kind, n):
    @unit("bayes.%s.sample[%d]" % (kind, n), WD, cls)
    def _(c):
        d = c.int("d", 2)
        S, lS = pd(c, "S", d)
        nu = c.real("nu", pos=True)
        got = c.fn(nu, S).sample(n_samples=n)
        ms = _drawn(c, "sample", kind, nu, S, n)
        for k, (g, m) in enumerate(zip(_mat(got), ms)):
            same(c, "sample:value", g, lambda i, j: m.get((i, j)))
        c.check("sample:length", len(_mat(got)) == n, "wrong number of samples")
        frame(c)


def _niw_unit(n):
    @unit("bayes.niw.sample[%d]" % n, WD, "NormalInverseWishartDistribution")
    def _(c):
        d = c.int("d", 2)
        S, lS = pd(c, "S", d)
        nu, k = c.real("nu", pos=True), c.real("kappa", pos=True)
        m0 = c.array("mu0", (d,), label="mu0")
        got = c.fn(m0, k, nu, S).sample(n_samples=n)
        if n == 1:
            got = [got]
        ms = _drawn(c, "sample:covariance", "invwishart", nu, S, n)
        nd = [x for x in c.extra.get("draws", []) if x[0] == "mvn"]
        c.check("sample:means", len(nd) == n and len(got) == n, "%d means for %d samples" % (len(nd), n))
        for (mu, Sig), m, (_, a, v) in zip(got, ms, nd):
            same(c, "sample:covariance", Sig, lambda i, j: m.get((i, j)))
            c.prove_all("sample:centre", m0.vshape, lambda i: T.eq(as_arr(a[0]).get((i,)), m0.get((i,))))
            same(c, "sample:spread", a[1], lambda i, j: T.mul(m.get((i, j)), T.inv(P(k))))
            c.prove_all("sample:mean", m0.vshape, lambda i: T.eq(as_arr(mu).get((i,)), as_arr(v).get((i,))))
        frame(c)


for _n in (1, 2, 3):
    _sample_unit("WishartDistribution", "wishart", _n)
    _sample_unit("InverseWishartDistribution", "invwishart", _n)
    _niw_unit(_n)


@unit("bayes.niw.posterior", WD, "NormalInverseWishartDistribution")
def _(c):
    d, n = c.int("d", 1), c.int("n", 1)
    S, lS = pd(c, "S", d)
    nu, k = c.real("nu", pos=True), c.real("kappa", pos=True)
    m0, X = c.array("mu0", (d,), label="mu0"), c.array("X", (n, d), label="X")
    q = c.fn(m0, k, nu, S).posterior(X)
    N = P(n)

    def ssum(f):
        s = T.fresh_name("s")
        T.RANGE[s] = N
        return T.mk_sum([(s, N)], f(T.sym(s, T.INT)))

    c.prove("posterior:degrees-of-freedom", T.eq(P(q.nu), T.add(P(nu), N)))
    c.prove("posterior:mean-precision", T.eq(P(q.kappa), T.add(P(k), N)))
    kn = T.add(P(k), N)
    mn = lambda i: T.mul(T.inv(kn), T.add(T.mul(P(k), m0.get((i,))), ssum(lambda s: X.get((s, i)))))  # noqa
    mu = as_arr(q.mu)
    rd = (lambda i: mu.get((T.ZERO, i))) if mu.ndim == 2 else (lambda i: mu.get((i,)))
    c.prove_all("posterior:mean", m0.vshape, lambda i: T.eq(rd(i), mn(i)))
    Sn = as_arr(q.S)
    c.prove_all(
        "posterior:scale",
        Sn.vshape,
        lambda i, j: T.eq(Sn.get((i, j)), addL(S.get((i, j)), ssum(lambda s: T.mul(X.get((s, i)), X.get((s, j)))), mulL(P(k), m0.get((i,)), m0.get((j,))), T.neg(mulL(kn, mn(i), mn(j))))),
    )
    c.check("posterior:family", type(q).__name__ == "NormalInverseWishartDistribution", type(q).__name__)
    frame(c)


# ---------------------------------------------------------------- Wishart process
def gwp(u, L, i, j, t):
    """sum over replicates of (L u_v(t)) (L u_v(t))'"""
    nu, p, N = u.vshape
    v, a, b = (T.fresh_name(x) for x in "vab")
    T.RANGE[v], T.RANGE[a], T.RANGE[b] = nu, p, p
    V, A, Bq = (T.sym(x, T.INT) for x in (v, a, b))
    return T.mk_sum([(v, nu), (a, p), (b, p)], mulL(L.get((i, A)), u.get((V, A, t)), u.get((V, Bq, t)), L.get((j, Bq))))


@unit("bayes.gwp", SA, "GWP_construct")
def _(c):
    nu, p, N = c.int("nu", 1), c.int("p", 1), c.int("N", 1)
    u, L = c.array("U", (nu, p, N), label="umat"), c.array("L", (p, p), label="L")
    V = as_arr(c.fn(u, L))
    c.check("gwp:shape", [x.key for x in V.vshape] == [P(x).key for x in (p, p, N)], str(V.vshape))
    c.prove_all("gwp:sum-of-outer-products", V.vshape, lambda i, j, t: T.eq(V.get((i, j, t)), gwp(u, L, i, j, t)))
    frame(c)


# ---------------------------------------------------------------- Metropolis-Hastings
def draws(c, kind):
    return [d for d in c.extra.get("draws", []) if d[0] == kind]


def stub_lognstat(c, real, mean, variance):
    o = (c.fresh_real("LNMU"), c.fresh_real("LNSIGMA"))
    c.assume(T.lt(T.ZERO, P(o[1])))
    rec(c, "lognstat", mean=P(mean), variance=P(variance), out=o)
    return o


class Prior:
    """a distribution object: its log density is an arbitrary function."""

    def logpdf(self, x):
        return wrap(T.fapp("prior_logpdf", P(x)))


def accept_rule(c, name, u, ratio, taken, prop, cur, out):
    """out = proposal exactly when log u < min(0, ratio)."""
    c.prove(name + ":one-of-the-two-states", T.bor(T.eq(out, prop), T.eq(out, cur)))
    ok = T.lt(T.log(u), T.minv(T.ZERO, ratio))
    c.prove(name + ":accepted-below-the-ratio", T.implies(ok, T.eq(out, prop)))
    c.prove(name + ":rejected-above-the-ratio", T.implies(T.bnot(ok), T.eq(out, cur)))


@unit("bayes.mh.kernel", SA, "sample_hyper_kernel", {BS + ":lognstat": stub_lognstat})
def _(c):
    setup_pi(c)
    n, t = c.int("n", 1), c.int("t", 1)
    th, v = c.real("theta", pos=True), c.real("v", pos=True)
    U = c.array("U", (n, t), label="ustack")
    ks = []

    def kern(inverse_width):
        K = SArr.make((P(t), P(t)), lambda i: T.fapp("kernel_value", P(inverse_width), i[0], i[1]))
        ks.append(P(inverse_width))
        return K

    s, acc = c.fn(th, v, U, kern, Prior())
    st, (ln,), (un,) = c.extra.get("lognstat", []), draws(c, "lognormal"), draws(c, "uniform")
    if len(st) != 2:
        raise Unsupported("expected two calls of lognstat")
    prop = P(ln[2])
    c.assume(T.lt(T.ZERO, prop))
    fw = [r for r in st if r["mean"] == P(th)]
    bw = [r for r in st if r["mean"] == prop]
    c.check("mh.kernel:proposals-centred-at-the-states", len(fw) == 1 and len(bw) == 1, str([r["mean"] for r in st]))
    if not (fw and bw):
        return
    for r in st:
        c.prove("mh.kernel:proposal-variance", T.eq(r["variance"], P(v)))
    c.prove("mh.kernel:draw-mu", T.eq(P(ln[1][0]), P(fw[0]["out"][0])))
    c.prove("mh.kernel:draw-sigma", T.eq(P(ln[1][1]), P(fw[0]["out"][1])))
    c.prove("mh.kernel:uniform", T.band(T.eq(P(un[1][0]), T.ZERO), T.eq(P(un[1][1]), T.ONE)))
    q = lambda x, r: logn(x, P(r["out"][0]), P(r["out"][1]))  # noqa
    mean = SArr.make((P(t),), lambda i: T.mul(T.inv(P(n)), U_sum(U, i[0])))

    def post(w):
        K = SArr.make((P(t), P(t)), lambda i: T.fapp("kernel_value", w, i[0], i[1]))
        l = as_arr(NS.mvn_logpdf(U, mean, K))
        k = T.fresh_name("k")
        T.RANGE[k] = P(n)
        return T.add(T.mk_sum([(k, P(n))], l.get((T.sym(k, T.INT),))), T.fapp("prior_logpdf", w))

    ratio = addL(post(prop), T.neg(post(P(th))), q(P(th), bw[0]), T.neg(q(prop, fw[0])))
    c.assume(T.lt(T.ZERO, P(un[2])))
    accept_rule(c, "mh.kernel", P(un[2]), ratio, acc, prop, P(th), P(s))
    frame(c)


def U_sum(U, i):
    n = U.vshape[0]
    s = T.fresh_name("s")
    T.RANGE[s] = n
    return T.mk_sum([(s, n)], U.get((T.sym(s, T.INT), i)))


@unit("bayes.mh.component", SA, "_sample_ell_comp")
def _(c):
    setup_pi(c)
    n = c.int("n", 1)
    L, sg = c.array("L", (n,), label="Ltaug"), c.real("sigma", pos=True)
    i = c.int("i", 0)
    c.assume(T.lt(P(i), P(n)))
    ev = []

    def lik(x):
        x = as_arr(x)
        o = c.fresh_real("LOGLIK")
        ev.append((x.copy(), P(o)))
        return o

    s = c.fn(L, i, sg, Prior(), lik)
    (no,), (un,) = draws(c, "normal"), draws(c, "uniform")
    cur, prop = L.get((P(i),)), P(no[2])
    c.prove("mh.ell:proposal", T.band(T.eq(P(no[1][0]), cur), T.eq(P(no[1][1]), P(sg))))
    c.prove("mh.ell:uniform", T.band(T.eq(P(un[1][0]), T.ZERO), T.eq(P(un[1][1]), T.ONE)))
    if len(ev) != 2:
        raise Unsupported("expected two likelihood evaluations")
    k = T.fresh_name("k")
    T.RANGE[k] = P(n)
    k = T.sym(k, T.INT)
    at_cur = [e for e in ev if e[0].get((k,)) == L.get((k,))]
    at_new = [e for e in ev if not any(e is z for z in at_cur)]
    c.check("mh.ell:likelihood-at-both-states", len(at_cur) == 1 and len(at_new) == 1, "")
    if not (at_cur and at_new):
        return
    x, lnew = at_new[0]
    c.prove_all("mh.ell:proposed-state", x.vshape, lambda j: T.eq(x.get((j,)), T.ite(T.eq(j, P(i)), prop, L.get((j,)))))
    ratio = addL(lnew, T.fapp("prior_logpdf", prop), T.neg(at_cur[0][1]), T.neg(T.fapp("prior_logpdf", cur)))
    accept_rule(c, "mh.ell", P(un[2]), ratio, None, prop, cur, P(s))
    frame(c)


def stub_comp(c, real, Ltaug, i, sigma_proposal=None, prior_distr=None, likelihood=None):
    o = c.fresh_real("NEW")
    rec(c, "comp", L=as_arr(Ltaug).copy(), i=i, sigma=P(sigma_proposal), prior=prior_distr, lik=likelihood, out=P(o))
    return o


def stub_gwp(c, real, umat, L):
    u, L = as_arr(umat), as_arr(L)
    o = c.fresh_array("GWP", (u.vshape[1], u.vshape[1], u.vshape[2]))
    rec(c, "gwp", u=u.copy(), L=L.copy(), out=o)
    return o


def eq_cells(c, name, a, cells):
    """array a has exactly the given entries {index: term}."""
    a = as_arr(a)
    for k, v in cells.items():
        c.prove(name, T.eq(a.get(tuple(T.num(x) for x in k)), v))


for p_, vec in ((1, False), (2, False), (2, True), (3, True)):

    @unit("bayes.mh.cholesky[%d%s]" % (p_, ",vector" if vec else ""), SA, "sample_ell", {SA + ":_sample_ell_comp": stub_comp, SA + ":GWP_construct": stub_gwp})
    def _(c, p=p_, vec=vec):
        m = p * (p + 1) // 2
        nu, N = c.int("nu", 1), c.int("N", 1)
        L = c.array("L", (m,))
        L0 = L.copy()
        U = c.array("U", (nu, p, N), label="umat")
        v = c.array("v", (m,), label="var_proposal") if vec else c.real("v", pos=True)
        vi = (lambda k: v.get((T.num(k),))) if vec else (lambda k: P(v))
        if vec:
            for k in range(m):
                c.assume(T.lt(T.ZERO, vi(k)))
        liks = []

        def lik(D):
            o = c.fresh_real("LL")
            liks.append((as_arr(D), o))
            return o

        pr = Prior()
        out = as_arr(c.fn(L, v, U, pr, lik))
        calls = c.extra.get("comp", [])
        c.check("mh.cholesky:every-component-once", sorted(int(r["i"]) for r in calls) == list(range(m)), str([r["i"] for r in calls]))
        cur = [L0.get((T.num(k),)) for k in range(m)]
        for r in calls:
            k = int(r["i"])
            eq_cells(c, "mh.cholesky:current-state", r["L"], {(j,): cur[j] for j in range(m)})
            c.prove("mh.cholesky:proposal-deviation", T.band(T.le(T.ZERO, r["sigma"]), T.eq(sq(r["sigma"]), vi(k))))
            c.check("mh.cholesky:prior", r["prior"] is pr, "")
            cur[k] = r["out"]
        eq_cells(c, "mh.cholesky:returned", out, {(j,): cur[j] for j in range(m)})
        w = c.array("w", (m,), label="ell")
        res = calls[0]["lik"](w)
        g = c.extra["gwp"][-1]
        low = [(i, j) for i in range(p) for j in range(i + 1)]
        eq_cells(c, "mh.cholesky:lower-triangle", g["L"], {(i, j): w.get((T.num(low.index((i, j))),)) if j <= i else T.ZERO for i in range(p) for j in range(p)})
        c.prove_eq_arr("mh.cholesky:replicates", g["u"], U)
        c.check("mh.cholesky:likelihood-of-the-covariances", len(liks) >= 1 and liks[-1][0] is g["out"] and res is liks[-1][1], "")
        frame(c)


def ess_case(mi, ang, known):
    def case(c):
        v, p, N = c.int("v", 1), c.int("p", 1), c.int("N", 1)
        X, nu = c.array("X", (v, p, N), label="xx"), c.array("NU", (v, p, N), label="prior")
        L, V0 = c.array("L", (p, p), label="L"), c.array("V0", (p, p, N), label="V")
        l0 = c.real("l0")
        a = c.real("angle", pos=True) if ang else 0
        evs = []

        def lik(V):
            o = l0 if as_arr(V) is V0 else c.fresh_real("LL")
            evs.append((as_arr(V), P(o)))
            return o

        st = NS.Bunch(xx=X, V=V0, L=L, log_likelihood=l0 if known else None)
        failed = False
        try:
            out = c.fn(st, nu, lik, a, mi)
            c.check("slice:state-returned", out is st, "")
        except RuntimeError:
            failed = True  # allowed only when a proposal is the current state itself
        g = c.extra.get("gwp", [])
        ev = [e for e in evs if e[0] is not V0]
        c.check("slice:one-likelihood-per-proposal", len(ev) == len(g) and 1 <= len(g) <= mi and all(e[0] is r["out"] for e, r in zip(ev, g)), "%d %d" % (len(ev), len(g)))
        us = [P(d[2]) for d in draws(c, "uniform")]
        for d in draws(c, "uniform"):
            c.prove("slice:uniform-draws", T.band(T.eq(P(d[1][0]), T.ZERO), T.eq(P(d[1][1]), T.ONE)))
        k = 0
        u0 = us[0]
        lu = T.log(u0)
        c.assume(T.lt(lu, T.ZERO))
        us = us[1:]
        two = T.scale(P(NS.PI), 2)
        c.assume(T.lt(R_(3), P(NS.PI)))
        if ang:
            lo = T.neg(T.mul(P(a), us[0]))
            hi = T.add(lo, P(a))
            phi = T.add(T.mul(us[1], T.sub(hi, lo)), lo)
            us = us[2:]
        else:
            phi = T.mul(us[0], two)
            lo, hi = T.sub(phi, two), phi
            us = us[1:]
        accepted = None
        for k, (e, r) in enumerate(zip(ev, g)):
            cs, sn = P(NS_cos(phi)), P(NS_sin(phi))
            c.prove_all("slice:proposal-on-the-ellipse", X.vshape, lambda i, j, t: T.eq(r["u"].get((i, j, t)), T.add(T.mul(X.get((i, j, t)), cs), T.mul(nu.get((i, j, t)), sn))))
            c.prove_eq_arr("slice:same-cholesky", r["L"], L)
            c.prove("slice:bracket-contains-the-current-state", T.band(T.le(lo, T.ZERO), T.le(T.ZERO, hi)))
            last = k == len(g) - 1
            if not last:
                c.prove("slice:rejected-only-below-the-current", T.le(e[1], P(l0)))
                hi, lo = T.ite(T.lt(T.ZERO, phi), phi, hi), T.ite(T.lt(phi, T.ZERO), phi, lo)
                phi = T.add(T.mul(us[0], T.sub(hi, lo)), lo)
                us = us[1:]
        if failed:
            c.prove("slice:fails-only-at-the-current-state", T.eq(phi, T.ZERO))
            return
        changed = as_arr(st["xx"]) is not X
        e, r = ev[-1], g[-1]
        if changed:
            c.prove("slice:accepted-only-above-the-threshold", T.lt(T.add(P(l0), lu), e[1]))
            c.prove_eq_arr("slice:new-state", as_arr(st["xx"]), r["u"])
            c.check("slice:new-covariances", st["V"] is r["out"], "")
            c.prove("slice:new-log-likelihood", T.eq(P(st["log_likelihood"]), e[1]))
        else:
            c.check("slice:budget-spent-before-giving-up", len(g) == mi, str(len(g)))
            c.prove("slice:rejected-only-below-the-current", T.le(e[1], P(l0)))
            c.check("slice:unchanged-state", st["V"] is V0 and st["log_likelihood"] is (l0 if known else None), "")
        c.check("slice:cholesky-kept", st["L"] is L, "")
        frame(c)

    return case


def NS_cos(x):
    return as_np().cos(wrap(x))


def NS_sin(x):
    return as_np().sin(wrap(x))


_np = []


def as_np():
    if not _np:
        _np.append(NS.build_numpy())
    return _np[0]


for mi in (1, 2, 3):
    for ang in (0, 1):
        for known in (0, 1):
            if mi < 3 or not known:
                unit("bayes.slice[%d proposals%s%s]" % (mi, ",bracket" if ang else "", ",known likelihood" if known else ""), SA, "elliptical_slice", {SA + ":GWP_construct": stub_gwp}, thorough=mi > 2)(ess_case(mi, ang, known))


# ---------------------------------------------------------------- Gaussian and Wishart processes
GP, WP = "regain.bayesian.gaussian_process_", "regain.bayesian.wishart_process_"


@unit("bayes.gp.sample", GP, "sample")
def _(c):
    n, nu, p = c.int("n", 1), c.int("nu", 1), c.int("p", 1)
    K = c.array("K", (n, n), symmetric=True, label="K")
    r = as_arr(c.fn(K, nu, p))
    (d,) = draws(c, "mvn")
    m, cov = d[1][0], d[1][1]
    c.prove_all("gp:zero-mean", m.vshape, lambda i: T.eq(m.get((i,)), T.ZERO))
    c.prove_eq_arr("gp:covariance-is-the-kernel", cov, K)
    c.prove_eq_arr("gp:replicates", r, d[2])
    c.check("gp:shape", [x.key for x in r.vshape] == [P(x).key for x in (nu, p, n)], str(r.vshape))
    frame(c)


@unit("bayes.wp.predict", WP, "predict", {SA + ":GWP_construct": stub_gwp})
def _(c):
    nu, p, a, b = c.int("nu", 1), c.int("p", 1), c.int("a", 1), c.int("b", 1)
    u, L = c.array("U", (nu, p, a), label="u_map"), c.array("L", (p, p), label="L_map")
    tr, te = c.array("tr", (a,), label="t_train"), c.array("te", (b,), label="t_test")
    w = c.real("w", pos=True)

    def kern(X, Y=None, inverse_width=None):
        X = as_arr(X)
        Y = X if Y is None else as_arr(Y)
        return SArr.make((X.vshape[0], Y.vshape[0]), lambda i: T.fapp("kernel_value", X.get((i[0], T.ZERO)), Y.get((i[1], T.ZERO)), P(inverse_width)))

    V = c.fn(te, tr, u, L, kern, w)
    (g,) = c.extra["gwp"]
    c.check("predict:covariances", V is g["out"], "")
    c.prove_eq_arr("predict:cholesky", g["L"], L)
    K = kern(tr[:, None], inverse_width=w)
    Ki = as_arr(NS.pinvh(K))
    A = kern(te[:, None], tr[:, None], inverse_width=w)
    ut = g["u"]

    def want(v, i, s):
        x, y = T.fresh_name("x"), T.fresh_name("y")
        T.RANGE[x] = T.RANGE[y] = P(a)
        X, Y = T.sym(x, T.INT), T.sym(y, T.INT)
        return T.mk_sum([(x, P(a)), (y, P(a))], mulL(A.get((s, X)), Ki.get((X, Y)), u.get((v, i, Y))))

    c.check("predict:shape", [x.key for x in ut.vshape] == [P(x).key for x in (nu, p, b)], str(ut.vshape))
    c.prove_all("predict:conditional-mean", ut.vshape, lambda v, i, s: T.eq(ut.get((v, i, s)), want(v, i, s)))
    frame(c)


def stub_gp(c, real, K, nu=1, p=3):
    o = c.fresh_array("GP", (P(nu), P(p), as_arr(K).vshape[0]))
    rec(c, "gp", K=as_arr(K).copy(), nu=P(nu), p=P(p), out=o)
    return o


def stub_ess(c, real, current_state, prior, likelihood=None, angle_range=0, max_iter=20):
    s = current_state
    r = dict(xx=s.xx, L=as_arr(s.L).copy(), ll=s.log_likelihood, prior=prior)
    if c.ess_moves.pop(0):
        s["xx"] = c.fresh_array("XX", as_arr(s.xx).vshape)
        s["V"] = c.fresh_array("VV", as_arr(s.V).vshape)
        s["log_likelihood"] = c.fresh_real("ELL")
    rec(c, "ess", **r)
    return s


def stub_hyper(c, real, initial_theta, var_proposal, ustack, kern, prior_distr):
    acc = c.hyper_moves.pop(0)
    o = c.fresh_real("THETA") if acc else initial_theta
    rec(c, "hyper", theta=P(initial_theta), var=var_proposal, u=as_arr(ustack).copy(), kern=kern, prior=prior_distr, out=P(o))
    return o, acc


def stub_ell(c, real, Ltau, var_proposal, umat, prior_distr, likelihood=None):
    L = as_arr(Ltau)
    o = c.fresh_array("ELL", L.vshape)
    rec(c, "ell", L=L.copy(), var=var_proposal, u=umat, prior=prior_distr, lik=likelihood, out=o.copy())
    return o


FITST = {GP + ":sample": stub_gp, SA + ":elliptical_slice": stub_ess, SA + ":sample_hyper_kernel": stub_hyper, SA + ":sample_ell": stub_ell, SA + ":GWP_construct": stub_gwp}


def wp_case(n_iter, learn, ess, hyp, p):
    def case(c):
        c.ess_moves, c.hyper_moves = list(ess), list(hyp)
        N = c.int("N", 1)
        th, vp, vl = c.real("theta", pos=True), c.real("vp", pos=True), c.real("vl", pos=True)
        liks = []

        def lik(V):
            o = c.fresh_real("LL")
            liks.append((as_arr(V), P(o)))
            return o

        def kern(inverse_width):
            return SArr.make((P(N), P(N)), lambda i: T.fapp("kernel_value", P(inverse_width), i[0], i[1]))

        pk, pe = Prior(), Prior()
        L = None if learn else c.array("L", (p, p), label="L")
        out = c.fn(th, vp, pk, vl, pe, kern, p, None, n_iter, False, lik, L)
        us, ll, lps = out[:3]
        es, hs, ls = (c.extra.get(k, []) for k in ("ess", "hyper", "ell"))
        c.check("process:one-step-of-each-kind-per-iteration", len(es) == len(hs) == n_iter and len(ls) == (n_iter if learn else 0), "%d %d %d" % (len(es), len(hs), len(ls)))
        c.check("process:history-lengths", len(us) == n_iter and len(out) == (4 if learn else 3) and (not learn or len(out[3]) == n_iter), "")
        low = [(i, j) for i in range(p) for j in range(i + 1)]
        cur = P(th)
        for k in range(n_iter):
            c.prove("process:kernel-parameter-chain", T.eq(hs[k]["theta"], cur))
            cur = hs[k]["out"]
            c.prove("process:kernel-parameter-history", T.eq(P(lps[k]), cur))
            c.check("process:kernel-step-arguments", hs[k]["var"] is vp and hs[k]["prior"] is pk and hs[k]["kern"] is kern, "")
            # the state recorded: replicates, factor and its log-likelihood
            nxt = es[k + 1] if k + 1 < n_iter else None
            if nxt is not None:
                c.prove_eq_arr("process:replicates-history", as_arr(us[k]), as_arr(nxt["xx"]))
                c.prove("process:likelihood-history", T.eq(P(ll[k]), P(nxt["ll"])))
            if learn:
                Lk = as_arr(out[3][k])
                eq_cells(c, "process:factor-history", Lk, {(i, j): ls[k]["out"].get((T.num(low.index((i, j))),)) if j <= i else T.ZERO for i in range(p) for j in range(p)})
                c.check("process:factor-step-arguments", ls[k]["var"] is vl and ls[k]["prior"] is pe and ls[k]["lik"] is lik, "")
                c.prove_eq_arr("process:factor-step-replicates", as_arr(ls[k]["u"]), as_arr(us[k]))
                if k:
                    c.prove_eq_arr("process:factor-chain", ls[k]["L"], ls[k - 1]["out"])
                if nxt is not None:
                    c.prove_eq_arr("process:factor-used", as_arr(nxt["L"]), Lk)
                # log-likelihood of the covariances built from the recorded replicates and factor
                v = [x for x in liks if x[1] == P(ll[k])]
                c.check("process:likelihood-of-the-recorded-state", len(v) == 1, "")
                if v:
                    g = [x for x in c.extra["gwp"] if x["out"] is v[0][0]]
                    c.check("process:likelihood-of-the-covariances", len(g) == 1, "")
                    if g:
                        c.prove_eq_arr("process:covariances-of-the-replicates", g[0]["u"], as_arr(us[k]))
                        c.prove_eq_arr("process:covariances-of-the-factor", g[0]["L"], Lk)
            if hyp[k]:
                q = [x for x in c.extra["gp"] if x["out"] is us[k]]
                c.check("process:replicates-redrawn", len(q) == 1, "")
                if q:
                    c.prove_eq_arr("process:redrawn-from-the-new-kernel", q[0]["K"], kern(wrap(cur)))
                    c.prove("process:redrawn-sizes", T.band(T.eq(q[0]["nu"], T.num(p + 1)), T.eq(q[0]["p"], T.num(p))))
        frame(c)

    return case


for n_iter, learn, ess, hyp, p in ((1, 1, (1,), (0,), 2), (2, 1, (1, 0), (0, 1), 2), (2, 1, (0, 1), (1, 0), 1), (2, 0, (1, 1), (0, 0), 2), (2, 0, (0, 1), (1, 0), 2), (3, 1, (1, 1, 0), (1, 0, 0), 2)):
    unit("bayes.wp.fit[%d iterations%s,%s,%s,p=%d]" % (n_iter, ",factor learnt" if learn else "", "".join(map(str, ess)), "".join(map(str, hyp)), p), WP, "fit", FITST)(wp_case(n_iter, learn, ess, hyp, p))
