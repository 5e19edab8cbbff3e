"""Likelihood, information criteria, step adaptation, structure metrics."""
from .common import *
from .c_prox import shapes, total
from .registry import unit

SC = "regain.scores"


def logdet_plus(x, lead=()):
    """log det where the determinant is positive, -inf elsewhere."""
    s, l = NS.slogdet(x)
    if x.ndim == 2:
        return T.ite(T.lt(T.ZERO, P(s)), P(l), P(float("-inf")))
    return T.ite(T.lt(T.ZERO, s.get(lead)), l.get(lead), P(float("-inf")))


def inner(a, b, lead=()):
    names = [T.fresh_name("k") for _ in range(2)]
    for n, d in zip(names, a.vshape[-2:]):
        T.RANGE[n] = d
    ij = tuple(T.sym(n, T.INT) for n in names)
    return T.mk_sum(list(zip(names, a.vshape[-2:])), T.mul(a.get(lead + ij), b.get(lead + ij)))


def ll(S, K, lead=()):
    return T.sub(logdet_plus(K, lead), inner(S, K, lead))


def ll_t(S, K):
    k = T.fresh_name("k")
    T.RANGE[k] = K.vshape[0]
    kk = T.sym(k, T.INT)
    return T.mk_sum([(k, K.vshape[0])], ll(S, K, (kk,)))


def nnz(K):
    return total(K, lambda i: T.ite(T.eq(K.get(i), T.ZERO), T.ZERO, T.ONE))


def sk(c, shp):
    sh = shapes(c, shp)
    return c.array("S", sh, label="emp_cov"), c.array("K", sh, label="precision")


for shp in ("2d", "3d"):

    @unit("log_likelihood[%s]" % shp, SC, "log_likelihood")
    def _(c, shp=shp):
        S, K = sk(c, shp)
        r = c.fn(S, K)
        if shp == "2d":
            c.prove("value", T.eq(P(r), ll(S, K)))
        else:
            c.check("shape", r.ndim == 1)
            c.prove_all("value", K.vshape[:1], lambda t: T.eq(r.get((t,)), ll(S, K, (t,))))
        c.check("frame:argument-not-written", not c.written)


@unit("log_likelihood_t", SC, "log_likelihood_t")
def _(c):
    S, K = sk(c, "3d")
    c.prove("value", T.eq(P(c.fn(S, K)), ll_t(S, K)))
    c.check("frame:argument-not-written", not c.written)


LOG = lambda x: P(NS.log(wrap(x)))  # noqa


def criterion(name, time):
    def case(c):
        S, K = sk(c, "3d" if time else "2d")
        n = c.int("n", 1)
        eps = c.real("epsilon")
        base = ll_t(S, K) if time else ll(S, K)
        d = K.vshape[-1]
        p = T.mul(K.vshape[0], K.vshape[1]) if time else d
        edges = T.sub(nnz(K), p)
        N = P(n)
        if name == "BIC":
            r = c.fn(S, K)
            want = T.sub(base, edges)
        else:
            r = c.fn(S, K, n=n, epsilon=eps)
            arg = p if name == "EBIC" else T.mul(p, T.sub(p, T.ONE), HALF)
            pen = T.add(T.mul(LOG(N), T.inv(N), edges), T.mul(T.num(4), P(eps), LOG(arg), T.inv(N), edges))
            want = T.sub(base, pen)
        c.prove("value", T.eq(P(r), want))
        c.check("frame:argument-not-written", not c.written)

    return case


for nm in ("BIC", "EBIC", "EBIC_m"):
    for tt in (False, True):
        unit("criterion:%s%s" % (nm, "_t" if tt else ""), SC, nm + ("_t" if tt else ""))(criterion(nm, tt))

UR = "regain.update_rules"


@unit("update_rho", UR, "update_rho")
def _(c):
    rho, r, s = c.real("rho", pos=True), c.real("rnorm", nonneg=True), c.real("snorm", nonneg=True)
    mu, ti, td = c.real("mu", pos=True), c.real("tau_inc", pos=True), c.real("tau_dec", pos=True)
    out = P(c.fn(rho, r, s, iteration=c.int("it", 0), mu=mu, tau_inc=ti, tau_dec=td))
    R, S, M = P(r), P(s), P(mu)
    inc, dec = T.lt(T.mul(M, S), R), T.lt(T.mul(M, R), S)
    c.prove("increase-when-primal-dominates", T.implies(inc, T.eq(out, T.mul(P(ti), P(rho)))))
    c.prove("decrease-when-dual-dominates", T.implies(T.band(T.bnot(inc), dec), T.eq(T.mul(out, P(td)), P(rho))))
    c.prove("unchanged-when-balanced", T.implies(T.band(T.bnot(inc), T.bnot(dec)), T.eq(out, P(rho))))
    c.prove("stays-positive", T.lt(T.ZERO, out))


@unit("update_rho[defaults]", UR, "update_rho")
def _(c):
    rho, r, s = c.real("rho", pos=True), c.real("rnorm", nonneg=True), c.real("snorm", nonneg=True)
    out = P(c.fn(rho, r, s))
    R, S, M = P(r), P(s), T.num(10)
    inc, dec = T.lt(T.mul(M, S), R), T.lt(T.mul(M, R), S)
    c.prove("default-doubles", T.implies(inc, T.eq(out, T.mul(T.num(2), P(rho)))))
    c.prove("default-halves", T.implies(dec, T.eq(out, T.mul(HALF, P(rho)))))
    c.prove("default-keeps", T.implies(T.band(T.bnot(inc), T.bnot(dec)), T.eq(out, P(rho))))


@unit("update_gamma", UR, "update_gamma")
def _(c):
    g, eps = c.real("gamma", pos=True), c.real("eps", pos=True)
    it = c.int("it", 0)
    out = P(c.fn(g, it, eps=eps))
    c.prove("never-below-eps", T.le(P(eps), out))
    c.prove("never-grows-above-eps", T.bor(T.le(out, P(g)), T.eq(out, P(eps))))
    c.prove("value-is-gamma-half-gamma-or-eps", T.bor(T.eq(out, P(g)), T.eq(out, T.mul(HALF, P(g))), T.eq(out, P(eps))))
    for k in range(0, 61):
        o = P(c.fn(g, k, eps=eps))
        w = T.mul(HALF, P(g)) if k % 20 == 0 else P(g)
        c.prove("halves-every-20", T.eq(o, T.maxv(w, P(eps))))
