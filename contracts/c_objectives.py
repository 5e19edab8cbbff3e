"""Objective functions: each returns the documented sum, for every penalty shape it accepts."""
from .solvers import *
from .registry import unit

FB = "regain.forward_backward.time_graphical_lasso_"


def neg_ll_t(S, K, N=None):
    """sum_t n_t (tr(S_t K_t) - log det K_t)"""
    v = asum_t(S, K)
    return asum(v) if N is None else asum(N * v)


def asum_t(S, K):
    return NS.reduce_sum(S * K, axis=(1, 2)) - logdet(K)


def args2(c):
    d = c.int("d", 1)
    return d, [c.array(x, (d, d)) for x in ("S", "X", "K", "L")]


def args3(c, nT=None):
    d, n = c.int("d", 1), (nT or c.int("T", 1))
    c.n = n
    full = lambda *xs: [c.array(x, (n, d, d)) for x in xs]  # noqa
    part = lambda *xs: [c.array(x, (n - 1, d, d)) for x in xs]  # noqa
    return d, n, full, part


def frame(c):
    c.check("frame:argument-not-written", not c.written, str(c.written))


@unit("objective:logl", GLM, "logl")
def _(c):
    d, (S, X, K, L) = args2(c)
    c.prove("value", T.eq(P(c.fn(S, X)), P(logdet(X) - asum(S * X))))
    frame(c)


for v in "ab":

    @unit("objective:graphical_lasso[%s]" % v, GLM, "objective")
    def _(c, v=v):
        d, (S, X, K, L) = args2(c)
        al = c.real("alpha", nonneg=True) if v == "a" else c.array("alpha", (d, d))
        c.prove("value", T.eq(P(c.fn(S, X, K, al)), P(asum(S * X) - logdet(X) + asum(NS.absolute(bc(al, K) * K) * offm(K)))))
        frame(c)

    @unit("objective:latent_graphical_lasso[%s]" % v, LGLM, "objective")
    def _(c, v=v):
        d, (S, X, K, L) = args2(c)
        al = c.real("alpha", nonneg=True) if v == "a" else c.array("alpha", (d, d))
        tau = c.real("tau", nonneg=True)
        c.prove("value", T.eq(P(c.fn(S, X, K, L, al, tau)), P(asum(S * X) - logdet(X) + asum(NS.absolute(bc(al, K) * K) * offm(K)) + tau * nuc(L))))
        frame(c)

    @unit("objective:time_loss[%s]" % v, TGLM, "loss")
    def _(c, v=v):
        d, n, full, part = args3(c)
        S, K = full("S", "K")
        if v == "a":
            N = c.array("n_samples", (n,))
            c.prove("value", T.eq(P(c.fn(S, K, n_samples=N)), P(neg_ll_t(S, K, N))))
        else:
            c.prove("value-without-sample-sizes", T.eq(P(c.fn(S, K)), P(neg_ll_t(S, K))))
        frame(c)

    @unit("objective:time_graphical_lasso[%s]" % v, TGLM, "objective")
    def _(c, v=v):
        d, n, full, part = args3(c)
        S, K, Z0 = full("S", "K", "Z0")
        Z1, Z2 = part("Z1", "Z2")
        N = c.array("n_samples", (n,))
        al, be = (c.real("alpha", nonneg=True), c.real("beta", nonneg=True)) if v == "a" else (c.array("alpha", (d, d)), c.array("beta", (n - 1, 1, 1)))
        r = c.fn(N, S, K, Z0, Z1, Z2, al, be, psi_value("psi"))
        c.prove("value", T.eq(P(r), P(neg_ll_t(S, K, N) + asum(NS.absolute(bc(al, Z0) * Z0) * offm(Z0)) + psi_sum("psi", be, Z2 - Z1))))
        frame(c)

    @unit("objective:latent_time_graphical_lasso[%s]" % v, LTGLM, "objective")
    def _(c, v=v):
        d, n, full, part = args3(c)
        S, R, Z0, W0 = full("S", "R", "Z0", "W0")
        Z1, Z2, W1, W2 = part("Z1", "Z2", "W1", "W2")
        N = c.array("n_samples", (n,))
        if v == "a":
            al, be, ta, et = (c.real(x, nonneg=True) for x in ("alpha", "beta", "tau", "eta"))
        else:
            al, be, ta, et = c.array("alpha", (d, d)), c.array("beta", (n - 1, 1, 1)), c.array("tau", (n, 1, 1)), c.array("eta", (n - 1, 1, 1))
        r = c.fn(S, N, R, Z0, Z1, Z2, W0, W1, W2, al, ta, be, et, psi_value("psi"), psi_value("phi"))
        lat = ta * asum(nuc(W0)) if v == "a" else asum(nuc(ta * W0))
        c.prove("value", T.eq(P(r), P(neg_ll_t(S, R, N) + asum(NS.absolute(bc(al, Z0) * Z0) * offm(Z0)) + lat + psi_sum("psi", be, Z2 - Z1) + psi_sum("phi", et, W2 - W1))))
        frame(c)


@unit("objective:matrix_decomposition", LTMDM, "objective")
def _(c):
    d, n, full, part = args3(c)
    S, R, Z0, W0 = full("S", "R", "Z0", "W0")
    Z1, Z2, W1, W2 = part("Z1", "Z2", "W1", "W2")
    al, be, ta, et = (c.real(x, nonneg=True) for x in ("alpha", "beta", "tau", "eta"))
    r = c.fn(S, R, Z0, Z1, Z2, W0, W1, W2, al, ta, be, et, psi_value("psi"), psi_value("phi"))
    c.prove("value", T.eq(P(r), P(wrap(sqn(S - R)) + al * asum(NS.absolute(Z0) * offm(Z0)) + ta * asum(nuc(W0)) + psi_sum("psi", be, Z2 - Z1) + psi_sum("phi", et, W2 - W1))))
    frame(c)


@unit("objective:infimal_convolution", IMGLM, "objective")
def _(c):
    d, (S, R, K, L) = args2(c)
    al, ta = c.real("alpha", nonneg=True), c.real("tau", nonneg=True)
    c.prove("value", T.eq(P(c.fn(S, R, K, L, al, ta)), P(wrap(T.mul(HALF, sqn(S - R))) + al * asum(NS.absolute(K) * offm(K)) + ta * nuc(L))))
    frame(c)


def lag_pen(tag, kern, pairs):
    tot = wrap(T.ZERO)
    for m, (ZL, ZR) in pairs.items():
        D = ZR - ZL
        r = kern.reader()
        w = SArr.make((D.vshape[0],), lambda i, m=m: r((i[0], T.add(i[0], T.num(m)))))
        tot = tot + psi_sum(tag, w, D)
    return tot


for nT in (1, 2, 3, 4):

    @unit("objective:kernel_time_graphical_lasso[T=%d]" % nT, KTGLM, "objective")
    def _(c, nT=nT):
        d, n, full, part = args3(c, nT)
        S, K, Z0 = full("S", "K", "Z0")
        N = c.array("n_samples", (n,))
        ker = c.array("kernel", (n, n))
        ZM = {m: tuple(c.array("Z%s%d" % (s, m), (nT - m, d, d)) for s in "LR") for m in range(1, nT)}
        al = c.real("alpha", nonneg=True)
        r = c.fn(N, S, K, Z0, ZM, al, ker, psi_value("psi"))
        c.prove("value", T.eq(P(r), P(neg_ll_t(S, K, N) + al * asum(NS.absolute(Z0) * offm(Z0)) + lag_pen("psi", ker, ZM))))
        frame(c)

    @unit("objective:kernel_latent[T=%d]" % nT, KLTGLM, "objective")
    def _(c, nT=nT):
        d, n, full, part = args3(c, nT)
        S, R, Z0, W0 = full("S", "R", "Z0", "W0")
        N = c.array("n_samples", (n,))
        k1, k2 = c.array("kernel_psi", (n, n)), c.array("kernel_phi", (n, n))
        ZM = {m: tuple(c.array("Z%s%d" % (s, m), (nT - m, d, d)) for s in "LR") for m in range(1, nT)}
        WM = {m: tuple(c.array("W%s%d" % (s, m), (nT - m, d, d)) for s in "LR") for m in range(1, nT)}
        al, ta = c.real("alpha", nonneg=True), c.real("tau", nonneg=True)
        r = c.fn(S, N, R, Z0, ZM, W0, WM, al, ta, k1, k2, psi_value("psi"), psi_value("phi"))
        c.prove("value", T.eq(P(r), P(neg_ll_t(S, R, N) + al * asum(NS.absolute(Z0) * offm(Z0)) + ta * asum(nuc(W0)) + lag_pen("psi", k1, ZM) + lag_pen("phi", k2, WM))))
        frame(c)


def hyper_penalty(c, nT, K, ker):
    """sum over the pairs of time points of the kernel entry of the pair times psi(K_later - K_earlier)"""
    pairs = {m: (K[: nT - m], K[m:]) for m in range(1, nT)}
    return lag_pen("laplacian", ker, pairs)


for nm, mod in (("ktgl", KTGLM), ("tising", "regain.generalized_linear_model.glm_time_ising"), ("tpoisson", "regain.generalized_linear_model.glm_time_poisson")):
    for nT in (1, 2, 3, 4):
        for kind in ("length_scale", "constant_value"):

            @unit("objective:kernel_parameter[%s,%s,T=%d]" % (nm, kind, nT), mod, "objective_kernel", stubs={"regain.validation:check_norm_prox": stub_check_norm_prox})
            def _(c, nT=nT, kind=kind):
                d = c.int("d", 1)
                K = c.array("K", (nT, d, d), label="K")
                times = c.array("times", (nT, 1), label="times")
                th = c.real("theta", nonneg=True)
                ker, seen = kern(c, "kernel", nT), []

                def family(**kw):
                    if set(kw) != {kind}:
                        raise TypeError("unexpected keyword")
                    seen.append(kw[kind])

                    def at(x, y=None):
                        c.prove_eq_arr("kernel-at-the-times", as_arr(x), times)
                        return ker

                    return at

                v = c.fn(th, K, "laplacian", family, times)
                c.check("kernel-of-the-parameter", len(seen) == 1 and P(seen[0]) == P(th), str(seen))
                c.prove("value", T.eq(P(v), P(hyper_penalty(c, nT, K, ker))))
                frame(c)
