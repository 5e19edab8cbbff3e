"""Registration of the solver units, the contract of init_precision, and the fixed-point lemmas."""
from . import solvers as SV
from .solvers import *
from .common import CONTRACTS
from .registry import add, unit

STUBS = dict(CONTRACTS)
STUBS["regain.covariance.graphical_lasso_:init_precision"] = init_stub_checked
STUBS["regain.prox:prox_laplacian"] = stub_prox_laplacian

for v in "abs":
    for short, mod, fn, mk in (
        ("gl", GLM, "graphical_lasso", SV.gl_case),
        ("tgl", TGLM, "time_graphical_lasso", SV.tgl_case),
        ("lgl", LGLM, "latent_graphical_lasso", SV.lgl_case),
        ("inf", IMGLM, "infimal_convolution", SV.inf_case),
        ("ltgl", LTGLM, "latent_time_graphical_lasso", SV.ltgl_case),
        ("ltmd", LTMDM, "latent_time_matrix_decomposition", SV.ltmd_case),
    ):
        if v == "s" and short != "tgl":
            continue
        add("%s[%s]" % (short, v), mod, fn, mk(v), STUBS)
    for nT in (1, 2, 3, 4, 5):
        th = nT > 3
        if v != "s" or nT == 2:
            add("ktgl[%s,T=%d]" % (v, nT), KTGLM, "kernel_time_graphical_lasso", SV.ktgl_case(v, nT), STUBS, thorough=th)
        if v != "s":
            add("kltgl[%s,T=%d]" % (v, nT), KLTGLM, "kernel_latent_time_graphical_lasso", SV.kltgl_case(v, nT), STUBS, thorough=th)


# ------------------------------------------------------------------ init_precision
for shp in ("2d", "3d"):

    @unit("init_precision[empirical,%s]" % shp, GLM, "init_precision")
    def _(c, shp=shp):
        d = c.int("d", 1)
        sh = (d, d) if shp == "2d" else (c.int("T", 1), d, d)
        S = c.array("S", sh, symmetric=True, label="emp_cov")
        r = c.fn(S, mode="empirical")
        f95 = T.num(Fraction(95, 100))
        W = SArr.make(S.vshape, lambda i: T.ite(T.eq(i[-1], i[-2]), S.get(i), T.mul(f95, S.get(i))))
        c.prove_eq_arr("kkt:init.shrunk-inverse", r, NS.pinvh(W))
        c.check("frame:argument-not-written", not c.written, str(c.written))

    @unit("init_precision[zeros,%s]" % shp, GLM, "init_precision")
    def _(c, shp=shp):
        d = c.int("d", 1)
        sh = (d, d) if shp == "2d" else (c.int("T", 1), d, d)
        S = c.array("S", sh, symmetric=True, label="emp_cov")
        r = c.fn(S, mode="zeros")
        c.prove_eq_arr("kkt:init.zero", r, zeros_as(S))
        A = c.array("A", sh, label="init")
        r = c.fn(S, mode=A)
        c.prove_eq_arr("kkt:init.given", r, A)
        c.check("frame:argument-not-written", not c.written, str(c.written))


# ------------------------------------------------------------------ lemmas: a fixed point of the iteration is a KKT point
# The kkt: obligations say what one iteration does to an arbitrary state.  A fixed point has post = pre and an unchanged rho.
# The multiplier updates then give primal feasibility, and substituting it in the block conditions gives the stationarity
# of the documented objective, with the scaled multipliers rho*U as the subgradients of the penalties.
def lemma(name):
    return unit("lemma:" + name, GLM, "init_precision")


@lemma("gl.fixed-point")
def _(c):
    d = c.int("d", 1)
    S, K, Ki, U = (c.array(x, (d, d)) for x in ("S", "K", "Kinv", "U"))
    rho, orx = c.real("rho", pos=True), c.real("orx")
    Z = K  # U' = U + orx K + (1-orx) Z - Z  =>  orx (K - Z) = 0
    M = sym2(Z - U)
    same(c, "lemma:stationarity", (S - Ki) + rho * (K - M), (S - Ki) + rho * sym2(U) + rho * (K - sym2(K)))
    Kh = orx * K + (1 - orx) * Z
    same(c, "lemma:subgradient-of-l1", Kh + U - Z, U)


@lemma("tgl.fixed-point")
def _(c):
    d, n = c.int("d", 1), c.int("T", 1)
    c.n = n
    S, K, Ki, U0 = (c.array(x, (n, d, d)) for x in ("S", "K", "Kinv", "U0"))
    U1, U2 = (c.array(x, (n - 1, d, d)) for x in ("U1", "U2"))
    N = c.array("nsamp", (n,))[:, None, None]
    rho = c.real("rho", pos=True)
    D = tdiv(c)[:, None, None]
    tot = K - U0 + padL(K[:-1] - U1, P(n)) + padR(K[1:] - U2, P(n))
    same(c, "lemma:stationarity", N * (S - Ki) + rho * D * (sym3(K) - sym3(tot) / D), N * (S - Ki) + rho * sym3(U0 + padL(U1, P(n)) + padR(U2, P(n))))
    same(c, "lemma:subgradient-of-l1", sym3(K + U0) - sym3(K), sym3(U0))
    # pair block: G/2 = A2 - Y2 = -(A1 - Y1)
    same(c, "lemma:subgradient-of-psi", (K[1:] + U2) - K[1:], U2)
    same(c, "lemma:opposite-subgradient", (K[:-1] + U1) - K[:-1], U1)


@lemma("lgl.fixed-point")
def _(c):
    d = c.int("d", 1)
    S, K, L, Ri, U = (c.array(x, (d, d)) for x in ("S", "K", "L", "Rinv", "U"))
    rho = c.real("rho", pos=True)
    R = K - L
    same(c, "lemma:stationarity", (S - Ri) + rho * (sym2(R) - sym2(K - L - U)), (S - Ri) + rho * sym2(U))
    same(c, "lemma:subgradient-of-l1", (L + R + U) - K, U)
    same(c, "lemma:subgradient-of-nuclear-norm", sym2(K - R - U) - sym2(L), -sym2(U))


@lemma("ltgl.fixed-point")
def _(c):
    d, n = c.int("d", 1), c.int("T", 1)
    c.n = n
    S, Z0, W0, Ri, X0 = (c.array(x, (n, d, d)) for x in ("S", "Z0", "W0", "Rinv", "X0"))
    X1, X2, U1, U2 = (c.array(x, (n - 1, d, d)) for x in ("X1", "X2", "U1", "U2"))
    rho = c.real("rho", pos=True)
    N = c.array("nsamp", (n,))[:, None, None]
    D = tdiv(c)[:, None, None]
    R = Z0 - W0
    n_ = P(n)
    same(c, "lemma:stationarity", N * (S - Ri) + rho * (sym3(R) - sym3(Z0 - W0 - X0)), N * (S - Ri) + rho * sym3(X0))
    A = (R + W0 + X0 + padL(Z0[:-1] - X1, n_) + padR(Z0[1:] - X2, n_)) / D
    same(c, "lemma:subgradient-of-l1", rho * D * (A - Z0), rho * (X0 - padL(X1, n_) - padR(X2, n_)))
    B_ = sym3(Z0 - R - X0 + padL(W0[:-1] - U1, n_) + padR(W0[1:] - U2, n_)) / D
    same(c, "lemma:subgradient-of-nuclear-norm", rho * D * (B_ - sym3(W0)), rho * sym3(-X0 - padL(U1, n_) - padR(U2, n_)))
    # sum rule: X0 = l1 part + temporal parts (psi), -X0 = nuclear part + temporal parts (phi)


for nT in (2, 3, 4):

    @lemma("ktgl.fixed-point[T=%d]" % nT)
    def _(c, nT=nT):
        d = c.int("d", 1)
        n = T.num(nT)
        S, K, Ki, U0 = (c.array(x, (nT, d, d)) for x in ("S", "K", "Kinv", "U0"))
        rho = c.real("rho", pos=True)
        N = c.array("nsamp", (nT,))[:, None, None]
        tot, us = K - U0, U0
        for m in range(1, nT):
            UL, UR = (c.array("U%s%d" % (s, m), (nT - m, d, d)) for s in "LR")
            tot = tot + padL(K[:-m] - UL, n) + padR(K[m:] - UR, n)
            us = us + padL(UL, n) + padR(UR, n)
        same(c, "lemma:stationarity", N * (S - Ki) + rho * nT * (sym3(K) - sym3(tot) / nT), N * (S - Ki) + rho * sym3(us))
