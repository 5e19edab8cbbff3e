"""Proximal operators are the exact minimisers their callers assume (the contracts of common.py)."""
from .common import *
from .registry import unit, add
from vc.arrays import lam_of

PM = "regain.prox"


def sgn_cond(x, a, lam):
    """a - x in lam d|x|"""
    return subgrad_abs(x, T.sub(a, x), lam)


def shapes(c, kind):
    d = c.int("d", 1)
    if kind == "2d":
        return (d, d)
    if kind == "rect":
        return (c.int("p", 1), d)
    return (c.int("t", 1), d, d)


def lamv(c, kind, shape):
    """nonnegative lamda: scalar / full array / per-matrix (T,1,1)"""
    if kind == "s":
        return c.real("lam", nonneg=True)
    sh = {"full": shape, "batch": (shape[0], 1, 1)}[kind]
    a = c.array("lam", sh, label="lamda")
    c.fact("lam", lambda *i: T.le(T.ZERO, T.app("lam", i)))
    return a


def out_shape(c, r, a):
    c.check("shape", r.ndim == a.ndim and all(x == y for x, y in zip(r.vshape, a.vshape)))


for shp in ("rect", "3d"):
    for lk in ("s", "full") + (("batch",) if shp == "3d" else ()):

        @unit("soft_thresholding[%s,%s]" % (shp, lk), PM, "soft_thresholding")
        def _(c, shp=shp, lk=lk):
            sh = shapes(c, shp)
            a = c.array("a", sh, label="a")
            lam = lamv(c, lk, sh)
            r = c.fn(a, lam)
            out_shape(c, r, a)
            L = bcast(lam, a.vshape)
            c.prove_all("prox-optimality", r.vshape, lambda *i: sgn_cond(r.get(i), a.get(i), L(i)))
            c.check("frame:argument-not-written", not c.written)


for shp in ("2d", "3d"):
    for lk in ("s", "full") + (("batch",) if shp == "3d" else ()):

        @unit("soft_thresholding_off_diagonal[%s,%s]" % (shp, lk), PM, "soft_thresholding_off_diagonal")
        def _(c, shp=shp, lk=lk):
            sh = shapes(c, shp)
            a = c.array("a", sh, label="a")
            lam = lamv(c, lk, sh)
            r = c.fn(a, lam)
            out_shape(c, r, a)
            L = bcast(lam, a.vshape)
            c.prove_all("prox-optimality-off-diagonal", r.vshape, lambda *i: T.implies(T.ne(i[-1], i[-2]), sgn_cond(r.get(i), a.get(i), L(i))))
            c.prove_all("diagonal-not-penalised", r.vshape[:-1], lambda *i: T.eq(r.get(i + (i[-1],)), a.get(i + (i[-1],))))
            c.check("frame:argument-not-written", not c.written)


def group(c, r, a, lam, axis):
    """r = prox of lam * sum over `axis`-vectors of the Euclidean norm."""
    ax = axis % a.ndim
    L = bcast(lam, a.vshape)
    ra = a.reader()

    def f(*i):
        k = T.fresh_name("k")
        T.RANGE[k] = a.vshape[ax]
        ik = i[:ax] + (T.sym(k, T.INT),) + i[ax + 1 :]
        n = T.sqrt(T.mk_sum([(k, a.vshape[ax])], T.mul(ra(ik), ra(ik))))
        x = r.get(i)
        # lemma used: a sum of squares that vanishes has vanishing terms
        lemma = T.implies(T.le(n, T.ZERO), T.eq(ra(i), T.ZERO))
        return T.implies(
            lemma,
            T.band(
                T.implies(T.le(n, L(i)), T.eq(x, T.ZERO)),
                T.implies(T.lt(L(i), n), T.eq(T.mul(n, x), T.mul(T.sub(n, L(i)), ra(i)))),
            ),
        )

    c.prove_all("group-prox-optimality", r.vshape, f, hyps=())


for fn_, axis, shps in (("soft_thresholding_vector", -1, ("rect", "3d")), ("blockwise_soft_thresholding", -2, ("2d", "3d")), ("blockwise_soft_thresholding_symmetric", -2, ("2d", "3d"))):
    for shp in shps:
        for lk in ("s",) + (("batch",) if shp == "3d" and fn_ == "blockwise_soft_thresholding" else ()):

            @unit("%s[%s,%s]" % (fn_, shp, lk), PM, fn_)
            def _(c, shp=shp, lk=lk, axis=axis):
                sh = shapes(c, shp)
                a = c.array("a", sh, label="a")
                lam = lamv(c, lk, sh)
                r = c.fn(a, lam)
                out_shape(c, r, a)
                group(c, r, a, lam, axis)
                c.check("frame:argument-not-written", not c.written)


def spectral_setup(c, shp, lk, pos):
    sh = shapes(c, shp)
    a = c.array("a", sh, symmetric=True, label="a")
    if lk == "s":
        lam = c.real("lam", pos=pos, nonneg=True)
        l = lambda i: P(lam)  # noqa
    else:
        lam = c.array("lam", (sh[0], 1), label="lamda")
        c.fact("lam", lambda *i: (T.lt if pos else T.le)(T.ZERO, T.app("lam", i)))
        l = lambda i: T.app("lam", (i[0], T.ZERO))  # noqa
    r = c.fn(a, lam)
    out_shape(c, r, a)
    es = c.extra.get("eigh") or []
    if len(es) != 1:
        raise Unsupported("eigendecompositions: %d" % len(es))
    c.check("frame:argument-not-written", not c.written)
    c.prove_eq_arr("decomposes-its-argument", es[0]["a"], a)
    return a, l, r, es[0]


def qsum(c, e, i, w):
    """sum_k Q_ik Q_jk w(lambda_k)."""
    lead = i[:-2]
    d = e["Q"].vshape[-1]
    k = T.fresh_name("k")
    T.RANGE[k] = d
    kk = T.sym(k, T.INT)
    return T.mk_sum([(k, d)], T.mul(e["Q"].get(lead + (i[-2], kk)), e["Q"].get(lead + (i[-1], kk)), w(e["es"].get(lead + (kk,)))))


for shp, lk in (("2d", "s"), ("3d", "s"), ("3d", "batch")):

    @unit("prox_logdet[%s,%s]" % (shp, lk), PM, "prox_logdet")
    def _(c, shp=shp, lk=lk):
        a, l, r, e = spectral_setup(c, shp, lk, True)

        def xi(i):
            return lambda es: T.mul(T.add(T.neg(es), T.sqrt(T.add(T.mul(es, es), T.mul(T.num(4), T.inv(l(i)))))), l(i), HALF)

        # eigenvalues of the result: xi(es) > 0, xi/lam + es - 1/xi = 0
        c.prove_all("eigenvalues-positive", e["es"].vshape, lambda *i: T.lt(T.ZERO, xi(i)(e["es"].get(i))))
        c.prove_all("result-has-eigenvalues-xi", r.vshape, lambda *i: T.eq(r.get(i), qsum(c, e, i, xi(i))))
        c.prove_all(
            "eigenvalue-stationarity",
            e["es"].vshape,
            lambda *i: T.eq(T.sub(T.mul(xi(i)(e["es"].get(i)), T.add(T.mul(xi(i)(e["es"].get(i)), T.inv(l(i))), e["es"].get(i))), T.ONE), T.ZERO),
        )
        c.prove_all(
            "stationarity",
            r.vshape,
            lambda *i: T.eq(T.add(T.mul(T.inv(l(i)), r.get(i)), qsum(c, e, i, lambda x: x)), qsum(c, e, i, lambda x: T.add(T.mul(xi(i)(x), T.inv(l(i))), x))),
        )


for shp, lk in (("2d", "s"), ("3d", "s"), ("3d", "batch")):

    @unit("prox_trace_indicator[%s,%s]" % (shp, lk), PM, "prox_trace_indicator")
    def _(c, shp=shp, lk=lk):
        a, l, r, e = spectral_setup(c, shp, lk, False)
        pos = lambda p: T.ite(T.lt(T.ZERO, p), p, T.ZERO)  # noqa
        up = lambda i: (lambda es: pos(T.sub(es, l(i))))  # noqa
        dn = lambda i: (lambda es: pos(T.sub(l(i), es)))  # noqa
        c.prove_all("result-is-psd", e["es"].vshape, lambda *i: T.le(T.ZERO, up(i)(e["es"].get(i))))
        c.prove_all("result-has-shrunk-eigenvalues", r.vshape, lambda *i: T.eq(r.get(i), qsum(c, e, i, up(i))))
        # lam I - (a - out) = M with M psd, M out = 0
        c.prove_all("multiplier-stationarity", e["es"].vshape, lambda *i: T.eq(T.sub(l(i), T.sub(e["es"].get(i), up(i)(e["es"].get(i)))), dn(i)(e["es"].get(i))))
        c.prove_all("complementarity", e["es"].vshape, lambda *i: T.eq(T.mul(up(i)(e["es"].get(i)), dn(i)(e["es"].get(i))), T.ZERO))


for lk in ("s", "batch"):

    @unit("prox_laplacian[%s]" % lk, PM, "prox_laplacian")
    def _(c, lk=lk):
        sh = shapes(c, "3d")
        a = c.array("a", sh, label="a")
        lam = lamv(c, lk, sh)
        r = c.fn(a, lam)
        out_shape(c, r, a)
        L = bcast(lam, a.vshape)
        c.prove_all("prox-optimality", r.vshape, lambda *i: T.eq(T.mul(T.add(T.ONE, T.mul(T.num(2), L(i))), r.get(i)), a.get(i)))
        c.check("frame:argument-not-written", not c.written)


# ------------------------------------------------------------------ penalties and their pairing with a prox
VM = "regain.validation"


def vec_norm(x, axis, i):
    k = T.fresh_name("k")
    T.RANGE[k] = x.vshape[axis]
    ik = i[:axis] + (T.sym(k, T.INT),) + i[axis + 1 :]
    return T.sqrt(T.mk_sum([(k, x.vshape[axis])], T.mul(x.get(ik), x.get(ik))))


def total(x, f):
    names = [T.fresh_name("k") for _ in x.vshape]
    for n, d in zip(names, x.vshape):
        T.RANGE[n] = d
    return T.mk_sum(list(zip(names, x.vshape)), f(tuple(T.sym(n, T.INT) for n in names)))


def penalty_value(tag, x):
    """documented value of the temporal penalty on one (p, d) matrix"""
    if tag == "laplacian":
        return total(x, lambda i: T.mul(x.get(i), x.get(i)))
    if tag == "l1":
        return total(x, lambda i: T.absv(x.get(i)))
    j = T.fresh_name("k")
    T.RANGE[j] = x.vshape[1]
    jj = T.sym(j, T.INT)
    if tag == "l2":
        return T.mk_sum([(j, x.vshape[1])], vec_norm(x, 0, (T.ZERO, jj)))
    raise KeyError(tag)


for tag in ("laplacian", "l1", "l2"):
    for lk in ("s", "batch"):

        @unit("check_norm_prox[%s,%s]" % (tag, lk), VM, "check_norm_prox")
        def _(c, tag=tag, lk=lk):
            norm, prox, node = c.fn(tag)
            c.check("not-a-node-penalty", node is False)
            x = c.array("x", (c.int("p", 1), c.int("q", 1)), label="x")
            c.prove("penalty-value", T.eq(P(norm(x)), penalty_value(tag, x)))
            sh = shapes(c, "3d")
            a = c.array("a", sh, label="a")
            lam = lamv(c, lk, sh)
            r = prox(a, lam)
            out_shape(c, r, a)
            L = bcast(lam, a.vshape)
            if tag == "laplacian":
                c.prove_all("paired-prox", r.vshape, lambda *i: T.eq(T.mul(T.add(T.ONE, T.mul(T.num(2), L(i))), r.get(i)), a.get(i)))
            elif tag == "l1":
                c.prove_all("paired-prox", r.vshape, lambda *i: sgn_cond(r.get(i), a.get(i), L(i)))
            else:
                group(c, r, a, lam, -2)
            c.check("frame:argument-not-written", not c.written)


@unit("check_norm_prox[rejects]", VM, "check_norm_prox")
def _(c):
    for bad in ("", "L1", "l1 ", "huber", "l3", "laplace", None, 1, "elastic", "LAPLACIAN"):
        try:
            c.fn(bad)
        except ValueError:
            c.ok("unknown-name-rejected", repr(bad))
        else:
            c.fail("unknown-name-rejected", repr(bad))
    out = c.fn("node")
    c.check("node-flag", out[2] is True)
    out = c.fn("linf")
    c.check("linf-is-not-node", out[2] is False)


NM = "regain.norm"


@unit("l1_norm", NM, "l1_norm")
def _(c):
    x = c.array("x", (c.int("p", 1), c.int("q", 1)))
    c.prove("value", T.eq(P(c.fn(x)), penalty_value("l1", x)))


@unit("l2_norm", NM, "l2_norm")
def _(c):
    x = c.array("x", (c.int("p", 1), c.int("q", 1)))
    c.prove("value", T.eq(P(c.fn(x)), penalty_value("l2", x)))


@unit("matrix_l1_norm", NM, "matrix_l1_norm")
def _(c):
    x = c.array("x", (c.int("t", 1), c.int("p", 1), c.int("q", 1)))
    r = c.fn(x)
    c.check("shape", r.ndim == 1)

    def f(t):
        s = SArr.make(x.vshape[1:], lambda i: x.get((t,) + tuple(i)))
        return T.eq(r.get((t,)), penalty_value("l1", s))

    c.prove_all("value", x.vshape[:1], f)


for shp in ("2d", "3d"):

    @unit("l1_od_norm[%s]" % shp, NM, "l1_od_norm")
    def _(c, shp=shp):
        sh = shapes(c, shp)
        x = c.array("x", sh, label="x")
        r = c.fn(x)

        def val(lead):
            s = SArr.make(x.vshape[-2:], lambda i: T.mul(T.absv(x.get(lead + tuple(i))), T.ite(T.eq(i[0], i[1]), T.ZERO, T.ONE)))
            return total(s, lambda i: s.get(i))

        if shp == "2d":
            c.prove("value", T.eq(P(r), val(())))
        else:
            c.check("shape", r.ndim == 1)
            c.prove_all("value", x.vshape[:1], lambda t: T.eq(r.get((t,)), val((t,))))
        c.check("frame:argument-not-written", not c.written)


MM = "regain.math"

for shp in ("2d", "3d"):

    @unit("get_diagonal[%s]" % shp, MM, "get_diagonal")
    def _(c, shp=shp):
        x = c.array("x", shapes(c, shp), label="x")
        r = c.fn(x)
        c.check("shape", r.ndim == x.ndim - 1)
        c.prove_all("value", r.vshape, lambda *i: T.eq(r.get(i), x.get(i + (i[-1],))))

    @unit("create_from_diagonal[%s]" % shp, MM, "create_from_diagonal")
    def _(c, shp=shp):
        x = c.array("x", shapes(c, shp)[:-1], label="x")
        r = c.fn(x)
        c.check("shape", r.ndim == x.ndim + 1)
        c.prove_all("value", r.vshape, lambda *i: T.eq(r.get(i), T.ite(T.eq(i[-1], i[-2]), x.get(i[:-1]), T.ZERO)))
        c.check("frame:argument-not-written", not c.written)

    @unit("fill_diagonal[%s]" % shp, MM, "fill_diagonal")
    def _(c, shp=shp):
        sh = shapes(c, shp)
        x = c.array("x", sh)
        old = x.copy()
        v = c.array("v", sh[:-1], label="v")
        c.fn(x, v)
        c.prove_all("value", x.vshape, lambda *i: T.eq(x.get(i), T.ite(T.eq(i[-1], i[-2]), v.get(i[:-1]), old.get(i))))

    @unit("batch_logdet[%s]" % shp, MM, "batch_logdet")
    def _(c, shp=shp):
        x = c.array("x", shapes(c, shp), label="x")
        r = c.fn(x)
        s, l = NS.slogdet(x)
        if shp == "2d":
            c.prove("value", T.eq(P(r), T.ite(T.lt(T.ZERO, P(s)), P(l), P(float("-inf")))))
        else:
            c.prove_all("value", r.vshape, lambda *i: T.eq(r.get(i), T.ite(T.lt(T.ZERO, s.get(i)), l.get(i), P(float("-inf")))))


# ---------------------------------------------------------------- maximum norm
def linf_facts(W, X, lam):
    """optimality of x for 1/2 |x - w|^2 + lamda max|x|: [(name, fact)], the largest magnitude, the residual's absolute sum."""
    mx, r1, out = T.ZERO, T.ZERO, []
    for v in X:
        mx = T.ite(T.le(mx, T.absv(v)), T.absv(v), mx)
    for a, b in zip(W, X):
        d = T.sub(a, b)
        r1 = T.add(r1, T.absv(d))
        with_x = T.bor(T.bor(T.eq(b, T.ZERO), T.band(T.lt(T.ZERO, d), T.lt(T.ZERO, b))), T.band(T.lt(d, T.ZERO), T.lt(b, T.ZERO)))
        out.append(("residual-only-at-the-largest", T.bor(T.eq(d, T.ZERO), T.band(T.eq(T.absv(b), mx), with_x))))
    out.append(("residual-within-the-dual-ball", T.le(r1, lam)))
    out.append(("residual-on-the-sphere-unless-zero", T.bor(T.eq(mx, T.ZERO), T.eq(r1, lam))))
    return out, mx, r1


for n_ in (1, 2, 3, 4):

    @unit("prox_linf_1d[%d]" % n_, PM, "prox_linf_1d", thorough=n_ > 3)
    def _(c, n=n_):
        w, lam = c.array("w", (n,), label="w"), c.real("lamda", nonneg=True)
        x = as_arr(c.fn(w, lam))
        get = lambda a: [a.get((T.num(i),)) for i in range(n)]  # noqa
        for name, f in linf_facts(get(w), get(x), P(lam))[0]:
            c.prove(name, f)
        c.check("frame:nothing-written", not c.written, str(c.written))


@unit("prox_linf_1d.lemma", PM, "prox_linf_1d")
def _(c, n=3):
    """the facts above make x the minimiser: no y has a smaller objective."""
    w, x, y = ([P(c.real("%s%d" % (v, i))) for i in range(n)] for v in "wxy")
    lam, my = P(c.real("lamda", nonneg=True)), P(c.real("my", nonneg=True))
    facts, mx, r1 = linf_facts(w, x, lam)
    m, s = P(c.real("mx", nonneg=True)), P(c.real("r1", nonneg=True))
    hyp = [f for _, f in facts]
    r = [T.sub(a, b) for a, b in zip(w, x)]
    ry, rx = T.ZERO, T.ZERO
    for i in range(n):
        c.prove("lemma:dual-norm", T.le(T.mul(r[i], y[i]), T.mul(T.absv(r[i]), my)), hyps=[T.le(T.absv(y[i]), my)])
        c.prove("lemma:aligned", T.eq(T.mul(r[i], x[i]), T.mul(T.absv(r[i]), m)), hyps=[hyp[i], T.eq(m, mx)])
        ry, rx = T.add(ry, T.mul(r[i], y[i])), T.add(rx, T.mul(r[i], x[i]))
    c.prove("lemma:total", T.eq(T.mul(s, m), T.mul(lam, m)), hyps=[T.bor(T.eq(m, T.ZERO), T.eq(s, lam))])
    c.prove("lemma:bound", T.le(T.mul(s, my), T.mul(lam, my)), hyps=[T.le(s, lam)])
    sq = lambda v: T.scale(T.mul(v, v), Fraction(1, 2))  # noqa
    gap = T.sub(T.mul(lam, my), T.mul(lam, m))
    for i in range(n):
        gap = T.add(gap, T.sub(sq(T.sub(y[i], w[i])), sq(T.sub(x[i], w[i]))))
    half = T.ZERO
    for i in range(n):
        half = T.add(half, sq(T.sub(y[i], x[i])))
    # gap = half |y - x|^2 + (lamda my - <r, y>) - (lamda mx - <r, x>)
    c.prove("lemma:identity", T.eq(gap, T.add(half, T.add(T.sub(T.mul(lam, my), ry), T.sub(rx, T.mul(lam, m))))))


def stub_1d(c, real, a, lamda):
    a = as_arr(a)
    lm = lam_of(a, 1)(())
    return SArr.make(a.vshape, lambda i: T.fapp("prox_linf_1d", lm, P(lamda), i[0]))


for lk in ("s", "batch"):

    @unit("prox_linf[%s]" % lk, PM, "prox_linf", stubs={PM + ":prox_linf_1d": stub_1d})
    def _(c, lk=lk):
        n, p, q = c.int("n", 1), c.int("p", 1), c.int("q", 1)
        a = c.array("a", (n, p, q), label="a")
        lam = c.real("lamda", nonneg=True) if lk == "s" else c.array("lamda", (n, 1, 1), label="lamda")
        x = as_arr(c.fn(a, lam))
        c.check("shape", list(x.vshape) == list(a.vshape), str(x.vshape))

        def want(t, i, j):
            col = SArr.make((P(p),), lambda k: a.get((t, k[0], j)))
            return T.fapp("prox_linf_1d", lam_of(col, 1)(()), P(lam) if lk == "s" else lam.get((t, T.ZERO, T.ZERO)), i)

        c.prove_all("column-by-column", x.vshape, lambda t, i, j: T.eq(x.get((t, i, j)), want(t, i, j)))
        c.check("frame:nothing-written", not c.written, str(c.written))


for p_ in (1, 2, 3):

    @unit("linf_norm[%d]" % p_, NM, "linf_norm")
    def _(c, p=p_):
        for x in (c.array("x", (p, c.int("q", 1))), c.array("X", (c.int("n", 1), p, c.int("q", 1)))):
            def m(i):
                r = T.ZERO
                for k in range(p):
                    v = T.absv(x.get(i[:-1] + (T.num(k),) + i[-1:]))
                    r = T.ite(T.le(r, v), v, r)
                return r

            want = total(SArr.make(x.vshape[:-2] + x.vshape[-1:], m), m)
            c.prove("value", T.eq(P(c.fn(x)), want))
