"""Structure and norm errors between graphs (regain.utils)."""
from .common import *
from .c_prox import shapes, total
from .registry import unit

UT = "regain.utils"


def _tri(L, k, which):
    return T.fapp("pair_" + which, L, k, sort=T.INT)


def stub_squareform(c, real, x, force="no", checks=True):
    """scipy: the vector of the above-diagonal entries of a square matrix, in a fixed order."""
    NS.used("squareform: entry k is x[i(k), j(k)] with i(k) < j(k), (i, j) a bijection with the pairs")
    x = as_arr(x)
    if x.ndim != 2:
        raise Unsupported("squareform of a vector")
    d = x.vshape[0]
    r = x.reader()
    n = T.fapp("n_pairs", d, sort=T.INT)
    return SArr.make([n], lambda k: r((_tri(d, k[0], "i"), _tri(d, k[0], "j"))), x.kind)


def metric_stub(name):
    def f(a, b, *rest, **k):
        c = CTX[0]
        if rest or k:
            raise Unsupported("options of " + name)
        v = c.fresh_real(name)
        c.extra.setdefault("metric", []).append((name, as_arr(a).copy(), as_arr(b).copy(), v))
        return v

    return f


def stub_flatten(c, real, lst):
    """all the entries of a nested list, in order (here: a list of equally long vectors)."""
    a = NS.array(lst)
    if a.ndim == 1:
        return a
    if a.ndim != 2:
        raise Unsupported("flatten of a deeper list")
    return a.reshape(-1)


METRICS = ["average_precision_score", "matthews_corrcoef"]


def with_ext(c):
    m = c.L.load(UT)
    g = vars(m) if not isinstance(m, dict) else m
    for n in METRICS:
        g[n] = metric_stub(n)
    g["squareform"] = lambda x, *a, **k: stub_squareform(c, None, x, *a, **k)


def count(a, f):
    return total(a, lambda i: T.ite(f(i), T.ONE, T.ZERO))


def setup(c, shp):
    sh = shapes(c, shp)
    c.assume(T.le(T.num(2), P(sh[-1])))
    return c.array("true", sh, label="true"), c.array("pred", sh, label="pred")


def conds(true, pred, thr, nodiag):
    """(tp, tn, fp, fn) by definition: an edge is a nonzero entry (of the thresholded prediction)."""
    rt, rp = true.reader(), pred.reader()
    E = lambda i: T.ne(rt(i), T.ZERO)  # noqa
    F = (lambda i: T.band(T.ne(rp(i), T.ZERO), T.le(P(thr), T.absv(rp(i))))) if thr is not None else (lambda i: T.ne(rp(i), T.ZERO))  # noqa
    off = (lambda i: T.ne(i[-1], i[-2])) if nodiag else (lambda i: T.TRUE)  # noqa
    out = {}
    for nm, a, b in (("tp", 1, 1), ("tn", 0, 0), ("fp", 0, 1), ("fn", 1, 0)):
        out[nm] = lambda i, a=a, b=b: T.band(E(i) if a else T.bnot(E(i)), F(i) if b else T.bnot(F(i)), off(i))
    return out


def edge_counts(*a):
    return {q: count(a[0], f) for q, f in conds(*a).items()}


def structure(shp, thr, nodiag):
    def case(c):
        with_ext(c)
        true, pred = setup(c, shp)
        c.extra["abstract_counts"] = {}
        t0, p0 = true.copy(), pred.copy()
        eps = c.real("eps", pos=True)
        k = {}
        if thr:
            k.update(thresholding=True, eps=eps)
        if nodiag:
            k.update(no_diagonal=True)
        r = c.fn(true, pred, **k)
        c.check("frame:argument-not-written", not c.written)
        n = edge_counts(t0, p0, eps if thr else None, nodiag)
        if nodiag:
            # counting lemma: an entry is on the diagonal, or an off-diagonal true negative, or neither
            on = lambda i: T.eq(i[-1], i[-2])  # noqa
            f = conds(t0, p0, eps if thr else None, True)["tn"]
            w = lambda b: T.ite(b, T.ONE, T.ZERO)  # noqa
            c.prove_all("lemma:diagonal-split", t0.vshape, lambda *i: T.eq(w(T.bor(f(i), on(i))), T.add(w(f(i)), w(on(i)))))
            n["tn"] = T.sub(count(t0, lambda i: T.bor(f(i), on(i))), count(t0, on))
        for q in ("tp", "fp", "fn", "tn"):
            c.prove("count:" + q, T.eq(c.concrete_counts(P(r[q])), n[q]))
        for q in ("tp", "fp", "fn", "tn"):
            c.assume(T.le(T.ZERO, P(r[q])))
        ratios(c, r, t0, nodiag)
        scores(c, r, t0, p0)

    return case


def ratios(c, r, true, nodiag):
    tp, tn, fp, fn = (P(r[q]) for q in ("tp", "tn", "fp", "fn"))
    g = lambda q: P(r[q])  # noqa
    sz = T.mul(*true.vshape)
    if nodiag:
        sz = T.sub(sz, T.mul(*true.vshape[:-1]))
    for nm, a, b in (
        ("precision", tp, fp), ("recall", tp, fn), ("miss_rate", fn, tp), ("fall_out", fp, tn), ("specificity", tn, fp),
        ("fdr", fp, tp), ("npv", tn, fn), ("false_omission_rate", fn, tn),
    ):  # fmt: skip
        c.prove("ratio:" + nm, T.implies(T.lt(T.ZERO, T.add(a, b)), T.eq(T.mul(g(nm), T.add(a, b)), a)))
    for a, b in (("precision", "fdr"), ("recall", "miss_rate"), ("specificity", "fall_out"), ("npv", "false_omission_rate")):
        c.prove("complement:%s+%s" % (a, b), T.eq(T.add(g(a), g(b)), T.ONE))
    c.prove("ratio:accuracy", T.eq(T.mul(g("accuracy"), sz), T.add(tp, tn)))
    c.prove("ratio:prevalence", T.eq(T.mul(g("prevalence"), sz), T.add(tp, fn)))
    c.prove("ratio:f1", T.implies(T.lt(T.ZERO, tp), T.eq(T.mul(g("f1"), T.add(T.mul(T.num(2), tp), fp, fn)), T.mul(T.num(2), tp))))
    c.prove("ratio:f1-zero", T.implies(T.eq(tp, T.ZERO), T.eq(g("f1"), T.ZERO)))
    c.prove("ratio:balanced", T.eq(g("balanced_accuracy"), T.mul(HALF, T.add(g("recall"), g("specificity")))))
    for nm, a, b in (("plr", "recall", "fall_out"), ("nlr", "miss_rate", "specificity"), ("dor", "plr", "nlr")):
        if g(b).const() == 0:
            continue
        c.prove("ratio:" + nm, T.implies(T.lt(T.ZERO, g(b)), T.eq(g(nm), T.mul(g(a), T.inv(g(b))))))


def scores(c, r, t0, p0):
    m = {x[0]: x for x in c.extra.get("metric", [])}
    if set(m) != set(METRICS) or len(c.extra["metric"]) != 2:
        raise Unsupported("calls of the scikit-learn scores")
    d = t0.vshape[-1]

    def entry(a, k):
        if a.ndim == 2:
            return a.get((_tri(d, k, "i"), _tri(d, k, "j")))
        L = T.fapp("n_pairs", d, sort=T.INT)
        q = T.mod(k, L)
        return a.get((T.idiv(k, L), _tri(d, q, "i"), _tri(d, q, "j")))

    for nm, key, absolute in ((METRICS[0], "average_precision", True), (METRICS[1], "mcc", False)):
        _, a, b, v = m[nm]
        c.check("scores:%s-is-returned" % key, P(r[key]) == P(v))
        c.prove_all("scores:%s-truth" % key, a.vshape, lambda k: T.iff(B(a.get((k,))), T.ne(entry(t0, k), T.ZERO)))
        if absolute:
            c.prove_all("scores:%s-prediction" % key, b.vshape, lambda k: T.eq(b.get((k,)), T.absv(entry(p0, k))))
        else:
            c.prove_all("scores:%s-prediction" % key, b.vshape, lambda k: T.iff(B(b.get((k,))), T.ne(entry(p0, k), T.ZERO)))


STUBS = {UT + ":flatten": stub_flatten}
for shp in ("2d", "3d"):
    for thr in (False, True):
        for nd in (False, True):
            nm = "structure_error[%s%s%s]" % (shp, ",thr" if thr else "", ",nodiag" if nd else "")
            unit(nm, UT, "structure_error", stubs=STUBS, max_s=300)(structure(shp, thr, nd))


# ---------------------------------------------------------------- norm errors
def sq_err(A, Bv, keep=lambda i: T.TRUE):
    ra, rb = A.reader(), Bv.reader()
    return total(A, lambda i: T.ite(keep(i), T.power(T.sub(ra(i), rb(i)), 2), T.ZERO))


def norm_case(shp, norm, scaling, squared, ut):
    def case(c):
        sh = shapes(c, shp)
        c.assume(T.le(T.num(2), P(sh[-1])))
        A, Bv = c.array("cov", sh, label="cov"), c.array("comp", sh, label="comp_cov")
        k = {}
        if norm != "frobenius":
            k["norm"] = norm
        if not scaling:
            k["scaling"] = False
        if not squared:
            k["squared"] = False
        if ut:
            k["upper_triangular"] = True
        r = P(c.fn(A, Bv, **k))
        d = A.vshape[-1]
        keep = (lambda i: T.lt(i[-2], i[-1])) if ut else (lambda i: T.TRUE)  # noqa
        if norm == "frobenius":
            want = sq_err(A, Bv, keep)
        else:
            E = NS.triu(Bv, 1) - NS.triu(A, 1) if ut else Bv - A
            want = P(NS.amax(NS.linalg_np.svd(NS.dot_(E.T, E), compute_uv=False)))
        if scaling:
            f = d if shp == "2d" else T.mul(A.vshape[0], d, T.mul(HALF, T.sub(d, T.ONE)) if ut else d)
            want = T.mul(want, T.inv(f))
        if not squared:
            want = P(NS.sqrt(wrap(want)))
        c.prove("value", T.eq(r, want))
        c.check("frame:argument-not-written", not c.written)

    return case


for shp in ("2d", "3d"):
    for norm in ("frobenius", "spectral"):
        if norm == "spectral" and shp == "3d":
            continue
        for scaling in (True, False):
            for squared in (True, False):
                for ut in (False, True):
                    nm = "error_norm[%s,%s%s%s%s]" % (shp, norm, "" if scaling else ",unscaled", "" if squared else ",root", ",upper" if ut else "")
                    unit(nm, UT, "error_norm")(norm_case(shp, norm, scaling, squared, ut))


@unit("error_norm[rejects]", UT, "error_norm")
def _(c):
    sh = shapes(c, "2d")
    A, Bv = c.array("cov", sh), c.array("comp", sh)
    try:
        c.fn(A, Bv, norm="nuclear")
    except NotImplementedError:
        c.ok("unknown-norm-raises")
        return
    c.fail("unknown-norm-raises")


def stub_error_norm(c, real, cov, comp_cov, norm="frobenius", scaling=True, squared=True, **k):
    """a function of the two matrices and the options (verified above)."""
    from vc.arrays import lam_of

    if any(k.values()):
        raise Unsupported("options of error_norm")
    a, b = as_arr(cov), as_arr(comp_cov)
    return wrap(T.fapp("error_norm_%s_%s_%s" % (norm, bool(scaling), bool(squared)), lam_of(a, 2)(()), lam_of(b, 2)(())))


for norm in ("frobenius", "spectral"):
    for sc in (True, False):

        @unit("error_norm_time[%s,%s]" % (norm, sc), UT, "error_norm_time", stubs={UT + ":error_norm": stub_error_norm})
        def _(c, norm=norm, sc=sc):
            sh = shapes(c, "3d")
            A, Bv = c.array("cov", sh, label="cov"), c.array("comp", sh, label="comp_cov")
            r = P(c.fn(A, Bv, norm=norm, scaling=sc, squared=not sc))
            k = T.fresh_name("k")
            T.RANGE[k] = A.vshape[0]
            kk = wrap(T.sym(k, T.INT), True)
            one_ = P(stub_error_norm(c, None, A[kk], Bv[kk], norm, sc, not sc))
            c.prove("mean-of-the-time-points", T.eq(r, T.mul(T.inv(A.vshape[0]), T.mk_sum([(k, A.vshape[0])], one_))))
            c.check("frame:argument-not-written", not c.written)


@unit("error_rank", UT, "error_rank")
def _(c):
    sh = shapes(c, "3d")
    A, Bv = c.array("t", sh, label="true"), c.array("p", sh, label="pred")
    r = P(c.fn(A, Bv))
    k = T.fresh_name("k")
    T.RANGE[k] = A.vshape[0]
    kk = wrap(T.sym(k, T.INT), True)
    rk = NS.linalg_np.matrix_rank
    dist = T.absv(T.sub(P(rk(A[kk])), P(rk(Bv[kk]))))
    c.prove("mean-absolute-rank-difference", T.eq(r, T.mul(T.inv(A.vshape[0]), T.mk_sum([(k, A.vshape[0])], dist))))
    c.check("frame:argument-not-written", not c.written)


@unit("normalize_matrix", UT, "normalize_matrix")
def _(c):
    sh = shapes(c, "2d")
    A = c.array("A", sh, label="A")
    c.fact("A", lambda i, j: T.implies(T.eq(i, j), T.lt(T.ZERO, T.app("A", (i, j)))))
    a0 = A.copy()
    rt = lambda i: P(NS.sqrt(wrap(a0.get((i, i)))))  # noqa
    c.fn(A)
    c.prove_all("entries", A.vshape, lambda i, j: T.eq(T.mul(A.get((i, j)), rt(i), rt(j)), a0.get((i, j))))
    c.prove_all("unit-diagonal", A.vshape[:1], lambda i: T.eq(A.get((i, i)), T.ONE))
