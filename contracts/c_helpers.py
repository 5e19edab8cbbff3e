"""Matrix and data helpers the estimators and the user rely on (regain.math, regain.utils, regain.validation)."""
from .common import *
from .c_prox import shapes, total
from .registry import unit
from vc.arrays import lam_of
from vc.engine import _index_cases as idx_cases

UT = "regain.utils"
MA = "regain.math"
VA = "regain.validation"

for shp in ("2d", "3d"):

    for kind in ("scalar", "vector", "batch"):
        if kind == "batch" and shp == "2d":
            continue

        @unit("fill_diagonal[%s,%s]" % (shp, kind), MA, "fill_diagonal")
        def _(c, shp=shp, kind=kind):
            A = c.array("A", shapes(c, shp), label="A")
            a0 = A.copy()
            D = {"scalar": lambda: c.real("x"), "vector": lambda: c.array("x", A.vshape[-1:], label="diag"), "batch": lambda: c.array("x", A.vshape[:-1], label="diag")}[kind]()
            c.fn(A, D)
            d = bcast(D, A.vshape[:-1])
            c.prove_all("entries", A.vshape, lambda *i: T.eq(A.get(i), T.ite(T.eq(i[-1], i[-2]), d(i[:-1]), a0.get(i))))
            c.check("frame:only-the-matrix-is-written", "diag" not in c.written)


# ---------------------------------------------------------------- definiteness
def pdef(a, lead=()):
    return T.bapp("posdef", lam_of(a, 2)(lead))


def eigs(a):
    return NS.eigvalsh(a)


@unit("is_pos_def[chol]", UT, "is_pos_def")
def _(c):
    A = c.array("A", shapes(c, "2d"), label="A")
    r = c.fn(A)
    c.prove("true-exactly-when-the-factorisation-exists", T.iff(B(r), pdef(A)))
    c.check("frame:argument-not-written", not c.written)


def clean(e, tol):
    return T.ite(T.lt(T.absv(e), tol), T.ZERO, e)


for nm, strict in (("is_pos_def", True), ("is_pos_semidef", False)):

    @unit("%s[eigenvalues]" % nm, UT, nm)
    def _(c, nm=nm, strict=strict):
        A = c.array("A", shapes(c, "2d"), label="A")
        tol = c.real("tol", pos=True)
        r = c.fn(A, tol=tol, **(dict(chol=False) if strict else {}))
        es = eigs(A)
        k = T.fresh_name("q")
        T.RANGE[k] = A.vshape[0]
        e = clean(es.get((T.sym(k, T.INT),)), P(tol))
        b = T.lt(T.ZERO, e) if strict else T.le(T.ZERO, e)
        c.prove("all-eigenvalues", T.iff(B(r), T.forall([k], [A.vshape[0]], b)))
        c.check("frame:argument-not-written", not c.written)


@unit("positive_definite[2d]", UT, "positive_definite")
def _(c):
    A = c.array("A", shapes(c, "2d"), label="A")
    c.prove("definite", T.iff(B(c.fn(A)), pdef(A)))
    c.check("frame:argument-not-written", not c.written)


@unit("positive_definite[3d]", UT, "positive_definite")
def _(c):
    A = c.array("A", shapes(c, "3d"), label="A")
    r = c.fn(A)
    k = T.fresh_name("q")
    T.RANGE[k] = A.vshape[0]
    c.prove("definite", T.iff(B(r), T.forall([k], [A.vshape[0]], pdef(A, (T.sym(k, T.INT),)))))
    c.check("frame:argument-not-written", not c.written)


for shp in ("2d", "3d"):

    @unit("ensure_posdef[%s]" % shp, UT, "ensure_posdef")
    def _(c, shp=shp):
        A = c.array("A", shapes(c, shp), label="A")
        a0 = A.copy()
        c.fn(A)
        d = A.vshape[-1]

        def dominant(*i):
            lead = i[:-1]
            k = T.fresh_name("k")
            T.RANGE[k] = d
            kk = T.sym(k, T.INT)
            off = T.mk_sum([(k, d)], T.ite(T.eq(kk, i[-1]), T.ZERO, T.absv(a0.get(lead + (i[-1], kk)))))
            return T.eq(A.get(i + (i[-1],)), T.add(off, P(0.1)))

        c.prove_all("kept-when-definite", A.vshape, lambda *i: T.eq(A.get(i), a0.get(i)) if c.entails(pdef(a0, i[:-2])) else T.implies(pdef(a0, i[:-2]), T.eq(A.get(i), a0.get(i))))
        c.prove_all("off-diagonal-kept", A.vshape, lambda *i: T.implies(T.ne(i[-1], i[-2]), T.eq(A.get(i), a0.get(i))))
        if shp == "3d":
            for i in idx_cases(A.vshape[:-1]):
                c.assume(T.bnot(pdef(a0, i[:-1])))
                c.prove("diagonally-dominant-when-not-definite", T.assign(dominant(*i), pdef(a0, i[:-1]), False))
        elif not c.entails(pdef(a0)):
            c.prove_all("diagonally-dominant-when-not-definite", A.vshape[:-1], dominant)


@unit("ensure_posdef[rejects]", UT, "ensure_posdef")
def _(c):
    A = c.array("A", shapes(c, "2d"), label="A")
    try:
        c.fn(A, inplace=False)
    except NotImplementedError:
        c.check("frame:argument-not-written", not c.written)
        return
    c.fail("not-in-place-raises")


# ---------------------------------------------------------------- thresholding, composition, flattening
for lo in (False, True):
    for hi in (False, True):

        @unit("threshold[%s%s]" % ("min" if lo else "", "max" if hi else ""), UT, "threshold")
        def _(c, lo=lo, hi=hi):
            A = c.array("A", shapes(c, "rect"), label="A")
            mn, mx, nv = c.real("mn"), c.real("mx"), c.real("newval")
            r = c.fn(A, threshmin=mn if lo else None, threshmax=mx if hi else None, newval=nv)

            def want(*i):
                x = A.get(i)
                out = T.bor(T.lt(x, P(mn)) if lo else T.FALSE, T.lt(P(mx), x) if hi else T.FALSE)
                return T.eq(r.get(i), T.ite(out, P(nv), x))

            c.prove_all("value", A.vshape, want)
            c.check("frame:argument-not-written", not c.written)


for n in range(4):

    @unit("compose[%d]" % n, UT, "compose")
    def _(c, n=n):
        fs = [lambda x, k=k: wrap(T.fapp("f%d" % k, P(x))) for k in range(n)]
        x = c.real("x")
        want = P(x)
        for k in reversed(range(n)):
            want = T.fapp("f%d" % k, want)
        c.prove("right-to-left", T.eq(P(c.fn(*fs)(x)), want))


# ---------------------------------------------------------------- data layout
@unit("convert_data_to_2d[array]", UT, "convert_data_to_2d")
def _(c):
    t, n, d = c.int("t", 1), c.int("n", 1), c.int("d", 1)
    A = c.array("A", (t, n, d), label="data")
    X, y = c.fn(A)
    N = T.mul(P(t), P(n))
    c.prove("shape", T.band(T.eq(X.vshape[0], N), T.eq(y.vshape[0], N), T.eq(X.vshape[1], P(d))))
    c.prove_all("samples-in-order", (t, n, d), lambda a, b, k: T.eq(X.get((T.add(T.mul(a, P(n)), b), k)), A.get((a, b, k))))
    c.prove_all("labels", (t, n), lambda a, b: T.eq(y.get((T.add(T.mul(a, P(n)), b),)), a))
    c.check("frame:argument-not-written", not c.written)


for K in (1, 2, 3):

    @unit("convert_data_to_2d[list of %d]" % K, UT, "convert_data_to_2d")
    def _(c, K=K):
        d = c.int("d", 1)
        ns = [c.int("n%d" % k, 1) for k in range(K)]
        A = [c.array("A%d" % k, (ns[k], d), label="data") for k in range(K)]
        X, y = c.fn(A)
        off = T.ZERO
        for k in range(K):
            o = off
            c.prove_all("samples-in-order", (ns[k], d), lambda b, j, k=k, o=o: T.eq(X.get((T.add(o, b), j)), A[k].get((b, j))))
            c.prove_all("labels", (ns[k],), lambda b, k=k, o=o: T.eq(y.get((T.add(o, b),)), T.num(k)))
            off = T.add(off, P(ns[k]))
        c.prove("shape", T.band(T.eq(X.vshape[0], off), T.eq(y.vshape[0], off)))
        c.check("frame:argument-not-written", not c.written)


@unit("check_array_dimensions", VA, "check_array_dimensions")
def _(c):
    t, n, d = c.int("t", 1), c.int("n", 1), c.int("d", 1)
    A = c.array("A", (t, n, d), label="X")
    r = c.fn(A)
    c.prove_eq_arr("first-axis-is-time", r, A)
    r = c.fn(A, time_on_axis="last")
    c.prove_all("last-axis-is-time", (d, t, n), lambda a, b, e: T.eq(r.get((a, b, e)), A.get((b, e, a))))
    M = c.array("M", (n, d), label="X")
    r = c.fn(M)
    c.check("one-time-point.ndim", r.ndim == 3 and r.vshape[0].const() == 1)
    c.prove_all("one-time-point", (n, d), lambda a, b: T.eq(r.get((T.ZERO, a, b)), M.get((a, b))))
    c.check("one-time-point.warns", len(c.warnings) == 1)
    L = [M, M]
    c.check("list-unchanged", c.fn(L) is L)
    try:
        c.fn(c.array("v", (n,)))
    except ValueError:
        c.ok("other-dimensions-raise")
        c.check("frame:argument-not-written", not c.written)
        return
    c.fail("other-dimensions-raise")


@unit("check_input", VA, "check_input")
def _(c):
    t, n, d = c.int("t", 1), c.int("n", 2), c.int("d", 2)
    A = c.array("A", (t, n, d), label="X")
    X, ns, dd, tt = c.fn(A)
    c.prove_eq_arr("data", X, A)
    c.prove("dimensions", T.band(T.eq(P(dd), P(d)), T.eq(P(tt), P(t)), T.eq(ns.vshape[0], P(t))))
    c.prove_all("sample-counts", (t,), lambda k: T.eq(ns.get((k,)), P(n)))
    X, ns, dd, tt = c.fn(A, time_on_axis="last")
    c.prove("dimensions-time-last", T.band(T.eq(P(dd), P(n)), T.eq(P(tt), P(d)), T.eq(ns.vshape[0], P(d))))
    c.check("frame:argument-not-written", not c.written)
    try:
        c.fn(A, c.array("y", (t,)))
    except ValueError:
        c.ok("labels-rejected")
        return
    c.fail("labels-rejected")


# ---------------------------------------------------------------- triangles and nested lists
for n_ in (1, 2, 3, 4, 5):

    @unit("upper_to_full[%d]" % n_, UT, "upper_to_full")
    def _(c, n=n_):
        a = c.array("a", (n * (n + 1) // 2,), label="a")
        A = as_arr(c.fn(a))
        c.check("shape", [d.const() for d in A.vshape] == [n, n], str(A.vshape))
        k = 0
        for i in range(n):
            for j in range(i, n):
                v = a.get((T.num(k),))
                c.prove("entries", T.band(T.eq(A.get((T.num(i), T.num(j))), v), T.eq(A.get((T.num(j), T.num(i))), v)))
                k += 1
        c.check("frame:nothing-written", not c.written, str(c.written))


@unit("flatten", UT, "flatten")
def _(c):
    x = [c.real("x%d" % k) for k in range(6)]
    for lst, want in (([x[0], [x[1], [x[2]], []], x[3]], x[:4]), ([], []), ([[x[5]], [x[4]]], [x[5], x[4]]), (x[2], x[2:3])):
        r = c.fn(lst)
        c.check("order-kept", len(r) == len(want) and all(p is q for p, q in zip(r, want)), str(r))
