"""Lasso, group lasso and overlapping group lasso (regain.linear_model)."""
from .c_glm import *
from .solvers import zero, recs, vmax
from vc.arrays import idx_syms
from vc.seq import SymSeq

LA = "regain.linear_model.lasso_"
GR = "regain.linear_model.group_lasso_"
OV = "regain.linear_model.group_lasso_overlap_"


def gram(A):
    return NS.dot(A.T, A)


def eye(n):
    return SArr.make((P(n), P(n)), lambda i: T.ite(T.eq(i[0], i[1]), T.ONE, T.ZERO))


def solved(c, name, x, M, q):
    """x is the solution of M x = q by the recorded linear systems: directly, or through both Cholesky factors."""
    S = c.extra["solves"]
    find = lambda v: next((s for s in S if s[0] == "solve" and _eq(c, s[3], v)), None)  # noqa
    s2 = find(x)
    if s2 is None:
        raise Unsupported("the solution of a linear system is not identified")
    if _eq(c, s2[1], M):
        same(c, name + ".right-hand-side", s2[2], q)
        return
    s1 = find(s2[2])
    ch = None if s1 is None else next((s for s in S if s[0] == "cholesky" and _eq(c, s[3], s1[1]) and _eq(c, s[3].T, s2[1])), None)
    if ch is None:
        # a single system with another matrix, or factors of nothing known
        if s1 is None:
            same(c, name + ".matrix", s2[1], M)
            return
        raise Unsupported("factors of a linear system are not identified")
    same(c, name + ".matrix", ch[1], M)
    same(c, name + ".right-hand-side", s1[2], q)


def _eq(c, a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim or any(x != y for x, y in zip(a.vshape, b.vshape)):
        return False
    i = idx_syms(a.vshape, "le")
    x, y = a.get(i), b.get(i)
    return x is y or x == y


def ridge_step(c, x, A, q, rho, n, d):
    """(A'A + rho I) x = q, as a system in the variables (skinny) or in the samples (fat, by the lemma)."""
    skinny = c.decide(T.le(P(d), P(n)))
    if skinny:
        solved(c, "kkt:x-minimises", x, gram(A) + rho * eye(d), q)
        return
    S = [s for s in c.extra["solves"] if s[0] == "solve" and s[3].vshape[0] == P(n)]
    if not S:
        raise Unsupported("no system in the samples")
    s = S[-1][3]
    solved(c, "kkt:dual-system", s, eye(n) + NS.dot(A, A.T) / rho, NS.dot(A, q))
    same(c, "kkt:x-minimises", x, (q - NS.dot(A.T, s) / rho) / rho)


@unit("lemma:lasso.woodbury", LA, "objective")
def _(c):
    """s + A A's/rho = A q  and  x = (q - A's/rho)/rho   =>   (A'A + rho I) x = q"""
    n, d, A = data(c)
    q, s, rho = c.array("q", (d,)), c.array("s", (n,)), c.real("rho", pos=True)
    x = (q - NS.dot(A.T, s) / rho) / rho
    e = NS.dot(A, q) - s - NS.dot(A, NS.dot(A.T, s)) / rho
    same(c, "lemma:residual", NS.dot(gram(A), x) + rho * x - q, NS.dot(A.T, e) / rho)
    E = c.array("E", (n,))
    z = SArr.make((P(n),), lambda i: T.ZERO)
    same(c, "lemma:zero", NS.dot(A.T, z) / rho, SArr.make((P(d),), lambda i: T.ZERO))


@unit("lemma:lasso.factors", LA, "objective")
def _(c):
    """M = L U, y = U x, q = L y   =>   M x = q"""
    d = c.int("d", 1)
    L, U, x = c.array("L", (d, d)), c.array("U", (d, d)), c.array("x", (d,))
    same(c, "lemma:solution", NS.dot(NS.dot(L, U), x), NS.dot(L, NS.dot(U, x)))


@unit("lemma:lasso.fixed-point", LA, "objective")
def _(c):
    """x = z, (A'A + rho I) x = A'b + rho (z - u), rho u in the subdifferential (resolvent of z + u)  =>  A'(Az - b) + rho u = 0"""
    n, d, A = data(c)
    b, z, u, rho = c.array("b", (n,)), c.array("z", (d,)), c.array("u", (d,)), c.real("rho", pos=True)
    lhs = NS.dot(gram(A), z) + rho * z - (NS.dot(A.T, b) + rho * (z - u))
    same(c, "lemma:stationarity", lhs, NS.dot(A.T, NS.dot(A, z) - b) + rho * u)
    al, x = c.real("alpha", pos=True), c.array("x", (d,))
    # over-relaxed residual zero <=> x = z
    same(c, "lemma:feasibility", (al * x + (1 - al) * z) - z, al * (x - z))


class Lasso(LoopSpec):
    roles = ("z", "u")

    def __init__(self, it):
        self.it = it

    def wants(self, c, site, seq):
        return getattr(seq, "length", None) is not None and seq.length == P(c.max_iter)

    def entry(self, c, pre, n):
        miss = [r for r in self.roles if r not in pre]
        if miss:
            raise RoleMissing(miss, sorted(pre))
        for r in self.roles:
            zero(c, "kkt:entry.%s-is-zero" % r, pre[r])

    def assume(self, c, st, k, n):
        c.extra["prox"] = []
        if "solves" in c.extra:
            c.extra["solves"][:] = [s for s in c.extra["solves"] if s[0] in ("cholesky", "inv")]

    def step(self, c, pre, post, k, n):
        self.it(c, pre, post, "continue")


def closing_lasso(c, A, b, post, kind, lam, pen, x, zold, rho, d, tol, rtol):
    z, u = post["z"], post["u"]
    h = history(post)
    if not c.check("stop:one-history-entry-per-iteration", len(h) == 1, "%d entries" % len(h)):
        return
    h = h[0]
    c.check("stop:history-fields", len(h) == 5)
    r = NS.dot(A, x) - b
    eps = NS.sqrt(d) * tol
    want = (0.5 * asum(r * r) + lam * pen, nrm(x - z), nrm(rho * (z - zold)), eps + rtol * vmax(nrm(x), nrm(z)), eps + rtol * nrm(rho * u))
    for nm, g, w in zip(("obj", "rnorm", "snorm", "e_pri", "e_dual"), h, want):
        c.prove("stop:history.%s" % nm, T.eq(P(g), P(w)))
    done = T.band(T.lt(P(want[1]), P(want[3])), T.lt(P(want[2]), P(want[4])))
    c.prove("stop:iff-residuals-below-tolerance", done if kind == "break" else T.bnot(done))


def stub_vec(c, real, a, lamda):
    """ensures: out minimises 1/2 |out - a|^2 + lamda |out|_2."""
    a = as_arr(a).copy()
    c.prove("requires:soft_thresholding_vector.nonneg-lamda", T.le(T.ZERO, P(lamda)))
    out = c.fresh_array("SV", a.vshape)
    c.extra.setdefault("prox", []).append(dict(kind="vec", a=a, lam=P(lamda), out=out.copy()))
    return out


LS = {"regain.prox:soft_thresholding": stub_soft}


def par(c):
    c.max_iter = c.int("max_iter", 1)
    return [c.real(x, pos=True) for x in ("lamda", "rho", "alpha", "tol", "rtol")]


def lasso_case(hist):
    def case(c):
        n, d, A = data(c)
        b = c.array("b", (n,), label="b")
        lam, rho, al, tol, rtol = par(c)
        c.extra["solves"] = []

        def it(c, pre, post, kind):
            zo, uo, x, z, u = pre["z"], pre["u"], post.get("x"), post["z"], post["u"]
            if x is None:
                raise RoleMissing(["x"], sorted(post))
            ridge_step(c, x, A, NS.dot(A.T, b) + rho * (zo - uo), rho, n, d)
            o = one(c, "st")
            xh = al * x + (1 - al) * zo
            same(c, "kkt:z-argument", o["a"], xh + uo)
            c.prove("kkt:z-threshold", T.eq(P(o["lamda"]), P(lam / rho)))
            same(c, "kkt:z-is-the-proximal-point", z, o["out"])
            same(c, "kkt:multiplier", u, uo + xh - z)
            closing_lasso(c, A, b, post, kind, lam, asum(NS.absolute(z)), x, zo, rho, d, tol, rtol)

        c.loop_spec = Lasso(it)
        r = c.fn(A, b, lamda=lam, rho=rho, alpha=al, max_iter=c.max_iter, tol=tol, rtol=rtol, return_history=hist)
        finish_lasso(c, it, r, hist)

    return case


def finish_lasso(c, it, r, hist):
    bs = c.break_state
    it(c, bs["pre"], bs["state"], bs["kind"])
    if hist:
        c.check("stop:returns-the-history", isinstance(r, tuple) and len(r) == 2 and r[1] is history(bs["state"]))
        r = r[0]
    same(c, "kkt:returns-z", r, bs["state"]["z"])
    frame(c)


for h in (True, False):
    unit("lasso[%s]" % ("history" if h else "plain"), LA, "lasso", stubs=SOFT)(lasso_case(h))


@unit("lasso.objective", LA, "objective")
def _(c):
    n, d, A = data(c)
    b, x, z, al = c.array("b", (n,), label="b"), c.array("x", (d,), label="x"), c.array("z", (d,), label="z"), c.real("alpha", nonneg=True)
    r = NS.dot(A, x) - b
    c.prove("value", T.eq(P(c.fn(A, b, al, x, z)), P(0.5 * asum(r * r) + al * asum(NS.absolute(z)))))
    frame(c)


# ------------------------------------------------------------------ groups
def runs(c, G):
    """an ordered partition of the variables into G groups of any sizes."""
    sizes = [c.int("g%d" % i, 1) for i in range(G)]
    d = sum(sizes[1:], sizes[0])
    out, o = [], 0
    for s in sizes:
        op = P(o)
        q = SymSeq(P(s), lambda k, op=op: wrap(T.add(op, k), True))
        q.skip = ("run", op)
        out.append(q)
        o = o + s
    return sizes, d, out


def stub_flatten(c, real, lst):
    if lst is c.groups:
        return NS.arange(c.d)
    raise Unsupported("flatten of another list")


def part(v, o, s):
    op = P(o)
    r = v.reader()
    return SArr.make((P(s),), lambda i: r((T.add(op, i[0]),)))


def group_case(G, hist):
    def case(c):
        n = c.int("n", 1)
        sizes, d, groups = runs(c, G)
        A, b = c.array("A", (n, d), label="A"), c.array("b", (n,), label="b")
        c.groups, c.d = groups, d
        lam, rho, al, tol, rtol = par(c)
        c.extra["solves"] = []

        def it(c, pre, post, kind):
            zo, uo, x, z, u = pre["z"], pre["u"], post.get("x"), post["z"], post["u"]
            if x is None:
                raise RoleMissing(["x"], sorted(post))
            ridge_step(c, x, A, NS.dot(A.T, b) + rho * (zo - uo), rho, n, d)
            xh = al * x + (1 - al) * zo
            ps = recs(c, "vec")
            if len(ps) != G:
                raise Unsupported("%d group updates for %d groups" % (len(ps), G))
            o, pen = 0, 0
            for s, p in zip(sizes, ps):
                same(c, "kkt:z-argument", p["a"], part(xh + uo, o, s))
                c.prove("kkt:z-threshold", T.eq(p["lam"], P(lam / rho)))
                same(c, "kkt:z-is-the-proximal-point", part(z, o, s), p["out"])
                pen = pen + nrm(part(z, o, s))
                o = o + s
            same(c, "kkt:multiplier", u, uo + xh - z)
            closing_lasso(c, A, b, post, kind, lam, pen, x, zo, rho, d, tol, rtol)

        c.loop_spec = Lasso(it)
        r = c.fn(A, b, lamda=lam, groups=groups, rho=rho, alpha=al, max_iter=c.max_iter, tol=tol, rtol=rtol, return_history=hist)
        finish_lasso(c, it, r, hist)

    return case


GS = {"regain.prox:soft_thresholding_vector": stub_vec, "regain.utils:flatten": stub_flatten}
for G in (1, 2, 3):
    unit("group_lasso[%d groups]" % G, GR, "group_lasso", stubs=GS)(group_case(G, G != 2))


# ------------------------------------------------------------------ overlapping groups (listed structures, any data)
STRUCT = {"chain": (3, [[0, 1], [1, 2]]), "nested": (2, [[0], [0, 1]]), "partial": (4, [[2, 1]]), "unordered": (3, [[2, 0], [1, 0]]), "single": (1, [[0]])}


def counts(d, groups):
    return [sum(j in g for g in groups) for j in range(d)]


class Overlap(Lasso):
    roles = ("x", "y", "z", "count")

    def entry(self, c, pre, n):
        miss = [r for r in self.roles if r not in pre]
        if miss:
            raise RoleMissing(miss, sorted(pre))
        c.prove("stop:entry.count-is-zero", T.eq(P(pre["count"]), T.ZERO))
        for v in pre["y"]:
            zero(c, "kkt:entry.y-is-zero", v)
        zero(c, "kkt:entry.z-is-zero", pre["z"])


def overlap_case(name):
    d, groups = STRUCT[name]

    def case(c):
        c.extra["skip_defined"] = True
        n = c.int("n", 1)
        A, b = c.array("A", (n, d), label="A"), c.array("b", (n,), label="b")
        lam, rho, al, tol, rtol = par(c)
        c.extra["solves"] = []
        gs = [list(g) for g in groups]

        def it(c, pre, post, kind):
            zo, z = pre["z"], post["z"]
            ps = recs(c, "vec")
            if len(ps) != len(groups):
                raise Unsupported("%d group updates for %d groups" % (len(ps), len(groups)))
            rhs = [P(NS.dot(A.T, b)[j]) for j in range(d)]
            pen = 0
            for i, g in enumerate(groups):
                yo, x, y, p = pre["y"][i], post["x"][i], post["y"][i], ps[i]
                for k, j in enumerate(g):
                    c.prove("kkt:x-argument", T.eq(p["a"].get((T.num(k),)), P(zo[j] - yo[k] / rho)))
                    c.prove("kkt:x-is-the-proximal-point", T.eq(P(x[k]), p["out"].get((T.num(k),))))
                    c.prove("kkt:multiplier", T.eq(P(y[k]), P(yo[k] + rho * (x[k] - z[j]))))
                    rhs[j] = T.add(rhs[j], P(yo[k] + rho * x[k]))
                c.prove("kkt:x-threshold", T.eq(p["lam"], P(lam / rho)))
                pen = pen + nrm(x)
            cn = counts(d, groups)
            M = gram(A) + rho * SArr.make((P(d), P(d)), lambda i: T.ite(T.eq(i[0], i[1]), sel(cn, i[0]), T.ZERO))
            R = SArr.make((P(d),), lambda i: sel(rhs, i[0]))
            inv = [s for s in c.extra["solves"] if s[0] == "inv"]
            if len(inv) == 1 and not [s for s in c.extra["solves"] if s[0] == "solve"]:
                entries(c, "kkt:z-system", inv[0][1], M, d)
                same(c, "kkt:z-minimises", z, NS.dot(inv[0][3], R))
            else:
                s = [s for s in c.extra["solves"] if s[0] == "solve" and _eq(c, s[3], z)]
                if len(s) != 1:
                    raise Unsupported("the solution of a linear system is not identified")
                entries(c, "kkt:z-system", s[0][1], M, d)
                same(c, "kkt:z-minimises", s[0][2], R)
            h = history(post)
            if c.check("one-history-entry-per-iteration", len(h) == 1, "%d entries" % len(h)):
                r = NS.dot(A, z) - b
                c.check("stop:history-fields", len(h[0]) == 5)

                def avg(v):
                    tot = [T.ZERO] * d
                    for q, w in zip(groups, v):
                        for k, j in enumerate(q):
                            tot[j] = T.add(tot[j], P(w[k]))
                    return SArr.make((P(d),), lambda i: sel([P(wrap(t) / m) if m else T.ZERO for t, m in zip(tot, cn)], i[0]))

                xb, yb, eps = avg(post["x"]), avg(pre["y"]), NS.sqrt(d) * tol
                want = (0.5 * asum(r * r) + lam * pen, nrm(xb - z), nrm(rho * (z - zo)), eps + rtol * vmax(nrm(xb), nrm(z)), eps + rtol * nrm(rho * yb))
                for nm, g, w in zip(("obj", "rnorm", "snorm", "e_pri", "e_dual"), h[0], want):
                    c.prove("stop:history.%s" % nm, T.eq(P(g), P(w)))
                done = T.band(T.lt(P(want[1]), P(want[3])), T.lt(P(want[2]), P(want[4])))
                c0 = P(pre["count"])
                if kind == "break":
                    c.prove("stop:after-the-last-of-twelve-in-a-row", T.band(done, T.lt(T.num(10), c0)))
                else:
                    c.prove("stop:after-the-last-of-twelve-in-a-row", T.bnot(T.band(done, T.lt(T.num(10), c0))))
                    c.prove("stop:counts-consecutive-iterations", T.eq(P(post["count"]), T.ite(done, T.add(c0, T.ONE), T.ZERO)))

        c.loop_spec = Overlap(it)
        r = c.fn(A, b, lamda=lam, groups=gs, rho=rho, max_iter=c.max_iter, tol=tol, rtol=rtol)
        bs = c.break_state
        it(c, bs["pre"], bs["state"], bs["kind"])
        same(c, "kkt:returns-z", r[0], bs["state"]["z"])
        c.check("returns-the-history", len(r) == 3 and r[1] is history(bs["state"]))
        c.check("groups-unchanged", gs == groups)
        frame(c)

    return case


def entries(c, name, a, b, d):
    a, b = as_arr(a), as_arr(b)
    for i in range(d):
        for j in range(d):
            k = (T.num(i), T.num(j))
            c.prove(name, T.eq(a.get(k), b.get(k)))


def sel(vals, i):
    v = P(vals[-1])
    for k in range(len(vals) - 1):
        v = T.ite(T.eq(i, T.num(k)), P(vals[k]), v)
    return v


for k in STRUCT:
    unit("group_lasso_overlap[%s]" % k, OV, "group_lasso_overlap", stubs=GS)(overlap_case(k))

for k in STRUCT:

    @unit("overlap.counts[%s]" % k, OV, "D_function")
    def _(c, k=k):
        d, g = STRUCT[k]
        D = c.fn(d, g)
        for j, w in enumerate(counts(d, g)):
            c.prove("number-of-groups-of-a-variable", T.eq(P(D[j]), T.num(w)))

    @unit("overlap.average[%s]" % k, OV, "P_star_x_bar_function")
    def _(c, k=k):
        d, g = STRUCT[k]
        x = [c.array("x%d" % i, (len(q),), label="x") for i, q in enumerate(g)]
        v = c.fn(x, d, g)
        for j, w in enumerate(counts(d, g)):
            tot = 0
            for i, q in enumerate(g):
                if j in q:
                    tot = tot + x[i][q.index(j)]
            c.prove("average-of-the-copies", T.eq(P(v[j]), P(tot / w) if w else T.ZERO))
        frame(c)
