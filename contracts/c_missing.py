"""Graphical lasso with missing data: the expectation-maximisation loop around the imputation and the graphical lasso."""
from .c_select import *

MG = "regain.covariance.missing_graphical_lasso_"
GLM_ = "regain.covariance.graphical_lasso_"


def rec(c, kind, **k):
    c.extra.setdefault(kind, []).append(k)


def stub_cs(c, real, means, K, X):
    X = as_arr(X)
    out = c.fresh_array("CS", X.vshape)
    r, x = out.reader(), X.reader()
    # contract of the imputation: entries that are observed are left at zero (executed, not proved)
    o = SArr.make(X.vshape, lambda i: T.ite(T.bapp("isnan", x(i)), r(i), T.ZERO), "f")
    rec(c, "cs", means=as_arr(means).copy(), K=as_arr(K).copy(), X=X.copy(), out=o.copy())
    return o


def stub_mean(c, real, X, cs):
    X = as_arr(X)
    o = c.fresh_array("MEAN", (X.vshape[1],))
    rec(c, "mean", X=X.copy(), cs=as_arr(cs).copy(), out=o.copy())
    return o


def stub_emp(c, real, X, K, cs):
    X = as_arr(X)
    o = c.fresh_array("EMP", (X.vshape[1], X.vshape[1]), symmetric=True)
    rec(c, "emp", X=X.copy(), K=as_arr(K).copy(), cs=as_arr(cs).copy(), out=o.copy())
    return o


def stub_gl(c, real, emp_cov=None, **k):
    e = as_arr(emp_cov)
    o = c.fresh_array("GL", e.vshape, symmetric=True)
    k = dict(k)
    if isinstance(k.get("init"), SArr):
        k["init"] = k["init"].copy()
    rec(c, "gl", emp_cov=e.copy(), kw=k, out=o.copy())
    return (o, c.fresh_array("GLC", e.vshape)) + ((c.fresh_real("IT"),) if k.get("return_n_iter", True) else ())


def stub_logl(c, real, emp_cov, precision):
    o = c.fresh_real("LOGL")
    rec(c, "logl", emp_cov=as_arr(emp_cov).copy(), K=as_arr(precision).copy(), out=o)
    return o


STM = {MG + ":compute_cs": stub_cs, MG + ":compute_mean": stub_mean, MG + ":compute_empirical_covariance": stub_emp, GLM_ + ":graphical_lasso": stub_gl, GLM_ + ":logl": stub_logl}


class EM(LoopSpec):
    def __init__(self, it):
        self.it = it

    def wants(self, c, site, seq):
        return getattr(seq, "length", None) is not None and seq.length == P(c.max_iter)

    def roles(self, st):
        miss = [r for r in ("K", "means", "loglik") if r not in st]
        if miss:
            raise RoleMissing(miss, sorted(st))

    def entry(self, c, pre, n):
        self.roles(pre)
        d = as_arr(pre["K"]).vshape[0]
        c.prove_all("em:starts-from-the-identity", as_arr(pre["K"]).vshape, lambda i, j: T.eq(as_arr(pre["K"]).get((i, j)), T.ite(T.eq(i, j), T.ONE, T.ZERO)))
        zero(c, "em:starts-from-zero-means", pre["means"])

    def assume(self, c, st, k, n):
        for x in ("cs", "mean", "emp", "gl", "logl"):
            c.extra[x] = []

    def step(self, c, pre, post, k, n):
        self.it(c, pre, post, "continue")


def em_case(hist, nit):
    def case(c):
        c.max_iter = c.int("max_iter", 1)
        n, d = c.int("n", 1), c.int("d", 1)
        X = c.array("X", (n, d), label="X")
        p = dict(alpha=c.real("alpha"), rho=c.real("rho", pos=True), over_relax=c.real("ov"), tol=c.real("tol", pos=True), rtol=c.real("rtol", pos=True), update_rho_options=dict(mu=c.real("mu")))

        def it(c, pre, post, kind):
            cs, mn, em, gl, ll = (c.extra[x] for x in ("cs", "mean", "emp", "gl", "logl"))
            if any(len(x) != 1 for x in (cs, mn, em, gl, ll)):
                raise Unsupported("calls of the steps: %s" % [len(x) for x in (cs, mn, em, gl, ll)])
            cs, mn, em, gl, ll = (x[0] for x in (cs, mn, em, gl, ll))
            same(c, "em:impute.means", cs["means"], pre["means"])
            same(c, "em:impute.precision", cs["K"], pre["K"])
            same(c, "em:impute.data", cs["X"], X)
            same(c, "em:means.data", mn["X"], X)
            same(c, "em:means.imputed", mn["cs"], cs["out"])
            same(c, "em:means.kept", post["means"], mn["out"])
            same(c, "em:covariance.data", em["X"], X)
            same(c, "em:covariance.precision", em["K"], pre["K"])
            same(c, "em:covariance.imputed", em["cs"], cs["out"])
            same(c, "em:graphical-lasso.covariance", gl["emp_cov"], em["out"])
            k = gl["kw"]
            for a in ("alpha", "rho", "over_relax", "tol", "rtol"):
                c.prove("em:graphical-lasso.%s" % a, T.eq(P(k.get(a, 0)), P(p[a])))
            c.prove("em:graphical-lasso.max_iter", T.eq(P(k.get("max_iter", 0)), P(c.max_iter)))
            c.check("em:graphical-lasso.options", k.get("update_rho_options") is p["update_rho_options"])
            if not isinstance(k.get("init"), SArr):
                c.fail("em:graphical-lasso.starts-from-the-previous-precision")
            else:
                same(c, "em:graphical-lasso.starts-from-the-previous-precision", k["init"], pre["K"])
            same(c, "em:precision", post["K"], gl["out"])
            same(c, "em:likelihood.covariance", ll["emp_cov"], em["out"])
            same(c, "em:likelihood.precision", ll["K"], gl["out"])
            c.prove("em:likelihood.kept", T.eq(P(post["loglik"]), P(ll["out"])))
            diff = T.sub(P(pre["loglik"]), P(ll["out"]))
            done = T.lt(T.absv(diff), P(p["tol"]))
            c.prove("stop:iff-the-likelihood-settles", done if kind == "break" else T.bnot(done))
            h = history(post)
            if c.check("stop:one-history-entry-per-iteration", len(h) == 1, "%d" % len(h)):
                c.prove("stop:history", T.band(T.eq(P(h[0]["log_likelihood"]), P(ll["out"])), T.eq(P(h[0]["difference"]), diff)))

        c.loop_spec = EM(it)
        r = list(c.fn(X, max_iter=c.max_iter, return_history=hist, return_n_iter=nit, **p))
        bs = c.break_state
        it(c, bs["pre"], bs["state"], bs["kind"])
        c.check("stop:warning-iff-not-converged", (bs["kind"] == "exhausted") == (len(c.warnings) == 1), str(c.warnings))
        if not c.check("stop:return-arity", len(r) == 3 + hist + nit, "%d" % len(r)):
            return
        same(c, "em:returns-the-precision", r[0], c.extra["gl"][0]["out"])
        same(c, "em:returns-the-covariance", r[1], c.extra["emp"][0]["out"])
        A, x, cs = as_arr(r[2]), X, c.extra["cs"][0]["out"]
        nan = lambda i, j: T.bapp("isnan", x.get((i, j)))  # noqa
        c.prove_all("em:observed-entries-kept", A.vshape, lambda i, j: T.implies(T.bnot(nan(i, j)), T.eq(A.get((i, j)), x.get((i, j)))))
        c.prove_all("em:missing-entries-imputed", A.vshape, lambda i, j: T.implies(nan(i, j), T.eq(A.get((i, j)), cs.get((i, j)))))
        if hist:
            c.check("stop:returns-history", isinstance(r[3], OpaqueList))
        if nit:
            c.prove("stop:n_iter-counts-iterations", T.eq(P(r[-1]), T.add(P(bs["k"]), T.ONE)))
        frame(c)

    return case


for hist, nit in ((0, 1), (1, 0), (1, 1)):
    unit("missing.em[%s%s]" % ("history " if hist else "", "n_iter" if nit else ""), MG, "missing_graphical_lasso", stubs=STM)(em_case(hist, nit))


class Tag:
    def __init__(self, n):
        self.n = n


def stub_mgl(c, real, **k):
    out = [c.fresh_array("MK", (T.num(2), T.num(2))), c.fresh_array("MS", (T.num(2), T.num(2))), c.fresh_array("MA", as_arr(k["X"]).vshape)]
    if k["return_history"]:
        out.append(Tag("history"))
    if k["return_n_iter"]:
        out.append(Tag("n_iter"))
    c.extra.setdefault("mgl", []).append((k, out))
    return tuple(out)


@unit("missing.estimator", MG, "MissingGraphicalLasso", stubs={MG + ":missing_graphical_lasso": stub_mgl})
def _(c):
    n = c.int("n", 1)
    X = c.array("X", (n, 2), label="X")
    names = "alpha rho over_relax max_iter mode tol rtol verbose assume_centered update_rho_options compute_objective init".split()
    vals = {k: Tag(k) for k in names}
    m = c.fn(**vals)
    for k in names:
        c.check("estimator:parameter-stored", getattr(m, k, None) is vals[k], k)
    r = m.fit(X)
    c.check("estimator:returns-itself", r is m, "")
    calls = c.extra.get("mgl", [])
    if not c.check("estimator:one-solve", len(calls) == 1, str(len(calls))):
        return
    k, out = calls[0]
    same(c, "estimator:data", as_arr(k["X"]), X)
    for p in names:
        if p in k:
            c.check("estimator:parameter-passed", k[p] is vals[p], p)
    for a, o in zip(("precision_", "covariance_", "complete_data_matrix_"), out):
        same(c, "estimator:" + a, as_arr(getattr(m, a)), o)
    c.check("estimator:n_iter", m.n_iter_ is out[-1] and out[-1].n == "n_iter", "")
    frame(c)


# ---- the steps themselves, for every pattern of missing entries of small data matrices


def addL(*a):
    out = T.ZERO
    for x in a:
        out = T.add(out, x)
    return out


def mulL(*a):
    out = T.ONE
    for x in a:
        out = T.mul(out, x)
    return out


def missing_data(c, pattern):
    """a data matrix with the entries of the pattern missing, a symmetric precision whose blocks are invertible, means."""
    n, d = len(pattern), len(pattern[0])
    c.extra["observed"], c.extra["small_inverse"] = set(), True
    S = c.array("X", (n, d), label="X")
    rows = []
    for i in range(n):
        rows.append([])
        for j in range(d):
            v = S.get((T.num(i), T.num(j)))
            if not pattern[i][j]:
                c.extra["observed"].add(v.key)
            rows[-1].append(wrap(NS.NANSYM if pattern[i][j] else v))
    X = as_arr(rows).copy()
    K = c.array("K", (d, d), symmetric=True, label="K")
    return X, K, n, d


def block_inverse(K, m):
    return NS._small_inverse(as_arr([[wrap(K.get((T.num(a), T.num(b)))) for b in m] for a in m]))


def imputed(X, K, mu, pattern):
    """the conditional means of the missing entries, as a table of terms (zero elsewhere)."""
    n, d = len(pattern), len(pattern[0])
    out = [[T.ZERO] * d for _ in range(n)]
    for i in range(n):
        m, o = [j for j in range(d) if pattern[i][j]], [j for j in range(d) if not pattern[i][j]]
        if not m:
            continue
        V = block_inverse(K, m)
        for a, j in enumerate(m):
            t = mu.get((T.num(j),))
            for b, l in enumerate(m):
                for q in o:
                    t = T.sub(t, mulL(V.get((T.num(a), T.num(b))), K.get((T.num(l), T.num(q))), T.sub(X.get((T.num(i), T.num(q))), mu.get((T.num(q),)))))
            out[i][j] = t
    return out


def big(vals):
    v = vals[0]
    for w in vals[1:]:
        v = T.maxv(v, w)
    return v


def cs_case(pattern):
    def case(c):
        X, K, n, d = missing_data(c, pattern)
        mu = c.array("means", (d,), label="means")
        want = imputed(X, K, mu, pattern)
        got = as_arr(c.fn(mu, K, X))
        if not c.check("impute:shape", [x.const() for x in got.vshape] == [n, d], str(got.vshape)):
            return
        D = T.maxv(big([T.absv(v) for row in want for v in row]), T.ONE)
        for i in range(n):
            for j in range(d):
                g = got.get((T.num(i), T.num(j)))
                if pattern[i][j]:
                    c.prove("impute:conditional-mean", T.eq(g, T.mul(want[i][j], T.inv(D))))
                else:
                    c.prove("impute:observed-left-alone", T.eq(g, T.ZERO))
        frame(c)

    return case


def completed(c, X, pattern):
    n, d = len(pattern), len(pattern[0])
    C = c.array("cs", (n, d), label="cs")
    cs = as_arr([[wrap(C.get((T.num(i), T.num(j))) if pattern[i][j] else T.ZERO) for j in range(d)] for i in range(n)]).copy()
    for i in range(n):
        for j in range(d):
            c.extra["observed"].add(cs.get((T.num(i), T.num(j))).key)
    full = [[cs.get((T.num(i), T.num(j))) if pattern[i][j] else X.get((T.num(i), T.num(j))) for j in range(d)] for i in range(n)]
    return cs, full


def mean_case(pattern):
    def case(c):
        X, K, n, d = missing_data(c, pattern)
        cs, full = completed(c, X, pattern)
        got = as_arr(c.fn(X, cs))
        if not c.check("means:shape", [x.const() for x in got.vshape] == [d], str(got.vshape)):
            return
        for j in range(d):
            c.prove("means:column-total", T.eq(got.get((T.num(j),)), addL(*[full[i][j] for i in range(n)])))
        frame(c)

    return case


def emp_case(pattern):
    def case(c):
        X, K, n, d = missing_data(c, pattern)
        cs, full = completed(c, X, pattern)
        S = [[T.ZERO] * d for _ in range(d)]
        for i in range(n):
            m = [j for j in range(d) if pattern[i][j]]
            V = block_inverse(K, m) if m else None
            for a in range(d):
                for b in range(d):
                    S[a][b] = T.add(S[a][b], T.mul(full[i][a], full[i][b]))
                    if a in m and b in m:
                        S[a][b] = T.add(S[a][b], V.get((T.num(m.index(a)), T.num(m.index(b)))))
        M = big([v for row in S for v in row])
        c.assume(T.lt(T.ZERO, M))
        got = as_arr(c.fn(X, K, cs))
        if not c.check("second-moments:shape", [x.const() for x in got.vshape] == [d, d], str(got.vshape)):
            return
        for a in range(d):
            for b in range(d):
                c.prove("second-moments:completed-data-and-conditional-covariance", T.eq(got.get((T.num(a), T.num(b))), T.mul(S[a][b], T.inv(M))))
        frame(c)

    return case


def patterns(n, d):
    import itertools

    for bits in itertools.product((0, 1), repeat=n * d):
        yield [bits[i * d : (i + 1) * d] for i in range(n)]


for _p in [p for n, d in ((1, 2), (1, 3), (2, 2)) for p in patterns(n, d)]:
    _s = "/".join("".join("?" if b else "x" for b in r) for r in _p)
    unit("missing.impute[%s]" % _s, MG, "compute_cs")(cs_case(_p))
    unit("missing.means[%s]" % _s, MG, "compute_mean")(mean_case(_p))
    unit("missing.second-moments[%s]" % _s, MG, "compute_empirical_covariance")(emp_case(_p))
