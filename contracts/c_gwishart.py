"""Scores of graphs under the G-Wishart distribution, precision selection, Markov blankets."""
import itertools

import numpy

from .c_bayes import *

GW, LA = "regain.bayesian.gwishart_inference", "regain.bayesian._laplace_approximation"


def N_(*k):
    return tuple(T.num(x) for x in k)


def graphs(p):
    up = list(itertools.combinations(range(p), 2))
    for m in range(1 << len(up)):
        yield sorted([(i, i) for i in range(p)] + [e for b, e in enumerate(up) if m >> b & 1])


def const_mask(G, p):
    return SArr.make((T.num(p), T.num(p)), lambda i: T.bor(*[T.band(T.eq(i[0], T.num(a)), T.eq(i[1], T.num(b))) for a, b in G]), "b")


def mask_arr(G, p):
    return as_arr([[(i, j) in G for j in range(p)] for i in range(p)])


def gname(G):
    return "".join("%d%d" % e for e in G if e[0] != e[1]) or "no edge"


def full(cells, p):
    """symmetric matrix of the entries of the upper triangle."""
    return {(i, j): cells.get((min(i, j), max(i, j)), T.ZERO) for i in range(p) for j in range(p)}


for p_ in (1, 2, 3):
    for G_ in graphs(p_):

        @unit("gwishart.covsel[%d,%s]" % (p_, gname(G_)), GW, "covsel", thorough=(p_ == 3 and gname(G_) not in ("no edge", "01", "02")))
        def _(c, p=p_, G=G_):
            m = len(G)
            x, C = c.array("x", (m,), label="x"), c.array("C", (p, p), symmetric=True, label="C")
            K = full({e: x.get(N_(k)) for k, e in enumerate(G)}, p)
            KA = as_arr([[wrap(K[i, j]) for j in range(p)] for i in range(p)])
            s, l = NS.slogdet(KA)
            fin = T.lt(T.ZERO, P(s))
            tr = addL(*[T.mul(C.get(N_(i, j)), K[i, j]) for i in range(p) for j in range(p)])
            c.assume(T.implies(fin, T.lt(T.sub(tr, P(l)), P(float("inf")))))  # numbers are finite
            f, g = c.fn(x, p, mask_arr(G, p), C)
            c.prove("covsel:objective", T.implies(fin, T.eq(P(f), T.sub(tr, P(l)))))
            Ki = as_arr(NS.pinvh(KA))
            g = as_arr(g)
            c.check("covsel:gradient-length", [int(d.const() or -1) for d in g.vshape] == [m], str(g.vshape))
            if g.ndim != 1:
                return
            for k, (i, j) in enumerate(G):
                want = T.sub(C.get(N_(i, j)), Ki.get(N_(i, j)))
                if i != j:
                    want = T.add(want, T.sub(C.get(N_(j, i)), Ki.get(N_(j, i))))
                c.prove("covsel:gradient", T.implies(fin, T.eq(g.get(N_(k)), want)))
            frame(c)


def stub_ps(c, real, G, n_dim, C):
    o = c.fresh_array("PSEL", (P(n_dim), P(n_dim)), symmetric=True)
    rec(c, "psel", G=G, n_dim=P(n_dim), C=as_arr(C).copy(), out=o)
    return o


def stub_gl2(c, real, emp_cov=None, alpha=None, **k):
    e = as_arr(emp_cov)
    o = c.fresh_array("GLP", e.vshape, symmetric=True)
    rec(c, "gl2", C=e.copy(), alpha=as_arr(alpha).copy(), kw=k, out=o)
    return o, c.fresh_array("GLC", e.vshape)


def covX(X, i, j):
    n = X.vshape[0]
    k1, k2, k3 = (T.fresh_name("s") for _ in range(3))
    for k in (k1, k2, k3):
        T.RANGE[k] = n
    a, b, d = (T.sym(k, T.INT) for k in (k1, k2, k3))
    iv = T.inv(n)
    return T.sub(T.mul(iv, T.mk_sum([(k1, n)], T.mul(X.get((a, i)), X.get((a, j))))), mulL(iv, iv, T.mk_sum([(k2, n)], X.get((b, i))), T.mk_sum([(k3, n)], X.get((d, j)))))


for p_, mode, data in itertools.product((2, 3), ("covsel", "gl"), (1, 0)):
    for G_ in list(graphs(p_))[:: 1 if p_ == 2 else 3]:

        @unit("gwishart.fit[%d,%s,%s%s]" % (p_, gname(G_), mode, "" if data else ",no data"), GW, "GWishartFit", {GW + ":precision_selection": stub_ps, GLM_ + ":graphical_lasso": stub_gl2})
        def _(c, p=p_, G=G_, mode=mode, data=data):
            n = c.int("n", 1) if data else 0
            X, S0, d0 = c.array("X", (n, p), label="X"), c.array("S0", (p, p), symmetric=True, label="S0"), c.real("d0")
            c.assume(T.lt(R_(2), P(d0)))
            M = mask_arr(G, p)
            K, S = c.fn(X, M, NS.Bunch(d0=d0, S0=S0), mode=mode)
            S = as_arr(S)
            sc = lambda i, j: T.mul(P(n), covX(X, i, j)) if data else T.ZERO  # noqa
            for i in range(p):
                for j in range(p):
                    c.prove("gwishart:scatter", T.eq(S.get(N_(i, j)), sc(*N_(i, j))))
            r = c.extra["psel" if mode == "covsel" else "gl2"]
            c.check("gwishart:one-selection", len(r) == 1 and K is r[0]["out"], "")
            for i in range(p):
                for j in range(p):
                    c.prove("gwishart:posterior-mode", T.eq(T.mul(r[0]["C"].get(N_(i, j)), addL(P(n), P(d0), R_(-2))), T.add(sc(*N_(i, j)), S0.get(N_(i, j)))))
                    if mode == "gl":
                        on = (i, j) in G or (j, i) in G
                        c.prove("gwishart:penalty-infinite-off-the-graph", T.eq(r[0]["alpha"].get(N_(i, j)), T.ZERO if on else P(float("inf"))))
            if mode == "covsel":
                g = as_arr(r[0]["G"])
                c.check("gwishart:graph", all((g.reader()(N_(i, j)).op == "true") == ((i, j) in G) for i in range(p) for j in range(p)), "")
            frame(c)


def score_case(p, G, method, data):
    def case(c):
        c.extra["svd_posdef"] = True
        c.extra["chol"] = []
        setup_pi(c)
        n = c.int("n", 1) if data else 0
        X, S0, d0 = c.array("X", (n, p), label="X"), c.array("S0", (p, p), symmetric=True, label="S0"), c.real("d0")
        Pm, lP = pd(c, "P", p)
        S = c.array("S", (p, p), symmetric=True, label="S")
        z0 = c.real("prior_constant")
        c.assume(T.lt(R_(2), P(d0)))
        M = mask_arr(G, p)
        r = c.fn(X, M, Pm, S, NS.Bunch(d0=d0, S0=S0, lognormconst=z0), method)
        sv = c.extra.get("svd", [])
        if len(sv) != 1:
            raise Unsupported("log-determinant and inverse not from one singular value decomposition")
        A, U, s = sv[0]
        c.prove_eq_arr("score:decomposed-precision", A, Pm)
        ld = addL(*[T.log(s.get(N_(k))) for k in range(p)])
        c.prove("score:log-determinant", T.eq(P(r.logdetP), ld))
        c.check("score:free-parameters", P(r.dof).const() == len(G) and P(r.num_edges).const() == len(G) - p, "%s %s" % (r.dof, r.num_edges))
        c.prove("score:degrees-of-freedom", T.eq(P(r.dn), T.add(P(n), P(d0))))
        Sn = as_arr(r.Sn)
        for i, j in itertools.product(range(p), repeat=2):
            c.prove("score:posterior-scatter", T.eq(Sn.get(N_(i, j)), T.add(S.get(N_(i, j)), S0.get(N_(i, j)))))
        c.prove_eq_arr("score:precision", as_arr(r.P), Pm)
        l2p = T.add(T.log(R_(2)), T.log(P(NS.PI)))
        if data:
            tr = addL(*[T.mul(S.get(N_(i, j)), Pm.get(N_(i, j))) for i in range(p) for j in range(p)])
            ll = T.scale(addL(T.mul(P(n), lP), T.neg(tr), T.neg(mulL(P(n), T.num(p), l2p))), Fraction(1, 2))
            c.prove("score:log-likelihood", T.eq(P(r.loglik), ll))
        if method == "bic":
            c.prove("score:bic", T.eq(P(r.score), T.sub(ll, T.scale(T.log(P(n)), Fraction(len(G), 2)))))
            frame(c)
            return
        inv = lambda i, j: addL(*[mulL(U.get(N_(i, k)), T.inv(s.get(N_(k))), U.get(N_(j, k))) for k in range(p)])  # noqa
        d2 = addL(P(n), P(d0), R_(-2))
        # Hessian entry of two free parameters (diagonal ones counted twice, which cancels with the prior)
        H = lambda e, f: T.mul(d2, T.add(T.mul(inv(e[0], f[1]), inv(e[1], f[0])), T.mul(inv(e[0], f[0]), inv(e[1], f[1]))))  # noqa
        h = T.scale(T.mul(d2, T.sub(ld, T.num(p))), Fraction(1, 2))
        if method == "diaglaplace":
            for e in G:
                c.assume(T.lt(T.ZERO, H(e, e)))
            det = addL(*[T.log(H(e, e)) for e in G])
        else:
            ch = c.extra["chol"]
            if len(ch) != 1:
                raise Unsupported("determinant of the Hessian not from one Cholesky factor")
            Hm, F = ch[0]
            m = len(G)
            c.check("score:hessian-size", [d.const() for d in Hm.vshape] == [m, m], str(Hm.vshape))
            order = sorted(G, key=lambda e: e[1])
            for a in range(m):
                for b in range(m):
                    c.prove("score:hessian", T.eq(Hm.get(N_(a, b)), H(order[a], order[b])))
            det = T.scale(addL(*[T.log(F.get(N_(k, k))) for k in range(m)]), 2)
        lz = addL(T.scale(l2p, Fraction(len(G), 2)), h, T.scale(det, Fraction(-1, 2)))
        c.prove("score:laplace-constant", T.eq(P(r.lognormconst), lz))
        c.prove("score:log-evidence", T.eq(P(r.score), addL(lz, T.neg(P(z0)), T.scale(mulL(P(n), T.num(p), l2p), Fraction(-1, 2)))))
        frame(c)

    return case


for p_, method, data in itertools.product((1, 2, 3), ("bic", "diaglaplace", "laplace"), (1, 0)):
    if method == "bic" and not data:
        continue
    for G_ in list(graphs(p_))[:: 1 if p_ < 3 else 5]:
        unit("gwishart.score[%d,%s,%s%s]" % (p_, gname(G_), method, "" if data else ",no data"), GW, "compute_score", thorough=(method == "diaglaplace" and (p_ == 3 or p_ == 2 and data and gname(G_) == "01")))(score_case(p_, G_, method, data))


for k_ in (1, 2):
    for boolean in (True, False):

        @unit("gwishart.blankets[%d%s]" % (k_, ",boolean" if boolean else ""), GW, "markov_blankets")
        def _(c, k=k_, boolean=boolean, p=3):
            gs = [c.array("P%d" % a, (p, p), symmetric=True, label="P%d" % a) for a in range(k)]
            tol = c.real("tol", pos=True)
            mb = c.fn(gs, boolean=boolean, tol=tol)
            c.check("blankets:one-list-per-variable", len(mb) == p, str(len(mb)))
            for i in range(p):
                b = as_arr(mb[i])
                r = b.rnum()
                for a in range(k):
                    for j in range(p):
                        v = gs[a].get(N_(i, j))
                        small = T.lt(T.absv(v), P(tol))
                        want = T.ZERO if i == j else T.ite(small, T.ZERO, T.ONE if boolean else v)
                        c.prove("blankets:neighbours", T.eq(r(N_(a, j)), want))
            frame(c)


@unit("gwishart.density", LA, "h")
def _(c):
    d = c.int("d", 1)
    K, lK = pd(c, "K", d)
    D, delta = c.array("D", (d, d), label="D"), c.real("delta")
    r = P(c.fn(D, K, delta))
    tr = sum2(d, lambda i, j: T.mul(D.get((i, j)), K.get((i, j))))
    c.prove("density:log-kernel", T.eq(r, T.scale(T.sub(T.mul(T.sub(P(delta), R_(2)), lK), tr), Fraction(1, 2))))
    frame(c)


@unit("gwishart.density.gradient", LA, "first_derivative_h")
def _(c):
    d = c.int("d", 1)
    K, lK = pd(c, "K", d)
    D, delta = c.array("D", (d, d), label="D"), c.real("delta")
    g, Ki = as_arr(c.fn(D, K, delta)), as_arr(NS.pinvh(K))
    c.prove_all("density:gradient", g.vshape, lambda i, j: T.eq(g.get((i, j)), T.scale(T.sub(T.mul(T.sub(P(delta), R_(2)), Ki.get((i, j))), D.get((i, j))), Fraction(1, 2))))
    frame(c)


def stub_fit(c, real, X, G, GWprior, mode="covsel"):
    X = as_arr(X)
    d = X.vshape[1]
    o = c.fresh_array("FITP", (d, d), symmetric=True), c.fresh_array("FITS", (d, d), symmetric=True)
    rec(c, "fit", X=X.copy(), G=G, d0=P(GWprior["d0"]), S0=as_arr(GWprior["S0"]).copy(), mode=mode, out=o)
    return o


def stub_score(c, real, X, G, S, GWprior=None, score_method="bic", **k):
    res = NS.Bunch(lognormconst=c.fresh_real("CONST"), score=c.fresh_real("SCORE"))
    rec(c, "score", X=as_arr(X).copy(), G=G, P=as_arr(k["P"]).copy(), S=as_arr(S).copy(), d0=P(GWprior["d0"]), S0=as_arr(GWprior["S0"]).copy(), const=P(GWprior["lognormconst"]), method=score_method, out=res)
    return res


def evidence_case(method, mode, given):
    def case(c):
        n, p = c.int("n", 1), c.int("p", 1)
        X, G = c.array("X", (n, p), label="X"), c.array("G", (p, p), label="G", dtype="b")
        d0 = c.real("d0")
        c.assume(T.lt(R_(2), P(d0)))
        S0 = c.array("S0", (p, p), symmetric=True, label="S0") if given else None
        r = c.fn(X, G, d0=d0, S0=S0, score_method=method, mode=mode)
        fits, scores = c.extra.get("fit", []), c.extra.get("score", [])
        post = [f for f in fits if f["X"].vshape[0].const() != 0]
        prior = [f for f in fits if f["X"].vshape[0].const() == 0]
        laplace = method != "bic"
        if not c.check("evidence:one-fit-of-the-data", len(post) == 1 and len(prior) <= 1 and len(scores) == len(fits), "%d fits, %d scores" % (len(fits), len(scores))):
            return
        c.check("evidence:prior-constant-computed", bool(prior) or not laplace, "")

        def want(i, j):
            if given:
                return S0.get((i, j))
            return T.ite(T.eq(i, j), T.mul(T.sub(P(d0), R_(2)), covX(X, i, i)), T.ZERO)

        for f in fits + scores:
            c.check("evidence:graph", f["G"] is G, "another graph")
            c.prove("evidence:prior-degrees", T.eq(f["d0"], P(d0)))
            same(c, "evidence:prior-scale", f["S0"], want)
        same(c, "evidence:data", post[0]["X"], lambda i, j: X.get((i, j)))
        c.check("evidence:mode", post[0]["mode"] == mode, str(post[0]["mode"]))
        for s in scores:
            data = s["X"].vshape[0].const() != 0
            f = post[0] if data else (prior or [None])[0]
            if not c.check("evidence:scores-what-was-fitted", f is not None, ""):
                continue
            same(c, "evidence:scored-precision", s["P"], lambda i, j: f["out"][0].get((i, j)))
            same(c, "evidence:scored-scatter", s["S"], lambda i, j: f["out"][1].get((i, j)))
            c.check("evidence:method", s["method"] == method, str(s["method"]))
            if data:
                same(c, "evidence:scored-data", s["X"], lambda i, j: X.get((i, j)))
                c.check("evidence:returns-the-score-of-the-data", s["out"] is r, "")
                if laplace:
                    k = [q["out"]["lognormconst"] for q in scores if q is not s]
                    c.prove("evidence:prior-constant", T.eq(s["const"], P(k[0])) if len(k) == 1 else T.FALSE)
        frame(c)

    return case


for _m, _mode, _g in (("bic", "covsel", 1), ("bic", "gl", 0), ("laplace", "gl", 1), ("diaglaplace", "covsel", 0), ("diaglaplace", "gl", 1)):
    unit("gwishart.evidence[%s,%s%s]" % (_m, _mode, "" if _g else ",default scale"), GW, "GWishartScore", {GW + ":GWishartFit": stub_fit, GW + ":compute_score": stub_score})(evidence_case(_m, _mode, _g))
