"""Discriminant analysis: classes, priors, means, covariances and the log-posterior of every class."""
import itertools

from .common import *
from .c_bayes import addL, mulL
from .c_gwishart import N_, frame
from .registry import unit

DA = "regain.discriminant_analysis"
UT = "regain.utils"


def stub_posdef(c, real, X, inplace=True):
    m = as_arr(X)
    out = c.fresh_array("PD", m.vshape)
    c.extra.setdefault("posdef", []).append((m, m.copy(), inplace, out))
    if inplace:
        m[...] = out
        return None
    return out


class Est:
    """an estimator of one Gaussian per class."""

    def __init__(self, c, C, p, cov):
        self.c, self.C, self.p, self.cov = c, C, p, cov
        self.calls = []

    def fit(self, X, y=None):
        c = self.c
        self.calls.append((X, y))
        self.precision_ = c.fresh_array("EP", (T.num(self.C), T.num(self.p), T.num(self.p)), symmetric=True)
        if self.cov:
            self.covariance_ = c.fresh_array("EC", (T.num(self.C), T.num(self.p), T.num(self.p)), symmetric=True)
        self.location_ = c.fresh_array("EL", (T.num(self.C), T.num(self.p)))
        self.out = self.precision_.copy(), self.covariance_.copy() if self.cov else None, self.location_.copy()
        return self


def fit_case(C, p, cov, posdef, priors):
    def case(c):
        c.extra["n_classes"] = C
        c.extra["svd_posdef"] = True
        n = c.int("n", 2)
        X, y = c.array("X", (n, p), label="X"), c.array("y", (n,), label="y", dtype="i")
        est = Est(c, C, p, cov)
        pri = c.array("priors", (C,), label="priors") if priors else None
        m = c.fn(est, ensure_posdef=posdef, priors=pri)
        c.check("discriminant:parameters-stored", m.estimator is est and m.ensure_posdef is posdef and (m.priors is pri if not priors else True), "")
        cl, lab = NS.unique(y, return_inverse=True)
        cnt = lambda k: NS.bincount(lab).get((T.num(k),))  # noqa
        try:
            r = m.fit(X, y)
        except ValueError:
            c.prove("discriminant:rejects-only-one-class-or-one-sample", T.bor(*[T.eq(cnt(k), T.ONE) for k in range(C)]) if C > 1 else T.TRUE)
            return
        c.check("discriminant:one-class-rejected", C > 1, "")
        for k in range(C):
            c.prove("discriminant:one-sample-rejected", T.ne(cnt(k), T.ONE))
        c.check("discriminant:returns-itself", r is m, "")
        c.check("discriminant:one-fit", len(est.calls) == 1, str(len(est.calls)))
        c.prove_eq_arr("discriminant:all-samples", as_arr(est.calls[0][0]), X)
        c.prove_eq_arr("discriminant:classes-in-order", as_arr(est.calls[0][1]), lab)
        c.prove_eq_arr("discriminant:classes", as_arr(m.classes_), cl)
        for k in range(C):
            want = pri.get((T.num(k),)) if priors else T.mul(cnt(k), T.inv(P(n)))
            c.prove("discriminant:priors", T.eq(as_arr(m.priors_).get((T.num(k),)), want))
        c.prove_eq_arr("discriminant:means", as_arr(m.means_), est.out[2])
        prec = est.out[0]
        if posdef:
            pd = c.extra.get("posdef", [])
            if len(pd) != 1:
                raise Unsupported("%d calls making the precisions definite" % len(pd))
            c.prove_eq_arr("discriminant:definite-from-the-estimate", pd[0][1], prec)
            prec = pd[0][3]
        c.prove_eq_arr("discriminant:precision", as_arr(m.precision_), prec)
        if cov and not posdef:
            want = est.out[1]
            c.prove_eq_arr("discriminant:covariance", as_arr(m.covariance_), want)
        else:
            for k in range(C):
                Ki = as_arr(NS.pinvh(prec[k]))
                for i, j in itertools.product(range(p), repeat=2):
                    c.prove("discriminant:covariance", T.eq(as_arr(m.covariance_).get(N_(k, i, j)), Ki.get(N_(i, j))))
        # decision values
        c.extra["svd"] = []
        covm = as_arr(m.covariance_).copy()
        q = c.int("q", 1)
        Z = c.array("Z", (q, p), label="Z")
        d = m._decision_function(Z)
        sv = c.extra["svd"]
        if not isinstance(d, NS.DecisionValues) or len(sv) != C:
            raise Unsupported("decision values not from one decomposition per class")
        c.check("discriminant:one-value-per-class", len(d.cols) == C, "")
        t = T.fresh_name("t")
        T.RANGE[t] = P(q)
        tt = T.sym(t, T.INT)
        for k in range(C):
            A, U, s = sv[k]
            for i, j in itertools.product(range(p), repeat=2):
                c.prove("discriminant:decomposed-covariance", T.eq(A.get(N_(i, j)), covm.get(N_(k, i, j))))
            x = [T.sub(Z.get((tt, T.num(j))), as_arr(m.means_).get(N_(k, j))) for j in range(p)]
            inv = lambda i, j: addL(*[mulL(U.get(N_(i, l)), T.inv(s.get(N_(l))), U.get(N_(j, l))) for l in range(p)])  # noqa
            quad = addL(*[mulL(x[i], inv(i, j), x[j]) for i in range(p) for j in range(p)])
            ld = addL(*[T.log(s.get(N_(l))) for l in range(p)])
            want = T.add(T.scale(T.add(quad, ld), Fraction(-1, 2)), T.log(as_arr(m.priors_).get(N_(k))))
            c.prove("discriminant:log-posterior", T.eq(d.cols[k](tt), want))
        frame(c)

    return case


for C_, p_, cov_, pd_, pri_ in itertools.product((2, 3), (1, 2), (True, False), (True, False), (True, False)):
    unit("discriminant.fit[%d classes,%d%s%s%s]" % (C_, p_, ",covariance" if cov_ else "", ",definite" if pd_ else "", ",priors" if pri_ else ""), DA, "DiscriminantAnalysis", {UT + ":ensure_posdef": stub_posdef}, thorough=C_ * p_ > 4)(fit_case(C_, p_, cov_, pd_, pri_))
unit("discriminant.fit[1 class]", DA, "DiscriminantAnalysis", {UT + ":ensure_posdef": stub_posdef})(fit_case(1, 2, True, False, False))


@unit("discriminant.score", DA, "DiscriminantAnalysis")
def _(c):
    n = c.int("n", 1)
    X, y = c.array("X", (n, 2), label="X"), c.array("y", (n,), label="y")
    w = c.array("w", (n,), label="w")
    pred = c.fresh_array("PRED", y.vshape)
    m = c.fn(Est(c, 2, 2, True))
    seen = []

    def predict(Z):
        seen.append(Z)
        return pred

    m.predict = predict
    for weight in (None, w):
        r = m.score(X, y, sample_weight=weight)
        a = c.extra.get("accuracy", [])
        if not a:
            raise Unsupported("accuracy not from sklearn")
        yt, yp, nm, sw, out = a[-1]
        c.check("discriminant:score", yt is y and yp is pred and nm is True and sw is weight and r is out and seen[-1] is X, "")
    frame(c)
