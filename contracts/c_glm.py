"""Neighbourhood-selection / generalised linear graphical models (regain.generalized_linear_model)."""
from .solvers import *
from .c_objectives import frame
from .registry import add, unit
from vc.arrays import lam_of

GB = "regain.generalized_linear_model.base"
GG = "regain.generalized_linear_model.glm_gaussian"
GI = "regain.generalized_linear_model.glm_ising"
GP = "regain.generalized_linear_model.glm_poisson"


def nrm(x):
    return wrap(T.sqrt(sqn(x)))


def data(c):
    n, d = c.int("n", 1), c.int("d", 2)
    return n, d, c.array("X", (n, d), label="X")


def without(X, r):
    """the columns of X but the r-th."""
    rd, rp = X.reader(), P(r)
    return SArr.make((X.vshape[0], T.sub(X.vshape[1], T.ONE)), lambda i: rd((i[0], T.skip(i[1], rp))))


def column(X, r):
    rd, rp = X.reader(), P(r)
    return SArr.make((X.vshape[0],), lambda i: rd((i[0], rp)))


def others(d, r):
    """the selector the callers build: every position but r."""
    from vc.seq import SymSeq

    s = SymSeq(T.sub(P(d), T.ONE), lambda i: wrap(T.skip(i, P(r)), True))
    s.skip = (P(r), P(d))
    return s


def lmean(x):
    return asum(x) / wrap(x.vshape[0], True)


def ew(f, x):
    r = x.reader()
    return SArr.make(x.vshape, lambda i: f(r(i)))


# ------------------------------------------------------------------ adjacency
@unit("glm:adjacency[union]", GB, "build_adjacency_matrix")
def _(c):
    d = c.int("d", 2)
    Nb = c.array("Nb", (d, d - 1), label="neighbours")
    r = c.fn(Nb, how="union")
    full = lambda i, j: Nb.get((i, T.unskip(j, i)))  # noqa
    c.prove_all(
        "average-of-the-two-neighbourhoods",
        (P(d), P(d)),
        lambda i, j: T.eq(as_arr(r).get((i, j)), T.ite(T.eq(i, j), T.ONE, T.mul(HALF, T.add(full(i, j), full(j, i))))),
    )
    frame(c)


@unit("glm:adjacency[intersection]", GB, "build_adjacency_matrix")
def _(c):
    d = c.int("d", 2)
    Nb = c.array("Nb", (d, d - 1), label="neighbours")
    r = c.fn(Nb, how="intersection")
    full = lambda i, j: Nb.get((i, T.unskip(j, i)))  # noqa

    def spec(i, j):
        a, b = full(i, j), full(j, i)
        both = T.band(T.ne(a, T.ZERO), T.ne(b, T.ZERO))
        return T.ite(T.eq(i, j), T.ONE, T.ite(both, T.mul(HALF, T.add(a, b)), T.ZERO))

    c.prove_all("edge-only-if-in-both-neighbourhoods", (P(d), P(d)), lambda i, j: T.eq(as_arr(r).get((i, j)), spec(i, j)))
    frame(c)


# ------------------------------------------------------------------ objectives
def gauss_obj(Xs, y, th, n, al):
    z = NS.dot(Xs, th)
    return -asum(y * z) / n + asum(z * z) / (2 * n) + al * asum(NS.absolute(th))


@unit("glm:gaussian.objective", GG, "objective")
def _(c):
    n, d, X = data(c)
    r = c.int("r", 0, d - 1)
    th = c.array("theta", (d - 1,), label="theta")
    al = c.real("alpha", nonneg=True)
    v = c.fn(X, th, n, r, others(d, r), al)
    c.prove("value", T.eq(P(v), P(gauss_obj(without(X, r), column(X, r), th, n, al))))
    frame(c)


def ising_loss(X, th):
    """mean over the samples of sum_r log(e^z + e^-z) - x_r z,  z = sum_{j != r} theta_rj x_j."""
    n, d = X.vshape
    z = NS.dot(X, th * offm(th))  # theta symmetric
    return (asum(ew(lambda p: T.log(T.add(T.exp(p), T.exp(T.neg(p)))), z)) - asum(X * z)) / wrap(n, True)


def poisson_loss(X, th):
    """z_ir = sum_{j != r} x_ij theta_rj"""
    z = NS.dot(X, (th * offm(th)).T)
    return (asum(ew(T.exp, z)) - asum(X * z)) / wrap(X.vshape[0], True)


def od1(th):
    return asum(NS.absolute(th) * offm(th))


for nm, mod, f in (("ising", GI, ising_loss), ("poisson", GP, poisson_loss)):

    @unit("glm:%s.objective" % nm, mod, "objective")
    def _(c, f=f):
        n, d, X = data(c)
        th = c.array("theta", (d, d), symmetric=True, label="theta")
        al = c.real("alpha", nonneg=True)
        v = c.fn(X, th, al)
        c.prove("value", T.eq(P(v), P(f(X, th) + al * od1(th))))
        frame(c)

@unit("glm:ising.loss", GI, "loss")
def _(c):
    n, d, X = data(c)
    th = c.array("theta", (d, d), symmetric=True, label="theta")
    c.prove("value", T.eq(P(c.fn(X, th)), P(ising_loss(X, th))))
    frame(c)


for nm, mod, f in (("ising", GI, "loss"), ("poisson", GP, "objective")):

    @unit("glm:%s.%s[asymmetric]" % (nm, f), mod, f)
    def _(c, f=f):
        n, d, X = data(c)
        th = c.array("theta", (d, d), label="theta")
        c.assume(T.bnot(B(NS.all_(th == th.T))))
        v = c.fn(X, th, *([c.real("alpha", nonneg=True)] if f == "objective" else []))
        c.prove("asymmetric-is-infeasible", T.eq(P(v), P(float("inf"))))
        frame(c)


@unit("glm:poisson.loss", GP, "loss")
def _(c):
    n, d, X = data(c)
    th = c.array("theta", (d, d), label="theta")
    c.prove("value", T.eq(P(c.fn(X, th)), P(poisson_loss(X, th))))
    frame(c)


def poisson_single(Xs, y, th, n):
    z = NS.dot(Xs, th)
    return (asum(ew(T.exp, z)) - asum(y * z)) / n


for fn in ("loss_single_variable", "objective_single_variable"):

    @unit("glm:poisson.%s" % fn, GP, fn)
    def _(c, fn=fn):
        n, d, X = data(c)
        r = c.int("r", 0, d - 1)
        th = c.array("theta", (d - 1,), label="theta")
        al = c.real("alpha", nonneg=True)
        a = (X, th, n, r, others(d, r)) + ((al,) if fn[0] == "o" else ())
        v = poisson_single(without(X, r), column(X, r), th, n)
        if fn[0] == "o":
            v = v + al * asum(NS.absolute(th))
        c.prove("value", T.eq(P(c.fn(*a)), P(v)))
        frame(c)


def ising_grad(X, th):
    """d/d theta_rj of the r-th conditional: mean_i x_ij (tanh(z_ir) - x_ir), zero on the diagonal."""
    n = wrap(X.vshape[0], True)
    z = NS.dot(X, th * offm(th))
    e, f = ew(T.exp, z), ew(lambda p: T.exp(T.neg(p)), z)
    return NS.dot(((e - f) / (e + f) - X).T, X) * offm(th) / n


for aug in (False, True):

    @unit("glm:ising.gradient%s" % ("[augmented]" if aug else ""), GI, "_gradient_ising")
    def _(c, aug=aug):
        n, d, X = data(c)
        th = c.array("theta", (d, d), symmetric=True, label="theta")
        A, rho, nT = (c.array("A", (d, d), label="A"), c.real("rho", pos=True), c.real("T", nonneg=True)) if aug else (None, 1, 0)
        g = c.fn(X, th, n, A, rho, nT)
        w = ising_grad(X, th)
        same(c, "gradient-of-the-loss", g, w + rho * nT * (th - A) if aug else w)
        frame(c)


# ------------------------------------------------------------------ proximal-gradient iterations
def stub_soft(c, real, a, lamda):
    """soft-thresholding (verified in c_prox): caller sees a fresh array."""
    a = as_arr(a)
    out = c.fresh_array("ST", a.vshape)
    c.extra.setdefault("st", []).append(dict(a=a.copy(), lamda=lamda, out=out.copy()))
    return out


def stub_soft_od(c, real, a, lamda):
    a = as_arr(a)
    sm = a.ndim == 2 and prover_sym(a)
    out = c.fresh_array("STOD", a.vshape, symmetric=sm)
    c.extra.setdefault("st", []).append(dict(a=a.copy(), lamda=lamda, out=out.copy()))
    return out


def prover_sym(a):
    i, j = idx_syms(a.vshape, "s")
    return T.eq(a.get((i, j)), a.get((j, i))).op == "true"


class ProxGrad(LoopSpec):
    """for each iteration: history grows by one, theta is the last element of the history."""

    theta, hist = "theta", "thetas"

    def __init__(self, it, search=None):
        self.it, self.search = it, search

    def wants(self, c, site, seq):
        return getattr(seq, "length", None) is not None and seq.length == P(c.max_iter)

    def wants_while(self, c, site):
        return self.search is not None

    def entry(self, c, pre, n):
        if n is None:
            return self.search.entry(c, pre)
        miss = [x for x in (self.theta, self.hist) if x not in pre]
        if miss:
            raise RoleMissing(miss, sorted(pre))
        same(c, "entry:history-starts-with-the-start", pre[self.hist][-1], pre[self.theta])
        if c.entry_check:
            c.entry_check(c, pre)

    def assume(self, c, st, k, n):
        if n is None:
            return self.search.assume(c, st)
        st[self.hist][:] = [st[self.theta]]
        if "gamma" in st:
            c.assume(T.lt(T.ZERO, P(st["gamma"])))
        c.extra["st"] = []

    def step(self, c, pre, post, k, n):
        if n is None:
            return self.search.step(c, pre, post)
        self.it(c, pre, post, k, "continue")


def one(c, key):
    rs = c.extra[key]
    if len(rs) != 1:
        raise Unsupported("%d calls of the proximal operator" % len(rs))
    return rs[0]


def closing(c, pre, post, k, kind, obj, tol, entry=True):
    """history, reported numbers and stopping."""
    h0, h1 = pre["thetas"], post["thetas"]
    c.check("history-grows-by-one", len(h1) == len(h0) + 1)
    same(c, "history-ends-with-the-iterate", h1[-1], post["theta"])
    same(c, "history-keeps-the-previous-iterate", h1[-2], pre["theta"])
    D = post["theta"] - pre["theta"]
    h = history(post)
    if not entry:
        c.check("no-check-in-the-first-iteration", len(h) == 0 and kind != "break")
        return
    if not c.check("one-check-per-iteration", len(h) == 1, "%d" % len(h)):
        return
    c.prove("check-iteration", T.eq(P(h[0].iter), P(k)))
    c.prove("check-objective", T.eq(P(h[0].obj), P(obj(post["theta"]))))
    c.prove("check-step-length", T.eq(P(h[0].iter_norm), P(nrm(D))))
    met = T.lt(P(nrm(D)), P(tol))
    c.prove("stops-iff-step-below-tol", met if kind == "break" else T.bnot(met))


def results(c, r, hist=True):
    bs = c.break_state
    same(c, "returns-the-last-iterate", r[0], bs["state"]["theta"])
    if hist:
        c.check("returns-the-history", len(r) == 3 and r[1] is bs["state"]["thetas"] and r[2] is history(bs["state"]))
    else:
        c.check("returns-the-estimate-alone", len(r) == 1)


def gaussian_case(hist):
    def case(c):
        c.extra["skip_defined"] = True  # the relative step length may be 0/0
        c.entry_check = None
        n, d, X = data(c)
        r = c.int("r", 0, d - 1)
        al, gam, tol = c.real("alpha", nonneg=True), c.real("gamma", pos=True), c.real("tol", pos=True)
        c.max_iter = c.int("max_iter", 1)
        Xs, y = without(X, r), column(X, r)

        def it(c, pre, post, k, kind):
            th = pre["theta"]
            o = one(c, "st")
            g = NS.dot(Xs.T, NS.dot(Xs, th) - y) / n
            same(c, "forward-step", o["a"], th - gam * g)
            c.prove("threshold", T.eq(P(o["lamda"]), P(al * gam)))
            same(c, "backward-step", post["theta"], o["out"])
            closing(c, pre, post, k, kind, lambda t: gauss_obj(Xs, y, t, n, al), tol)

        c.loop_spec = ProxGrad(it)
        res = c.fn(X, r, alpha=al, gamma=gam, tol=tol, max_iter=c.max_iter, return_history=hist)
        bs = c.break_state
        it(c, bs["pre"], bs["state"], wrap(bs["k"], True), bs["kind"])
        results(c, res, hist)
        frame(c)

    return case


SOFT = {"regain.prox:soft_thresholding": stub_soft, "regain.prox:soft_thresholding_off_diagonal": stub_soft_od}
for h in (True, False):
    unit("glm:gaussian.iteration[%s]" % ("history" if h else "plain"), GG, "fit_each_variable", stubs=SOFT)(gaussian_case(h))


def inner(a, b):
    return asum(a * b)


class Backtrack:
    """while True: try a step from the current iterate; a rejected step only shrinks gamma."""

    def __init__(self, loss, grad, upd):
        self.loss, self.grad, self.upd = loss, grad, upd

    def entry(self, c, pre):
        miss = [x for x in ("theta", "theta_old", "gamma") if x not in pre]
        if miss:
            raise RoleMissing(miss, sorted(pre))
        same(c, "search:starts-at-the-iterate", pre["theta"], pre["theta_old"])

    def assume(self, c, st):
        alias_to(st["theta"], st["theta_old"])
        c.assume(T.lt(T.ZERO, P(st["gamma"])))
        c.extra["st"] = []

    def enough(self, th0, th1, gam):
        D = th1 - th0
        return T.le(P(self.loss(th1)), P(self.loss(th0) + inner(self.grad(th0), D) + inner(D, D) / (2 * gam)))

    def step(self, c, pre, post):
        same(c, "search:rejected-step-restarts", post["theta"], pre["theta_old"])
        c.prove("search:rejected-step-shrinks-gamma", T.eq(P(post["gamma"]), P(self.upd * pre["gamma"])))
        o = one(c, "st")
        c.prove("search:rejects-only-insufficient-steps", T.bor(T.bnot(self.enough(pre["theta_old"], o["out"], pre["gamma"])), notfinite(self.loss(o["out"]))))


def notfinite(x):
    r = NS.isinf(x)
    q = NS.isnan(x)
    return T.bor(B(r), B(q))


def alias_to(a, b):
    """invariant a == b: the loop state a is given b's entries."""
    r = b.reader()
    a.buf.get = lambda i: r(i)


def make_symmetric(a):
    """invariant: the havoced matrix is symmetric."""
    i, j = idx_syms(a.vshape, "s")
    at = a.get((i, j)).single_atom()
    if at is None or at.kind != "app":
        raise Unsupported("loop matrix is not a fresh symbol")
    nm = at.data[0]
    T.SYMMETRIC[nm] = True
    a.buf.get = lambda i: T.app(nm, i)


def is_sym(c, name, a):
    a = as_arr(a)
    c.prove_all(name, a.vshape, lambda i, j: T.eq(a.get((i, j)), a.get((j, i))))


def ising_case(search=False, aug=False, warm=False):
    def case(c):
        c.extra["skip_defined"] = True
        n, d, X = data(c)
        al, gam, tol, upd = c.real("alpha", nonneg=True), c.real("gamma", pos=True), c.real("tol", pos=True), c.real("update_gamma", pos=True)
        c.max_iter = c.int("max_iter", 1)
        W = c.array("W", (d, d), symmetric=True, label="warm_start") if warm else None
        A, rho, nT = (c.array("A", (d, d), symmetric=True, label="A"), c.real("rho", pos=True), c.real("T", nonneg=True)) if aug else (None, 1, 0)

        def entry(c, pre):
            same(c, "entry:start", pre["theta"], W if warm else NS.zeros((d, d)))

        c.entry_check = entry

        def grad(th):
            g = ising_grad(X, th)
            return g + rho * nT * (th - A) if aug else g

        bt = Backtrack(lambda t: ising_loss(X, t), grad, upd)

        def it(c, pre, post, k, kind):
            th = pre["theta"]
            o = one(c, "st")
            gm = post["gamma"] if search else gam
            same(c, "forward-step-symmetrised", o["a"], sym2(th - gm * grad(th)))
            c.prove("threshold", T.eq(P(o["lamda"]), P(al * gm)))
            same(c, "backward-step", post["theta"], o["out"])
            if search:
                c.prove("search:accepted-step-decreases-enough", bt.enough(th, post["theta"], gm))
            is_sym(c, "iterate-stays-symmetric", post["theta"])
            closing(c, pre, post, k, kind, lambda t: ising_loss(X, t) + al * od1(t), tol)

        c.loop_spec = sp = ProxGrad(it, bt if search else None)
        orig = sp.assume

        def assume(c, st, k, n):
            if n is not None:
                make_symmetric(st["theta"])
            orig(c, st, k, n)

        sp.assume = assume
        res = c.fn(X, alpha=al, gamma=gam, tol=tol, max_iter=c.max_iter, warm_start=W, A=A, T=nT, rho=rho, update_gamma=upd, line_search=search)
        bs = c.break_state
        it(c, bs["pre"], bs["state"], wrap(bs["k"], True), bs["kind"])
        results(c, res)
        frame(c)

    return case


for s, a, w in ((False, False, False), (False, True, True), (True, False, False)):
    unit("glm:ising.iteration[%s%s]" % ("line-search" if s else "fixed-step", ",augmented,warm" if a else ""), GI, "_fit", stubs=SOFT)(ising_case(s, a, w))


def poisson_case(aug):
    def case(c):
        c.extra["skip_defined"] = True
        c.entry_check = None
        n, d, X = data(c)
        r = c.int("r", 0, d - 1)
        al, gam, tol, upd = c.real("alpha", nonneg=True), c.real("gamma", pos=True), c.real("tol", pos=True), c.real("update_gamma", pos=True)
        c.max_iter = c.int("max_iter", 1)
        A, rho, nT = (c.array("A", (d, d), label="A"), c.real("rho", pos=True), c.real("T", nonneg=True)) if aug else (None, 1, 0)
        Xs, y = without(X, r), column(X, r)

        def grad(th):
            g = NS.dot(Xs.T, ew(T.exp, NS.dot(Xs, th)) - y) / n
            if aug:
                Ar = SArr.make(th.vshape, lambda i: A.get((P(r), T.skip(i[0], P(r)))))
                g = g + rho * nT * (th - Ar) / n
            return g

        loss = lambda t: poisson_single(Xs, y, t, n)  # noqa
        bt = Backtrack(loss, grad, upd)

        def it(c, pre, post, k, kind):
            th = pre["theta"]
            o = one(c, "st")
            gm = post["gamma"]
            same(c, "forward-step", o["a"], th - gm * grad(th))
            c.prove("threshold", T.eq(P(o["lamda"]), P(al * gm)))
            same(c, "backward-step", post["theta"], o["out"])
            c.prove("search:accepted-step-decreases-enough", bt.enough(th, post["theta"], gm))
            later = kind == "break" or bool(SBool(T.lt(T.ZERO, P(k))))
            closing(c, pre, post, k, kind, lambda t: loss(t) + al * asum(NS.absolute(t)), tol, later)

        c.loop_spec = ProxGrad(it, bt)
        res = c.fn(X, r, alpha=al, gamma=gam, tol=tol, max_iter=c.max_iter, update_gamma=upd, A=A, T=nT, rho=rho)
        bs = c.break_state
        it(c, bs["pre"], bs["state"], wrap(bs["k"], True), bs["kind"])
        results(c, res)
        frame(c)

    return case


unit("glm:poisson.iteration", GP, "fit_each_variable", stubs=SOFT)(poisson_case(False))


# ------------------------------------------------------------------ estimators
def stub_fit_variable(c, real, *a, **k):
    import inspect

    b = inspect.signature(real).bind(*a, **k)
    b.apply_defaults()
    args = dict(b.arguments)
    X = as_arr(args["X"])
    ix = P(args["ix"])
    nm = c.extra.setdefault("theta_symbol", T.fresh_name("TH"))
    th = SArr.make((T.sub(X.vshape[1], T.ONE),), lambda i: T.app(nm, (ix, i[0])))
    c.extra.setdefault("fits", []).append(args)
    return [th, c.hist, c.chk] if args.get("return_history") else [th]


def stub_adjacency(c, real, neighbours, how="union"):
    d = c.data_shape[1]
    nb = as_arr(neighbours)
    out = c.fresh_array("ADJ", (d, d))
    c.extra.setdefault("adj", []).append((nb, how, out.copy()))
    return out


class Hist(list):
    pass


PASS = {"alpha": "alpha", "tol": "tol", "max_iter": "max_iter"}
ES = {GG + ":fit_each_variable": stub_fit_variable, GP + ":fit_each_variable": stub_fit_variable, GB + ":build_adjacency_matrix": stub_adjacency}


def neighbourhood_case(kind, how, intercept=False):
    def case(c):
        n, d, X = data(c)
        c.hist, c.chk = Hist(), Hist()
        par = dict(alpha=c.real("alpha", pos=True), tol=c.real("tol", pos=True), rtol=c.real("rtol", pos=True), max_iter=c.int("max_iter", 1), reconstruction=how)
        gam = c.real("gamma", pos=True)
        if kind == "poisson":
            est = c.fn(gamma=gam, mode="coordinate_descent", intercept=intercept, **par)
            width = d + 1 if intercept else d
            c.data_shape = (n, width)
            r = est.fit(X)
        else:
            est = c.fn(**par)
            width = d
            c.data_shape = (n, d)
            r = est.fit(X, gamma=gam)
        c.check("fit-returns-the-estimator", r is est)
        if len(c.extra["fits"]) != 1 or len(c.extra["adj"]) != 1:
            raise Unsupported("neighbourhood fits not identified")
        a = c.extra["fits"][0]
        for k, w in dict(alpha=par["alpha"], tol=par["tol"], max_iter=par["max_iter"], gamma=gam).items():
            c.prove("neighbourhood-fit-uses-" + k, T.eq(P(a[k]), P(w)))
        Xa = as_arr(a["X"])
        c.check("data-shape", len(Xa.vshape) == 2 and Xa.vshape[1] == P(width) and Xa.vshape[0] == P(n))
        want = X if not intercept else SArr.make((n, width), lambda i: T.ite(T.lt(i[1], P(d)), X.get(i), T.ONE))
        same(c, "neighbourhood-fit-on-the-data", Xa, want)
        nb, hw, out = c.extra["adj"][0]
        c.check("reconstruction", hw == how)
        nm = c.extra["theta_symbol"]
        c.check("one-neighbourhood-per-variable", nb.vshape[0] == P(width) and nb.ndim == 2)
        c.prove_all("neighbourhoods-in-order", nb.vshape, lambda i, k: T.eq(nb.get((i, k)), T.app(nm, (i, k))))
        same(c, "precision", est.precision_, out)
        same(c, "get_precision", est.get_precision(), out)
        for k, w in par.items():
            c.check("parameters-kept", getattr(est, k) is w or P(getattr(est, k)) == P(w))
        frame(c)

    return case


for how in ("union", "intersection"):
    unit("glm:Gaussian.fit[%s]" % how, GG, "Gaussian_GLM_GM", stubs=ES)(neighbourhood_case("gaussian", how))
    unit("glm:Poisson.fit[%s]" % how, GP, "PoissonGraphicalModel", stubs=ES)(neighbourhood_case("poisson", how))
unit("glm:Poisson.fit[intercept]", GP, "PoissonGraphicalModel", stubs=ES)(neighbourhood_case("poisson", "union", True))


def stub_ising_fit(c, real, *a, **k):
    import inspect

    b = inspect.signature(real).bind(*a, **k)
    b.apply_defaults()
    out = c.fresh_array("ISING", (c.data_shape[1],) * 2)
    c.extra.setdefault("fits", []).append((dict(b.arguments), out.copy()))
    return [out, c.hist, c.chk]


@unit("glm:Ising.fit", GI, "IsingGraphicalModel", stubs={GI + ":_fit": stub_ising_fit})
def _(c):
    n, d, X = data(c)
    c.hist, c.chk = Hist(), Hist()
    c.data_shape = (n, d)
    par = dict(alpha=c.real("alpha", pos=True), tol=c.real("tol", pos=True), max_iter=c.int("max_iter", 1), gamma=c.real("gamma", pos=True))
    est = c.fn(mode="symmetric_fbs", **par)
    c.check("fit-returns-the-estimator", est.fit(X) is est)
    if len(c.extra["fits"]) != 1:
        raise Unsupported("fit not identified")
    a, out = c.extra["fits"][0]
    same(c, "fit-on-the-data", a["X"], X)
    for k, w in par.items():
        c.prove("fit-uses-" + k, T.eq(P(a[k]), P(w)))
    c.check("no-augmentation", a["A"] is None and a["warm_start"] is None)
    same(c, "precision", est.precision_, out)
    same(c, "get_precision", est.get_precision(), out)
    c.check("history", len(est.history) == 2 and est.history[0] is c.hist and est.history[1] is c.chk)
    frame(c)


def logistic_case(how):
    def case(c):
        n, d, X = data(c)
        c.data_shape = (n, d)
        al = c.real("alpha", pos=True)
        est = c.fn(mode="logistic_regression", alpha=al, reconstruction=how)
        c.check("fit-returns-the-estimator", est.fit(X) is est)
        if len(c.extra.get("adj", ())) != 1:
            raise Unsupported("adjacency not identified")
        c.check("verbosity-is-valid", all(isinstance(v, int) and v >= 0 for v in c.extra["logistic"]))
        nb, hw, out = c.extra["adj"][0]
        c.check("reconstruction", hw == how)
        if nb.ndim == 3:
            c.check("one-neighbourhood-per-variable", nb.vshape[1] == T.ONE)
            row = lambda i, k: nb.get((i, T.ZERO, k))
            sh = (nb.vshape[0], nb.vshape[2])
        else:
            row, sh = (lambda i, k: nb.get((i, k))), nb.vshape
        c.check("one-neighbourhood-per-variable", sh[0] == P(d) and sh[1] == T.sub(P(d), T.ONE))
        C = P(1 / al)

        def want(i, k):
            W = without(X, wrap(i))
            col = SArr.make((P(n),), lambda j: X.get((j[0], i)))
            return T.fapp("LOGIT", lam_of(W, 2)(()), lam_of(col, 1)(()), C, k)

        c.prove_all("l1-logistic-regression-of-each-variable-on-the-others", sh, lambda i, k: T.eq(row(i, k), want(i, k)))
        same(c, "precision", est.precision_, out)
        frame(c)

    return case


for how in ("union", "intersection"):
    unit("glm:Ising.logistic[%s]" % how, GI, "IsingGraphicalModel", stubs=ES)(logistic_case(how))


for nm, mod, cls, modes in (("Ising", GI, "IsingGraphicalModel", ("coordinate_descent", "other", "")), ("Poisson", GP, "PoissonGraphicalModel", ("symmetric_fbs", "other", ""))):

    @unit("glm:%s.modes" % nm, mod, cls, stubs=dict(ES, **{GI + ":_fit": stub_ising_fit}))
    def _(c, modes=modes):
        n, d, X = data(c)
        c.data_shape = (n, d)
        for m in modes:
            try:
                c.fn(mode=m).fit(X)
            except ValueError:
                c.ok("unsupported-mode-rejected")
            else:
                c.fail("unsupported-mode-rejected", m)
