"""Synthetic data (regain.datasets): assembly of the data set, generators, samplers."""
from .c_lasso import *

DB = "regain.datasets.base"
DG = "regain.datasets.gaussian"
DI = "regain.datasets.ising"
DP = "regain.datasets.poisson"


def fresh_models(c, Tn, d):
    th = [c.fresh_array("theta", (d, d)) for _ in range(Tn)]
    ob = [c.fresh_array("thobs", (d, d)) for _ in range(Tn)]
    el = [c.fresh_array("ell", (d, d)) for _ in range(Tn)]
    return th, ob, el


def assembled(c, b, samples, n, d, last):
    """data, X and y hold the samples of every time point, in order."""
    D = as_arr(b["data"])
    X, y = as_arr(b["X"]), as_arr(b["y"])
    Tn = len(samples)
    want = (n, d, Tn) if last else (Tn, n, d)
    c.check("shape:data", len(D.vshape) == 3 and all(P(p) == P(q) for p, q in zip(D.vshape, want)), str(D.vshape))
    c.prove("shape:X", T.band(T.eq(X.vshape[0], P(Tn * n)), T.eq(X.vshape[1], P(d))))
    c.prove("shape:y", T.eq(y.vshape[0], P(Tn * n)))
    i, j = c.int("row", 0), c.int("col", 0)
    c.assume(T.lt(P(i), P(n)))
    c.assume(T.lt(P(j), P(d)))
    ip, jp = P(i), P(j)
    for t, s in enumerate(samples):
        v = as_arr(s).get((ip, jp))
        c.prove("data:samples-of-the-time-point", T.eq(D.get((ip, jp, T.num(t)) if last else (T.num(t), ip, jp)), v))
        r = T.add(T.mul(T.num(t), P(n)), ip)
        c.prove("X:rows-in-time-order", T.eq(X.get((r, jp)), v))
        c.prove("y:time-of-the-row", T.eq(y.get((r,)), T.num(t)))


def gaussian_case(Tn, last, how):
    def case(c):
        n, d, l = c.int("n", 1), c.int("d", 1), c.int("lat", 0)
        th, ob, el = fresh_models(c, Tn, d)
        got = {}

        def gen(n_dim_obs, n_dim_lat, T, **k):
            got.update(k, n_dim_obs=n_dim_obs, n_dim_lat=n_dim_lat, T=T)
            return list(th), list(ob), list(el)

        c.gen = gen
        al = dict(degree=c.int("degree", 1), epsilon=c.real("eps", pos=True), keep_sparsity=True, proportional=False)
        kw = dict(al)
        if how == "default":
            kw.update(update_ell="l1", update_theta="l2", normalize_starting_matrices=True)
            al.update(update_ell="l1", update_theta="l2", normalize_starting_matrices=True)
        else:
            kw.update(mode=gen if how == "callable" else how, extra=c.real("extra"))
            al.update(extra=kw["extra"])
        if last:
            kw["time_on_axis"] = "last"
        b = c.fn(n_samples=n, n_dim_obs=d, n_dim_lat=l, T=Tn, **kw)
        c.check("generator:called-once-with-the-dimensions", got.get("n_dim_obs") is not None and P(got["n_dim_obs"]) == P(d) and P(got["n_dim_lat"]) == P(l) and got["T"] == Tn, str(got)[:200])
        for k, v in al.items():
            c.check("generator:arguments", k in got and (got[k] is v or got[k] == v or P(got[k]) == P(v)), k)
        dr = c.extra.get("draws", [])
        if len(dr) != Tn or any(x[0] != "mvn" for x in dr):
            raise Unsupported("%d draws for %d time points" % (len(dr), Tn))
        for t, (_, (m, S, size), _) in enumerate(dr):
            zero(c, "samples:zero-mean", m)
            same(c, "samples:covariance-inverts-the-observed-precision", S, NS.linalg_np.inv(ob[t]))
            c.prove("samples:number", T.eq(P(size), P(n)))
        assembled(c, b, [x[2] for x in dr], n, d, last)
        for nm, v in (("thetas", th), ("thetas_observed", ob), ("ells", el)):
            a = as_arr(b[nm])
            for t in range(Tn):
                same(c, "models:%s" % nm, a[t], v[t])

    return case


def stub_gen(c, real, *a, **k):
    if a:
        raise Unsupported("positional arguments of a generator")
    k = dict(k)
    k.update(k.pop("kwargs", {}))
    return c.gen(**k)


GEN = {"sin": "make_sin", "fixed_sparsity": "make_fixed_sparsity", "sincos": "make_sin_cos", "fede": "make_fede", "sklearn": "make_sparse_low_rank", "ma": "make_ma_xue_zou", "mak": "make_ma_xue_zou_rand_k"}
for Tn, last, how in ((1, False, "default"), (2, False, "callable"), (3, False, "default"), (2, True, "default"), (3, True, "callable")):
    unit("dataset.gaussian[%s,T=%d%s]" % (how, Tn, ",last" if last else ""), DB, "make_dataset", stubs={DG + ":make_covariance": stub_gen})(gaussian_case(Tn, last, how))
for k, f in GEN.items():
    unit("dataset.gaussian[mode=%s]" % k, DB, "make_dataset", stubs={DG + ":" + f: stub_gen})(gaussian_case(2, False, k))


def stub_theta(c, real, *a, **k):
    c.thkw = k
    return list(c.th)


def stub_sampler(c, real, theta, *a, **k):
    out = c.fresh_array("SMP", (c.n, c.d), dtype="i")
    c.extra.setdefault("smp", []).append((theta, a, k, out.copy()))
    return out


def graph_case(fam, Tn, last):
    def case(c):
        n, d = c.int("n", 1), c.int("d", 1)
        c.n, c.d = n, d
        c.th = [c.fresh_array("theta", (d, d)) for _ in range(Tn)]
        kw = dict(distribution=fam, update_theta="l1", degree=c.int("degree", 1))
        kw.pop("degree")
        if last:
            kw["time_on_axis"] = "last"
        b = c.fn(n_samples=n, n_dim_obs=d, T=Tn, **kw)
        k = c.thkw
        c.check("generator:arguments", P(k.get("n_dim_obs", 0)) == P(d) and k.get("T") == Tn and k.get("mode") == "l1", str(k)[:200])
        smp = c.extra.get("smp", [])
        if len(smp) != Tn:
            raise Unsupported("%d samples for %d time points" % (len(smp), Tn))
        for t, (th, a, k, o) in enumerate(smp):
            same(c, "samples:model-of-the-time-point", th, c.th[t])
            if fam.lower() == "ising":
                z = a[0] if a else k.get("thresholds")
                zero(c, "samples:no-thresholds", z)
                c.prove("samples:number", T.eq(P(k["n"]), P(n)))
                c.check("samples:spins", list(k.get("responses", [0, 1])) == [-1, 1])
            else:
                c.prove("samples:number", T.eq(P(k["n_samples"]), P(n)))
        assembled(c, b, [x[3] for x in smp], n, d, last)
        a = as_arr(b["thetas"])
        for t in range(Tn):
            same(c, "models:thetas", a[t], c.th[t])

    return case


for fam in ("ising", "poisson"):
    st = {DI + ":ising_theta_generator": stub_theta, DI + ":ising_sampler": stub_sampler, DP + ":poisson_theta_generator": stub_theta, DP + ":poisson_sampler": stub_sampler}
    for Tn, last in ((1, False), (2, True), (3, False)):
        unit("dataset.%s[T=%d%s]" % (fam, Tn, ",last" if last else ""), DB, "make_dataset", stubs=st)(graph_case(fam, Tn, last))


@unit("dataset.rejects", DB, "make_dataset")
def _(c):
    for kw in (dict(distribution="exponential"), dict(mode="nothing")):
        try:
            c.fn(n_samples=2, n_dim_obs=2, T=1, **kw)
            c.fail("rejects:unknown-names")
        except ValueError:
            c.check("rejects:unknown-names", True)


# ------------------------------------------------------------------ Ising samplers
for p in (1, 2, 3, 4):

    @unit("ising.energy[%d]" % p, DI, "hamiltonian")
    def _(c, p=p):
        th, s, h = c.array("theta", (p, p), symmetric=True, label="theta"), c.array("s", (p,), label="state"), c.array("h", (p,), label="thresholds")
        r = c.fn(th, s, h)
        e = 0
        for i in range(p):
            e = e - h[i] * s[i]
            for j in range(i):
                e = e - th[i, j] * s[i] * s[j]
        c.prove("energy:every-pair-once", T.eq(P(r), P(e)))
        frame(c)


@unit("ising.conditional", DI, "p_plus")
def _(c):
    p = c.int("p", 1)
    k = c.int("k", 0)
    c.assume(T.lt(P(k), P(p)))
    th, s, h = c.array("theta", (p, p), label="theta"), c.array("s", (p,), label="state"), c.array("h", (p,), label="thresholds")
    b, r0, r1 = c.real("beta"), c.real("r0"), c.real("r1")
    r = c.fn(k, th, s, h, b, [r0, r1])
    j = T.fresh_name("j")
    T.RANGE[j] = P(p)
    sj = T.sym(j, T.INT)
    f = T.add(h.get((P(k),)), T.mk_sum([(j, P(p))], T.ite(T.eq(sj, P(k)), T.ZERO, T.mul(th.get((P(k), sj)), s.get((sj,))))))
    e0, e1 = NS.exp(b * r0 * wrap(f)), NS.exp(b * r1 * wrap(f))
    c.prove("conditional:gibbs-probability", T.eq(P(r), P(e1 / (e0 + e1))))
    frame(c)


def stub_p_plus(c, real, i, theta, state, thresholds, beta, responses):
    r = c.fresh_real("PP")
    c.assume(T.le(T.ZERO, P(r)))
    c.assume(T.le(P(r), T.ONE))
    c.extra.setdefault("pp", []).append(dict(i=i, theta=theta, state=[P(x) for x in state], thresholds=thresholds, beta=beta, responses=list(responses), out=r))
    return r


class Gibbs(LoopSpec):
    def __init__(self, fn):
        self.fn = fn

    def wants(self, c, site, seq):
        return getattr(seq, "length", None) is not None and seq.length == P(c.max_iter)

    def entry(self, c, pre, n):
        self.fn(c, "entry", None, pre)

    def assume(self, c, st, k, n):
        c.extra["pp"], c.extra["draws"] = [], []
        self.fn(c, "assume", None, st)

    def step(self, c, pre, post, k, n):
        self.fn(c, "step", pre, post)


def two(x, r0, r1):
    return T.bor(T.eq(P(x), P(r0)), T.eq(P(x), P(r1)))


def gibbs_case(p, fixed):
    def case(c):
        c.max_iter = c.int("max_iter", 1)
        th, h, b = c.array("theta", (p, p), label="theta"), c.array("h", (p,), label="thresholds"), c.real("beta")
        r0, r1 = c.real("r0"), c.real("r1")
        import sys

        free = -sys.maxsize - 1
        cs = [c.real("c%d" % i) if i in fixed else free for i in range(p)]
        for i in fixed:
            c.assume(T.ne(P(cs[i]), T.num(free)))

        def it(c, kind, pre, st):
            if "state" not in st:
                raise RoleMissing(["state"], sorted(st))
            s = st["state"]
            for i in range(p):
                f = T.eq(P(s[i]), P(cs[i])) if i in fixed else two(s[i], r0, r1)
                if kind == "assume":
                    c.assume(f)
                else:
                    c.prove("gibbs:constrained-variables-kept" if i in fixed else "gibbs:states-are-responses", f)
            if kind != "step":
                return
            pp, us = c.extra["pp"], [x for x in c.extra["draws"] if x[0] == "uniform"]
            todo = [i for i in range(p) if i not in fixed]
            if len(pp) != len(todo) or len(us) != len(todo):
                raise Unsupported("%d conditional probabilities, %d draws for %d variables" % (len(pp), len(us), len(todo)))
            cur = [P(x) for x in pre["state"]]
            for k, i in enumerate(todo):
                q = pp[k]
                c.check("gibbs:every-variable-in-turn", q["i"] == i, str(q["i"]))
                for a, w in zip(q["state"], cur):
                    c.prove("gibbs:conditions-on-the-current-state", T.eq(a, w))
                same(c, "gibbs:model", q["theta"], th)
                same(c, "gibbs:thresholds", q["thresholds"], h)
                c.prove("gibbs:inverse-temperature", T.eq(P(q["beta"]), P(b)))
                c.prove("gibbs:responses", T.band(T.eq(P(q["responses"][0]), P(r0)), T.eq(P(q["responses"][1]), P(r1))))
                c.check("gibbs:uniform-draw", us[k][1] == (0.0, 1.0))
                cur[i] = T.ite(T.lt(P(us[k][2]), P(q["out"])), P(r1), P(r0))
                c.prove("gibbs:draws-from-the-conditional", T.eq(P(s[i]), cur[i]))

        c.loop_spec = Gibbs(it)
        r = c.fn(th, h, b, c.max_iter, [r0, r1], cs)
        bs = c.break_state
        c.check("gibbs:runs-all-iterations", bs["kind"] == "exhausted", bs["kind"])
        for i in range(p):
            c.prove("gibbs:returns-the-last-state", T.eq(P(r[i]), P(bs["state"]["state"][i])))

    return case


for p, fixed in ((1, ()), (2, ()), (3, ()), (3, (1,)), (2, (0, 1))):
    unit("ising.gibbs[%d%s]" % (p, "".join(",fixed %d" % i for i in fixed)), DI, "ising_metropolis_hastings", stubs={DI + ":p_plus": stub_p_plus})(gibbs_case(p, fixed))


def stub_mh(c, real, graph, thresholds, beta, max_iter, responses, constraints):
    out = c.fresh_array("MH", (c.p,))
    c.extra.setdefault("mh", []).append((graph, thresholds, beta, max_iter, list(responses), as_arr(constraints).copy(), out.copy()))
    return out


def sampler_case(n, con):
    def case(c):
        c.p = c.int("p", 1)
        th, h, b = c.array("theta", (c.p, c.p), symmetric=True), c.array("h", (c.p,)), c.real("beta")
        t0 = th.copy()
        r0, r1, mi = c.real("r0"), c.real("r1"), c.int("max_iter", 1)
        C = c.array("C", (n, c.p)) if con else None
        r = c.fn(th, h, n=n, beta=b, max_iter=mi, responses=[r0, r1], constraints=C)
        mh = c.extra.get("mh", [])
        if not c.check("sampler:one-chain-per-sample", len(mh) == n, "%d" % len(mh)):
            return
        import sys

        free = SArr.make((P(c.p),), lambda i: T.num(-sys.maxsize - 1))
        R = as_arr(r)
        c.check("sampler:matrix-of-samples", len(R.vshape) == 2 and R.vshape[0] == T.num(n) and R.vshape[1] == P(c.p), str(R.vshape))
        for s, (g, hh, bb, m, rs, cc, out) in enumerate(mh):
            g = as_arr(g)
            c.prove_all("sampler:model", g.vshape, lambda i, j: T.implies(T.ne(i, j), T.eq(g.get((i, j)), t0.get((i, j)))))
            same(c, "sampler:thresholds", hh, h)
            c.prove("sampler:parameters", T.band(T.eq(P(bb), P(b)), T.eq(P(m), P(mi)), T.eq(P(rs[0]), P(r0)), T.eq(P(rs[1]), P(r1))))
            same(c, "sampler:constraints-of-the-sample", cc, C[s] if con else free)
            same(c, "sampler:rows-are-the-samples", R[s], out)

    return case


for n in (1, 2, 3):
    unit("ising.sampler[n=%d%s]" % (n, ",constraints" if n == 2 else ""), DI, "ising_sampler", stubs={DI + ":ising_metropolis_hastings": stub_mh})(sampler_case(n, n == 2))


# ------------------------------------------------------------------ evolution of the graphs
class Redraw(LoopSpec):
    """Redraws the candidate edges: the index vectors always hold valid indices."""

    def __init__(self, no, d):
        self.no, self.d = no, d

    def wants_while(self, c, site):
        return True

    def vectors(self, st):
        v = [x for x in st.values() if isinstance(x, SArr) and len(x.vshape) == 1 and x.vshape[0] == T.num(self.no)]
        if len(v) != 2:
            raise RoleMissing(["rows", "cols"], sorted(st))
        return v

    def inside(self, st):
        return [T.band(T.le(T.ZERO, P(v[k])), T.lt(P(v[k]), T.num(self.d))) for v in self.vectors(st) for k in range(self.no)]

    def entry(self, c, pre, n):
        for f in self.inside(pre):
            c.prove("update:valid-indices", f)

    def assume(self, c, st, k, n):
        for f in self.inside(st):
            c.assume(f)

    def step(self, c, pre, post, k, n):
        for f in self.inside(post):
            c.prove("update:valid-indices", f)


def l1_case(fam, d, no):
    def case(c):
        G = c.array("G", (d, d), label="G")
        for i in range(d):
            for j in range(i):
                c.assume(T.eq(P(G[i, j]), P(G[j, i])))
        g0 = G.copy()
        c.loop_spec = Redraw(no, d)
        r = c.fn(G, no, d)
        R = as_arr(r)
        bs = c.break_state["state"]
        rows, cols = c.loop_spec.vectors(bs)
        hit = lambda i, j: T.bor(*[T.bor(T.band(T.eq(P(rows[k]), T.num(i)), T.eq(P(cols[k]), T.num(j))), T.band(T.eq(P(rows[k]), T.num(j)), T.eq(P(cols[k]), T.num(i)))) for k in range(no)])  # noqa
        for i in range(d):
            for j in range(d):
                v, o = R.get((T.num(i), T.num(j))), g0.get((T.num(i), T.num(j)))
                c.prove("update:symmetric", T.eq(v, R.get((T.num(j), T.num(i)))))
                if i == j:
                    c.prove("update:diagonal-kept", T.eq(v, o))
                else:
                    c.prove("update:changes-only-the-accepted-edges", T.implies(T.ne(v, o), hit(i, j)))
                    vals = [T.eq(v, o), T.eq(v, T.ZERO)]
                    if fam == "ising":
                        vals += [T.band(T.eq(o, T.ZERO), T.bor(T.eq(v, T.ONE), T.eq(v, T.num(-1))))]
                        if no > 1:
                            continue
                    c.prove("update:removes-or-adds-edges", T.bor(*vals))
        frame(c)

    return case


for fam, mod, fn in (("ising", DI, "update_ising_l1"), ("poisson", DP, "update_l1")):
    for d, no in ((2, 1), (3, 1), (3, 2)):
        unit("%s.update[%d,%d]" % (fam, d, no), mod, fn)(l1_case(fam, d, no))


def direct_case(p):
    def case(c):
        th, h, b = c.array("theta", (p, p)), c.array("h", (p,)), c.real("beta")
        for i in range(p):
            for j in range(i):
                c.assume(T.eq(P(th[i, j]), P(th[j, i])))
        r0, r1 = c.real("r0"), c.real("r1")
        n = 2
        r = c.fn(th, h, n=n, beta=b, responses=[r0, r1])
        ch = [x for x in c.extra.get("draws", []) if x[0] == "choice"]
        ham = c.extra.get("ham", [])
        import itertools

        states = list(itertools.product((r0, r1), repeat=p))
        if len(ham) != len(states) or len(ch) != 1:
            raise Unsupported("%d energies, %d draws" % (len(ham), len(ch)))
        for want, (g, s, hh, e) in zip(states, ham):
            for a, w in zip(s, want):
                c.prove("direct:all-states", T.eq(P(a), P(w)))
            same(c, "direct:model", g, th)
            same(c, "direct:thresholds", hh, h)
        (opts, size, replace, prob), out = ch[0][1], ch[0][2]
        c.check("direct:independent-draws", replace is True)
        c.prove("direct:number", T.eq(P(size), T.num(n)))
        ws = [NS.exp(-b * x[3]) for x in ham]
        tot = NS.sum_(NS.exp(-b * NS.array([x[3] for x in ham])))
        pr = as_arr(prob)
        for k, w in enumerate(ws):
            c.prove("direct:boltzmann-probabilities", T.eq(P(pr[k]), P(w / tot)))
        R = as_arr(r)
        c.check("direct:matrix-of-samples", len(R.vshape) == 2 and R.vshape[0] == T.num(n) and R.vshape[1] == T.num(p), str(R.vshape))
        o = as_arr(out)
        for s in range(n):
            for k, st in enumerate(states):
                for i in range(p):
                    c.prove("direct:rows-are-the-drawn-states", T.implies(T.eq(P(o[s]), T.num(k)), T.eq(P(R[s, i]), P(st[i]))))

    return case


def stub_ham(c, real, theta, state, thresholds):
    e = c.fresh_real("HAM")
    c.extra.setdefault("ham", []).append((theta, list(state), thresholds, e))
    return e


for p in (1, 2):
    unit("ising.direct[%d]" % p, DI, "direct_sampling", stubs={DI + ":hamiltonian": stub_ham})(direct_case(p))


# ------------------------------------------------------------------ Gaussian models
def decomposed(c, r, Tn):
    """(thetas, thetas_observed, ells): T of each, observed = theta - ell at every time."""
    th, ob, el = r
    for nm, v in (("thetas", th), ("observed", ob), ("ells", el)):
        c.check("models:one-per-time-point", len(v) == Tn, "%s: %d" % (nm, len(v)))
    for t in range(Tn):
        same(c, "models:observed-is-theta-minus-ell", ob[t], as_arr(th[t]) - as_arr(el[t]))
    return th, ob, el


def stub_starting(c, real, n_dim_obs=100, n_dim_lat=10, degree=2, normalize=False, eps=1e-2):
    c.start_args = (n_dim_obs, n_dim_lat, degree, normalize)
    d = n_dim_obs
    th, L, K = c.fresh_array("theta0", (d, d), symmetric=True), c.fresh_array("L0", (d, d), symmetric=True), c.fresh_array("K0", (n_dim_lat, d))
    c.start = (th.copy(), L.copy(), K.copy())
    return th, th - L, L, K


def stub_upd(c, real, **k):
    theta_old = k.get("theta_old", k.get("theta_init"))
    if theta_old is None:
        raise Unsupported("parameters of a theta update")
    out = c.fresh_array("theta", (c.d, c.d), symmetric=True)
    c.extra.setdefault("upd", []).append((as_arr(theta_old).copy(), out.copy()))
    return out


def stub_upd_ell(c, real, K_HO_old, epsilon, n_dim_obs):
    K, L = c.fresh_array("K", (c.l, c.d)), c.fresh_array("L", (c.d, c.d), symmetric=True)
    c.extra.setdefault("ell", []).append((as_arr(K_HO_old).copy(), L.copy(), K.copy()))
    return L, K


def stub_true(c, real, *a, **k):
    return True


def stub_either(c, real, *a, **k):
    return bool(SBool(T.bapp(T.fresh_name("PD"))))


def cov_case(Tn, ut, ue):
    def case(c):
        d, l = c.int("d", 1), c.int("lat", 1)
        c.d, c.l = d, l
        deg, eps, nrm = c.int("degree", 1), c.real("eps", pos=True), True
        try:
            r = c.fn(d, l, Tn, update_ell=ue, update_theta=ut, normalize_starting_matrices=nrm, degree=deg, epsilon=eps)
        except AssertionError:  # a latent part of another rank is refused
            return
        a = c.start_args
        c.check("models:starting-dimensions", P(a[0]) == P(d) and P(a[1]) == P(l) and P(a[2]) == P(deg) and a[3] is True, str(a))
        th, ob, el = decomposed(c, r, Tn)
        same(c, "models:starts-from-the-starting-model", th[0], c.start[0])
        same(c, "models:starts-from-the-starting-latent", el[0], c.start[1])
        up = c.extra.get("upd", [])
        if len(up) != Tn - 1:
            raise Unsupported("%d updates of theta" % len(up))
        for t, (old, new) in enumerate(up):
            same(c, "models:updates-the-previous-time", old, th[t])
            i, j = T.fresh_name("i"), T.fresh_name("j")
            R = as_arr(th[t + 1])
            c.prove_all("models:update-plus-a-diagonal", R.vshape, lambda i, j: T.implies(T.ne(i, j), T.eq(R.get((i, j)), new.get((i, j)))))
        eu = c.extra.get("ell", [])
        if ue == "fixed":
            for t in range(1, Tn):
                same(c, "models:fixed-latent", el[t], c.start[1])
        else:
            if len(eu) != Tn - 1:
                raise Unsupported("%d updates of ell" % len(eu))
            for t, (old, L, K) in enumerate(eu):
                same(c, "models:updates-the-previous-latent", old, c.start[2] if t == 0 else eu[t - 1][2])
                same(c, "models:latent-of-the-update", el[t + 1], L)

    return case


RU = "regain.utils"
GS = {DG + ":make_starting": stub_starting, DG + ":_update_theta_l1": stub_upd, DG + ":_update_theta_l2": stub_upd, DG + ":_update_ell_l2": stub_upd_ell, RU + ":is_pos_def": stub_either, RU + ":is_pos_semidef": stub_true}
for Tn, ut, ue in ((1, "l1", "fixed"), (3, "l1", "fixed"), (2, "l2", "fixed"), (3, "l2", "l2"), (2, "l1", "l2")):
    unit("models.covariance[T=%d,%s,%s]" % (Tn, ut, ue), DG, "make_covariance", stubs=GS)(cov_case(Tn, ut, ue))


@unit("models.covariance.rejects", DG, "make_covariance", stubs=GS)
def _(c):
    c.d = c.l = 2
    for kw in (dict(update_theta="l3"), dict(update_ell="l3")):
        try:
            c.fn(2, 2, 2, **kw)
            c.fail("models:rejects-unknown-updates")
        except ValueError:
            c.check("models:rejects-unknown-updates", True)


# ---------------------------------------------------------------- Poisson counts
def unroll(x):
    """sums over finitely many values written out."""
    import itertools

    out = T.ZERO
    for mono, k in x.t.items():
        t = T.scale(T.ONE, k)
        for a, e in mono:
            if a.kind == "sum" and e == 1 and all(d.const() is not None for d in a.data[1]):
                bv, dims, b = a.data
                f = T.ZERO
                for q in itertools.product(*[range(int(d.const())) for d in dims]):
                    f = T.add(f, unroll(T.subst(b, {v: T.num(j) for v, j in zip(bv, q)})))
            else:
                f = T.power(T.patom(a), e)
            t = T.mul(t, f)
        out = T.add(out, t)
    return out


def sampler_case(p, edges):
    def case(c):
        c.extra["observed"] = set()  # positions of a constant graph are decided
        n = c.int("n", 1)
        lam, noise = c.real("lam", pos=True), c.real("noise", pos=True)
        on = lambda i, j: (min(i, j), max(i, j)) in edges  # noqa
        theta = as_arr([[1 if i != j and on(i, j) else 0 for j in range(p)] for i in range(p)]).copy()
        X = as_arr(c.fn(theta, n_samples=n, _lambda=lam, _lambda_noise=noise))
        c.check("counts:shape", len(X.vshape) == 2 and X.vshape[0] == P(n) and X.vshape[1].const() == p, str(X.vshape))
        s = T.sym(T.fresh_name("s"), T.INT)
        rest = [unroll(X.get((s, T.num(v)))) for v in range(p)]
        used, shared = [], []
        for kind, args, out in c.extra.get("draws", []):
            if not c.check("counts:poisson", kind == "poisson", kind):
                return
            o, rate = as_arr(out), P(args[0]) if as_arr(args[0]).ndim == 0 else None
            if rate is None or o.ndim not in (1, 2) or o.vshape[0] != P(n):
                raise Unsupported("draws of another shape")
            for k in range(1 if o.ndim == 1 else int(o.vshape[1].const())):
                t = o.get((s,) if o.ndim == 1 else (s, T.num(k)))
                where = []
                for v in range(p):
                    if len(T.sub(rest[v], t).t) < len(rest[v].t):
                        rest[v] = T.sub(rest[v], t)
                        where.append(v)
                shared.append((tuple(where), rate))
        for v in range(p):
            c.prove("counts:sums-of-draws", T.eq(rest[v], T.ZERO))
        want = [((v,), lam) for v in range(p)] + [((v,), noise) for v in range(p)] + [(e, lam) for e in edges]
        c.check("counts:one-shared-count-per-edge", sorted(w for w, _ in shared) == sorted(w for w, _ in want), str(sorted(w for w, _ in shared)))
        for e, r in shared:
            if len(e) == 2:
                c.prove("counts:rate-of-an-edge", T.eq(r, P(lam)))
        for v in range(p):
            rs = [r for e, r in shared if e == (v,)]
            if len(rs) == 2:
                c.prove("counts:own-rate-and-noise", T.bor(*[T.band(T.eq(rs[a], P(lam)), T.eq(rs[1 - a], P(noise))) for a in (0, 1)]))
        frame(c)

    return case


for _p, _e in ((2, []), (2, [(0, 1)]), (3, []), (3, [(0, 1)]), (3, [(0, 2)]), (3, [(0, 1), (1, 2)]), (3, [(0, 1), (0, 2), (1, 2)]), (4, [(0, 3), (1, 2)])):
    unit("poisson.sampler[%d,%s]" % (_p, " ".join("%d%d" % e for e in _e) or "no edge"), DP, "poisson_sampler")(sampler_case(_p, _e))


# ---------------------------------------------------------------- evolution of the graphs
def stub_update(c, real, G, how_many, n_dim_obs):
    """contract of the update (proved above): symmetric, the diagonal kept, the argument not written."""
    g = as_arr(G)
    o = c.fresh_array("UPD", g.vshape, symmetric=True)
    r, q = o.reader(), g.copy().rnum()
    out = SArr.make(g.vshape, lambda i: T.ite(T.eq(i[0], i[1]), q(i), r(i))).copy()
    c.extra.setdefault("upd", []).append((g.copy(), P(how_many), P(n_dim_obs), out.copy()))
    return out


def stub_update_ising(c, real, theta_init, no, n_dim_obs, responses=None):
    return stub_update(c, real, theta_init, no, n_dim_obs)


def evolution_case(fam, kind, Tn):
    def case(c):
        d, k = c.int("d", 1), c.int("k", 1)
        pr, m = c.real("probability"), c.int("degree", 1)
        kw = {"change" if fam == "ising" else "n_to_change": k}
        r = c.fn(n_dim_obs=d, T=Tn, mode="l1", random_graph=kind, probability=pr, degree=m, **kw)
        r = list(r)
        g, u = c.extra.get("nx", []), c.extra.get("upd", [])
        if not c.check("graphs:one-start-and-one-update-per-time", len(g) == 1 and len(u) == Tn - 1 and len(r) == Tn, "%d starts, %d updates, %d graphs" % (len(g), len(u), len(r))):
            return
        c.check("graphs:kind", g[0][0] == kind, g[0][0])
        c.prove("graphs:size", T.eq(g[0][1], P(d)))
        for name, v in (("p", pr), ("m", m), ("k", m)):
            if name in g[0][2]:
                c.prove("graphs:parameter", T.eq(P(g[0][2][name]), P(v)))
        same(c, "graphs:starts-from-the-random-graph", r[0], g[0][3])
        for t, (src, no, n, out) in enumerate(u):
            same(c, "graphs:evolves-from-the-previous", src, as_arr(r[t]))
            same(c, "graphs:keeps-the-update", r[t + 1], out)
            c.prove("graphs:edges-to-change", T.eq(no, P(k)))
            c.prove("graphs:update-size", T.eq(n, P(d)))
        for x in r:
            x = as_arr(x)
            c.prove_all("graphs:symmetric", x.vshape, lambda i, j: T.eq(x.get((i, j)), x.get((j, i))))
            c.prove_all("graphs:zero-diagonal", x.vshape[:1], lambda i: T.eq(x.get((i, i)), T.ZERO))

    return case


for _f, _m, _fn in (("ising", DI, "ising_theta_generator"), ("poisson", DP, "poisson_theta_generator")):
    for _k, _T in (("erdos-renyi", 3), ("scale-free", 1), ("scale-free", 2), ("small-world", 2)):
        unit("models.graphs[%s,%s,T=%d]" % (_f, _k, _T), _m, _fn, {DI + ":update_ising_l1": stub_update_ising, DP + ":update_l1": stub_update})(evolution_case(_f, _k, _T))
