"""C11 forward-backward splitting."""
from .core import *
from . import ref


def ld(K):
    s, l = np.linalg.slogdet(K)
    return np.where(s > 0, l, -np.inf)


class Problem:
    """smooth part f, penalty g, gradient and proximal step written out from the documentation."""

    def __init__(self, S, alpha, beta, ns, lap, p, vareps):
        self.S, self.al, self.be, self.lap, self.p, self.ve = S, alpha, beta, lap, p, vareps
        self.ns = np.ones(len(S)) if ns is None else np.asarray(ns, dtype=float)

    def f(self, K):
        v = (self.ns * (np.einsum("tij,tij->t", self.S, K) - ld(K))).sum() + self.ve / 2 * (K * K).sum()
        return v + self.be * (np.diff(K, axis=0) ** 2).sum() if self.lap else v

    def g(self, K):
        off = 1 - np.eye(K.shape[1])
        v = self.al * np.abs(K * off).sum()
        if not self.lap:
            D = np.diff(K, axis=0)
            v += self.be * (np.linalg.norm(D.reshape(len(D), -1), axis=0, ord=self.p).sum() if len(D) else 0.0)
        return v

    def grad(self, K):
        G = self.ns[:, None, None] * (self.S - np.linalg.inv(K)) + self.ve * K
        if self.lap:
            D = np.diff(K, axis=0)
            G[:-1] -= 2 * self.be * D
            G[1:] += 2 * self.be * D
        return G

    def prox(self, A, gamma):
        if self.lap:
            return ref.st_od(A, self.al * gamma)
        import prox_tv

        Y = prox_tv.tvgen(np.array(A, order="C"), [self.be * gamma], [1], [self.p], n_threads=1, max_iters=30)
        return ref.st_od(Y, self.al * gamma)


def pd(K):
    return bool((np.linalg.eigvalsh((K + K.transpose(0, 2, 1)) / 2) > 0).all())


class Tie(Exception):
    pass


def surely_pd(x):
    ev = np.linalg.eigvalsh(x)
    if np.abs(ev).min() < 1e-7:
        raise Tie
    return bool((ev > 0).all())


def decide(lhs, rhs):
    """lhs <= rhs, unless it is a tie up to rounding."""
    if not (np.isfinite(lhs) and np.isfinite(rhs)):
        return bool(lhs <= rhs)
    if abs(lhs - rhs) <= 1e-7 * (1 + abs(lhs) + abs(rhs)):
        raise Tie
    return bool(lhs <= rhs)


def gen(rng, tier, hints):
    for i in range(90 if tier == "quick" else 600):
        yield dict(seed=int(rng.integers(1 << 30)), d=int(rng.integers(2, 5)), T=int(rng.integers(2, 6)), alpha=float(rng.uniform(0.01, 0.6)), beta=float(rng.uniform(0.01, 1.0)),
                   choose=["gamma", "lamda", "fixed", "both"][i % 4], lap=bool((i // 4) % 2), p=1, ns=bool((i // 2) % 3), gamma=float(rng.choice([0.05, 0.3, 1.0])), lamda=float(rng.choice([1.0, 0.7, 1.6, 0.2])),
                   eps=float(rng.choice([0.5, 0.8])), delta=float(rng.choice([1e-4, 0.1])), crit="abc"[(i // 3) % 3], iters=int(rng.integers(1, 6)), vareps=float(rng.choice([0.0, 1e-5, 0.1])), layout=LAYOUTS[(i // 5) % 5])


def problem(c):
    rng = rng_of(c)
    S = layout(np.array([cov(rng, c["d"]) for _ in range(c["T"])]), c["layout"])
    ns = rng.integers(1, 6, c["T"]) if c["ns"] else None
    return S, ns, Problem(S, c["alpha"], c["beta"], ns, c["lap"], c["p"], c["vareps"])


@check("C11 C19", "pieces", gen)
def pieces(c):
    """loss, gradient (also against differences), penalty, objective; the two line searches."""
    import regain.forward_backward.forward_backward as fb
    import regain.forward_backward.time_graphical_lasso_ as m
    from functools import partial
    from regain.norm import vector_p_norm

    S, ns, pr = problem(c)
    rng = rng_of(dict(seed=c["seed"] + 1))
    K = np.array([spd(rng, c["d"]) for _ in range(c["T"])])
    fz = frozen(S, K) + (frozen(ns) if ns is not None else [])
    ve, be, al = c["vareps"], c["beta"], c["alpha"]
    psi = partial(vector_p_norm, p=c["p"])
    with quiet():
        if c["lap"]:
            f = partial(m.loss_laplacian, beta=be, n_samples=ns, S=S, vareps=ve)
            gr = partial(m.grad_loss_laplacian, emp_cov=S, beta=be, n_samples=ns, vareps=ve)
            g = partial(m.penalty_laplacian, alpha=al)
            ob = partial(m.objective_laplacian, n_samples=ns, emp_cov=S, alpha=al, beta=be, vareps=ve)
        else:
            f = partial(m.loss, n_samples=ns, S=S, vareps=ve)
            gr = partial(m.grad_loss, emp_cov=S, n_samples=ns, vareps=ve)
            g = partial(m.penalty, alpha=al, beta=be, psi=psi)
            ob = partial(m.objective, n_samples=ns, emp_cov=S, alpha=al, beta=be, psi=psi, vareps=ve)
        close(f(K=K), pr.f(K), "smooth part of the objective")
        close(g(K), pr.g(K), "penalty")
        close(ob(precision=K), pr.f(K) + pr.g(K), "objective")
        G = gr(K)
        close(G, pr.grad(K), "gradient")
        close(gr(K, x_inv=np.linalg.inv(K)), pr.grad(K), "gradient with the inverse given")
        unchanged(fz)
        H = rng.standard_normal(K.shape)
        H = H + H.transpose(0, 2, 1)
        h = 1e-5
        close((f(K=K + h * H) - f(K=K - h * H)) / (2 * h), (G * H).sum(), "directional derivative of the smooth part", rtol=1e-4, atol=1e-5)
        # line searches: what is accepted is accepted for the right reason, what is rejected is not acceptable
        for ch in ("gamma", "both"):
            g0 = float(rng.choice([0.01, 0.2, 1.0, 5.0]))
            try:
                w = g0
                for _ in range(60):
                    y = pr.prox(K - w * G, w)
                    D = y - K
                    if ch == "gamma":
                        ok = decide(pr.f(K + c["lamda"] * D) - pr.f(K), c["lamda"] * ((D * G).sum() + c["delta"] / w * (D * D).sum())) and surely_pd(K + c["lamda"] * D)
                    else:
                        ev = np.linalg.eigvalsh(y)
                        if np.abs(ev).min() < 1e-6:
                            raise Tie
                        ok = bool((ev > 0).all())
                    if ok:
                        break
                    w *= c["eps"]
                gam, out = fb.choose_gamma(g0, K, be, al, c["lamda"], G, function_f=f, delta=c["delta"], eps=c["eps"], max_iter=60, p=c["p"], choose=ch, laplacian_penalty=c["lap"])
                if ok:
                    close(gam, w, "step accepted by the gamma line search (%s)" % ch, rtol=1e-9)
                    close(out, y, "point returned by the gamma line search (%s)" % ch)
            except Tie:
                pass
        y = pr.prox(K - c["gamma"] * G, c["gamma"])
        try:
            la, cnt = lamda_ref(pr, K, G, y, c, c["lamda"])
            if cnt is not None:
                got = fb.choose_lamda(c["lamda"], K, c["gamma"], delta=c["delta"], eps=c["eps"], function_f=f, objective_f=ob, gradient_f=gr, function_g=g, max_iter=60, criterion=c["crit"], p=c["p"], grad=G, prox=y)
                close(got[0], la, "step accepted by the lambda line search (%s)" % c["crit"], rtol=1e-9)
                need(got[1] == cnt, "lambda line search reports %r iterations, made %r" % (got[1], cnt))
        except Tie:
            pass
    unchanged(fz)


def lamda_ref(pr, K, G, y, c, la, gamma=None, crit=None, max_iter=60):
    gamma = c["gamma"] if gamma is None else gamma
    crit = crit or c["crit"]
    D = y - K
    if np.abs(D).max() < 1e-9:
        raise Tie
    for i in range(max_iter):
        x1 = K + la * D
        if crit == "a":
            if np.abs(np.linalg.det(x1)).min() < 1e-9:
                raise Tie
            d = pr.grad(x1) - G
            ok = decide(np.sqrt((d * d).sum()), c["delta"] * np.sqrt((D * D).sum()) * la / (gamma * la))
        elif crit == "b":
            ev = np.linalg.eigvalsh(x1)
            if np.abs(ev).min() < 1e-7:
                raise Tie
            ok = decide(pr.f(x1) - pr.f(K), la * ((D * G).sum() + c["delta"] / gamma * (D * D).sum())) and bool((ev > 0).all())
        else:
            ok = decide(pr.f(x1) + pr.g(x1) - pr.f(K) - pr.g(K), la * (1 - c["delta"]) * (pr.g(y) - pr.g(K) + (D * G).sum()))
        if ok:
            return la, i + 1
        la *= c["eps"]
    return la, None


@check("C11 C19", "run", gen)
def run(c):
    """a short run equals the documented iteration."""
    from regain.forward_backward.time_graphical_lasso_ import tgl_forward_backward

    S, ns, pr = problem(c)
    if c["choose"] == "fixed":
        c = dict(c, gamma=0.02)
    fz = frozen(S) + (frozen(ns) if ns is not None else [])
    K = ref.init_prec(S, "empirical")
    gam, la = c["gamma"], c["lamda"]
    obj, nls = [], 0
    K0 = K
    try:
        with quiet():
            for it in range(c["iters"]):
                if not pd(K) or np.linalg.cond(K).max() > 1e8:
                    raise Skip
                G = pr.grad(K)
                if c["choose"] in ("gamma", "both"):
                    gam = gam / c["eps"] if it else gam
                    for _ in range(200):
                        y = pr.prox(K - gam * G, gam)
                        D = y - K
                        if c["choose"] == "gamma":
                            ok = decide(pr.f(K + la * D) - pr.f(K), la * ((D * G).sum() + c["delta"] / gam * (D * D).sum())) and surely_pd(K + la * D)
                        else:
                            ev = np.linalg.eigvalsh(y)
                            if np.abs(ev).min() < 1e-6:
                                raise Tie
                            ok = bool((ev > 0).all())
                        if ok:
                            break
                        gam *= c["eps"]
                    else:
                        raise Skip
                else:
                    y = pr.prox(K - gam * G, gam)
                if c["choose"] in ("lamda", "both"):
                    la, cnt = lamda_ref(pr, K, G, y, c, min(la / c["eps"] if it else la, 1), gam, max_iter=200)
                    if cnt is None:
                        raise Skip
                    nls += cnt
                if np.abs(y - K).max() < 1e-10:
                    raise Skip
                K = K + min(max(la, 0), 1) * (y - K)
                obj.append(pr.f(K) + pr.g(K))
    except (Tie, np.linalg.LinAlgError):
        raise Skip
    with quiet() as w:
        r = tgl_forward_backward(S, alpha=c["alpha"], beta=c["beta"], max_iter=c["iters"], n_samples=ns, tol=0, delta=c["delta"], gamma=c["gamma"], lamda=c["lamda"], eps=c["eps"], return_history=True,
                                 return_n_iter=True, choose=c["choose"], lamda_criterion=c["crit"], time_norm=c["p"], return_n_linesearch=True, vareps=c["vareps"], laplacian_penalty=c["lap"])
    need(len(r) == 5, "returned %d values" % len(r))
    need(r[3] == c["iters"], "n_iter is %r after %d iterations" % (r[3], c["iters"]))
    need(len(r[2]) == c["iters"] + 1, "%d history entries for %d iterations" % (len(r[2]), c["iters"]))
    need(any("converge" in str(x.message) for x in w), "no warning although the iteration budget ran out")
    need(r[4] == nls, "%r line-search iterations reported, %r made" % (r[4], nls))
    close(r[0], K, "iterate after %d iterations (choose=%s)" % (c["iters"], c["choose"]), rtol=1e-5)
    close([x.obj for x in r[2][1:]], obj, "objective history", rtol=1e-5)
    close(r[2][0].obj, pr.f(K0) + pr.g(K0), "objective of the start", rtol=1e-5)
    if pd(K):
        close(r[1], np.linalg.inv(K), "covariance", rtol=1e-4)
    if c["choose"] == "gamma":
        # monotone because every step was accepted and the penalty is convex
        o = [pr.f(K0) + pr.g(K0)] + obj
        need(all(b <= a + 1e-6 * (1 + abs(a)) for a, b in zip(o, o[1:])) or c["p"] != 1 or c["lamda"] > 1, "objective increases: %s" % o)
    unchanged(fz)


def gen_c(rng, tier, hints):
    for i in range(12 if tier == "quick" else 60):
        yield dict(seed=int(rng.integers(1 << 30)), d=int(rng.integers(2, 5)), T=int(rng.integers(2, 5)), alpha=float(rng.uniform(0.02, 0.4)), beta=float(rng.uniform(0.02, 0.6)), lap=bool(i % 2), p=1, ns=False, vareps=0.0, layout="C")


@check("C11", "solution", gen_c)
def solution(c):
    """a converged run is stationary: another proximal-gradient step leaves it where it is."""
    from regain.forward_backward.time_graphical_lasso_ import tgl_forward_backward

    S, ns, pr = problem(c)
    with quiet() as w:
        K, C, h, n = tgl_forward_backward(S, alpha=c["alpha"], beta=c["beta"], max_iter=800, tol=1e-6, delta=0.45, gamma=0.1, vareps=0, laplacian_penalty=c["lap"], return_history=True)
    if any("converge" in str(x.message) for x in w):
        raise Skip
    need(pd(K), "converged precision is not positive definite")
    need(n == len(h) - 1, "n_iter %r, %d history entries" % (n, len(h)))
    g = 1e-2 / np.linalg.norm(np.linalg.inv(K), axis=(1, 2)).max() ** 2
    step = np.abs(pr.prox(K - g * pr.grad(K), g) - K).max() / g
    need(step < 5e-3, "proximal-gradient residual %.3g at the returned solution" % step)


def gen_r(rng, tier, hints):
    for b in ("lambda", "", "other", "Gamma"):
        yield dict(bad=b)


@check("C11", "rejects", gen_r)
def rejects(c):
    import regain.forward_backward.forward_backward as fb
    from regain.forward_backward.time_graphical_lasso_ import tgl_forward_backward

    for fn in (lambda: tgl_forward_backward(np.array([np.eye(2)] * 2), choose=c["bad"], max_iter=2),
               lambda: fb.choose_lamda(1.0, np.array([np.eye(2)] * 2), 1.0, function_f=lambda K: 0.0, criterion=c["bad"], grad=np.zeros((2, 2, 2)), prox=np.array([2 * np.eye(2)] * 2))):
        try:
            with quiet():
                fn()
        except ValueError:
            continue
        raise Bad("%r accepted" % c["bad"])
