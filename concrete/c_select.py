"""C22 stability and clustering of graphs."""
from .core import *


def gen(rng, tier, hints):
    for i in range(60 if tier == "quick" else 600):
        yield dict(seed=int(rng.integers(1 << 30)), K=int(rng.integers(1, 6)), d=int(rng.integers(2, 7)), T=int(rng.integers(0, 4)), p=float(rng.choice([0.1, 0.5, 0.9])), sym=bool(rng.integers(0, 4)))


def graphs(case):
    rng = rng_of(case)
    sh = (case["K"],) + ((case["T"],) if case["T"] else ()) + (case["d"], case["d"])
    g = rng.standard_normal(sh) * (rng.random(sh) < case["p"])
    if case["sym"]:
        g = np.triu(g) + np.swapaxes(np.triu(g, 1), -1, -2)
    return g, rng


class Est:
    def __init__(self, p):
        self.p = p

    def get_precision(self):
        return self.p


@check("C22", "instability", gen)
def _(case):
    from regain.model_selection.stability_optimization import global_instability, upper_bound

    g, _ = graphs(case)
    es = [Est(x.copy()) for x in g]
    i, j = np.triu_indices(case["d"], 1)
    f = (g[..., i, j] != 0).mean(0)
    want = (2 * f * (1 - f)).mean()
    s = frozen(*[e.p for e in es])
    close(global_instability(es), want, "instability", 1e-9, 1e-12)
    close(upper_bound(es), 4 * want * (1 - want), "upper bound", 1e-9, 1e-12)
    unchanged(s, "precision")


@check("C22", "clustering", gen)
def _(case):
    from regain.clustering import compute_distances, get_representative

    g, rng = graphs(dict(case, T=0))
    close(get_representative([x.copy() for x in g]), (g != 0).all(0), "edges of all graphs", 0, 0)
    r = g[: max(1, len(g) - 1)] * (rng.random(g[: max(1, len(g) - 1)].shape) < 0.7)
    want = np.array([[((a != 0) != (b != 0)).sum() / 2 for b in r] for a in g])
    gs, rs = [x.copy() for x in g], [x.copy() for x in r]
    s = frozen(*(gs + rs))
    close(compute_distances(gs, rs), want, "distances", 0, 1e-12)
    unchanged(s, "graph")
