"""Stability of graphs, clustering of graphs, discriminant analysis."""
from .c_datasets import *

MS = "regain.model_selection.stability_optimization"
CL = "regain.clustering"


class Fitted:
    def __init__(self, p):
        self.p = p

    def get_precision(self):
        return self.p


def nz(a, i, j):
    return T.ite(T.ne(a.get((i, j)), T.ZERO), T.ONE, T.ZERO)


def sum2(d, f):
    i, j = T.fresh_name("i"), T.fresh_name("j")
    T.RANGE[i] = T.RANGE[j] = P(d)
    return T.mk_sum([(i, P(d)), (j, P(d))], f(T.sym(i, T.INT), T.sym(j, T.INT)))


def edge(a, *i):
    return T.ite(T.ne(as_arr(a).get(tuple(T.num(k) for k in i)), T.ZERO), T.ONE, T.ZERO)


def pairs(d, Tn):
    return [((t,) if Tn else ()) + (i, j) for t in range(Tn or 1) for i in range(d) for j in range(i + 1, d)]


def instability(ps, d, Tn):
    tot, cnt = T.ZERO, 0
    K = Fraction(1, len(ps))
    for t in range(Tn or 1):
        for i in range(d):
            for j in range(i + 1, d):
                f = T.ZERO
                for p in ps:
                    f = T.add(f, edge(p, *(((t,) if Tn else ()) + (i, j))))
                f = T.mul(T.num(K), f)
                tot = T.add(tot, T.mul(T.num(2), T.mul(f, T.sub(T.ONE, f))))
                cnt += 1
    return T.mul(T.num(Fraction(1, cnt)), tot)


def stab_case(K, d, Tn, what):
    def case(c):
        ps = [c.array("P%d" % k, ((Tn,) if Tn else ()) + (d, d), label="P%d" % k) for k in range(K)]
        r = c.fn([Fitted(p) for p in ps])
        want = instability(ps, d, Tn)
        if what == "upper":
            want = T.mul(T.num(4), T.mul(want, T.sub(T.ONE, want)))
            c.prove("instability:upper-bound", T.eq(P(r), want))
        else:
            c.prove("instability:mean-variance-of-the-edges", T.eq(P(r), want))
            agree = T.band(*[T.eq(edge(ps[0], *i), edge(p, *i)) for p in ps[1:] for i in pairs(d, Tn)])
            z = T.eq(P(r), T.ZERO)
            c.prove("instability:zero-when-the-graphs-agree", T.implies(agree, z))
            c.prove("instability:zero-only-when-the-graphs-agree", T.implies(z, agree))
            c.prove("instability:between-zero-and-half", T.band(T.le(T.ZERO, P(r)), T.le(P(r), T.num(Fraction(1, 2)))))
        frame(c)

    return case


for K, d, Tn in ((1, 2, 0), (2, 2, 0), (3, 2, 0), (2, 3, 0), (1, 2, 2), (2, 2, 2), (2, 2, 3), (2, 3, 1)):
    for what, fn in (("global", "global_instability"), ("upper", "upper_bound")):
        unit("stability.%s[%d graphs,%d variables%s]" % (what, K, d, ",T=%d" % Tn if Tn else ""), MS, fn)(stab_case(K, d, Tn, what))


for K in (1, 2, 3):

    @unit("cluster.representative[%d]" % K, CL, "get_representative")
    def _(c, K=K):
        d = c.int("d", 1)
        gs = [c.array("G%d" % k, (d, d), label="G%d" % k) for k in range(K)]
        R = as_arr(c.fn(gs))
        c.prove_all("representative:edges-of-all-graphs", R.vshape, lambda i, j: T.eq(R.get((i, j)), T.ite(T.band(*[T.ne(g.get((i, j)), T.ZERO) for g in gs]), T.ONE, T.ZERO)))
        frame(c)


for dn in (2, 0):

    @unit("cluster.distances" + ("[2 variables]" if dn else ""), CL, "compute_distances")
    def _(c, dn=dn):
        d = dn or c.int("d", 1)
        gs = [c.array("G%d" % k, (d, d), label="G%d" % k) for k in range(2)]
        rs = [c.array("R%d" % k, (d, d), label="R%d" % k) for k in range(3)]
        D = as_arr(c.fn(gs, rs))
        c.check("distances:shape", D.vshape[0] == T.num(2) and D.vshape[1] == T.num(3), str(D.vshape))
        for i, g in enumerate(gs):
            for j, r in enumerate(rs):
                differ = sum2(d, lambda a, b: T.sub(T.add(nz(g, a, b), nz(r, a, b)), T.mul(T.num(2), T.mul(nz(g, a, b), nz(r, a, b)))))
                c.prove("distances:half-the-differing-entries", T.eq(P(D[i, j]), T.mul(T.num(Fraction(1, 2)), differ)))
        frame(c)
