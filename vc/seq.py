"""Sequences of symbolic length."""
from . import terms as T
from .arrays import SArr, SNum, SBool, P, B, wrap, ctx, as_arr, INT, Masked
from .terms import Unsupported, Poly, Bool


class SymSeq:
    skip = None  # (r, n): the positions 0..n-1 without r

    """length Poly; elem(idx Poly) -> python value."""

    def __init__(self, length, elem):
        self.length, self.elem = length, elem

    def __len__(self):
        c = self.length.const()
        if c is None:
            raise Unsupported("len of symbolic sequence")
        return int(c)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic sequence")

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start in (None, 0) and i.stop is None and i.step is None:
                return self
            raise Unsupported("slice of symbolic sequence")
        return self.elem(P(i))

    def copy(self):
        return SymSeq(self.length, self.elem)

    def index(self, x):
        raise Unsupported("index in symbolic sequence")

    def to_array(self):
        n = self.length
        g = T.fresh_name("g")
        T.RANGE[g] = n
        e = self.elem(T.sym(g, INT))
        if isinstance(e, SymSeq):
            e = e.to_array()
        if isinstance(e, (SNum, int, float, SBool, bool)):
            isb = isinstance(e, (SBool, bool))
            isi = not isb and (isinstance(e, int) or (isinstance(e, SNum) and e.isint))
            a = SArr.make((n,), lambda i: (B if isb else P)(self.elem(i[0])), "b" if isb else ("i" if isi else "f"))
            a.skip = self.skip
            return a
        if isinstance(e, (list, tuple)):
            e = as_arr(e)
        if isinstance(e, Masked):
            raise Unsupported("array of ragged selections")
        if isinstance(e, SArr):
            for d in e.vshape:
                if g in d.fv:
                    raise Unsupported("ragged symbolic array")

            def fn(i):
                x = self.elem(i[0])
                if isinstance(x, (SymSeq, list, tuple)):
                    x = as_arr(x)
                return x.get(i[1:])

            return SArr.make((n,) + e.vshape, fn, e.kind)
        raise Unsupported("array of " + type(e).__name__)


def seq_len(x):
    if isinstance(x, SymSeq):
        return wrap(x.length, True)
    if isinstance(x, SArr):
        if not x.vshape:
            raise TypeError("len() of unsized object")
        return wrap(x.vshape[0], True)
    return len(x)


def is_symbolic(x):
    if isinstance(x, SymSeq):
        return x.length.const() is None
    if isinstance(x, SArr):
        return x.ndim > 0 and x.vshape[0].const() is None
    if isinstance(x, SRange):
        return x.n.const() is None
    return False


def as_seq(x):
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, Masked):
        raise Unsupported("iteration over a masked selection")
    if isinstance(x, SArr):
        return SymSeq(x.vshape[0], lambda i: x[wrap(i, True)])
    if isinstance(x, SRange):
        return SymSeq(x.n, lambda i: wrap(T.add(x.start, T.scale(i, x.step)), True))
    raise Unsupported("sequence of " + type(x).__name__)


class SRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = P(start), P(stop), step
        if step == 1:
            n = T.sub(self.stop, self.start)
        elif step == -1:
            n = T.sub(self.start, self.stop)
        else:
            raise Unsupported("range step")
        c = n.const()
        if c is not None:
            n = T.num(max(c, 0))
        elif not ctx().entails(T.le(T.ZERO, n)):
            if not bool(SBool(T.le(T.ZERO, n))):
                n = T.ZERO
        self.n = n

    def __len__(self):
        return int(self.n.const())

    def __iter__(self):
        if self.n.const() is None:
            raise Unsupported("native iteration over a symbolic range")
        return iter([wrap(T.add(self.start, T.num(i * self.step)), True) for i in range(int(self.n.const()))])

    def __getitem__(self, i):
        return wrap(T.add(self.start, T.scale(P(i), self.step)), True)
