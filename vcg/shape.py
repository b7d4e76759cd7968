"""Shapes: every C++ value is a fixed tuple of logical leaves."""
import z3
from .logic import I, B, R, S


class Sh:
    n = 0
    sorts = ()

    def __eq__(self, o):
        return isinstance(o, Sh) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return str(self.key())


class Sc(Sh):
    """scalar: b i d s(tring) p(ointer) t(ime) o(paque) """
    SORT = {'b': B, 'i': I, 'd': R, 's': S, 'p': I, 't': I, 'o': I}

    def __init__(self, k, w=64, u=False, tgt=None, ratio=None, q=None):
        self.k, self.w, self.u, self.tgt, self.ratio, self.q = k, w, u, tgt, ratio, q
        self.n = 1
        self.sorts = (self.SORT[k],)

    def key(self):
        return ('sc', self.k)


class Rec(Sh):
    def __init__(self, q, fields):
        self.q = q
        self.fields = fields  # list of (name, shape)
        self.off = {}
        o = 0
        so = []
        for nm, sh in fields:
            self.off[nm] = (o, sh)
            o += sh.n
            so += sh.sorts
        self.n = o
        self.sorts = tuple(so)

    def key(self):
        return ('rec', self.q, tuple((n, s.key()) for n, s in self.fields))


def arr(idx, sorts):
    return tuple(z3.ArraySort(idx, s) for s in sorts)


class Vec(Sh):
    def __init__(self, e):
        self.e = e
        self.n = 1 + e.n
        self.sorts = (I,) + arr(I, e.sorts)

    def key(self):
        return ('vec', self.e.key())


class Deq(Sh):
    def __init__(self, e):
        self.e = e
        self.n = 2 + e.n
        self.sorts = (I, I) + arr(I, e.sorts)

    def key(self):
        return ('deq', self.e.key())


class Arr(Sh):
    def __init__(self, cnt, e):
        self.cnt, self.e = cnt, e
        self.n = e.n
        self.sorts = arr(I, e.sorts)

    def key(self):
        return ('arr', self.cnt, self.e.key())


class Map(Sh):
    def __init__(self, k, v):
        self.k, self.v = k, v
        self.ks = k.sorts[0]
        assert k.n == 1
        self.n = 1 + v.n
        self.sorts = (z3.ArraySort(self.ks, B),) + arr(self.ks, v.sorts)

    def key(self):
        return ('map', self.k.key(), self.v.key())


class Set(Sh):
    def __init__(self, k):
        self.k = k
        self.ks = k.sorts[0]
        assert k.n == 1
        self.n = 1
        self.sorts = (z3.ArraySort(self.ks, B),)

    def key(self):
        return ('set', self.k.key())


class Opt(Rec):
    def __init__(self, e):
        super().__init__('std::optional', [('has', Sc('b')), ('val', e)])
        self.e = e


class Var(Rec):
    def __init__(self, alts):
        super().__init__('std::variant', [('tag', Sc('i'))] + [(f'a{i}', a) for i, a in enumerate(alts)])
        self.alts = alts


class Nil(Sh):
    """types that carry no logical content (mutexes, allocators, ...)"""

    def __init__(self, q=''):
        self.q = q

    def key(self):
        return ('nil',)


class Val:
    __slots__ = ('sh', 'l')

    def __init__(self, sh, l):
        l = tuple(l)
        assert len(l) == sh.n, (sh, l)
        self.sh, self.l = sh, l

    @property
    def x(self):
        assert self.sh.n == 1, self.sh
        return self.l[0]

    def f(self, name):
        o, s = self.sh.off[name]
        return Val(s, self.l[o:o + s.n])

    def withf(self, name, v):
        o, s = self.sh.off[name]
        l = list(self.l)
        l[o:o + s.n] = v.l if isinstance(v, Val) else (v,)
        return Val(self.sh, l)

    # containers
    @property
    def len(self):
        return self.l[1] if isinstance(self.sh, Deq) else self.l[0]

    @property
    def dom(self):
        return self.l[0]

    def at(self, i):
        sh = self.sh
        if isinstance(sh, Vec):
            return Val(sh.e, [z3.Select(a, i) for a in self.l[1:]])
        if isinstance(sh, Deq):
            return Val(sh.e, [z3.Select(a, self.l[0] + i) for a in self.l[2:]])
        if isinstance(sh, Arr):
            return Val(sh.e, [z3.Select(a, i) for a in self.l])
        if isinstance(sh, Map):
            return Val(sh.v, [z3.Select(a, i) for a in self.l[1:]])
        raise TypeError(sh)

    def set(self, i, v):
        sh = self.sh
        if isinstance(sh, Vec):
            return Val(sh, (self.l[0],) + tuple(z3.Store(a, i, x) for a, x in zip(self.l[1:], v.l)))
        if isinstance(sh, Deq):
            return Val(sh, self.l[:2] + tuple(z3.Store(a, self.l[0] + i, x) for a, x in zip(self.l[2:], v.l)))
        if isinstance(sh, Arr):
            return Val(sh, tuple(z3.Store(a, i, x) for a, x in zip(self.l, v.l)))
        if isinstance(sh, Map):
            return Val(sh, (z3.Store(self.l[0], i, z3.BoolVal(True)),) +
                       tuple(z3.Store(a, i, x) for a, x in zip(self.l[1:], v.l)))
        raise TypeError(sh)

    def push(self, v):
        r = self.set(self.len, v)
        l = list(r.l)
        j = 1 if isinstance(self.sh, Deq) else 0
        l[j] = z3.simplify(l[j] + 1)
        return Val(self.sh, l)

    def has(self, k):
        return z3.Select(self.l[0], k)

    def add(self, k):
        return Val(self.sh, (z3.Store(self.l[0], k, z3.BoolVal(True)),) + self.l[1:])

    def rem(self, k):
        return Val(self.sh, (z3.Store(self.l[0], k, z3.BoolVal(False)),) + self.l[1:])


def ite(c, a, b):
    assert a.sh.n == b.sh.n, (a.sh, b.sh)
    return Val(a.sh, [x if z3.eq(x, y) else z3.If(c, x, y) for x, y in zip(a.l, b.l)])


def default(sh):
    """value-initialised"""
    from .logic import iv, dv, sv
    if isinstance(sh, Sc):
        return Val(sh, [{'b': z3.BoolVal(False), 'i': iv(0), 'd': dv(0.0), 's': sv(''), 'p': iv(0), 't': iv(0), 'o': iv(0)}[sh.k]])
    if isinstance(sh, Var):
        l = [iv(0)]
        for a in sh.alts:
            l += default(a).l
        return Val(sh, l)
    if isinstance(sh, Rec):
        l = []
        for _, s in sh.fields:
            l += default(s).l
        return Val(sh, l)
    if isinstance(sh, (Vec, Deq)):
        pre = [iv(0)] if isinstance(sh, Vec) else [iv(0), iv(0)]
        return Val(sh, pre + [z3.K(I, x) for x in default(sh.e).l])
    if isinstance(sh, Arr):
        return Val(sh, [z3.K(I, x) for x in default(sh.e).l])
    if isinstance(sh, Map):
        return Val(sh, [z3.K(sh.ks, z3.BoolVal(False))] + [z3.K(sh.ks, x) for x in default(sh.v).l])
    if isinstance(sh, Set):
        return Val(sh, [z3.K(sh.ks, z3.BoolVal(False))])
    return Val(sh, [])


def consts(sh, name):
    return Val(sh, [z3.Const(f'{name}.{i}' if sh.n > 1 else name, s) for i, s in enumerate(sh.sorts)])


_ITE = {}


def ordef(v):
    """a map as total functions: value if present, else the default (array terms)"""
    from .logic import I  # noqa
    out = []
    for a, d in zip(v.l[1:], default(v.sh.v).l):
        key = d.sort().name() + str(d.sort())
        if key not in _ITE:
            _ITE[key] = z3.If(z3.Bool('_b'), z3.FreshConst(d.sort()), z3.FreshConst(d.sort())).decl()
        out.append(z3.Map(_ITE[key], v.l[0], a, z3.K(v.sh.ks, d)))
    return out
