"""Helpers for writing contracts."""
import z3
from vcg.logic import *
from vcg.shape import *
from vcg.core import *
from vcg import lib
from vcg.lib import B_, I_, S_, D_, ld, sx
from vcg.contract import FnC, Ob

NS = 'pid_control::'


def If(c, a, b):
    if isinstance(a, Val):
        return ite(c, a, b)
    return z3.If(c, a, b)


def Sum(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = dadd(r, x)
    return r


def D(ex, st, x):
    return ex.rv(st, x).x


def val(ex, st, l):
    return ex.load(st, l)


def setf(ex, st, loc, **kw):
    for n, v in kw.items():
        l = loc.f(n)
        if not isinstance(v, Val):
            v = Val(l.sh, [v])
        ex.store(st, l, v)


def assign(st, s2):
    st.roots, st.py, st.pc = s2.roots, s2.py, s2.pc


def cases(ex, st, *arms):
    """arms: (cond, fn(state)) taken on the first condition that holds; last cond None = otherwise"""
    rest = T
    outs = []
    for c, fn in arms:
        s = st.copy()
        cc = rest if c is None else z3.And(rest, c)
        s.assume(z3.simplify(cc))
        if c is not None:
            rest = z3.And(rest, z3.Not(c))
        if ex.dead(s):
            continue
        r = fn(s)
        if not ex.dead(s):
            outs.append((s, r))
    if arms[-1][0] is not None:
        s = st.copy()
        s.assume(z3.simplify(rest))
        if not ex.dead(s):
            outs.append((s, None))
    if not outs:
        st.assume(F)
        return None
    if all(r is None for _, r in outs):
        m, r = ex.merge([s for s, _ in outs]), None
    else:
        m, r = ex.merge_vals(outs)
    assign(st, m)
    return r


def noeffect(ret=None):
    def f(ex, st, e, obj, a):
        return ret(ex, st, e, obj, a) if ret else None
    return f


class Prop:
    def __init__(self, id, tus, contracts, models=None, assumptions=(), lemmas=None, driver=None, notes='', extra=None, level='proof', more=None):
        self.level = level
        self.id, self.tus, self.contracts, self.models = id, tus, contracts, models or {}
        self.assumptions, self.lemmas, self.driver, self.notes = list(assumptions), lemmas, driver, notes
        self.extra = extra
        self.more = more     # contracts made once the program is known


def vpure(ex, sh, name, *ls):
    """result of a pure interface method: a function of the object and the arguments"""
    return Val(sh, [app(f'{name}.{i}' if sh.n > 1 else name, so, *ls) for i, so in enumerate(sh.sorts)])


def vcall(ex, st, name, *ls, sh=None):
    """an effectful interface method: recorded on its channel; result is a function of the call history"""
    ch = ex.channel.get(name, 'ev')
    r = None
    if sh is not None:
        r = vpure(ex, sh, 'res ' + name, *ls, ex.root(st, ('T', ch)).x)
    ex.event(st, ch, name, *ls)
    return r


DBL, INT, BOOL, STR, PTR = Sc('d'), Sc('i'), Sc('b'), Sc('s'), Sc('p')


def gv(ex, st, q, sh):
    """value of a global variable"""
    return ex.load(st, Loc(('G', q, sh), sh))


def gloc(q, sh):
    return Loc(('G', q, sh), sh)


def trace_val(ex, st, ch):
    return ex.root(st, ('T', ch))


OPQ = Sc('o')


def ev(cur, name, *ls):
    """trace `cur` extended by one event"""
    return app('ev ' + name, I, cur, *ls)


IX = z3.Int('ix0')


def vec_by(ex, n, e, fn, name='v'):
    """the vector of length n whose element at i is fn(i) (stated at the observed index)"""
    A = [z3.Const(f'{name}.{i}', z3.ArraySort(I, s)) for i, s in enumerate(e.sorts)]
    want = fn(IX)
    for a, w in zip(A, want.l):
        ex.pre_facts.append(z3.Implies(z3.And(IX >= 0, IX < n), z3.Select(a, IX) == w))
    if not any(p.eq(IX) for p in ex.probes):
        ex.probes.append(IX)
    ex.elems += list(want.l)
    return Val(Vec(e), [n] + A)


def new(ex, q, *ls):
    """identity of the object a constructor call makes"""
    return lib.new_handle(ex, NS + q, *ls)


def ctor_fields(ex, st, obj, a, **kw):
    """a constructor that stores its arguments: field=index of the parameter or a term"""
    for n, x in kw.items():
        l = obj.f(n)
        if isinstance(x, int) and not isinstance(x, bool):
            ex.store(st, l, Val(l.sh, lib.ctor_arg(ex, st, l.sh, a[x])))
        else:
            x = x(ex, st, a) if callable(x) else x
            ex.store(st, l, x if isinstance(x, Val) else Val(l.sh, [x]))


def ctor(**kw):
    def spec(ex, st, e, obj, a):
        ctor_fields(ex, st, obj, a, **kw)
    return spec


def member(ex, v, x):
    """x is an element of v: as the library's search sees it, and as a scan of the elements"""
    m = lib.vmem(v, x)
    f = ex.fold('member', BOOL, B_(F), lambda k, s: B_(z3.Or(s.x, v.at(k).x == x)), n=v.len, absorb=lambda s: s.x, deps=(v.l[1], v.len, x))
    ex.pre_facts.append(m == f.end().x)
    return m
