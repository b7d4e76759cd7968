"""Logical vocabulary shared by code and contracts: sorts, double/string/int
encodings, and the ground axiom instances that are added to every query."""
import z3
from fractions import Fraction
import re

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
S = z3.DeclareSort('Str')
NAN = z3.RealVal(2) ** 0  # replaced below
_big = 1 << 1026
NAN = z3.RealVal(str(_big))
INF = z3.RealVal(str(1 << 1025))
NINF = z3.RealVal('-' + str(1 << 1025))
DMAX_F = Fraction(float.fromhex('0x1.fffffffffffffp+1023'))
DMAX = z3.RealVal(str(DMAX_F.numerator))
NDMAX = z3.RealVal('-' + str(DMAX_F.numerator))
T, F = z3.BoolVal(True), z3.BoolVal(False)


def iv(n):
    return z3.IntVal(n)


def dv(x):
    if isinstance(x, str):
        if x == 'nan':
            return NAN
        if x == 'inf':
            return INF
        if x == '-inf':
            return NINF
        x = float.fromhex(x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float('inf'), float('-inf')):
            return INF if x > 0 else NINF
    fr = Fraction(x)
    return z3.RealVal(f'{fr.numerator}/{fr.denominator}')


def const_d(t):
    """python float of a constant double term, else None"""
    t = t if z3.is_rational_value(t) else None
    if t is None:
        return None
    fr = Fraction(t.numerator_as_long(), t.denominator_as_long())
    if fr == _big:
        return float('nan')
    if fr == 1 << 1025:
        return float('inf')
    if fr == -(1 << 1025):
        return float('-inf')
    return float(fr)


def is_nan(a):
    return a == NAN


def is_fin(a):
    return z3.And(a != NAN, a != INF, a != NINF)


def _nn(*xs):
    out = []
    for x in xs:
        c = const_d(x)
        if c is None:
            out.append(x != NAN)
        elif c != c:
            out.append(F)
    return out


def dlt(a, b):
    return z3.And(*_nn(a, b), a < b)


def dle(a, b):
    return z3.And(*_nn(a, b), a <= b)


def dgt(a, b):
    return dlt(b, a)


def dge(a, b):
    return dle(b, a)


def deq(a, b):
    return z3.And(*_nn(a, b), a == b)


def dne(a, b):
    return z3.Not(deq(a, b))


_uf = {}


def uf(name, *sorts):
    key = (name,) + tuple(s.get_id() for s in sorts)     # (the function keeps its sorts alive)
    f = _uf.get(key)
    if f is None:
        n = name
        if any(k[0] == name for k in _uf):
            n = name + '~' + str(len(_uf))
        f = z3.Function(n, *sorts)
        _uf[key] = f
    return f


def app(name, rsort, *args):
    """application of an uninterpreted function named `name`"""
    if not args:
        return z3.Const(name, rsort)
    return uf(name, *[a.sort() for a in args], rsort)(*args)


def _arith(op, a, b):
    ca, cb = const_d(a), const_d(b)
    if ca is not None and cb is not None:
        try:
            if op == 'dadd':
                return dv(ca + cb)
            if op == 'dmul':
                return dv(ca * cb)
            if op == 'ddiv' and cb != 0:
                return dv(ca / cb)
        except OverflowError:
            pass
    if op == 'dadd':
        if ca == 0:
            return b
        if cb == 0:
            return a
    if op == 'dmul':
        if ca == 1:
            return b
        if cb == 1:
            return a
    if op == 'ddiv' and cb == 1:
        return a
    if op in ('dadd', 'dmul') and a.get_id() > b.get_id():
        a, b = b, a
    return app(op, R, a, b)


def dneg(a):
    c = const_d(a)
    if c is not None:
        return dv(-c) if c == c else NAN
    if z3.is_app(a) and a.decl().name() == 'dneg':
        return a.arg(0)
    return app('dneg', R, a)


def dadd(a, b):
    return _arith('dadd', a, b)


def dsub(a, b):
    return dadd(a, dneg(b))


def dmul(a, b):
    return _arith('dmul', a, b)


def ddiv(a, b):
    return _arith('ddiv', a, b)


def i2d(i):
    i = z3.simplify(i)
    if z3.is_int_value(i):
        return dv(float(i.as_long()))
    return app('i2d', R, i)


def b2d(b):
    return z3.If(b, dv(1.0), dv(0.0))


def d2i(d, w=64, u=False):
    c = const_d(d)
    if c is not None and c == c and abs(c) < 2 ** 63:
        return iv(int(c))
    return app('d2i', I, d)


def wrap(i, w, u):
    """value of integer i converted to a w-bit (un)signed type"""
    s = z3.simplify(i)
    lo, hi = (0, (1 << w) - 1) if u else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if z3.is_int_value(s):
        n = s.as_long() & ((1 << w) - 1)
        if not u and n > hi:
            n -= 1 << w
        return iv(n)
    m = i % iv(1 << w)
    if u:
        r = m
    else:
        r = z3.If(m > iv(hi), m - iv(1 << w), m)
    return z3.If(z3.And(i >= iv(lo), i <= iv(hi)), i, r)


# ------------------------------------------------------------------ strings
_lits = {}


def sv(s):
    k = _lits.get(s)
    if k is None:
        k = z3.Const('str:' + s[:60] + (f'#{len(_lits)}'), S)
        _lits[s] = k
        _lits_by_id[k.get_id()] = s
        _keep.append(k)
    return k


_lits_by_id = {}
_keep = []


def const_s(t):
    return _lits_by_id.get(t.get_id())


def _flat(a):
    if z3.is_app(a) and a.decl().name() == 'sconcat':
        return _flat(a.arg(0)) + _flat(a.arg(1))
    return [a]


def sconcat(a, b):
    parts = []
    for p in _flat(a) + _flat(b):
        c = const_s(p)
        if c == '':
            continue
        if parts and c is not None and const_s(parts[-1]) is not None:
            parts[-1] = sv(const_s(parts[-1]) + c)
        else:
            parts.append(p)
    if not parts:
        return sv('')
    r = parts[0]
    for p in parts[1:]:
        r = app('sconcat', S, r, p)
    return r


def lift(t, budget=2000):
    """the same text with choices outside the concatenation (or as it is, if there are too many)"""
    memo, left = {}, [budget]

    def comb(l, r, i):
        left[0] -= 1
        if left[0] < 0:
            raise OverflowError
        if z3.is_app_of(l, z3.Z3_OP_ITE):
            return z3.If(l.arg(0), comb(l.arg(1), r, i), comb(l.arg(2), r, i))
        if z3.is_app_of(r, z3.Z3_OP_ITE):
            return z3.If(r.arg(0), comb(l, r.arg(1), i), comb(l, r.arg(2), i))
        return sconcat(l, r)

    def go(t):
        k = t.get_id()
        if k not in memo:
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                memo[k] = z3.If(t.arg(0), go(t.arg(1)), go(t.arg(2)))
            elif z3.is_app(t) and t.decl().name() == 'sconcat' and t.num_args() == 2:
                memo[k] = comb(go(t.arg(0)), go(t.arg(1)), k)
            else:
                memo[k] = t
        return memo[k]
    try:
        return go(t)
    except OverflowError:
        return t


NPOS = iv((1 << 64) - 1)


def sfind(s, t, pos=None):
    if pos is None:
        pos = iv(0)
    cs, ct, cp = const_s(s), const_s(t), z3.simplify(pos)
    if cs is not None and ct is not None and z3.is_int_value(cp):
        r = cs.find(ct, cp.as_long())
        return iv(r) if r >= 0 else NPOS
    return app('sfind', I, s, t, pos)


def ssub(s, p, n):
    cs, cp, cn = const_s(s), z3.simplify(p), z3.simplify(n)
    if cs is not None and z3.is_int_value(cp) and z3.is_int_value(cn):
        return sv(cs[cp.as_long():cp.as_long() + cn.as_long()])
    if z3.is_int_value(cp) and cp.as_long() == 0 and z3.eq(cn, NPOS):
        return s
    return app('ssub', S, s, p, n)


def slen(s):
    c = const_s(s)
    if c is not None:
        return iv(len(c))
    return app('slen', I, s)


def sends(s, t):
    cs, ct = const_s(s), const_s(t)
    if cs is not None and ct is not None:
        return z3.BoolVal(cs.endswith(ct))
    return app('sends', B, s, t)


def sstarts(s, t):
    cs, ct = const_s(s), const_s(t)
    if cs is not None and ct is not None:
        return z3.BoolVal(cs.startswith(ct))
    return app('sstarts', B, s, t)


def i2s(i):
    i = z3.simplify(i)
    if z3.is_int_value(i):
        return sv(str(i.as_long()))
    return app('i2s', S, i)


# --------------------------------------------------------------- containers
def enumN(dom):
    return app('enumN:' + str(dom.sort().domain()), I, dom)


def enumKey(dom, k):
    return app('enumKey:' + str(dom.sort().domain()), dom.sort().domain(), dom, k)


def enumPos(dom, x):
    return app('enumPos:' + str(dom.sort().domain()), I, dom, x)


# -------------------------------------------------------------- the axioms
class Axioms:
    """Ground instances for the terms of a query. `extra` maps function names
    to instance generators (folds, lemmas)."""

    def __init__(self):
        self.extra = {}
        self.facts = []
        self.memo = {}
        self.query = {}      # terms already seen in the query at hand

    def close(self, forms, rounds=4):
        self.query = {}
        seen, done, out = set(), set(), []
        work = list(forms)
        folds_only = False
        for rnd in range(rounds):
            new = []
            apps = []
            stack = list(work)
            while stack:
                t = stack.pop()
                i = t.get_id()
                if i in seen:
                    continue
                seen.add(i)
                apps.append(t)
                if z3.is_quantifier(t):
                    continue
                stack.extend(t.children())
            for t in apps:
                for f in self.of(t):
                    if f.get_id() in done:
                        continue
                    done.add(f.get_id())
                    new.append(f)
            out += new
            work = new
            if not new:
                break
        lits = [l for l in _lits.values() if l.get_id() in seen]
        if len(lits) > 1:
            out.append(z3.Distinct(*lits))
        return out

    def of(self, t):
        """simplified instances for one term (they depend on the term alone unless the generator is pairwise)"""
        r = self.memo.get(t.get_id())
        if r is None:
            r = (t, [f for f in map(z3.simplify, self.inst(t)) if not z3.is_true(f)])
            if not (z3.is_app(t) and getattr(self.extra.get(t.decl().name()), 'pairwise', False)):
                self.memo[t.get_id()] = r
        return r[1]

    def inst(self, t):
        if not z3.is_app(t) or z3.is_var(t):
            return
        d = t.decl()
        k = d.kind()
        n = d.name()
        if k == z3.Z3_OP_UNINTERPRETED or k == z3.Z3_OP_SELECT:
            if t.sort() == R and const_d(t) is None:
                yield z3.Or(z3.And(t <= DMAX, t >= NDMAX), t == INF, t == NINF, t == NAN)
        if k == z3.Z3_OP_SELECT and t.sort() == B and t.arg(0).sort().domain() in (S, I):
            yield z3.Implies(t, enumN(t.arg(0)) > 0)
        if k != z3.Z3_OP_UNINTERPRETED:
            return
        if n.startswith('str:'):
            return
        base = n.split('~')[0]
        if base == 'dneg':
            a = t.arg(0)
            yield z3.If(a == NAN, t == NAN, t == -a)
        elif base == 'dadd':
            a, b = t.arg(0), t.arg(1)
            f = d
            yield z3.Implies(a == 0, t == b)
            yield z3.Implies(b == 0, t == a)
            yield z3.Implies(z3.Or(a == NAN, b == NAN), t == NAN)
            yield f(b, a) == t
        elif base == 'dmul':
            a, b = t.arg(0), t.arg(1)
            yield z3.Implies(a == 1, t == b)
            yield z3.Implies(b == 1, t == a)
            yield z3.Implies(z3.Or(a == NAN, b == NAN), t == NAN)
            yield z3.Implies(z3.And(a == 0, is_fin(b)), t == 0)
            yield z3.Implies(z3.And(b == 0, is_fin(a)), t == 0)
            yield d(b, a) == t
        elif base == 'ddiv':
            a, b = t.arg(0), t.arg(1)
            yield z3.Implies(b == 1, t == a)
            yield z3.Implies(z3.Or(a == NAN, b == NAN), t == NAN)
        elif base == 'i2d':
            a = t.arg(0)
            lim = iv(1 << 53)
            yield z3.Implies(z3.And(a <= lim, a >= -lim), t == z3.ToReal(a))
            yield z3.Implies(a > lim, z3.And(t >= z3.ToReal(lim), t < INF))
            yield z3.Implies(a < -lim, z3.And(t <= -z3.ToReal(lim), t > NINF))
        elif base == 'd2i':
            a = t.arg(0)
            yield z3.Implies(z3.And(is_fin(a), a >= 0, a < z3.RealVal(str(1 << 63))),
                             z3.And(z3.ToReal(t) <= a, a < z3.ToReal(t) + 1))
            yield z3.Implies(z3.And(is_fin(a), a <= 0, a >= z3.RealVal('-' + str(1 << 63))),
                             z3.And(z3.ToReal(t) >= a, a > z3.ToReal(t) - 1))
        elif base == 'slen':
            yield t >= 0
            yield (t == 0) == (t.arg(0) == sv(''))
            yield t < iv(1 << 40)
        elif base == 'sfind':
            s, x, p = t.children()
            yield z3.Or(t == NPOS, z3.And(t >= p, t + slen(x) <= slen(s)))
        elif base == 'srfind':
            s, x = t.children()
            yield z3.Or(t == NPOS, z3.And(t >= 0, t + slen(x) <= slen(s)))
            f = sfind(s, x)
            yield (t == NPOS) == (f == NPOS)
            yield z3.Implies(t != NPOS, f <= t)
        elif base == 'ssub':
            yield z3.Implies(z3.And(t.arg(1) == 0, t.arg(2) >= slen(t.arg(0))), t == t.arg(0))
        elif base == 'sconcat':
            yield slen(t) == slen(t.arg(0)) + slen(t.arg(1))
            yield z3.Implies(t.arg(0) == sv(''), t == t.arg(1))
            yield z3.Implies(t.arg(1) == sv(''), t == t.arg(0))
        elif base.startswith('enumN:'):
            dom = t.arg(0)
            yield t >= 0
            # emptiness is witnessed by the first key
            yield z3.Implies(t > 0, z3.Select(dom, enumKey(dom, iv(0))))
            if z3.is_app(dom) and dom.decl().kind() == z3.Z3_OP_STORE:
                yield z3.Implies(dom.arg(2), t > 0)
            if z3.is_app(dom) and dom.decl().kind() == z3.Z3_OP_CONST_ARRAY:
                yield z3.Implies(z3.Not(dom.arg(0)), t == 0)
        elif base.startswith('enumKey:'):
            dom, k2 = t.children()
            n2 = enumN(dom)
            yield z3.Implies(z3.And(k2 >= 0, k2 < n2), z3.And(z3.Select(dom, t), enumPos(dom, t) == k2))
        elif n == 'jint':
            yield z3.And(t >= -(1 << 63), t < (1 << 64))
        elif n == 'jdbl beyond':
            yield z3.And(t >= 0, t < (1 << 64))
        elif n == 'jhas':
            yield z3.Implies(t, app('jkind', I, t.arg(0)) == 1)     # only an object has keys
        elif base.startswith('enumPos:'):
            dom, x = t.children()
            yield z3.Implies(z3.Select(dom, x), z3.And(t >= 0, t < enumN(dom), enumKey(dom, t) == x))
        g = self.extra.get(n)
        if g:
            for f in g(t):
                yield f
