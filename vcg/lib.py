"""Models of the library operations used by /repo (the trusted base): each is
the documented meaning of the operation over the logical leaves."""
import re
import z3
from .logic import *
from .shape import *
from .core import *

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def B_(x):
    return Val(Sc('b'), [x])


def I_(x, w=64, u=True):
    return Val(Sc('i', w, u), [x])


def S_(x):
    return Val(Sc('s'), [x])


def D_(x):
    return Val(Sc('d'), [x])


def ld(ex, st, x):
    v = ex.rv(st, x)
    if isinstance(v, PairRef):
        v = v.value(ex, st)
    return v


def sx(ex, st, x):
    """string term of an argument (std::string, string_view, const char*)"""
    v = ex.rv(st, x)
    if isinstance(v, Val) and isinstance(v.sh, Sc) and v.sh.k == 's':
        return v.x
    if isinstance(v, Val) and isinstance(v.sh, Sc) and v.sh.k == 'i':
        return chs(v.x)
    if isinstance(v, It) and v.kind == 'arr':
        raise Unsup('char array')
    raise Unsup('string operand')


def chs(c):
    c = z3.simplify(c)
    if z3.is_int_value(c) and 0 < c.as_long() < 128:
        return sv(chr(c.as_long()))
    return app('chstr', S, c)


# ------------------------------------------------------------------ folds over vectors
PUSH_FACTS = []


def vagg(kind, v):
    """aggregate over the first len elements of a Vec(double)/Vec(scalar)"""
    if kind in ('vmin', 'vmax', 'vsum'):
        return app(kind, R, v.l[1], v.len)
    raise Unsup(kind)


def vmem(v, x):
    """x occurs among the first len elements"""
    n = z3.simplify(v.len)
    if z3.is_int_value(n) and n.as_long() <= 16:
        return z3.Or(*[z3.simplify(z3.Select(v.l[1], iv(i))) == x for i in range(n.as_long())])
    return app('vmem', B, v.l[1], v.len, x)


def content(ex, v):
    """identity of what a vector holds: vectors of equal length and equal elements have the same"""
    name = 'content ' + '/'.join(str(s) for s in v.sh.e.sorts)

    def gen(t):
        out = []
        c = t.children()
        seen = ex.ax.query.setdefault(name, {})
        for u in seen.values():
            d = u.children()
            w = app('differ ' + name, I, *(d + c))
            out.append(z3.Or(t == u, c[0] != d[0], z3.And(w >= 0, w < c[0], z3.Or(*[z3.Select(x, w) != z3.Select(y, w) for x, y in zip(c[1:], d[1:])]))))
        seen[t.get_id()] = t
        return out
    gen.pairwise = True
    ex.ax.extra[name] = gen
    return app(name, I, *v.l)


_orig_push = Val.push


def _push(self, v):
    r = _orig_push(self, v)
    if isinstance(self.sh, Vec) and self.sh.e.n == 1:
        a, l, a2, l2, x = self.l[1], self.len, r.l[1], r.len, v.l[0]
        if self.sh.e.sorts[0] == R:
            mn, mx, sm = (app(k, R, a, l) for k in ('vmin', 'vmax', 'vsum'))
            PUSH_FACTS.append(app('vmin', R, a2, l2) == z3.If(l == 0, x, z3.If(dlt(x, mn), x, mn)))
            PUSH_FACTS.append(app('vmax', R, a2, l2) == z3.If(l == 0, x, z3.If(dlt(mx, x), x, mx)))
            PUSH_FACTS.append(app('vsum', R, a2, l2) == z3.If(l == 0, dadd(dv(0.0), x), dadd(sm, x)))
    return r


Val.push = _push


def _vfacts(t):
    return ()


# ------------------------------------------------------------------ strings
class Bound(Obj):
    """a function with its first arguments"""
    def __init__(self, f, args):
        super().__init__('bound')
        self.f, self.args = f, args

    def call(self, ex, st, args, fr):
        return ex.call_value(st, self.f, self.args + list(args), fr)


@model('std::bind_front')
def bind_front(ex, st, e, obj, a):
    return Bound(ex.rv(st, a[0]), [ex.rv(st, x) for x in a[1:]])


@model('std::basic_string::basic_string', 'std::basic_string_view::basic_string_view')
def _(ex, st, e, obj, a):
    if not a:
        return S_(sv(''))
    v = ex.rv(st, a[0])
    if isinstance(v, Val) and isinstance(v.sh, Sc) and v.sh.k == 's':
        a = [x for x in a if not (isinstance(x, Val) and x.sh.n == 0)]
        if len(a) >= 2:
            w = ex.rv(st, a[1])
            if isinstance(w, Val) and w.sh.n == 1:
                p = w.x
                n = ex.rv(st, a[2]).x if len(a) > 2 and isinstance(ex.rv(st, a[2]), Val) and ex.rv(st, a[2]).sh.n == 1 else None
                if n is None and len(a) == 2:
                    t0 = e['args'][0]['t']
                    if t0.k == 'ptr':
                        return S_(ssub(v.x, iv(0), p))
                return S_(ssub(v.x, p, n if n is not None else NPOS))
        return S_(v.x)
    if isinstance(v, IList):
        r = sv('')
        for c in v.vals:
            r = sconcat(r, chs(c.x))
        return S_(r)
    raise Unsup('string constructor')


@model('std::basic_string::operator=', 'std::basic_string::assign')
def _(ex, st, e, obj, a):
    ex.store(st, obj, S_(sx(ex, st, a[0])))
    return obj


@model('std::basic_string::c_str', 'std::basic_string::data', 'std::basic_string::operator basic_string_view', 'std::filesystem::path::operator basic_string',
       'std::filesystem::path::string', 'std::filesystem::path::c_str', 'std::filesystem::path::path',
       'std::basic_string_view::data')
def _(ex, st, e, obj, a):
    return S_(sx(ex, st, obj if obj is not None else a[0]))


@model('std::basic_string::empty', 'std::basic_string_view::empty')
def _(ex, st, e, obj, a):
    return B_(sx(ex, st, obj) == sv(''))


@model('std::basic_string::size', 'std::basic_string::length', 'std::basic_string_view::size')
def _(ex, st, e, obj, a):
    return I_(slen(sx(ex, st, obj)))


@model('std::basic_string::clear')
def _(ex, st, e, obj, a):
    ex.store(st, obj, S_(sv('')))


@model('std::basic_string::find', 'std::basic_string_view::find')
def _(ex, st, e, obj, a):
    pos = ex.rv(st, a[1]).x if len(a) > 1 else None
    return I_(sfind(sx(ex, st, obj), sx(ex, st, a[0]), pos))


@model('std::basic_string::contains', 'std::basic_string_view::contains')
def _(ex, st, e, obj, a):
    return B_(sfind(sx(ex, st, obj), sx(ex, st, a[0])) != NPOS)


@model('std::basic_string::rfind')
def _(ex, st, e, obj, a):
    s, t = sx(ex, st, obj), sx(ex, st, a[0])
    if len(a) > 1:
        p = z3.simplify(ex.rv(st, a[1]).x)
        if z3.is_int_value(p) and p.as_long() == 0:
            return I_(z3.If(sstarts(s, t), iv(0), NPOS))
    return I_(app('srfind', I, s, t))


@model('std::basic_string::find_last_of', 'std::basic_string::find_first_of')
def _(ex, st, e, obj, a):
    # of a single character: the same as (r)find
    s, v = sx(ex, st, obj), ex.rv(st, a[0])
    c = sx(ex, st, a[0])
    k = const_s(c)
    if k is None or len(k) != 1:
        raise Unsup('find_last_of')
    last = 'last' in e['fn']['q']
    pos = z3.simplify(ex.rv(st, a[1]).x) if len(a) > 1 else None
    if last and pos is not None and not z3.eq(pos, NPOS):
        raise Unsup('find_last_of')
    return I_(app('srfind', I, s, c) if last else sfind(s, c, pos))


@model('std::basic_string::compare')
def _(ex, st, e, obj, a):
    if len(a) != 1:
        raise Unsup('compare')
    s, t = sx(ex, st, obj), sx(ex, st, a[0])
    c = app('scompare', I, s, t)
    ex.pre_facts.append((c == 0) == (s == t))
    return I_(c, 32, False)


@model('std::basic_string::substr')
def _(ex, st, e, obj, a):
    p = ex.rv(st, a[0]).x if a else iv(0)
    n = ex.rv(st, a[1]).x if len(a) > 1 else NPOS
    s = sx(ex, st, obj)
    ex.throw(st, p > slen(s), Exc('std::out_of_range'))
    return S_(ssub(s, p, n))


@model('std::basic_string::starts_with', 'std::basic_string_view::starts_with')
def _(ex, st, e, obj, a):
    return B_(sstarts(sx(ex, st, obj), sx(ex, st, a[0])))


@model('std::basic_string::ends_with', 'std::basic_string_view::ends_with')
def _(ex, st, e, obj, a):
    return B_(sends(sx(ex, st, obj), sx(ex, st, a[0])))


@model('std::basic_string::operator+=', 'std::basic_string::append', 'std::basic_string::push_back')
def _(ex, st, e, obj, a):
    ex.store(st, obj, S_(sconcat(sx(ex, st, obj), sx(ex, st, a[0]))))
    return obj


class TextIt(Py):
    """the begin or the end of a text"""
    def __init__(self, c, end):
        self.c, self.end = c, end

    def leaves(self):
        return []

    def withl(self, l):
        return self


@model('std::basic_string::begin', 'std::basic_string::end')
def _(ex, st, e, obj, a):
    if not isinstance(obj, Loc):
        raise Unsup('begin of a text')
    return TextIt(obj, strip_t(e['fn']['q']).endswith('end'))


@model('std::replace')
def _(ex, st, e, obj, a):
    b, en = ex.rv(st, a[0]), ex.rv(st, a[1])
    if not (isinstance(b, TextIt) and isinstance(en, TextIt) and b.c.same(en.c) and not b.end and en.end):
        raise Unsup('replace')
    x, y = (ex.rv(st, v).x for v in a[2:4])
    ex.store(st, b.c, Val(Sc('s'), [app('sreplace', S, ex.load(st, b.c).x, x, y)]))


@model('std::basic_string::operator[]', 'std::basic_string::at')
def _(ex, st, e, obj, a):
    return Val(Sc('i', 8, False), [app('schar', I, sx(ex, st, obj), ex.rv(st, a[0]).x)])


@model('std::operator+')
def _(ex, st, e, obj, a):
    x, y = ex.rv(st, a[0]), ex.rv(st, a[1])
    if isinstance(x, It):
        return ex.it_add(st, x, y.x)
    return S_(sconcat(sx(ex, st, x), sx(ex, st, y)))


@model('std::to_string')
def _(ex, st, e, obj, a):
    v = ex.rv(st, a[0])
    return S_(i2s(v.x) if v.sh.k == 'i' else app('d2s', S, v.x))


@model('std::format')
def _(ex, st, e, obj, a):
    ls = []
    for x in a:
        v = ld(ex, st, x)
        if isinstance(v, Val):
            ls += v.l
    return S_(app('format%d' % len(ls), S, *ls))


@model('std::basic_format_string::basic_format_string')
def _(ex, st, e, obj, a):
    return ld(ex, st, a[0])


def eqv(ex, st, x, y):
    """C++ == on two loaded values"""
    if isinstance(x, It) or isinstance(y, It):
        return ex.it_cmp('==', x, y).x
    if isinstance(x, PV) or isinstance(y, PV):
        return ex.ptr_cmp('==', x, y).x
    if isinstance(x, Py) or isinstance(y, Py):
        raise Unsup('== on opaque')
    if isinstance(x.sh, Sc):
        return ex.arith('==', x, y, None).x
    if isinstance(x.sh, Rec):
        return z3.And(*[eqv(ex, st, x.f(n), y.f(n)) for n, _ in x.sh.fields])
    raise Unsup('== on aggregate')


@model('std::operator==', 'std::__detail::operator==', '__gnu_cxx::operator==', 'boost::container::operator==', 'nlohmann::detail::iter_impl::operator==',
       'boost::system::operator==')
def _(ex, st, e, obj, a):
    if obj is not None:
        a = [obj] + a
    x, y = ld(ex, st, a[0]), ld(ex, st, a[1])
    return B_(eqv(ex, st, x, y))


@model('std::operator!=', '__gnu_cxx::operator!=', 'boost::container::operator!=', 'std::__detail::operator!=', 'nlohmann::detail::iter_impl::operator!=')
def _(ex, st, e, obj, a):
    if obj is not None:
        a = [obj] + a
    x, y = ld(ex, st, a[0]), ld(ex, st, a[1])
    return B_(z3.Not(eqv(ex, st, x, y)))


@model('std::operator<')
def _(ex, st, e, obj, a):
    x, y = ld(ex, st, a[0]), ld(ex, st, a[1])
    if isinstance(x, Val) and isinstance(x.sh, Sc) and x.sh.k == 'i' and (not isinstance(y, Val) or y.sh.n == 0 or True):
        if isinstance(y, Val) and y.sh.n == 1:
            return B_(x.x < y.x)
        return B_(x.x < 0)
    raise Unsup('operator<')


for _n, _f in (('>', lambda x: x > 0), ('>=', lambda x: x >= 0), ('<=', lambda x: x <= 0)):
    def _mk(f):
        def g(ex, st, e, obj, a):
            x = ld(ex, st, a[0])
            if isinstance(x, Val) and isinstance(x.sh, Sc) and x.sh.k == 'i':
                return B_(f(x.x))
            raise Unsup('ordering')
        return g
    M['std::operator' + _n] = _mk(_f)


@model('std::__cmp_cat::__unspec::__unspec')
def _(ex, st, e, obj, a):
    return Val(Nil(), ())


# ------------------------------------------------------------------ math
@model('std::isfinite', 'isfinite')
def _(ex, st, e, obj, a):
    v = ex.rv(st, a[0])
    if v.sh.k != 'd':
        return B_(T)
    return B_(is_fin(v.x))


@model('std::isnan', 'isnan')
def _(ex, st, e, obj, a):
    v = ex.rv(st, a[0])
    return B_(is_nan(v.x) if v.sh.k == 'd' else F)


@model('std::isinf', 'isinf')
def _(ex, st, e, obj, a):
    x = ex.rv(st, a[0]).x
    return B_(z3.Or(x == INF, x == NINF))


@model('std::pow', 'pow')
def _(ex, st, e, obj, a):
    x, y = [ex.scast(ex.rv(st, v), Sc('d')) for v in a]
    return D_(dv(1.0) if const_d(y.x) == 0.0 else app('dpow', R, x.x, y.x))


@model('std::abs', 'std::fabs', 'fabs')
def _(ex, st, e, obj, a):
    v = ex.rv(st, a[0])
    if v.sh.k == 'd':
        return D_(z3.If(v.x == NAN, NAN, z3.If(v.x < 0, -v.x, v.x)))
    return Val(v.sh, [z3.If(v.x < 0, -v.x, v.x)])


def _cmpxy(ex, st, x, y):
    return ex.arith('<', x, y, None).x


@model('std::max')
def _(ex, st, e, obj, a):
    if len(a) == 1:
        v = ex.rv(st, a[0])
        if isinstance(v, IList):
            r = v.vals[0]
            for y in v.vals[1:]:
                r = ite(_cmpxy(ex, st, r, y), y, r)
            return r
    x, y = ex.rv(st, a[0]), ex.rv(st, a[1])
    return ite(_cmpxy(ex, st, x, y), y, x)


@model('std::min')
def _(ex, st, e, obj, a):
    if len(a) == 1:
        v = ex.rv(st, a[0])
        if isinstance(v, IList):
            r = v.vals[0]
            for y in v.vals[1:]:
                r = ite(_cmpxy(ex, st, y, r), y, r)
            return r
    x, y = ex.rv(st, a[0]), ex.rv(st, a[1])
    return ite(_cmpxy(ex, st, y, x), y, x)


@model('std::clamp')
def _(ex, st, e, obj, a):
    x, lo, hi = [ex.rv(st, v) for v in a[:3]]
    return ite(_cmpxy(ex, st, x, lo), lo, ite(_cmpxy(ex, st, hi, x), hi, x))


@model('std::fmin', 'fmin')
def _(ex, st, e, obj, a):
    x, y = ex.rv(st, a[0]).x, ex.rv(st, a[1]).x
    return D_(z3.If(x == NAN, y, z3.If(y == NAN, x, z3.If(y < x, y, x))))


@model('std::fmax', 'fmax')
def _(ex, st, e, obj, a):
    x, y = ex.rv(st, a[0]).x, ex.rv(st, a[1]).x
    return D_(z3.If(x == NAN, y, z3.If(y == NAN, x, z3.If(x < y, y, x))))


@model('std::trunc', 'std::floor', 'std::ceil', 'std::round')
def _(ex, st, e, obj, a):
    q = strip_t(e['fn']['q'])
    return D_(app(q, R, ex.rv(st, a[0]).x))


@model('std::numeric_limits::quiet_NaN')
def _(ex, st, e, obj, a):
    return D_(NAN)


@model('std::isalnum', 'isalnum')
def _(ex, st, e, obj, a):
    x = ex.rv(st, a[0]).x
    c = z3.Or(z3.And(x >= 48, x <= 57), z3.And(x >= 65, x <= 90), z3.And(x >= 97, x <= 122))
    return I_(z3.If(c, iv(1), iv(0)), 32, False)


@model('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const', 'std::addressof')
def _(ex, st, e, obj, a):
    return a[0]


@model('std::swap')
def _(ex, st, e, obj, a):
    x, y = ex.rv(st, a[0]), ex.rv(st, a[1])
    ex.store(st, a[0], y)
    ex.store(st, a[1], x)


@model('std::exchange')
def _(ex, st, e, obj, a):
    x = ex.rv(st, a[0])
    ex.store(st, a[0], ex.coerce(a[1], a[0].sh, st))
    return x


# ------------------------------------------------------------------ chrono
def ratio_of(t):
    return t


@model('std::chrono::duration::duration', 'std::chrono::time_point::time_point')
def _(ex, st, e, obj, a):
    sh = ex.prog.shape(e['t'])
    if not a:
        return Val(sh, [iv(0)])
    v = ex.rv(st, a[0])
    if v.sh.k == 't':
        return Val(sh, [rescale(v.x, v.sh.ratio, sh.ratio)])
    if v.sh.k == 'd':
        return Val(sh, [d2i(v.x)])
    return Val(sh, [v.x])


def rescale(x, fr, to):
    """ticks of period fr -> ticks of period to (truncating)"""
    n, d = fr[0] * to[1], fr[1] * to[0]
    from math import gcd
    g = gcd(n, d)
    n, d = n // g, d // g
    x = x * n if n != 1 else x
    if d == 1:
        return z3.simplify(x)
    return z3.simplify(z3.If(x >= 0, x / d, -((-x) / d)))


@model('std::chrono::duration_cast', 'std::chrono::time_point_cast')
def _(ex, st, e, obj, a):
    v = ex.rv(st, a[0])
    sh = ex.prog.shape(e['fn']['rt'])
    return Val(sh, [rescale(v.x, v.sh.ratio, sh.ratio)])


@model('std::chrono::duration::count')
def _(ex, st, e, obj, a):
    return I_(ex.rv(st, obj).x, 64, False)


@model('std::chrono::time_point::time_since_epoch')
def _(ex, st, e, obj, a):
    v = ex.rv(st, obj)
    return Val(Sc('t', ratio=(1, 10 ** 9)), [v.x])


@model('std::chrono::duration::zero')
def _(ex, st, e, obj, a):
    return Val(ex.prog.shape(e['fn']['rt']), [iv(0)])


@model('std::chrono::system_clock::now', 'std::chrono::steady_clock::now', 'std::chrono::high_resolution_clock::now')
def _(ex, st, e, obj, a):
    t = z3.Const('now', I)
    return Val(Sc('t', ratio=(1, 10 ** 9)), [t])


def _tcmp(ex, st, a):
    x, y = ex.rv(st, a[0]), ex.rv(st, a[1])
    from math import gcd
    (n1, d1), (n2, d2) = x.sh.ratio, y.sh.ratio
    # common period
    return x.x * (n1 * d2), y.x * (n2 * d1), x, y


@model('std::chrono::operator-')
def _(ex, st, e, obj, a):
    x, y = ex.rv(st, a[0]), ex.rv(st, a[1])
    sh = ex.prog.shape(e['fn']['rt'])
    return Val(sh, [rescale(x.x, x.sh.ratio, sh.ratio) - rescale(y.x, y.sh.ratio, sh.ratio)])


@model('std::chrono::operator+')
def _(ex, st, e, obj, a):
    x, y = ex.rv(st, a[0]), ex.rv(st, a[1])
    sh = ex.prog.shape(e['fn']['rt'])
    return Val(sh, [rescale(x.x, x.sh.ratio, sh.ratio) + rescale(y.x, y.sh.ratio, sh.ratio)])


@model('std::chrono::operator<=>')
def _(ex, st, e, obj, a):
    x, y, _, _ = _tcmp(ex, st, a)
    return Val(Sc('i', 8, False), [z3.simplify(x) - z3.simplify(y)])


for _n, _f in (('<', lambda x, y: x < y), ('>', lambda x, y: x > y), ('<=', lambda x, y: x <= y), ('>=', lambda x, y: x >= y),
               ('==', lambda x, y: x == y), ('!=', lambda x, y: x != y)):
    def _mk(f):
        def g(ex, st, e, obj, a):
            x, y, _, _ = _tcmp(ex, st, a)
            return B_(f(z3.simplify(x), z3.simplify(y)))
        return g
    M['std::chrono::operator' + _n] = _mk(_f)


@model('std::chrono::time_point::operator+=', 'std::chrono::duration::operator+=')
def _(ex, st, e, obj, a):
    x, y = ex.rv(st, obj), ex.rv(st, a[0])
    ex.store(st, obj, Val(x.sh, [x.x + rescale(y.x, y.sh.ratio, x.sh.ratio)]))
    return obj


@model('std::chrono::duration::operator-=')
def _(ex, st, e, obj, a):
    x, y = ex.rv(st, obj), ex.rv(st, a[0])
    ex.store(st, obj, Val(x.sh, [x.x - rescale(y.x, y.sh.ratio, x.sh.ratio)]))
    return obj


@model('std::chrono::duration::operator=', 'std::chrono::time_point::operator=')
def _(ex, st, e, obj, a):
    ex.store(st, obj, Val(obj.sh, [ex.rv(st, a[0]).x]))
    return obj


# ------------------------------------------------------------------ vectors
def _vec(ex, st, obj):
    v = ex.rv(st, obj)
    if isinstance(v, Val) and isinstance(v.sh, (Vec, Deq, Map, Set, Arr)):
        if isinstance(v.sh, (Vec, Deq)):
            ex.len_fact(v)
        return v
    raise Unsup('container operand')


@model('std::vector::vector', 'std::deque::deque', 'std::map::map', 'std::set::set', 'std::unordered_map::unordered_map',
       'std::unordered_set::unordered_set', 'boost::container::flat_map::flat_map', 'std::list::list', 'std::initializer_list::initializer_list')
def _(ex, st, e, obj, a):
    sh = ex.prog.shape(e['t'])
    a = [x for x in a if not (isinstance(x, Val) and x.sh.n == 0)]
    if not a:
        return default(sh)
    v = ex.rv(st, a[0])
    if isinstance(v, IList):
        return ex.ilist_to(v, sh, st)
    if isinstance(v, Val) and v.sh == sh and len(a) == 1:
        return v
    if isinstance(v, Val) and isinstance(v.sh, Sc) and v.sh.k == 'i' and isinstance(sh, Vec):
        x = ex.coerce(a[1], sh.e, st) if len(a) > 1 else ex.value_init(sh.e, st)
        return Val(sh, (v.x,) + tuple(z3.K(I, y) for y in x.l))
    if isinstance(v, It) and len(a) == 2:
        w = ex.rv(st, a[1])
        c = ex.load(st, v.c)
        if isinstance(v.c.sh, Vec) and isinstance(sh, Vec) and z3.is_int_value(z3.simplify(v.idx)) and z3.simplify(v.idx).as_long() == 0:
            return Val(sh, (w.idx,) + c.l[1:])
        if isinstance(v.c.sh, Vec) and isinstance(sh, Set) and z3.is_int_value(z3.simplify(v.idx)) and z3.simplify(v.idx).as_long() == 0:
            ex.uid += 1
            x = z3.Const(f'elem!{ex.uid}', sh.ks)
            return Val(sh, [z3.Lambda([x], vmem(Val(v.c.sh, (w.idx,) + c.l[1:]), x))])
    raise Unsup('container constructor')


def _casg(ex, st, e, obj, a):
    v = ex.rv(st, a[0])
    if isinstance(v, IList):
        v = ex.ilist_to(v, obj.sh, st)
    ex.store(st, obj, Val(obj.sh, v.l) if isinstance(v, Val) else v)
    return obj


for _c in ('std::vector', 'std::map', 'std::set', 'std::unordered_map', 'std::unordered_set', 'std::deque', 'std::pair', '__gnu_cxx::__normal_iterator',
           'std::_Rb_tree_iterator', 'std::shared_ptr', 'std::optional::x', 'std::variant'):
    M[_c + '::operator='] = _casg


@model('std::vector::size', 'std::deque::size', 'std::list::size', 'std::array::size', 'std::initializer_list::size')
def _(ex, st, e, obj, a):
    v = ex.rv(st, obj)
    if isinstance(v, IList):
        return I_(iv(len(v.vals)))
    v = _vec(ex, st, obj)
    if isinstance(v.sh, Arr):
        return I_(iv(v.sh.cnt))
    return I_(v.len)


@model('std::vector::empty', 'std::deque::empty', 'std::list::empty')
def _(ex, st, e, obj, a):
    return B_(_vec(ex, st, obj).len == 0)


@model('std::vector::push_back', 'std::vector::emplace_back', 'std::deque::push_back', 'std::deque::emplace_back', 'std::list::push_back')
def _(ex, st, e, obj, a):
    v = _vec(ex, st, obj)
    es = v.sh.e
    if len(a) == 1:
        x = ld(ex, st, a[0])
        x = ex.coerce(x, es, st)
    else:
        if not isinstance(es, Rec):
            raise Unsup('emplace')
        ctor = ex.models.get('emplace ' + es.q)
        x = ex.ilist_to(IList([ex.rv(st, y) for y in a]), es, st)
    ex.store(st, obj, v.push(x))
    nv = ex.load(st, obj)
    return obj.ix(z3.simplify(v.len) if isinstance(v.sh, Vec) else v.len)


@model('std::vector::pop_back')
def _(ex, st, e, obj, a):
    v = _vec(ex, st, obj)
    ex.store(st, obj, Val(v.sh, (v.len - 1,) + v.l[1:]))


@model('std::vector::reserve', 'std::unordered_map::reserve', 'std::unordered_set::reserve', 'std::vector::shrink_to_fit', 'std::basic_string::reserve')
def _(ex, st, e, obj, a):
    return None


@model('std::vector::clear', 'std::deque::clear', 'std::map::clear', 'std::set::clear', 'std::unordered_set::clear', 'std::unordered_map::clear')
def _(ex, st, e, obj, a):
    v = _vec(ex, st, obj)
    ex.store(st, obj, default(v.sh))


@model('std::vector::operator[]', 'std::deque::operator[]', 'std::array::operator[]')
def _(ex, st, e, obj, a):
    i = ex.rv(st, a[0]).x
    return obj.ix(i) if isinstance(obj, Loc) else ex.rv(st, obj).at(i)


@model('std::vector::at', 'std::deque::at')
def _(ex, st, e, obj, a):
    v = _vec(ex, st, obj)
    i = ex.rv(st, a[0]).x
    ex.throw(st, z3.Or(i < 0, i >= v.len), Exc('std::out_of_range'))
    return obj.ix(i) if isinstance(obj, Loc) else v.at(i)


@model('std::vector::front', 'std::deque::front')
def _(ex, st, e, obj, a):
    return obj.ix(iv(0)) if isinstance(obj, Loc) else ex.rv(st, obj).at(iv(0))


@model('std::vector::back', 'std::deque::back')
def _(ex, st, e, obj, a):
    v = _vec(ex, st, obj)
    i = z3.simplify(v.len - 1)
    return obj.ix(i) if isinstance(obj, Loc) else v.at(i)


@model('std::deque::pop_front')
def _(ex, st, e, obj, a):
    v = _vec(ex, st, obj)
    ex.store(st, obj, Val(v.sh, (z3.simplify(v.l[0] + 1), z3.simplify(v.l[1] - 1)) + v.l[2:]))


def as_loc(ex, st, x):
    if isinstance(x, Loc):
        return x
    v = ex.rv(st, x)
    return ex.newroot(st, v.sh if isinstance(v, Val) else None, v)


@model('std::vector::begin', 'std::vector::cbegin', 'std::deque::begin', 'std::array::begin', 'std::begin')
def _(ex, st, e, obj, a):
    return It('vec', as_loc(ex, st, obj if obj is not None else a[0]), idx=iv(0))


@model('std::vector::end', 'std::vector::cend', 'std::deque::end', 'std::array::end', 'std::end')
def _(ex, st, e, obj, a):
    o = as_loc(ex, st, obj if obj is not None else a[0])
    v = _vec(ex, st, o)
    return It('vec', o, idx=v.len if not isinstance(v.sh, Arr) else iv(v.sh.cnt))


def _mk(ex, st, obj):
    v = _vec(ex, st, obj)
    return ('map' if isinstance(v.sh, Map) else 'set'), v


for _c in ('std::map', 'std::set', 'std::unordered_map', 'std::unordered_set', 'boost::container::flat_map'):
    def begin(ex, st, e, obj, a):
        k, v = _mk(ex, st, obj)
        return It(k, as_loc(ex, st, obj), idx=iv(0), key=enumKey(v.dom, iv(0)), end=(enumN(v.dom) == 0))

    def end(ex, st, e, obj, a):
        k, v = _mk(ex, st, obj)
        return It(k, as_loc(ex, st, obj), idx=enumN(v.dom), key=enumKey(v.dom, enumN(v.dom)), end=T)

    def find(ex, st, e, obj, a):
        k, v = _mk(ex, st, obj)
        key = ex.coerce(a[0], v.sh.k, st).x
        return It(k, as_loc(ex, st, obj), idx=enumPos(v.dom, key), key=key, end=z3.Not(v.has(key)))

    def count(ex, st, e, obj, a):
        k, v = _mk(ex, st, obj)
        return I_(z3.If(v.has(ex.coerce(a[0], v.sh.k, st).x), iv(1), iv(0)))

    def contains(ex, st, e, obj, a):
        k, v = _mk(ex, st, obj)
        return B_(v.has(ex.coerce(a[0], v.sh.k, st).x))

    def empty(ex, st, e, obj, a):
        return B_(enumN(_vec(ex, st, obj).dom) == 0)

    def size(ex, st, e, obj, a):
        return I_(enumN(_vec(ex, st, obj).dom))

    def index(ex, st, e, obj, a):
        v = _vec(ex, st, obj)
        key = ex.coerce(a[0], v.sh.k, st).x
        h = z3.simplify(v.has(key))
        if not z3.is_true(h):
            ex.store(st, obj, ite(h, v, v.set(key, ex.value_init(v.sh.v, st))))
        return obj.ix(key)

    def at(ex, st, e, obj, a):
        v = _vec(ex, st, obj)
        key = ex.coerce(a[0], v.sh.k, st).x
        ex.throw(st, z3.Not(v.has(key)), Exc('std::out_of_range'))
        return obj.ix(key) if isinstance(obj, Loc) else v.at(key)

    def erase(ex, st, e, obj, a):
        k, v = _mk(ex, st, obj)
        x = ex.rv(st, a[0])
        if isinstance(x, It):
            if len(a) > 1:
                raise Unsup('erase range')
            nxt = None
            if x.idx is not None and any(c.same(x.c) for c, _ in ex.frozen):
                nxt = ex.it_add(st, x, iv(1))
            ex.store(st, obj, v.rem(x.key))
            return nxt
        key = ex.coerce(x, v.sh.k, st).x
        ex.store(st, obj, v.rem(key))
        return I_(z3.If(v.has(key), iv(1), iv(0)))

    def insert(ex, st, e, obj, a):
        k, v = _mk(ex, st, obj)
        nm = strip_t(e['fn']['q']).split('::')[-1]
        if k == 'set':
            x = ex.rv(st, a[0])
            if len(a) == 2 and isinstance(x, It):
                return set_insert_range(ex, st, obj, x, ex.rv(st, a[1]))
            if isinstance(x, IList):
                for y in x.vals:
                    v = v.add(ex.coerce(y, v.sh.k, st).x)
                ex.store(st, obj, v)
                return None
            key = ex.coerce(a[0], v.sh.k, st).x
            ex.store(st, obj, v.add(key))
            return pair_itb(ex, st, obj, v, key)
        ps = Rec('std::pair', [('first', v.sh.k), ('second', v.sh.v)])
        if nm == 'insert_or_assign':
            key = ex.coerce(a[0], v.sh.k, st).x
            ex.store(st, obj, v.set(key, ex.coerce(a[1], v.sh.v, st)))
            return pair_itb(ex, st, obj, v, key)
        if nm == 'try_emplace' or (nm in ('emplace',) and len(a) == 2):
            key = ex.coerce(a[0], v.sh.k, st).x
            val = ex.coerce(a[1], v.sh.v, st) if len(a) > 1 else ex.value_init(v.sh.v, st)
        else:
            x = ld(ex, st, a[0])
            x = ex.coerce(x, ps, st)
            key, val = x.f('first').x, x.f('second')
        h = z3.simplify(v.has(key))
        ex.store(st, obj, v if z3.is_true(h) else ite(h, v, v.set(key, val)))
        return pair_itb(ex, st, obj, v, key)
    for _n, _f in dict(begin=begin, cbegin=begin, end=end, cend=end, find=find, count=count, contains=contains, empty=empty, size=size,
                       at=at, erase=erase, insert=insert, emplace=insert, try_emplace=insert, insert_or_assign=insert).items():
        M[f'{_c}::{_n}'] = _f
    if 'set' not in _c:
        M[f'{_c}::operator[]'] = index


class PairItB(Py):
    def parts(self):
        return [self.it, B_(self.ins) if z3.is_expr(self.ins) else self.ins]

    def __init__(self, it, ins):
        self.it, self.ins = it, ins


def pair_itb(ex, st, obj, v, key):
    return PairItB(It('map' if isinstance(v.sh, Map) else 'set', obj, idx=None, key=key, end=F), z3.Not(v.has(key)))


def set_with(ex, kind, v, vec, n=None):
    """the set v with the first n elements of vec added ('setplus') or removed ('setminus')"""
    n = vec.len if n is None else n
    t = app(kind, v.dom.sort(), v.dom, vec.l[1], n)

    def gen(t):
        d, a, k = t.children()
        out = [z3.Implies(k == 0, t == d)]
        num = z3.is_int_value(k)
        if ex.bounded is not None and not num:
            out += [z3.Implies(k == j, t == app(kind, d.sort(), d, a, iv(j))) for j in range(ex.bounded + 2)]
        if num and k.as_long() > 0 or z3.is_add(k) and k.num_args() == 2 and any(z3.is_int_value(x) and x.as_long() > 0 for x in k.children()):
            j = z3.simplify(k - 1)
            out.append(z3.Implies(j >= 0, t == z3.Store(app(kind, d.sort(), d, a, j), z3.Select(a, j), z3.BoolVal(kind == 'setplus'))))
        return out
    ex.ax.extra[t.decl().name()] = gen
    arr = vec.l[1]

    def hint(ex_, st_, mod, entry):
        out = []
        for key, h in mod.items():
            if h.sort() == v.dom.sort():
                for off in (0, 1):
                    out.append((f'{key[0][1]} {kind}', lambda kk, m, key=key, off=off: m[key] == app(kind, m[key].sort(), entry[key], arr, z3.simplify(kk + off))))
        return out
    if not any(y == kind and x.eq(arr) for y, x in ex.setarrs):
        ex.setarrs.append((kind, arr))
        ex.hints.append(hint)
    return Val(v.sh, [t])


def set_insert_range(ex, st, obj, b, e):
    """insert [b,e) of a vector: union with the vector's elements"""
    v, c = ex.load(st, obj), ex.load(st, b.c)
    if b.kind == 'vec' and isinstance(c.sh, Vec) and c.sh.e == v.sh.k and z3.is_true(z3.simplify(b.idx == 0)):
        ex.store(st, obj, set_with(ex, 'setplus', v, c, e.idx))
        return None
    raise Unsup('range insert')


@model('__gnu_cxx::__normal_iterator::operator*', '__gnu_cxx::__normal_iterator::operator->', 'std::_Rb_tree_iterator::operator*',
       'std::_Rb_tree_iterator::operator->', 'std::_Rb_tree_const_iterator::operator*', 'std::_Rb_tree_const_iterator::operator->',
       'std::__detail::_Node_iterator::operator*', 'std::__detail::_Node_iterator::operator->', 'std::__detail::_Node_const_iterator::operator*',
       'std::__detail::_Node_const_iterator::operator->', 'boost::container::vec_iterator::operator->', 'boost::container::vec_iterator::operator*',
       'nlohmann::detail::iter_impl::operator*', 'nlohmann::detail::iter_impl::operator->')
def _(ex, st, e, obj, a):
    it = ex.rv(st, obj)
    if not isinstance(it, It):
        raise Unsup('iterator operand')
    r = ex.it_deref(st, it)
    if strip_t(e['fn']['q']).endswith('->'):
        return PV([(T, r)]) if isinstance(r, Loc) else ArrowTo(r)
    return r


class ArrowTo(Py):
    def __init__(self, x):
        self.x = x


_old_deref = Exec.deref


def _deref(self, st, p, t=None):
    if isinstance(p, ArrowTo):
        return p.x
    if isinstance(p, Loc) and p.root in st.py and isinstance(st.py[p.root], ArrowTo):
        return st.py[p.root].x
    return _old_deref(self, st, p, t)


Exec.deref = _deref


def _py_member(self, st, o, n):
    if isinstance(o, PairItB):
        if n == 'first':
            return o.it
        if n == 'second':
            return B_(o.ins)
    if isinstance(o, PairRef):
        return o.get(n)
    raise Unsup(f'member {n} of {type(o).__name__}')


Exec.py_member = _py_member


for _c in ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator',
           'std::__detail::_Node_const_iterator', 'nlohmann::detail::iter_impl', 'boost::container::vec_iterator'):
    def inc(ex, st, e, obj, a):
        it = ex.rv(st, obj)
        n = ex.it_add(st, it, iv(1))
        ex.store(st, obj, n)
        return obj if not a and not e['fn']['pt'] else it

    def dec(ex, st, e, obj, a):
        it = ex.rv(st, obj)
        ex.store(st, obj, ex.it_add(st, it, iv(-1)))
        return obj if not e['fn']['pt'] else it

    def plus(ex, st, e, obj, a):
        return ex.it_add(st, ex.rv(st, obj), ex.rv(st, a[0]).x)

    def minus(ex, st, e, obj, a):
        return ex.it_add(st, ex.rv(st, obj), -ex.rv(st, a[0]).x)

    def ctor(ex, st, e, obj, a):
        return ex.rv(st, a[0]) if a else Poison()
    M[_c + '::operator++'] = inc
    M[_c + '::operator--'] = dec
    M[_c + '::operator+'] = plus
    M[_c + '::operator-'] = minus
    for n in ('__normal_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', '_Node_iterator', '_Node_const_iterator'):
        M[_c + '::' + n] = ctor


@model('std::next')
def _(ex, st, e, obj, a):
    return ex.it_add(st, ex.rv(st, a[0]), ex.rv(st, a[1]).x if len(a) > 1 else iv(1))


@model('__gnu_cxx::operator-', 'std::distance')
def _(ex, st, e, obj, a):
    x, y = ex.rv(st, a[0]), ex.rv(st, a[1])
    if strip_t(e['fn']['q']).endswith('distance'):
        x, y = y, x
    return I_(x.idx - y.idx, 64, False)


# ------------------------------------------------------------------ algorithms
def whole(ex, st, a):
    b, e = ex.rv(st, a[0]), ex.rv(st, a[1])
    if not (isinstance(b, It) and isinstance(e, It) and b.c.same(e.c)):
        raise Unsup('iterator range')
    v = ex.load(st, b.c)
    if b.kind in ('vec', 'arr'):
        n = v.len if not isinstance(v.sh, Arr) else iv(v.sh.cnt)
        if not (z3.is_int_value(z3.simplify(b.idx)) and z3.simplify(b.idx).as_long() == 0 and z3.eq(z3.simplify(e.idx), z3.simplify(n))):
            raise Unsup('partial iterator range')
    return b, e, v


def _elem_minmax(kind):
    def g(ex, st, e, obj, a):
        b, en, v = whole(ex, st, a)
        if isinstance(v.sh, Vec) and v.sh.e.n == 1 and v.sh.e.sorts[0] == R and len(a) == 2:
            agg = app('v' + kind, R, v.l[1], v.len)
            idx = app('v' + kind + 'idx', I, v.l[1], v.len)
            ex.pre_facts.append(z3.Implies(v.len > 0, z3.And(idx >= 0, idx < v.len, z3.Select(v.l[1], idx) == agg)))
            ex.pre_facts.append(z3.Implies(v.len == 0, idx == 0))
            return It('vec', b.c, idx=idx)
        return sel_loop(ex, st, b, en, v, a[2] if len(a) > 2 else None, kind)
    return g


M['std::min_element'] = _elem_minmax('min')
M['std::max_element'] = _elem_minmax('max')


def sel_loop(ex, st, b, en, v, cmp, kind):
    """min/max_element as the textbook loop"""
    best = ex.newroot(st, None, b, 'best')
    cur = ex.newroot(st, None, ex.it_add(st, b, iv(1)) if b.kind in ('vec', 'arr') else b, 'cur')
    isempty = ex.it_cmp('==', b, en).x
    s1, s2 = st.copy(), st.copy()
    s1.assume(isempty)
    s2.assume(z3.Not(isempty))
    ex.store(s2, cur, ex.it_add(s2, b, iv(1)))

    def head(x):
        return z3.Not(ex.it_cmp('==', ex.load(x, cur), en).x)

    def body(x, o):
        c, bb = ex.load(x, cur), ex.load(x, best)
        p, q = ex.it_deref(x, c), ex.it_deref(x, bb)
        l, r = (q, p) if kind == 'max' else (p, q)
        if cmp is not None:
            t = ex.b(x, ex.call_value(x, cmp, [l, r], None))
        else:
            t = _cmpxy(ex, x, ex.rv(x, l), ex.rv(x, r))
        n = It(bb.kind, bb.c, *[z3.If(t, cc, dd) if cc is not None and dd is not None else None for cc, dd in
                                zip((c.idx, c.key, c.end), (bb.idx, bb.key, bb.end))])
        ex.store(x, best, n)
        return x

    def inc(x):
        ex.store(x, cur, ex.it_add(x, ex.load(x, cur), iv(1)))
        return x
    out = Outs()
    r = ex.loop(s2, head, body, inc, out)
    m = ex.merge([y for y in (s1, r) if y is not None])
    st.roots, st.py, st.pc = m.roots, m.py, m.pc
    return ex.load(st, best)


@model('std::find')
def _(ex, st, e, obj, a):
    b, en, v = whole(ex, st, a)
    if isinstance(v.sh, Arr) and v.sh.e.n == 1 and v.sh.cnt is not None and v.sh.cnt <= 64:
        x = ex.rv(st, a[2])
        if not (isinstance(x, Val) and x.sh.n == 1 and x.x.sort() == v.sh.e.sorts[0]):
            raise Unsup('find')
        idx = iv(v.sh.cnt)
        for i in reversed(range(v.sh.cnt)):
            y = z3.Select(v.l[0], iv(i))
            idx = z3.If((y == x.x) if x.x.sort() != R else deq(y, x.x), iv(i), idx)
        return It(b.kind, b.c, idx=z3.simplify(idx))
    x = ex.coerce(ex.rv(st, a[2]), v.sh.e, st)
    if x.sh.n != 1 or not isinstance(v.sh, Vec):
        raise Unsup('find')
    idx = app('vfindidx', I, v.l[1], v.len, x.x)
    mem = vmem(v, x.x)
    ex.pre_facts.append(v.len >= 0)
    ex.pre_facts.append(z3.If(mem, z3.And(idx >= 0, idx < v.len, z3.Select(v.l[1], idx) == x.x), idx == v.len))
    return It('vec', b.c, idx=idx)


@model('std::count')
def _(ex, st, e, obj, a):
    b, en, v = whole(ex, st, a)
    x = ex.coerce(ex.rv(st, a[2]), v.sh.e, st)
    n = app('vcount', I, v.l[1], v.len, x.x)
    ex.pre_facts.append(z3.And(n >= 0, (n > 0) == vmem(v, x.x)))
    return I_(n, 64, False)


@model('std::find_if', 'std::find_if_not')
def _(ex, st, e, obj, a):
    neg = strip_t(e['fn']['q']).endswith('not')
    b, en, v = whole(ex, st, a)
    cur = ex.newroot(st, None, b, 'cur')

    def head(x):
        return z3.Not(ex.it_cmp('==', ex.load(x, cur), en).x)

    def body(x, o):
        t = ex.b(x, ex.call_value(x, a[2], [ex.it_deref(x, ex.load(x, cur))], None))
        t = z3.Not(t) if neg else t
        y = x.copy()
        y.assume(t)
        o.brk.append(y)
        x.assume(z3.Not(t))
        return x

    def inc(x):
        ex.store(x, cur, ex.it_add(x, ex.load(x, cur), iv(1)))
        return x
    r = ex.loop(st.copy(), head, body, inc, Outs())
    st.roots, st.py, st.pc = r.roots, r.py, r.pc
    return ex.load(st, cur)


@model('std::any_of', 'std::all_of', 'std::none_of')
def _(ex, st, e, obj, a):
    nm = strip_t(e['fn']['q']).split('::')[-1]
    it = M['std::find_if'](ex, st, {'fn': {'q': 'std::find_if_not' if nm == 'all_of' else 'std::find_if'}}, None, a)
    en = ex.rv(st, a[1])
    r = ex.it_cmp('!=', it, en).x
    return B_(r if nm == 'any_of' else z3.Not(r))


@model('std::for_each')
def _(ex, st, e, obj, a):
    b, en, v = whole(ex, st, a)
    r = ex.foreach(st.copy(), b.c, lambda x, el, o: (ex.call_value(x, a[2], [PairRef(*el) if isinstance(el, tuple) else el], None), x)[1], Outs())
    st.roots, st.py, st.pc = r.roots, r.py, r.pc
    return a[2]


@model('std::fill')
def _(ex, st, e, obj, a):
    b, en, v = whole(ex, st, a)
    val = ex.rv(st, a[2])
    r = ex.foreach(st.copy(), b.c, lambda x, el, o: (ex.store(x, el, ex.coerce(val, el.sh, x) if isinstance(val, Val) else val), x)[1], Outs())
    st.roots, st.py, st.pc = r.roots, r.py, r.pc


@model('std::copy')
def _(ex, st, e, obj, a):
    b, en, v = whole(ex, st, a)
    to = ex.rv(st, a[2])
    if not (isinstance(to, It) and to.kind in ('arr', 'vec') and isinstance(v.sh, (Vec, Arr)) and to.idx is not None):
        raise Unsup('copy')
    n = v.len if isinstance(v.sh, Vec) else iv(v.sh.cnt)
    d = ex.load(st, to.c)
    if d.sh.e.sorts != v.sh.e.sorts:
        raise Unsup('copy')
    q = z3.Int('q')
    m = v.sh.e.n
    ex.pre_facts.append(n >= 0)
    new = [z3.Lambda([q], z3.If(z3.And(q >= to.idx, q < to.idx + n), z3.Select(y, q - to.idx), z3.Select(x, q))) for x, y in zip(d.l[-m:], v.l[-m:])]
    ex.store(st, to.c, Val(d.sh, list(d.l[:-m]) + new))
    return It(to.kind, to.c, idx=to.idx + n)


def _ranges(nm):
    """std::ranges::f(range, …) or (first, last, …) with default comparator and projection"""
    q = 'std::' + nm

    def g(ex, st, e, obj, a):
        args = list(a)
        vals = [ex.rv(st, x) for x in args]
        while vals and (isinstance(vals[-1], IList) and not vals[-1].vals or isinstance(vals[-1], Val) and isinstance(vals[-1].sh, (Nil, Rec)) and vals[-1].sh.n == 0
                        or isinstance(vals[-1], Obj) and vals[-1].cls in ('std::identity', 'std::ranges::less')):
            vals.pop()
            args.pop()
        if not (vals and isinstance(vals[0], It)):
            c = as_loc(ex, st, args[0])
            v = ex.rv(st, c)
            if not isinstance(v, Val):
                raise Unsup('range')
            pre = 'std::map' if isinstance(v.sh, Map) else 'std::set' if isinstance(v.sh, Set) else 'std::vector'
            args = [M[pre + '::begin'](ex, st, e, c, []), M[pre + '::end'](ex, st, e, c, [])] + args[1:]
        if len(args) != {'min_element': len(args), 'max_element': len(args)}.get(nm, 3):
            raise Unsup('ranges projection')
        if len(args) > 3:
            raise Unsup('ranges projection')
        if nm == 'contains':
            it = M['std::find'](ex, st, {'fn': {'q': 'std::find'}}, None, args)
            return B_(ex.it_cmp('!=', it, ex.rv(st, args[1])).x)
        return M[q](ex, st, {'fn': {'q': q}}, None, args)
    return g


for _n in ('min_element', 'max_element', 'find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'for_each', 'count', 'contains', 'fill'):
    M[f'std::ranges::__{_n}_fn::operator()'] = _ranges(_n)


@model('std::accumulate')
def _(ex, st, e, obj, a):
    b, en, v = whole(ex, st, a)
    acc = ex.newroot(st, None, ex.rv(st, a[2]), 'acc')
    if len(a) == 3 and isinstance(v.sh, Vec) and v.sh.e.sorts == (R,):
        x = ex.rv(st, a[2])
        if x.sh.k == 'd' and const_d(x.x) == 0:
            return D_(z3.If(v.len == 0, dv(0.0), app('vsum', R, v.l[1], v.len)))

    def body(x, el, o):
        if isinstance(el, tuple):
            el = PairRef(*el)
        cur = ex.load(x, acc)
        if len(a) > 3:
            n = ex.rv(x, ex.call_value(x, a[3], [cur, el], None))
        else:
            n = ex.arith('+', cur, ex.rv(x, el), None)
        ex.store(x, acc, n)
        return x
    r = ex.foreach(st.copy(), b.c, body, Outs())
    st.roots, st.py, st.pc = r.roots, r.py, r.pc
    return ex.load(st, acc)


# ------------------------------------------------------------------ pair / optional / variant / tuple
@model('std::pair::pair', 'std::make_pair')
def _(ex, st, e, obj, a):
    t = e.get('t') if e['k'] == 'ctor' else e['fn']['rt']
    sh = ex.prog.shape(t)
    if not a:
        return default(sh)
    if len(a) == 1:
        return ex.coerce(ld(ex, st, a[0]), sh, st)
    return ex.ilist_to(IList([ex.rv(st, x) for x in a]), sh, st)


@model('std::make_tuple', 'std::tuple::tuple')
def _(ex, st, e, obj, a):
    raise Unsup('tuple')


@model('std::tie')
def _(ex, st, e, obj, a):
    return Obj('tie', locs=list(a))


@model('std::tuple::operator=')
def _(ex, st, e, obj, a):
    v = ex.rv(st, a[0])
    if not (isinstance(obj, Obj) and obj.cls == 'tie' and isinstance(v, Val) and isinstance(v.sh, Rec) and len(v.sh.fields) == len(obj.locs)):
        raise Unsup('tuple')
    for l, (n, _s) in zip(obj.locs, v.sh.fields):
        if isinstance(l, Loc) and not isinstance(l.sh, Nil):
            ex.store(st, l, ex.coerce(v.f(n), l.sh, st))
    return obj


@model('std::variant::variant')
def _(ex, st, e, obj, a):
    sh = ex.prog.shape(e['t'])
    if not a:
        return default(sh)
    x = ex.rv(st, a[0])
    if isinstance(x, Val) and x.sh == sh:
        return x
    return ex.coerce(x, sh, st)


def alt_index(ex, var, e):
    ta = e['fn'].get('ta') or []
    if 'i' in ta[0]:
        return ta[0]['i']
    s = ex.prog.shape(ta[0]['t'])
    for i, x in enumerate(var.alts):
        if x == s and (not isinstance(s, Sc) or s.k != 'i' or (s.w, s.u) == (x.w, x.u)):
            return i
    raise Unsup('variant alternative')


@model('std::get')
def _(ex, st, e, obj, a):
    v = ex.rv(st, a[0])
    if isinstance(v.sh, Var):
        i = alt_index(ex, v.sh, e)
        if len(v.sh.alts) > 1:
            ex.throw(st, v.f('tag').x != i, Exc('std::bad_variant_access'))
        return a[0].f(f'a{i}') if isinstance(a[0], Loc) else v.f(f'a{i}')
    if isinstance(v.sh, Rec):
        n = v.sh.fields[e['fn']['ta'][0]['i']][0]
        return a[0].f(n) if isinstance(a[0], Loc) else v.f(n)
    raise Unsup('std::get')


@model('std::get_if')
def _(ex, st, e, obj, a):
    p = ex.rv(st, a[0])
    l = ex.deref(st, p)
    v = ex.load(st, l)
    i = alt_index(ex, v.sh, e)
    c = v.f('tag').x == i if len(v.sh.alts) > 1 else T
    return PV([(c, l.f(f'a{i}')), (z3.Not(c), None)])


@model('std::holds_alternative')
def _(ex, st, e, obj, a):
    v = ex.rv(st, a[0])
    return B_(v.f('tag').x == alt_index(ex, v.sh, e) if len(v.sh.alts) > 1 else T)


@model('std::visit')
def _(ex, st, e, obj, a):
    """call the visitor's overload of the held alternative"""
    v = ex.rv(st, a[1])
    if not isinstance(v, Val) or not isinstance(v.sh, Var):
        raise Unsup('visit')
    t0 = e['args'][0]['t'].deref()
    outs = []
    tag = v.f('tag').x
    n = len(v.sh.alts)
    rest = T
    lam = ex.rv(st, a[0])
    for i, alt in enumerate(v.sh.alts):
        s = st.copy()
        s.assume(tag == i if i < n - 1 else z3.And(*[tag != j for j in range(n - 1)]))
        x = v.f(f'a{i}')
        if isinstance(lam, Clo):
            r = ex.call_value(s, lam, [x], None)
        else:
            r = visit_one(ex, s, t0, x)
        if not ex.dead(s):
            outs.append((s, ex.rv(s, r) if r is not None else None))
    if not outs:
        st.assume(F)
        return default(ex.prog.shape(e['fn']['rt']))
    if all(r is None for _, r in outs):
        m, r = ex.merge([s for s, _ in outs]), None
    else:
        m, r = ex.merge_vals(outs)
    st.roots, st.py, st.pc = m.roots, m.py, m.pc
    return r


def visit_one(ex, s, t0, x):
    cands = ex.prog.fns.get(t0.q + '::operator()', [])
    for f in cands:
        p = f.d['params'][0]['t'].deref()
        sh = ex.prog.shape(p)
        if sh == x.sh and (not isinstance(sh, Sc) or sh.k != 'i' or (sh.w, sh.u) == (x.sh.w, x.sh.u)):
            return ex.call_fn(f, s, [x], this=ex.newroot(s, Nil(), Val(Nil(), ())))
    raise Unsup('visitor overload')


@model('std::optional::optional')
def _(ex, st, e, obj, a):
    sh = ex.prog.shape(e['t'])
    if not a:
        return default(sh)
    x = ex.rv(st, a[0])
    if isinstance(x, Val) and isinstance(x.sh, Opt):
        return x
    if isinstance(x, Val) and x.sh.n == 0:
        return default(sh)
    return ex.coerce(x, sh, st)


@model('std::optional::operator=')
def _(ex, st, e, obj, a):
    x = ex.rv(st, a[0])
    if isinstance(x, Val) and isinstance(x.sh, Nil):
        x = default(obj.sh)
    ex.store(st, obj, ex.coerce(x, obj.sh, st))
    return obj


@model('std::optional::has_value', 'std::optional::operator bool')
def _(ex, st, e, obj, a):
    return B_(ex.rv(st, obj).f('has').x)


@model('std::optional::operator*', 'std::optional::value')
def _(ex, st, e, obj, a):
    if strip_t(e['fn']['q']).endswith('value'):
        ex.throw(st, z3.Not(ex.rv(st, obj).f('has').x), Exc('std::bad_optional_access'))
    return obj.f('val') if isinstance(obj, Loc) else ex.rv(st, obj).f('val')


@model('std::optional::operator->')
def _(ex, st, e, obj, a):
    return PV([(T, as_loc(ex, st, obj).f('val'))])


@model('std::optional::value_or')
def _(ex, st, e, obj, a):
    v = ex.rv(st, obj)
    return ite(v.f('has').x, v.f('val'), ex.coerce(a[0], v.sh.e, st))


@model('std::optional::reset')
def _(ex, st, e, obj, a):
    ex.store(st, obj, default(obj.sh))


# ------------------------------------------------------------------ smart pointers
@model('std::unique_ptr::operator->', 'std::unique_ptr::operator*', 'std::__shared_ptr_access::operator->', 'std::__shared_ptr_access::operator*',
       'std::unique_ptr::get', 'std::__shared_ptr::get', 'std::reference_wrapper::get')
def _(ex, st, e, obj, a):
    v = ex.rv(st, obj)
    nm = strip_t(e['fn']['q']).split('::')[-1]
    if nm == 'operator*' or 'reference_wrapper' in e['fn']['q']:
        rt = e['fn']['rt']
        return ex.deref(st, v, rt.deref() if rt.k == 'ref' else None)
    return v


@model('std::reference_wrapper::operator sdbusplus::bus_t &')
def _(ex, st, e, obj, a):
    rt = e['fn']['rt']
    return ex.deref(st, ex.rv(st, obj), rt.deref() if rt.k == 'ref' else None)


@model('std::unique_ptr::operator bool', 'std::__shared_ptr::operator bool')
def _(ex, st, e, obj, a):
    return B_(ex.b(st, obj))


@model('std::unique_ptr::unique_ptr', 'std::shared_ptr::shared_ptr')
def _(ex, st, e, obj, a):
    if not a:
        return Val(ex.prog.shape(e['t']), [iv(0)])
    v = ex.rv(st, a[0])
    if isinstance(v, PV) and all(l is None for _, l in v.alts):
        return Val(ex.prog.shape(e['t']), [iv(0)])
    return v


@model('std::unique_ptr::operator=', 'std::shared_ptr::operator=')
def _(ex, st, e, obj, a):
    v = ex.rv(st, a[0])
    if isinstance(v, PV) and all(l is None for _, l in v.alts):
        v = Val(obj.sh, [iv(0)])
    ex.store(st, obj, Val(obj.sh, v.l) if isinstance(v, Val) else v)
    if strip_t(e['fn']['q']).startswith('std::unique_ptr') and isinstance(a[0], Loc) and isinstance(v, Val):
        ex.store(st, a[0], Val(obj.sh, [iv(0)]))
    return obj


@model('std::unique_ptr::reset')
def _(ex, st, e, obj, a):
    ex.store(st, obj, Val(obj.sh, [iv(0)]) if not a else ex.rv(st, a[0]))


@model('std::make_unique', 'std::make_shared')
def _(ex, st, e, obj, a):
    ta = e['fn']['ta'][0]['t']
    return alloc(ex, st, ta, a)


def new_handle(ex, q, *ls):
    """identity of an object: its class and the values it was constructed from"""
    h = app('new ' + q, I, *ls)
    ex.pre_facts.append(h != 0)
    return h


def ctor_leaves(ex, st, f, a):
    """constructor arguments as values; a non-const reference is the identity of its referent"""
    ls = []
    for p, x in zip(f.d['params'], a):
        t = p['t']
        if t.k == 'ref' and not t.s.startswith('const') and not t.s.rstrip().endswith('&&'):
            ls.append(ex.handle_of(st, x))
            continue
        ls += list(ctor_arg(ex, st, ex.prog.shape(t.deref()), x))
    return ls


def ctor_arg(ex, st, sh, x):
    v = ex.rv(st, x)
    if isinstance(v, Val) and v.sh.n == sh.n and all(p == q for p, q in zip(v.sh.sorts, sh.sorts)):
        return v.l
    return ex.coerce(v, sh, st).l


def find_ctor(ex, st, q, a):
    """the constructor called, and all its arguments (defaults included)"""
    cands = [f for f in ex.prog.fns.get(q + '::' + q.split('::')[-1], []) if len(f.d['params']) >= len(a) and
             all(p.get('init') is not None for p in f.d['params'][len(a):]) and not (len(f.d['params']) == 1 and q in f.sig[0])]
    cands.sort(key=lambda f: len(f.d['params']))
    cands = [f for f in cands if len(f.d['params']) == len(cands[0].d['params'])]
    if len(cands) > 1:
        raise Unsup('overloaded constructor ' + q)
    if not cands:
        return None, list(a)
    f = cands[0]
    return f, list(a) + [ex.ev(p['init'], st, Frame(None, None)) for p in f.d['params'][len(a):]]


def alloc(ex, st, ta, a):
    q = ta.q
    mk = ex.models.get('make ' + q)
    if mk:
        return mk(ex, st, {'t': ta}, None, a)
    sh = Sc('p', tgt=ta)
    f, a = find_ctor(ex, st, q, a)
    if f is None and a:
        raise Unsup('allocation of ' + q)
    h = new_handle(ex, q, *(ctor_leaves(ex, st, f, a) if f else ()))
    if q in ex.concrete:
        l = ex.handle_loc(h, ta)
        ex.store(st, l, default_obj(ex, st, q))
        if f:
            ex.call_fn(f, st, a, l, dyn=q)
    return Val(sh, [h])


def default_obj(ex, st, q):
    """in-class initialisers; the constructor overrides what it names"""
    return ex.default_init(q, st, Frame(None, None))


# ------------------------------------------------------------------ functions, locks, streams
@model('std::function::function')
def _(ex, st, e, obj, a):
    return ex.rv(st, a[0]) if a else PV([(T, None)])


@model('std::function::operator=')
def _(ex, st, e, obj, a):
    ex.store(st, obj, ex.rv(st, a[0]))
    return obj


@model('std::function::operator()')
def _(ex, st, e, obj, a):
    return ex.call_value(st, obj, a, None)


@model('std::mutex::mutex', 'std::allocator::allocator', 'std::equal_to::equal_to', 'std::hash::hash', 'std::less::less', 'std::exception::exception')
def _(ex, st, e, obj, a):
    return Val(Nil(), ())


class Guard:
    """lock discipline (a monitor): the fields may be touched only while the mutex is held;
    other threads may change them at any other time, so every acquisition sees new values"""

    def __init__(self, cls, mutex, fields):
        self.cls, self.mutex, self.fields, self.this, self.on = cls, mutex, list(fields), None, False

    def begin(self, ex, st, this):
        self.this = this
        st.roots[('T', 'held')] = Val(Sc('b'), [F])
        st.roots[('T', 'section')] = Val(Sc('i'), [iv(0)])
        st.roots[('T', 'published')] = Val(Sc('o'), [z3.Const('published0', I)])

    def mine(self, ex, l):
        return isinstance(l, Loc) and l.same(self.this.f(self.mutex))

    def set(self, ex, st, word):
        n = st.roots[('T', 'section')].x
        for f in self.fields:
            l = self.this.f(f)
            ex.store(st, l, Val(l.sh, [app(f'{f} {word}', x, n) for x in l.sh.sorts]))

    def acquire(self, ex, st, m):
        if not self.mine(ex, m):
            return
        self.check(ex, st, z3.Not(st.roots[('T', 'held')].x), f'{self.mutex} is not acquired twice')
        st.roots[('T', 'held')] = Val(Sc('b'), [T])
        st.roots[('T', 'section')] = Val(Sc('i'), [st.roots[('T', 'section')].x + 1])
        self.set(ex, st, 'when locked')

    def release(self, ex, st, m):
        if not self.mine(ex, m):
            return
        n = st.roots[('T', 'section')].x
        ls, same = [], []
        for f in self.fields:
            l = self.this.f(f)
            v = ex.load(st, l)
            ls += v.l
            same += [x == app(f'{f} when locked', x.sort(), n) for x in v.l]
        t = st.roots[('T', 'published')].x
        t = z3.If(z3.And(*same), t, app('published', I, t, *ls))
        held = st.roots[('T', 'held')].x
        before = {f: ex.load(st, self.this.f(f)) for f in self.fields}
        st.roots[('T', 'published')] = Val(Sc('o'), [z3.If(held, t, st.roots[('T', 'published')].x)])
        st.roots[('T', 'held')] = Val(Sc('b'), [F])
        self.set(ex, st, 'when unlocked')

    def destroy(self, ex, st, o):
        if o.m is not None and self.mine(ex, o.m) and not z3.is_false(z3.simplify(st.roots[('T', 'held')].x)):
            self.release(ex, st, o.m)

    def check(self, ex, st, goal, what):
        if self.on:
            ex.perm.append((list(st.pc), goal, what))

    def access(self, ex, st, base, e):
        if self.on and e['n'] in self.fields and isinstance(base, Loc) and base.same(self.this):
            self.check(ex, st, st.roots[('T', 'held')].x, f"{e['n']} is accessed only with {self.mutex} held (line {e.get('l', '?')})")


@model('std::lock_guard::lock_guard', 'std::unique_lock::unique_lock', 'std::scoped_lock::scoped_lock')
def _(ex, st, e, obj, a):
    if ex.guard is None:
        return Val(Nil(), ())
    ms = [x for x in a if isinstance(x, Loc)]
    if len(ms) != 1 or len(a) != 1:
        raise Unsup('lock guard')
    ex.guard.acquire(ex, st, ms[0])
    return LockGuard(ms[0])


@model('std::mutex::lock', 'std::unique_lock::lock')
def _(ex, st, e, obj, a):
    if ex.guard is not None:
        o = st.py.get(obj.root) if isinstance(obj, Loc) else obj
        ex.guard.acquire(ex, st, o.m if isinstance(o, LockGuard) else obj)


@model('std::mutex::unlock', 'std::unique_lock::unlock')
def _(ex, st, e, obj, a):
    if ex.guard is not None:
        o = st.py.get(obj.root) if isinstance(obj, Loc) else obj
        ex.guard.release(ex, st, o.m if isinstance(o, LockGuard) else obj)


# ------------------------------------------------------------------ streams
FSTREAM, OSTREAM = 'std::fstream', 'std::ostringstream'


def text_of(v):
    """the text << produces for a value (default formatting)"""
    if isinstance(v, FnPtr):
        n = v.fn['q'].split('::')[-1]
        if n not in ('flush', 'endl'):
            raise Unsup('stream manipulator ' + n)
        return sv('') if n == 'flush' else sv('\n')
    if isinstance(v, Val) and isinstance(v.sh, Sc):
        if v.sh.k == 's':
            return v.x
        if v.sh.k == 'i':
            if v.sh.w == 8:
                return chs(v.x)
            return i2s(v.x)
        if v.sh.k == 'b':
            return z3.If(v.x, sv('1'), sv('0'))
        return app('text ' + v.sh.k, S, v.x)
    raise Unsup('stream operand')


@model('std::operator<<', 'std::basic_ostream::operator<<')
def _(ex, st, e, obj, a):
    if obj is not None:
        a = [obj] + a
    s = ex.rv(st, a[0])
    if isinstance(s, Obj) and s.cls == 'stream':
        if ('entries', s.ch) in ex.track:
            # whether an entry was printed, whatever its text
            cur = ex.root(st, ('T', s.ch)).x
            if not (z3.is_app(cur) and cur.decl().name() == 'entry printed'):
                st.roots[('T', s.ch)] = Val(Sc('o'), [app('entry printed', I, cur)])
        if s.ch in ex.track:
            v = ld(ex, st, a[1])
            if isinstance(v, FnPtr):
                v = S_(sv('\n'))
            if isinstance(v, Val) and isinstance(v.sh, Sc):
                if v.sh.k == 's' and const_s(v.x) == '\n':
                    ex.event(st, s.ch, 'nl')
                else:
                    ex.event(st, s.ch, 'out ' + v.sh.k, v.x)
        return a[0]
    if isinstance(s, Val) and isinstance(s.sh, Rec) and isinstance(a[0], Loc):
        t = text_of(ld(ex, st, a[1]))
        if s.sh.q == OSTREAM:
            ex.store(st, a[0].f('text'), S_(sconcat(s.f('text').x, t)))
            return a[0]
        if s.sh.q == FSTREAM:
            if const_s(t) != '':
                file_write(ex, st, s, t)
            return a[0]
    raise Unsup('stream output')


M['nlohmann::operator<<'] = M['std::operator<<']


@model('std::basic_ostringstream::basic_ostringstream', 'std::basic_stringstream::basic_stringstream')
def _(ex, st, e, obj, a):
    t = sx(ex, st, a[0]) if a and isinstance(ex.rv(st, a[0]), Val) and ex.rv(st, a[0]).sh.n == 1 and ex.rv(st, a[0]).sh.k == 's' else sv('')
    return Val(ex.prog.shape(e['t']), [t])


@model('std::basic_ostringstream::str', 'std::basic_stringstream::str')
def _(ex, st, e, obj, a):
    if a:
        ex.store(st, obj.f('text'), S_(sx(ex, st, a[0])))
        return None
    return ex.load(st, obj.f('text'))


def file_write(ex, st, s, t):
    """text sent to an open file (a stream that failed to open swallows it); adjacent writes are one"""
    p, o = s.f('path').x, s.f('open').x
    if 'content' in ex.track:
        # all the text sent to the one file of the contract at hand, in order
        if not hasattr(ex, 'content_path'):
            ex.content_path = p
            ex.initial.setdefault(('T', 'text'), S_(z3.Const('text so far', S)))
        if not z3.eq(ex.content_path, p):
            raise Unsup('output to another file')
        st.roots[('T', 'text')] = S_(sconcat(ex.root(st, ('T', 'text')).x, t))
        return t
    cur = ex.root(st, ('T', 'file')).x

    def write(c):
        if z3.is_app(c) and c.decl().name() == 'ev write' and z3.eq(c.arg(1), p):
            return app('ev write', I, c.arg(0), p, sconcat(c.arg(2), t))
        return app('ev write', I, c, p, t)
    if z3.is_app(cur) and cur.decl().kind() == z3.Z3_OP_ITE and z3.eq(cur.arg(0), o):
        new, cur = write(cur.arg(1)), cur.arg(2)
    else:
        new = write(cur)
    st.roots[('T', 'file')] = Val(Sc('o'), [new if z3.is_true(o) else z3.If(o, new, cur)])
    return t


def opened(ex, st, path, kind):
    """whether opening succeeds: a function of the path (reading) / of the file history (writing)"""
    if kind == 'read':
        return app('file readable', B, path)
    ex.event(st, 'file', 'open', path)
    return app('file opens', B, path)


def stream_kind(q):
    return 'read' if 'ifstream' in q else 'write'


@model('std::basic_ifstream::basic_ifstream', 'std::basic_ofstream::basic_ofstream')
def _(ex, st, e, obj, a):
    sh = ex.prog.shape(e['t'])
    if not a:
        return Val(sh, [sv(''), F])
    v = ex.rv(st, a[0])
    if isinstance(v, Val) and isinstance(v.sh, Rec):
        return v
    if stream_kind(e['fn']['q']) == 'write' and len(a) > 1 and not mode_ok(ex, st, a[1]):
        raise Unsup('open mode')
    p = sx(ex, st, a[0])
    return Val(sh, [p, opened(ex, st, p, stream_kind(e['fn']['q']))])


def mode_ok(ex, st, m):
    v = ex.rv(st, m)
    return isinstance(v, Val) and z3.is_int_value(z3.simplify(v.x)) and z3.simplify(v.x).as_long() in (16, 32, 48)


@model('std::basic_ifstream::open', 'std::basic_ofstream::open')
def _(ex, st, e, obj, a):
    if stream_kind(e['fn']['q']) == 'write' and len(a) > 1 and not mode_ok(ex, st, a[1]):
        raise Unsup('open mode')
    p = sx(ex, st, a[0])
    ex.store(st, obj.f('path'), S_(p))
    ex.store(st, obj.f('open'), B_(opened(ex, st, p, stream_kind(e['fn']['q']))))


@model('std::basic_ifstream::close', 'std::basic_ofstream::close')
def _(ex, st, e, obj, a):
    return None


@model('std::basic_ifstream::is_open', 'std::basic_ofstream::is_open', 'std::basic_ios::good', 'std::basic_ios::operator bool')
def _(ex, st, e, obj, a):
    if getattr(obj, 'sh', None) is None or not isinstance(obj.sh, Rec) or obj.sh.q != FSTREAM:
        raise Unsup('stream state')
    return ex.load(st, obj.f('open'))


@model('std::basic_ios::fail', 'std::basic_ios::operator!')
def _(ex, st, e, obj, a):
    if not isinstance(obj, Loc) or not isinstance(obj.sh, Rec) or obj.sh.q != FSTREAM:
        raise Unsup('stream state')
    return B_(z3.Not(ex.load(st, obj.f('open')).x))


@model('std::basic_ofstream::operator=', 'std::basic_ifstream::operator=')
def _(ex, st, e, obj, a):
    ex.store(st, obj, ex.rv(st, a[0]))
    return obj


@model('std::basic_istream::operator>>', 'std::operator>>')
def _(ex, st, e, obj, a):
    """first extraction from a freshly opened file: unchanged when there is no token,
    otherwise the number it holds (0 if not numeric, clamped to the type)"""
    if obj is not None:
        a = [obj] + a
    s = ex.rv(st, a[0])
    if not (isinstance(s, Val) and isinstance(s.sh, Rec) and s.sh.q == FSTREAM and isinstance(a[1], Loc)):
        raise Unsup('stream input')
    sh = a[1].sh
    if not isinstance(sh, Sc) or sh.k not in 'idb':
        raise Unsup('stream input type')
    p = s.f('path').x
    old = ex.load(st, a[1]).x
    kind = f'{sh.k}{sh.w}{"u" if sh.u else ""}' if sh.k == 'i' else sh.k
    new = app('file number ' + kind, Sc.SORT[sh.k], p)
    if sh.k == 'i':
        lo, hi = (0, (1 << sh.w) - 1) if sh.u else (-(1 << (sh.w - 1)), (1 << (sh.w - 1)) - 1)
        ex.pre_facts.append(z3.And(new >= lo, new <= hi))
    has = z3.And(s.f('open').x, app('file has token', B, p))
    ex.store(st, a[1], Val(sh, [z3.If(has, new, old)]))
    ex.store(st, a[0].f('path'), S_(app('rest of', S, p)))
    ex.store(st, a[0].f('open'), B_(z3.And(s.f('open').x, app('file still good after ' + kind, B, p))))
    return a[0]


@model('std::endl', 'std::flush')
def _(ex, st, e, obj, a):
    return a[0]


@model('std::basic_ostream::flush')
def _(ex, st, e, obj, a):
    return obj


@model('fprintf', 'printf')
def _(ex, st, e, obj, a):
    return I_(iv(0), 32, False)


@model('stderr')
def _(ex, st, e, obj, a):
    return Val(Sc('p'), [iv(1)])


@model('std::exception::what')
def _(ex, st, e, obj, a):
    return S_(z3.Const('what', S))


for _c in ('std::runtime_error', 'std::invalid_argument', 'std::out_of_range', 'std::logic_error', 'std::exception'):
    M[_c + '::' + _c.split('::')[-1]] = lambda ex, st, e, obj, a: Obj('excobj', c=strip_t(e['t'].q))


@model('phosphor::logging::log', 'phosphor::logging::entry')
def _(ex, st, e, obj, a):
    return Val(Nil(), ())


@model('__builtin_memcpy')
def _(ex, st, e, obj, a):
    raise Unsup('memcpy')


# ------------------------------------------------------------------ D-Bus messages
SDERR = 'sdbusplus::exception::SdBusError'


@model('sdbusplus::bus::new_default', 'sdbusplus::bus::new_system', 'sdbusplus::bus::new_bus', 'sdbusplus::bus_t::bus_t')
def _(ex, st, e, obj, a):
    return Val(Sc('o'), [z3.Const('bus', I)])


def msg_call(ex, st, dest, path, intf, member):
    return app('message', I, dest, path, intf, member)


def msg_arg(ex, m, v):
    """message m with the value appended (inactive variant alternatives do not travel)"""
    if isinstance(v.sh, Var):
        l = [v.f('tag').x]
        for i, alt in enumerate(v.sh.alts):
            d = default(alt)
            l += list(ite(v.f('tag').x == i, v.f(f'a{i}'), d).l) if alt.n else []
        return app('append ' + tyname(v.sh), I, m, *l)
    if isinstance(v.sh, Arr) and v.sh.cnt is not None:     # a fixed-size array travels like a vector
        return app('append ' + tyname(v.sh), I, m, iv(v.sh.cnt), *v.l)
    return app('append ' + tyname(v.sh), I, m, *v.l)


def tyname(sh):
    if isinstance(sh, Sc):
        return f'{sh.k}{sh.w}{"u" if sh.u else ""}' if sh.k == 'i' else sh.k
    if isinstance(sh, Var):
        return 'v<' + ','.join(tyname(a) for a in sh.alts) + '>'
    if isinstance(sh, Map):
        return f'm<{tyname(sh.k)},{tyname(sh.v)}>'
    if isinstance(sh, (Vec, Deq, Set, Arr)):
        return 'a<' + tyname(sh.k if isinstance(sh, Set) else sh.e) + '>'
    if isinstance(sh, Rec):
        return '(' + ','.join(tyname(s) for _, s in sh.fields) + ')'
    return str(sh.key())


@model('sdbusplus::bus_t::new_method_call')
def _(ex, st, e, obj, a):
    return Val(Sc('o'), [msg_call(ex, st, *[sx(ex, st, x) for x in a[:4]])])


@model('sdbusplus::message_t::append')
def _(ex, st, e, obj, a):
    m = ex.rv(st, obj).x
    for x in a:
        v = ld(ex, st, x)
        if not isinstance(v, Val):
            raise Unsup('message argument')
        m = msg_arg(ex, m, v)
    ex.store(st, obj, Val(Sc('o'), [m]))


def bus_call(ex, st, m):
    """send m: one event; a bus error is an exception; the reply depends on all that happened on the bus"""
    cur = ex.root(st, ('T', 'bus')).x
    ex.event(st, 'bus', 'call', m)
    ex.throw(st, app('bus error', B, m, cur), Exc(SDERR))
    return app('reply', I, m, cur)


def msg_read(ex, st, m, sh):
    """next value of message m -> (value, rest of the message)"""
    n = tyname(sh)
    ex.throw(st, app('unreadable ' + n, B, m), Exc(SDERR))
    v = Val(sh, [app(f'read {n}.{i}', so, m) for i, so in enumerate(sh.sorts)])
    wellformed(ex, v)
    return v, app('rest after ' + n, I, m)


def wellformed(ex, v):
    if isinstance(v.sh, Sc) and v.sh.k == 'i':
        w, u = v.sh.w, v.sh.u
        lo, hi = (0, (1 << w) - 1) if u else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        ex.pre_facts.append(z3.And(v.x >= lo, v.x <= hi))
    elif isinstance(v.sh, Rec):
        if isinstance(v.sh, Var):
            ex.pre_facts.append(z3.And(v.f('tag').x >= 0, v.f('tag').x < len(v.sh.alts)))
        for n, s in v.sh.fields:
            if s.n:
                wellformed(ex, v.f(n))
    elif isinstance(v.sh, Vec):
        ex.pre_facts.append(z3.And(v.len >= 0, v.len < iv(1 << 40)))


@model('sdbusplus::bus_t::call', 'sdbusplus::bus_t::call_noreply')
def _(ex, st, e, obj, a):
    r = bus_call(ex, st, ex.rv(st, a[0]).x)
    return None if strip_t(e['fn']['q']).endswith('noreply') else Val(Sc('o'), [r])


@model('sdbusplus::message_t::read')
def _(ex, st, e, obj, a):
    m = ex.rv(st, obj).x
    for x in a:
        if not isinstance(x, Loc):
            raise Unsup('message target')
        v, m = msg_read(ex, st, m, x.sh)
        ex.store(st, x, v)
    ex.store(st, obj, Val(Sc('o'), [m]))


@model('sdbusplus::message_t::unpack')
def _(ex, st, e, obj, a):
    m = ex.rv(st, obj).x
    v, m = msg_read(ex, st, m, ex.prog.shape(e['fn']['rt'].deref()))
    ex.store(st, obj, Val(Sc('o'), [m]))
    return v


# ------------------------------------------------------------------ file system
@model('std::filesystem::directory_iterator::directory_iterator')
def _(ex, st, e, obj, a):
    p = sx(ex, st, a[0])
    ex.throw(st, app('not a directory', B, p), Exc('std::filesystem::filesystem_error'))
    sh = ex.prog.shape(e['t'])
    v = Val(sh, [app('entries', I, p), app('entry', z3.ArraySort(I, S), p)])
    ex.pre_facts.append(v.len >= 0)
    return v


@model('std::filesystem::directory_entry::path', 'std::filesystem::directory_entry::operator const path &')
def _(ex, st, e, obj, a):
    return S_(sx(ex, st, obj))


# ------------------------------------------------------------------ interfaces
def leaves_of(ex, st, a):
    ls = []
    for x in a:
        if isinstance(x, Loc) and x.root[0] != 'L' and isinstance(x.sh, Nil):
            continue
        v = ld(ex, st, x)
        if isinstance(v, Val):
            ls += list(v.l)
        elif isinstance(v, PV):
            ls.append(ex.pv_handle(v))
        elif isinstance(v, It):
            raise Unsup('iterator argument')
        elif isinstance(v, Py):
            ls.append(ex.py_handle(v))
    return ls


def pure_result(ex, name, rt, ls):
    sh = ex.prog.shape(rt.deref())
    return Val(sh, [app(f'{name}.{i}' if sh.n > 1 else name, so, *ls) for i, so in enumerate(sh.sorts)])


@model('virtual*')
def _(ex, st, e, obj, a):
    fn = e['fn']
    q = strip_t(fn['q'])
    nm = q.split('::')[-1]
    h = ex.handle_of(st, obj)
    ls = [h] + leaves_of(ex, st, a)
    ex.trusted.add('interface ' + q)
    if fn.get('const') or nm.startswith('get') or nm.startswith('is') or nm == 'read':
        if fn['rt'].s == 'void':
            return None
        return pure_result(ex, nm, fn['rt'], ls)
    r = None
    ch = ex.channel.get(nm, 'ev')
    if fn['rt'].s != 'void':
        r = pure_result(ex, 'res ' + nm, fn['rt'], ls + [ex.root(st, ('T', ch)).x])
    ex.event(st, ch, nm, *ls)
    return r


@model('sdbusplus::message_t::get_sender', 'sdbusplus::message_t::get_path', 'sdbusplus::message_t::get_member', 'sdbusplus::message_t::get_interface')
def _(ex, st, e, obj, a):
    m = ex.rv(st, obj).x
    while m.decl().name().startswith('rest after '):     # reading does not change the header
        m = m.arg(0)
    return S_(app(strip_t(e['fn']['q']).split('::')[-1], S, m))


@model('std::reference_wrapper::reference_wrapper')
def _(ex, st, e, obj, a):
    x = a[0]
    v = ex.rv(st, x) if not (isinstance(x, Loc) and not (isinstance(x.sh, Sc) and x.sh.k == 'p')) else None
    if isinstance(v, Val) and isinstance(v.sh, Sc) and v.sh.k == 'p':
        return v
    return Val(ex.prog.shape(e['t']), [ex.handle_of(st, x)])


@model('std::match_results::match_results')
def _(ex, st, e, obj, a):
    return Val(ex.prog.shape(e['t']), [iv(0)])


@model('std::basic_regex::basic_regex')
def _(ex, st, e, obj, a):
    """the pattern, in the default (ECMAScript) grammar"""
    f = z3.simplify(ex.rv(st, a[1]).x) if len(a) > 1 else iv(16)
    return Val(ex.prog.shape(e['t']), [app('regex', I, sx(ex, st, a[0])) if z3.is_int_value(f) and f.as_long() == 16 else app('regex with options', I, sx(ex, st, a[0]), f)])


@model('std::regex_search')
def _(ex, st, e, obj, a):
    """whether the pattern is found in the text (the details of the match are not modelled)"""
    r = a[-1] if not (isinstance(ex.rv(st, a[-1]), Val) and ex.rv(st, a[-1]).sh.k == 'i') else a[-2]
    return B_(app('regex found', B, sx(ex, st, a[0]), ex.rv(st, r).x))
