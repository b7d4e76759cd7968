"""Models of nlohmann::json values: a json value is an opaque term with observers
kind, keys, elements and scalar payloads (documented library behaviour)."""
import z3
from .logic import *
from .shape import *
from .core import *
from .lib import model, M, ld, sx, B_, I_, S_, D_

JQ = 'nlohmann::basic_json'
J = Sc('o', q=JQ)
IT = Rec('nlohmann::iterator', [('j', J), ('has', Sc('b'))])
NUL, OBJ, ARR, STR_, BOO, INT_, UNS, FLT, DISCARDED = range(9)
ERR = 'nlohmann::exception'


def jkind(j):
    return app('jkind', I, j)


def jhas(j, k):
    return app('jhas', B, j, k)


def jat(j, k):
    return app('jat', I, j, k)


def jlen(j):
    return app('jlen', I, j)


def jelem(j, i):
    return app('jelem', I, j, i)


def jstr(j):
    return app('jstr', S, j)


def jdbl(j):
    return app('jdbl', R, j)


def jint(j):
    return app('jint', I, j)


def jbool(j):
    return app('jbool', B, j)


def bad(ex, st, c):
    ex.throw(st, c, Exc(ERR))


def need(ex, st, j, k):
    """the value under a key; an error when there is none"""
    bad(ex, st, z3.Not(jhas(j, k)))
    return jat(j, k)


def isnum(j):
    k = jkind(j)
    return z3.Or(k == INT_, k == UNS, k == FLT)


def allof(pred, j):
    """every element satisfies the named predicate"""
    return app('jall_' + pred, B, j)


def convp(ex, j, sh):
    """(convertible, C++ value) of a json value"""
    k = jkind(j)
    if isinstance(sh, Sc) and sh.k == 's':
        return k == STR_, Val(sh, [jstr(j)])
    if isinstance(sh, Sc) and sh.k == 'b':
        return k == BOO, Val(sh, [jbool(j)])
    if isinstance(sh, Sc) and sh.k == 'd':
        return isnum(j), Val(sh, [z3.If(k == FLT, jdbl(j), i2d(jint(j)))])
    if isinstance(sh, Sc) and sh.k == 'i':
        d = ex.scast(Val(Sc('d'), [jdbl(j)]), sh).x
        if sh.w == 64:
            n = jint(j)         # a negative number wraps around in an unsigned target and a huge one in a signed target
            if sh.u:
                n = z3.If(n < 0, n + (1 << 64), n)
                d = z3.If(d < 0, app('jdbl beyond', I, j), d)       # out of range is undefined: nothing is known of it
            else:
                n = z3.If(n >= (1 << 63), n - (1 << 64), n)
            return isnum(j), Val(sh, [z3.If(k == FLT, d, n)])
        r = z3.If(k == FLT, d, jint(j))
        return z3.Or(isnum(j), k == BOO), Val(sh, [z3.If(k == BOO, z3.If(jbool(j), iv(1), iv(0)), r)])
    if isinstance(sh, Vec) and isinstance(sh.e, Sc) and sh.e.k in 'sd':
        s = sh.e.k == 's'
        ex.pre_facts.append(jlen(j) >= 0)
        return (z3.And(k == ARR, allof('str' if s else 'num', j)),
                Val(sh, [jlen(j), app('jstrs' if s else 'jnums', z3.ArraySort(I, sh.e.sorts[0]), j)]))
    if isinstance(sh, Sc) and sh.k == 'o' and sh.q == JQ:
        return z3.BoolVal(True), Val(sh, [j])
    return None


def conv(ex, st, j, sh):
    """the C++ value a json value converts to (throws type_error otherwise)"""
    r = convp(ex, j, sh)
    if r is not None:
        bad(ex, st, z3.Not(r[0]))
        return r[1]
    m = ex.models.get('from_json ' + str(getattr(sh, 'q', None)))
    if m and isinstance(sh, Sc):
        jl, l = ex.newroot(st, J, Val(J, [j]), 'j'), ex.newroot(st, sh, default(sh), 'json')
        m(ex, st, None, None, [jl, l])
        return ex.load(st, l)
    if isinstance(sh, Rec):
        f = next((m for m in ex.prog.fns.get('pid_control::conf::from_json', []) if ex.prog.shape(m.d['params'][1]['t'].deref()) == sh), None)
        if f is None:
            raise Unsup('json to ' + str(sh.q))
        l = ex.newroot(st, sh, default_rec(ex, st, sh), 'json')
        jl = ex.newroot(st, J, Val(J, [j]), 'j')
        key = 'from_json ' + sh.q
        m = ex.models.get(key)
        if m:
            m(ex, st, None, None, [jl, l])
        else:
            ex.call_fn(f, st, [jl, l])
        return ex.load(st, l)
    raise Unsup(f'json to {sh}')


def default_rec(ex, st, sh):
    if sh.q in ex.prog.recs:
        v = ex.default_init(sh.q, st, None, zero=True)
        return v
    return default(sh)


def jv(ex, st, obj):
    v = ex.rv(st, obj)
    if isinstance(v, Py):
        raise Unsup('json value')
    if v.sh == IT:
        return v.f('j').x
    return v.x


@model(JQ + '::at', JQ + '::operator[]')
def _(ex, st, e, obj, a):
    j = jv(ex, st, obj)
    k = ld(ex, st, a[0])
    if k.sh.k == 'i':
        bad(ex, st, z3.Or(jkind(j) != ARR, k.x < 0, k.x >= jlen(j)))
        x = jelem(j, k.x)
    else:
        x = need(ex, st, j, sx(ex, st, a[0]))
    return ex.newroot(st, J, Val(J, [x]), 'j')


@model(JQ + '::count')
def _(ex, st, e, obj, a):
    return I_(z3.If(jhas(jv(ex, st, obj), sx(ex, st, a[0])), iv(1), iv(0)))


@model(JQ + '::contains')
def _(ex, st, e, obj, a):
    return B_(jhas(jv(ex, st, obj), sx(ex, st, a[0])))


@model(JQ + '::size')
def _(ex, st, e, obj, a):
    n = jlen(jv(ex, st, obj))
    ex.pre_facts.append(n >= 0)
    return I_(n)


@model(JQ + '::empty')
def _(ex, st, e, obj, a):
    n = jlen(jv(ex, st, obj))
    ex.pre_facts.append(n >= 0)
    return B_(n == 0)


@model(JQ + '::parse')
def _(ex, st, e, obj, a):
    f = ex.rv(st, a[0])
    exc = ex.rv(st, a[2]) if len(a) > 2 else None
    if not isinstance(f.sh, Rec) or f.sh.q != 'std::fstream' or exc is None or not z3.is_false(z3.simplify(exc.x)):
        raise Unsup('json parse')
    return Val(J, [app('json in file', I, f.f('path').x)])


@model(JQ + '::is_discarded')
def _(ex, st, e, obj, a):
    return B_(jkind(jv(ex, st, obj)) == DISCARDED)


@model(JQ + '::find')
def _(ex, st, e, obj, a):
    j = jv(ex, st, obj)
    k = sx(ex, st, a[0])
    return Val(IT, [jat(j, k), jhas(j, k)])


@model(JQ + '::end', JQ + '::cend')
def _(ex, st, e, obj, a):
    return Val(IT, [iv(0), z3.BoolVal(False)])


@model('nlohmann::detail::iter_impl::operator==', 'nlohmann::detail::iter_impl::operator!=')
def _(ex, st, e, obj, a):
    x, y = ex.rv(st, obj), ex.rv(st, a[0])
    r = x.f('has').x == y.f('has').x
    return B_(r if '==' in e['fn']['q'] else z3.Not(r))


@model('nlohmann::detail::iter_impl::operator->', 'nlohmann::detail::iter_impl::operator*')
def _(ex, st, e, obj, a):
    v = ex.rv(st, obj)
    bad(ex, st, z3.Not(v.f('has').x))
    l = ex.newroot(st, J, v.f('j'), 'j')
    return l if 'operator*' in e['fn']['q'] else PV([(T, l)])


@model('nlohmann::detail::iter_impl::value')
def _(ex, st, e, obj, a):
    v = ex.rv(st, obj)
    bad(ex, st, z3.Not(v.f('has').x))
    return ex.newroot(st, J, v.f('j'), 'j')


@model(JQ + '::get_to')
def _(ex, st, e, obj, a):
    j = jv(ex, st, obj)
    ex.store(st, a[0], conv(ex, st, j, a[0].sh))
    return a[0]


@model(JQ + '::get', *[JQ + '::operator ' + t for t in ('basic_string', 'double', 'long', 'unsigned long', 'int', 'bool', 'std::string', 'vector')])
def _(ex, st, e, obj, a):
    return conv(ex, st, jv(ex, st, obj), ex.prog.shape(e['fn']['rt'].deref()))


@model(JQ + '::value')
def _(ex, st, e, obj, a):
    from .core import State  # noqa
    j = jv(ex, st, obj)
    k = sx(ex, st, a[0])
    bad(ex, st, jkind(j) != OBJ)
    d = ld(ex, st, a[1])
    if not isinstance(d, Val):
        raise Unsup('json value default')
    sh = ex.prog.shape(e['fn']['rt'].deref())
    s1, s2 = st.copy(), st.copy()
    s1.assume(jhas(j, k))
    s2.assume(z3.Not(jhas(j, k)))
    v1 = conv(ex, s1, jat(j, k), sh)
    m, r = ex.merge_vals([(s1, v1), (s2, ex.conv2(d, sh))])
    st.roots, st.py, st.pc = m.roots, m.py, m.pc
    return r


def foreach_json(self, st, rng, v, bodyfn, out, line):
    j = v.x
    n = jlen(j)
    self.pre_facts.append(n >= 0)
    return self.count_loop(st, n, lambda x, i: self.newroot(x, J, Val(J, [jelem(j, i)]), 'j'), bodyfn, out, line)


Exec.foreach_opaque = foreach_json
