from .base import *
from .c26 import PROPS, MAPPER, send

DR = NS + 'DbusPassiveRedundancy'
RED = 'xyz.openbmc_project.Control.FanRedundancy'
TXT = Var([STR, Vec(STR)])
GM = Map(STR, TXT)
NAMES = Vec(STR)
COLL = Var([NAMES])
SS = Set(STR)


def failed_status(s):
    return sfind(s, sv('Failed')) != NPOS


def after(ex, failed, bad, names):
    """the failed set once a collection's status is known"""
    def hint(ex_, st_, mod, entry):         # name by name
        out = []
        for key, h in mod.items():
            if h.sort() == failed.dom.sort():
                def so_far(kk, m, key=key):
                    f = Val(SS, [entry[key]])
                    return m[key] == ite(bad, lib.set_with(ex, 'setplus', f, names, kk), lib.set_with(ex, 'setminus', f, names, kk)).dom
                out.append((f'{key[0][1]}: names so far', so_far))
        return out
    ex.hints.append(hint)
    return ite(bad, lib.set_with(ex, 'setplus', failed, names), lib.set_with(ex, 'setminus', failed, names))


def signal(ex, st, obj, msg):
    ex.thr.append([])
    s = st.copy()
    _, m1 = lib.msg_read(ex, s, msg, STR)
    props, _ = lib.msg_read(ex, s, m1, GM)
    unread = z3.Or(*[c for c in [app('unreadable ' + lib.tyname(STR), B, msg), app('unreadable ' + lib.tyname(GM), B, m1)]])
    ex.thr.pop()
    status = props.at(sv('Status'))

    def change(s2):
        ex.throw(s2, status.f('tag').x != 0, Exc('std::bad_variant_access'))
        q = lib.msg_call(ex, s2, app('get_sender', S, msg), app('get_path', S, msg), sv(PROPS), sv('Get'))
        q = lib.msg_arg(ex, q, S_(sv(RED)))
        q = lib.msg_arg(ex, q, S_(sv('Collection')))
        cur = trace_val(ex, s2, 'bus').x
        s2.roots[('T', 'bus')] = Val(OPQ, [ev(cur, 'call', q)])
        r = app('reply', I, q, cur)
        bad = z3.Or(app('bus error', B, q, cur), app('unreadable ' + lib.tyname(COLL), B, r))
        n = lib.tyname(COLL)
        v = Val(COLL, [app(f'read {n}.{i}', so, r) for i, so in enumerate(COLL.sorts)])
        lib.wellformed(ex, v)
        f = ex.load(s2, obj.f('failed'))
        ex.store(s2, obj.f('failed'), ite(bad, f, after(ex, f, failed_status(status.f('a0').x), v.f('a0'))))
    cases(ex, st, (unread, lambda s2: None), (z3.Not(props.has(sv('Status'))), lambda s2: None), (None, change))


def populate(ex, st, e, obj, a):
    """the collections of all redundancy objects, in turn, up to one that cannot be read"""
    state = Rec('start', [('t', OPQ), ('failed', SS), ('unread', BOOL), ('odd', BOOL)])
    RM = Map(STR, Map(STR, Vec(STR)))
    q = lib.msg_call(ex, st, sv(MAPPER), sv('/xyz/openbmc_project/object_mapper'), sv(MAPPER), sv('GetSubTree'))
    for v in (S_(sv('/')), I_(iv(0), 32, False), Val(Arr(1, STR), [z3.Store(z3.K(I, sv('')), iv(0), sv(RED))])):
        q = lib.msg_arg(ex, q, v)
    cur = trace_val(ex, st, 'bus').x
    r = app('reply', I, q, cur)
    unread = z3.Or(app('bus error', B, q, cur), app('unreadable ' + lib.tyname(RM), B, r))
    st.roots[('T', 'bus')] = Val(OPQ, [ev(cur, 'call', q)])
    resp = Val(RM, [app(f'read {lib.tyname(RM)}.{i}', so, r) for i, so in enumerate(RM.sorts)])
    dom = resp.dom

    def stopped(s):
        return z3.Or(s.f('unread').x, s.f('odd').x)

    def owners(k):
        return resp.at(enumKey(dom, k))

    def one(k, j, s):
        d = owners(k)
        m = lib.msg_call(ex, None, enumKey(d.dom, j), enumKey(dom, k), sv(PROPS), sv('GetAll'))
        m = lib.msg_arg(ex, m, S_(sv(RED)))
        t = s.f('t').x
        rep = app('reply', I, m, t)
        n = lib.tyname(GM)
        props = Val(GM, [app(f'read {n}.{i}', so, rep) for i, so in enumerate(GM.sorts)])
        bad = z3.Or(app('bus error', B, m, t), app('unreadable ' + n, B, rep))

        def get(key):
            return ite(props.has(sv(key)), props.at(sv(key)), default(TXT))
        st_, co = get('Status'), get('Collection')
        hot = failed_status(st_.f('a0').x)
        odd = z3.Or(st_.f('tag').x != 0, z3.And(hot, co.f('tag').x != 1))
        f = s.f('failed')
        new = Val(state, [ev(t, 'call', m), ite(z3.Or(bad, odd, z3.Not(hot)), f, lib.set_with(ex, 'setplus', f, co.f('a1'))).dom,
                          bad, z3.And(odd, z3.Not(bad))])
        return ite(stopped(s), s, new)
    inner = []
    f0 = ex.load(st, obj.f('failed'))
    base = Val(state, [ev(cur, 'call', q), f0.dom, F, F])
    deps = resp.l + (f0.dom, cur)
    outer = ex.fold('objects', state, base, lambda k, s: ite(stopped(s), s, inner[0].end(k)), n=enumN(dom), deps=deps, absorb=stopped)
    inner.append(ex.fold('owners', state, lambda k: outer.at(k), one, n=lambda k: enumN(owners(k).dom), deps=deps, absorb=stopped, params=(z3.Int('ok'),)))
    end = outer.end()

    def go(s):
        s.roots[('T', 'bus')] = end.f('t')
        ex.throw(s, end.f('odd').x, Exc('std::bad_variant_access'))
        ex.store(s, obj.f('failed'), end.f('failed'))
    cases(ex, st, (unread, lambda s: None), (None, go))


# construction: one match on redundancy signals; its handler may run at any later time
MSG = z3.Int('a redundancy signal')


def match_ctor(ex, st, e, obj, a):
    ex.event(st, 'match', 'match', ex.handle_of(st, a[0]), sx(ex, st, a[1]))
    ex.handler = a[2]
    return Val(ex.prog.shape(e['t']), ())


def later(ex, st, obj):
    """any state of the set and of the bus"""
    ex.store(st, obj.f('failed'), Val(SS, [z3.Const('failed then', SS.sorts[0])]))
    st.roots[('T', 'bus')] = Val(OPQ, [z3.Int('bus then')])


def populate_then_signal(ex, st, e, obj, a):
    ex.event(st, 'match', 'populateFailures')
    later(ex, st, obj)
    ex.call_value(st, ex.handler, [Val(OPQ, [MSG])], None)


def ctor_spec(ex, st, e, obj, a):
    bus = ex.handle_of(st, a[0])
    ex.event(st, 'match', 'match', bus, sv(f"type='signal',member='PropertiesChanged',arg0namespace='{RED}'"))
    ex.event(st, 'match', 'populateFailures')
    setf(ex, st, obj, passiveBus=bus)
    later(ex, st, obj)
    signal(ex, st, obj, MSG)


PROP = Prop('C25', ['dbus/dbuspassiveredundancy.cpp'],
            [FnC(DR + '::populateFailures', populate, cls=DR),
             FnC(DR + '::DbusPassiveRedundancy', ctor_spec, cls=DR, models={'sdbusplus::match::match': match_ctor, DR + '::populateFailures': populate_then_signal}, ignore=['passiveBus']),
             FnC(DR + '::getFailed', lambda ex, st, e, obj, a: ex.load(st, obj.f('failed')), cls=DR)], driver='c25')
