"""D-Bus configuration changes: which signals count, and one reload once they stop."""
from .base import *
from . import c29
from .c29 import EC, ABORT, evt

DC = NS + 'dbus_configuration::'
MODE, CFG = 'xyz.openbmc_project.Control.ThermalMode', 'xyz.openbmc_project.Configuration.'
ASSOC = ['xyz.openbmc_project.Association', 'xyz.openbmc_project.Association.Definitions']
SENSORS = '/xyz/openbmc_project/sensors/'
RELOAD = 'tryRestartControlLoops'
PATH = Rec('path', [('str', STR)])
DATA = Map(STR, Map(STR, Var([Vec(Rec('association', [(x, STR) for x in ('forward', 'reverse', 'endpoint')])), BOOL])))


def expires(ex, st, e, obj, a):
    d = ex.rv(st, a[0])
    evt(ex, st, 'expires_after', ex.handle_of(st, obj), lib.rescale(d.x, d.sh.ratio, (1, 1000)))
    return default(ex.prog.shape(e['fn']['rt'])) if e['fn']['rt'].s != 'void' else None


def wait(ex, st, e, obj, a):
    evt(ex, st, 'async_wait', ex.handle_of(st, obj))
    ex.call_value(st, a[0], [Val(OPQ, [EC])], None)


def message(ex, st, e, obj, a):
    return Val(OPQ, [D(ex, st, a[0])])


def reload(ex, st, e, obj, a):
    evt(ex, st, RELOAD, D(ex, st, a[0]))


def handler_spec(ex, st, e, obj, a):
    m, timer = D(ex, st, a[0]), D(ex, st, a[1])
    ex.throw(st, z3.Or(m == 0, timer == 0), Exc('std::runtime_error'))

    def schedule(s):
        evt(ex, s, 'expires_after', timer, iv(2000))
        evt(ex, s, 'async_wait', timer)
        cases(ex, s, (EC == ABORT, lambda s2: None), (None, lambda s2: evt(ex, s2, RELOAD, T)))

    def added(s):
        path, m1 = lib.msg_read(ex, s, m, PATH)
        data, _ = lib.msg_read(ex, s, m1, DATA)
        left = data.dom
        some = F
        for k in ASSOC:
            k = sv(k)
            some = z3.Or(some, data.has(k))
            left = z3.If(z3.Select(left, k), z3.Store(left, k, False), left)
        cases(ex, s, (z3.And(some, enumN(left) == 0), lambda s2: None), (None, schedule))
    cases(ex, st, (app('get_member', S, m) == sv('InterfacesAdded'), added), (None, schedule))
    return I_(iv(1), 32, False)


RULES = Set(STR)
NONE = z3.Const('no match yet', B)
HANDLER = DC + 'eventHandler'


def setup(ex, st, this, args):
    ex.initial[('T', 'rules')] = Val(RULES, [z3.Const('rules before', RULES.sorts[0])])
    ex.initial[('T', 'none')] = B_(NONE)
    for r in ('rules', 'none'):
        ex.root(st, ('T', r))
    return []


def match_made(ex, st, bus, rule):
    """a match on this bus and rule (their order does not matter)"""
    st.roots[('T', 'rules')] = Val(RULES, [z3.Store(ex.root(st, ('T', 'rules')).dom, app('match on', S, bus, rule), z3.BoolVal(True))])
    st.roots[('T', 'none')] = B_(F)


def emplace(ex, st, e, obj, a):
    bus, rule, h, ctx = a
    fn = ex.rv(st, h)
    own = isinstance(fn, FnPtr) and strip_t(fn.fn['q']) == HANDLER
    timer = ex.coerce(ex.rv(st, ctx), PTR, st).x
    ok = z3.And(z3.BoolVal(own), timer == ex.handle_of(st, ex.args0[1]))
    match_made(ex, st, z3.If(ok, ex.handle_of(st, bus), iv(-1)), lift(z3.simplify(sx(ex, st, rule))))


def empty(ex, st, e, obj, a):
    return B_(ex.root(st, ('T', 'none')).x)


def size(ex, st, e, obj, a):
    n = app('number of matches', I, ex.root(st, ('T', 'rules')).dom)
    ex.pre_facts.append(n > 0)
    return I_(z3.If(ex.root(st, ('T', 'none')).x, iv(0), n), 64, True)


def matches_spec(ex, st, e, obj, a):
    ex.args0 = a
    bus = ex.handle_of(st, a[0])

    def make(s):
        for i in (MODE, CFG + 'Pid', CFG + 'Pid.Zone', CFG + 'Stepwise'):
            match_made(ex, s, bus, sv(f"type='signal',member='PropertiesChanged',arg0namespace='{i}'"))
        for m in ('InterfacesAdded', 'InterfacesRemoved'):
            match_made(ex, s, bus, sv(f"type='signal',member='{m}',arg0path='{SENSORS}'"))
    cases(ex, st, (NONE, make), (None, lambda s: None))


PROP = Prop('C33', ['dbus/dbusconfiguration.cpp'],
            [FnC(DC + 'eventHandler', handler_spec, nullable=[0, 1]),
             FnC(DC + 'createMatches', matches_spec, setup=setup, models={'std::list::emplace_back': emplace, 'std::list::empty': empty, 'std::list::size': size})],
            models={**c29.COMMON, c29.TIMER + '::expires_after': expires, c29.TIMER + '::async_wait': wait, NS + RELOAD: reload,
                    'sdbusplus::message_t::message_t': message},
            driver='c33', assumptions=[])
