from .base import *

HM = 'HostStateMonitor'
PS, HS = NS + 'PluggableSensor', NS + 'HostSensor'
HOSTIF = 'xyz.openbmc_project.State.Host'
VALUE = 'sdbusplus::xyz::openbmc_project::Sensor::server::Value::value'
UNIT = 'sdbusplus::xyz::openbmc_project::Sensor::server::Value::unit'
MON = z3.Int('host state monitor')
STRVAR = Var([STR])


def monitor(ex, st, e=None, obj=None, a=None):
    """the one host state monitor"""
    return ex.handle_loc(MON, e['fn']['rt'].deref())


def host_on(ex, st):
    return ex.root(st, ('H', HM)).at(MON).f('powerStatusOn').x


def running(s):
    return sends(s, sv('.Running'))


def setup(ex, st, this, args):
    ex.root(st, ('H', HM))
    ex.pre_facts.append(MON != 0)
    return []


def pl_failed(ex, st, e, obj, a):
    r = app('getFailed', B, ex.load(st, obj.f('_reader')).x)
    ign = ex.load(st, obj.f('_ignoreFailIfHostOff')).x
    return B_(z3.And(r, z3.Not(z3.And(ign, z3.Not(host_on(ex, st))))))


def hs_failed(ex, st, e, obj, a):
    bad = z3.Not(is_fin(ex.load(st, obj.f('_value')).x))
    ign = ex.load(st, obj.f('_ignoreFailIfHostOff')).x
    return B_(z3.And(bad, z3.Not(z3.And(ign, z3.Not(host_on(ex, st))))))


def fwd(field, name, sh=None):
    def spec(ex, st, e, obj, a):
        h = ex.load(st, obj.f(field)).x
        if sh is None:
            vcall(ex, st, name, h, *[l for x in a for l in lib.leaves_of(ex, st, [x])])
        else:
            return vpure(ex, ex.prog.shape(e['fn']['rt'].deref()) if sh is True else sh, name, h)
    return spec


def hs_value(ex, st, e, obj, a):
    v = D(ex, st, a[0])
    setf(ex, st, obj, _value=v, _updated=z3.Const('now', I))
    return server_value(ex, st, e, obj, a)


def server_value(ex, st, e, obj, a):
    """the generated Value interface's setter: returns what it now holds"""
    v = D(ex, st, a[0])
    ex.event(st, 'dbus', 'Value.value', v)
    return Val(DBL, [v])


def hs_read(ex, st, e, obj, a):
    r = default(ex.prog.rec_shape(NS + 'ReadReturn'))
    return r.withf('value', ex.load(st, obj.f('_value'))).withf('updated', ex.load(st, obj.f('_updated'))).withf('unscaled', ex.load(st, obj.f('_value')))


def hs_write(ex, st, e, obj, a):
    ex.throw(st, T, Exc('std::runtime_error'))


def state_signal(ex, st, e, obj, a):
    m = D(ex, st, a[0])
    bad1 = app('unreadable s', B, m)
    PM = Map(STR, STRVAR)
    s1 = st.copy()
    ex.thr.append([])
    _, m1 = lib.msg_read(ex, s1, m, STR)
    props, m2 = lib.msg_read(ex, s1, m1, PM)
    ex.thr.pop()
    bad = z3.Or(app('unreadable ' + lib.tyname(STR), B, m), app('unreadable ' + lib.tyname(PM), B, m1))
    key = sv('CurrentHostState')
    on = z3.If(z3.And(z3.Not(bad), props.has(key)), running(props.at(key).f('a0').x), ex.load(st, obj.f('powerStatusOn')).x)
    setf(ex, st, obj, powerStatusOn=on)


def initial(ex, st, e, obj, a):
    """what a Get of the host's current state answers; off when it cannot be read"""
    m = lib.msg_call(ex, st, sv('xyz.openbmc_project.State.Host0'), sv('/xyz/openbmc_project/state/host0'), sv('org.freedesktop.DBus.Properties'), sv('Get'))
    m = lib.msg_arg(ex, m, S_(sv(HOSTIF)))
    m = lib.msg_arg(ex, m, S_(sv('CurrentHostState')))
    ex.thr.append([])
    r = lib.bus_call(ex, st, m)
    v, _ = lib.msg_read(ex, st, r, STRVAR)
    thr = ex.thr.pop()
    s2 = st
    setf(ex, s2, obj, powerStatusOn=running(v.f('a0').x))
    outs = [s2.copy()]
    for s, _e in thr:
        setf(ex, s, obj, powerStatusOn=F)
        outs.append(s)
    assign(st, ex.merge(outs))


def get_field(f):
    return lambda ex, st, e, obj, a: ex.load(st, obj.f(f))


def mon_ctor(ex, st, e, obj, a):
    """off until the initial state has been read"""
    setf(ex, st, obj, powerStatusOn=F, hostStateMatch=iv(0), bus=ex.handle_of(st, a[0]))
    initial(ex, st, e, obj, a)


def make_match(ex, st, e, obj, a):
    """a bus match: which bus and rule; its handler is run once on a message to see what it does"""
    h = lib.new_handle(ex, 'sdbusplus::match', ex.handle_of(st, a[0]), sx(ex, st, a[1]))
    ex.event(st, 'match', 'match', h)
    ex.call_value(st, a[2], [Val(OPQ, [z3.Int('a host state message')])], None)
    return Val(PTR, [h])


def rule(ex, st, e, obj, a):
    return S_(app('match rule', S, sx(ex, st, a[0]), sx(ex, st, a[1])))


def start(ex, st, e, obj, a):
    """one match on the host's state, made once; each of its messages goes to the state handler"""
    m = ex.load(st, obj.f('hostStateMatch')).x

    def mk(s):
        h = lib.new_handle(ex, 'sdbusplus::match', ex.load(s, obj.f('bus')).x, app('match rule', S, sv('/xyz/openbmc_project/state/host0'), sv(HOSTIF)))
        ex.event(s, 'match', 'match', h)
        handled(ex, s, e, obj, [Val(OPQ, [z3.Int('a host state message')])])
        setf(ex, s, obj, hostStateMatch=h)
    cases(ex, st, (m == 0, mk), (None, lambda s: None))


def handled(ex, st, e, obj, a):
    ex.event(st, 'match', 'handleStateChange', ex.rv(st, a[0]).x)


def create_temp(ex, st, e, obj, a):
    path = sx(ex, st, a[3])
    h = new(ex, 'HostSensor', sx(ex, st, a[0]), D(ex, st, a[1]), ex.handle_of(st, a[2]), path, D(ex, st, a[4]), D(ex, st, a[5]))
    ex.event(st, 'host', 'value', h, dv(0.0))
    return Val(PTR, [h])


def on_host(name):
    def m(ex, st, e, obj, a):
        ex.event(st, 'host', name, ex.handle_of(st, obj), *[ex.coerce(ex.rv(st, x), DBL, st).x for x in a])
        return default(ex.prog.shape(e['fn']['rt'])) if name == 'value' else None
    return m


GETI = {HM + '::getInstance': monitor}
LOG = {NS + 'outputFailsafeLogWithSensor': noeffect()}
PROP = Prop('C23', ['sensors/pluggable.cpp', 'sensors/host.cpp'],
            [FnC(PS + '::getFailed', pl_failed, cls=PS, setup=setup),
             FnC(PS + '::read', fwd('_reader', 'read', True), cls=PS),
             FnC(PS + '::getFailReason', fwd('_reader', 'getFailReason', STR), cls=PS),
             FnC(PS + '::write', fwd('_writer', 'write'), 1, cls=PS, name=PS + '::write(value)'),
             FnC(PS + '::write', fwd('_writer', 'write'), 3, cls=PS, nullable=[2], name=PS + '::write(value, force, written)'),
             FnC(PS + '::PluggableSensor', ctor(_name=0, _timeout=1, _reader=2, _writer=3, _ignoreFailIfHostOff=4), cls=PS, ignore_roots=['arg2', 'arg3']),
             FnC(HS + '::getFailed', hs_failed, cls=HS, setup=setup, models=LOG),
             FnC(HS + '::value', hs_value, 1, cls=HS, models={VALUE: server_value}),
             FnC(HS + '::read', hs_read, cls=HS),
             FnC(HS + '::write', hs_write, 1, cls=HS),
             FnC(HM + '::handleStateChange', state_signal, cls=HM, ignore_roots=['arg0']),
             FnC(HM + '::HostStateMonitor', mon_ctor, cls=HM, ignore=['bus']),
             FnC(HM + '::startMonitoring', start, cls=HM, models={'make sdbusplus::match': make_match, HM + '::handleStateChange': handled,
                                                                   'sdbusplus::match_rules::propertiesChangedNamespace': rule}),
             FnC(HS + '::createTemp', create_temp, models={HS + '::value': on_host('value'), 'sdbusplus::server::object_t::emit_object_added': noeffect(),
                                                           UNIT: noeffect(lambda ex, st, e, obj, a: ex.rv(st, a[0]))}),
             FnC(HS + '::HostSensor', ctor(_name=0, _timeout=1, _ignoreFailIfHostOff=5, _value=dv(0.0)), cls=HS, ignore=['_updated']),
             FnC(HM + '::isPowerOn', get_field('powerStatusOn'), cls=HM)],
            models=GETI, driver='c23',
            assumptions=['the host state monitor is a single object whose match delivers the host\'s property changes'])
