from .base import *
from .c13 import create, get_service

M = NS + 'SensorManager'
KINDS = dict(NONE=0, EXTERNAL=1, DBUSPASSIVE=2, DBUSACTIVE=3, SYSFS=4, UNKNOWN=5)
EXT, BMC, SYS = '/xyz/openbmc_project/extsensors/', '/xyz/openbmc_project/', '/sys/'


def has(p, s):
    return sfind(p, sv(s)) != NPOS


def absent(p):
    return z3.Or(p == sv(''), p == sv('None'))


def kinds(ex):
    return {n: v for n, v in ex.prog.enum_values(NS + 'IOInterfaceType').items()} if hasattr(ex.prog, 'enum_values') else KINDS


def read_kind(K, p):
    return z3.If(absent(p), iv(K['NONE']), z3.If(has(p, EXT), iv(K['EXTERNAL']), z3.If(has(p, BMC), iv(K['DBUSPASSIVE']),
                 z3.If(has(p, SYS), iv(K['SYSFS']), iv(K['UNKNOWN'])))))


def write_kind(K, p):
    return z3.If(absent(p), iv(K['NONE']), z3.If(has(p, SYS), iv(K['SYSFS']), z3.If(has(p, BMC), iv(K['DBUSACTIVE']), iv(K['UNKNOWN']))))


def kind_spec(f):
    def spec(ex, st, e, obj, a):
        return Val(ex.prog.shape(e['fn']['rt']), [f(kinds(ex), sx(ex, st, a[0]))])
    return spec


def add(ex, maps, type_, name, h):
    """the sensor under its name; its name last in the list of its type"""
    s, t = maps
    l = ite(t.has(type_), t.at(type_), default(t.sh.v))
    return s.set(name, Val(PTR, [h])), t.set(type_, l.push(S_(name)))


def add_spec(ex, st, e, obj, a):
    s, t = add(ex, (ex.load(st, obj.f('_sensorMap')), ex.load(st, obj.f('_sensorTypeList'))), sx(ex, st, a[0]), sx(ex, st, a[1]), D(ex, st, a[2]))
    ex.store(st, obj.f('_sensorMap'), s)
    ex.store(st, obj.f('_sensorTypeList'), t)


# the reader of a D-Bus sensor: C11/C12 say what it does; here only which one is asked for, and that there may be none
def reader(bus, type_, name, info, redundant, t):
    return app('createDbusPassive', I, bus, type_, name, *info.l, redundant, t)


def passive_model(ex, st, e, obj, a):
    for r in ex.locstat:
        v = ex.root(st, r)
        if isinstance(v.sh, Sc) and v.sh.k == 'p':
            ex.pre_facts.append(v.x != 0)        # a function-local static made by make_shared
    info = ex.load(st, ex.deref(st, ex.rv(st, a[4]), ex.prog.shape(e['fn']['pt'][4]).tgt))
    red = ex.rv(st, a[5])
    red = F if isinstance(red, PV) else red.x != 0
    t = trace_val(ex, st, 'reader').x
    bus, ty, nm = ex.handle_of(st, a[0]), sx(ex, st, a[1]), sx(ex, st, a[2])
    h = reader(bus, ty, nm, info, red, t)
    ex.event(st, 'reader', 'createDbusPassive', bus, ty, nm, *info.l, red)
    return Val(PTR, [h])


def host_sensor(name, timeout, bus, path, ign):
    return app('new HostSensor', I, name, timeout, bus, path, ign)


def create_temp(ex, st, e, obj, a):
    path = sx(ex, st, a[3])
    h = host_sensor(sx(ex, st, a[0]), D(ex, st, a[1]), ex.handle_of(st, a[2]), path, D(ex, st, a[5]))
    ex.pre_facts.append(h != 0)
    return Val(PTR, [h])


def helper(ex, bus):
    return new(ex, 'DbusHelper', bus)


def build(ex, st, e, obj, a):
    cfg = ex.rv(st, a[0])
    bus, host = ex.handle_of(st, a[1]), ex.handle_of(st, a[2])
    dom, n = cfg.dom, enumN(cfg.dom)
    K = kinds(ex)
    SM, TM = Map(STR, PTR), Map(STR, Vec(STR))
    state = Rec('built', [('s', SM), ('t', TM), ('r', OPQ), ('bad', BOOL)])
    fan, types = sv('fan'), ('temp', 'margin', 'power', 'powersum')
    intf = sv('xyz.openbmc_project.Control.FanPwm')

    def step(k, s):
        name = enumKey(dom, k)
        c = cfg.at(name)
        g = lambda f: c.f(f).x
        ty, rk, wk = g('type'), read_kind(K, g('readPath')), write_kind(K, g('writePath'))
        isfan = ty == fan
        dbus = rk == K['DBUSPASSIVE']
        t = s.f('r').x
        red = isfan
        r = reader(bus, ty, name, c, red, t)
        t2 = z3.If(dbus, ev(t, 'createDbusPassive', bus, ty, name, *c.l, red), t)
        ri = z3.If(dbus, r, z3.If(rk == K['EXTERNAL'], iv(0), z3.If(rk == K['SYSFS'], new(ex, 'SysFsRead', g('readPath')), new(ex, 'WriteOnly'))))
        wargs = (g('writePath'), g('min'), g('max'))
        pct = g('max') > 0
        h = helper(ex, bus)
        conn = app('getService', S, h, intf, g('writePath'))
        noconn = app('getService throws', B, h, intf, g('writePath'))
        ro = new(ex, 'ReadOnlyNoExcept')
        wi = z3.If(wk == K['SYSFS'], z3.If(pct, new(ex, 'SysFsWritePercent', *wargs), new(ex, 'SysFsWrite', *wargs)),
                   z3.If(wk == K['DBUSACTIVE'], z3.If(pct, new(ex, 'DbusWritePercent', *wargs, conn), new(ex, 'DbusWrite', *wargs, conn)), ro))
        bad = z3.Or(z3.And(dbus, r == 0), z3.And(isfan, wk == K['DBUSACTIVE'], noconn))
        known = z3.Or(isfan, *[ty == sv(x) for x in types])
        obj_ = z3.If(z3.And(z3.Not(isfan), rk == K['EXTERNAL']), host_sensor(name, g('timeout'), host, g('readPath'), g('ignoreFailIfHostOff')),
                     new(ex, 'PluggableSensor', name, g('timeout'), ri, z3.If(isfan, wi, ro), g('ignoreFailIfHostOff')))
        ns, nt = add(ex, (s.f('s'), s.f('t')), ty, name, obj_)
        put = z3.And(known, z3.Not(bad))
        new_ = Val(state, ite(put, ns, s.f('s')).l + ite(put, nt, s.f('t')).l + (t2, bad))
        return ite(s.f('bad').x, s, new_)
    init = Val(state, default(SM).l + default(TM).l + (trace_val(ex, st, 'reader').x, F))
    f = ex.fold('sensors', state, init, step, n=n, deps=cfg.l + (bus, host), absorb=lambda s: s.f('bad').x)
    end = f.end()
    st.roots[('T', 'reader')] = end.f('r')
    ex.throw(st, end.f('bad').x, Exc('SensorBuildException'))
    r = default(ex.prog.rec_shape(M)).withf('_sensorMap', end.f('s')).withf('_sensorTypeList', end.f('t'))
    return r.withf('_passiveListeningBus', Val(PTR, [bus])).withf('_hostSensorBus', Val(PTR, [host]))


# --- the readers themselves
DP = NS + 'DbusPassive'
VALUE = 'xyz.openbmc_project.Sensor.Value'
TYPES = ('fan', 'temp', 'margin', 'power', 'powersum')
LAYERS = dict(fan='fan_tach', temp='temperature', margin='temperature', power='power', powersum='power')
UNITS = dict(fan='RPMS', temp='DegreesC', margin='DegreesC', power='Watts', powersum='Watts')


def by_type(t, table, other):
    r = sv(other)
    for k, v in table.items():
        r = z3.If(t == sv(k), sv(v), r)
    return r


def sensor_path(t, name):
    return sconcat(sconcat(sconcat(sv('/xyz/openbmc_project/sensors/'), by_type(t, LAYERS, 'unknown')), sv('/')), name)


def path_spec(ex, st, e, obj, a):
    return S_(sensor_path(sx(ex, st, a[0]), sx(ex, st, a[1])))


def unit_spec(ex, st, e, obj, a):
    return S_(by_type(sx(ex, st, a[0]), {k: 'xyz.openbmc_project.Sensor.Value.Unit.' + v for k, v in UNITS.items()}, 'unknown'))


def valid(t):
    return z3.Or(*[t == sv(x) for x in TYPES])


def valid_spec(ex, st, e, obj, a):
    return B_(valid(sx(ex, st, a[0])))


def properties(ex, h, service, path):
    """what the helper reads (C26): a function of service and path that may fail"""
    sh = ex.prog.rec_shape(NS + 'SensorProperties')
    return app('no properties', B, h, service, path), Val(sh, [app(f'properties.{i}', so, h, service, path) for i, so in enumerate(sh.sorts)])


def get_props(ex, st, e, obj, a):
    ls = ex.handle_of(st, obj), sx(ex, st, a[0]), sx(ex, st, a[1])
    bad, v = properties(ex, *ls)
    ex.throw(st, bad, Exc(lib.SDERR))
    ex.store(st, ex.deref(st, ex.rv(st, a[2]), ex.prog.shape(e['fn']['pt'][2]).tgt), v)


def asserted(ls):
    return app('asserted fails', B, *ls), app('asserted', B, *ls)


def get_asserted(ex, st, e, obj, a):
    bad, v = asserted((ex.handle_of(st, obj), sx(ex, st, a[0]), sx(ex, st, a[1])))
    ex.throw(st, bad, Exc(lib.SDERR))
    return B_(v)


def make(ex, st, h, helper):
    """the new sensor holds the helper it was given (its constructor's contract: C11)"""
    ex.store(st, ex.handle_loc(h, ex.prog.fns[DP + '::DbusPassive'][0].d['cls']).f('_helper'), Val(PTR, [helper]))


def make_model(ex, st, e, obj, a):
    f, a = lib.find_ctor(ex, st, DP, a)
    h = lib.new_handle(ex, DP, *lib.ctor_leaves(ex, st, f, a))
    make(ex, st, h, D(ex, st, a[3]))
    return Val(PTR, [h])


def init_model(ex, st, e, obj, a):
    ex.event(st, 'sensor', 'initFromSettings', ex.handle_of(st, obj), *ex.rv(st, a[0]).l, D(ex, st, a[1]))


def passive(ex, st, e, obj, a):
    """a reader of the sensor's object, starting with what the bus says of it; none for an unknown type or when the bus fails"""
    bus, ty, id_, helper = ex.handle_of(st, a[0]), sx(ex, st, a[1]), sx(ex, st, a[2]), D(ex, st, a[3])
    info = ex.load(st, ex.deref(st, ex.rv(st, a[4]), ex.prog.shape(e['fn']['pt'][4]).tgt))
    red = ex.rv(st, a[5])
    g = lambda n: info.f(n).x
    path = z3.If(g('readPath') == sv(''), sensor_path(ty, id_), g('readPath'))
    sargs = (helper, sv(VALUE), path)
    service = app('getService', S, *sargs)
    none = z3.Or(helper == 0, z3.Not(valid(ty)), app('getService throws', B, *sargs))

    def there(s):
        h = lib.new_handle(ex, DP, bus, ty, id_, helper, F, path, *red.l)
        make(ex, s, h, helper)
        b1, v = properties(ex, helper, service, path)
        b2, failed = asserted((helper, service, path))
        z = lambda n: z3.If(g('ignoreDbusMinMax'), dv(0.0), v.f(n).x)
        v = v.withf('min', D_(z('min'))).withf('max', D_(z('max'))).withf('unavailableAsFailed', info.f('unavailableAsFailed'))

        def ok(s2):
            ex.event(s2, 'sensor', 'initFromSettings', h, *v.l, failed)
            return Val(PTR, [h])
        return cases(ex, s, (z3.Or(b1, b2), lambda s2: Val(PTR, [iv(0)])), (None, ok))
    return cases(ex, st, (none, lambda s: Val(PTR, [iv(0)])), (None, there))


CREATE = FnC(DP + '::createDbusPassive', passive, models={'make ' + DP: make_model, NS + 'DbusHelperInterface::getService': get_service, NS + 'DbusHelperInterface::getProperties': get_props,
             NS + 'DbusHelperInterface::thresholdsAsserted': get_asserted, DP + '::initFromSettings': init_model})


def unsupported(ex, st, e, obj, a):
    ex.throw(st, T, Exc('std::runtime_error'))
    return default(ex.prog.shape(e['fn']['rt'])) if e['fn']['rt'].s != 'void' else None


MODELS = {NS + 'DbusPassive::createDbusPassive': passive_model, NS + 'HostSensor::createTemp': create_temp,
          NS + 'DbusWritePercent::createDbusWrite': create('DbusWritePercent'), NS + 'DbusWrite::createDbusWrite': create('DbusWrite'),
          NS + 'DbusHelperInterface::getService': get_service}
PROP = Prop('C27', ['sensors/builder.cpp', 'sensors/build_utils.cpp', 'sensors/manager.cpp', 'dbus/dbuspassive.cpp', 'dbus/dbusutil.cpp', 'notimpl/readonly.cpp', 'notimpl/writeonly.cpp'],
            [FnC(NS + 'getReadInterfaceType', kind_spec(read_kind)),
             FnC(NS + 'getWriteInterfaceType', kind_spec(write_kind)),
             FnC(M + '::addSensor', add_spec, cls=M),
             FnC(NS + 'buildSensors', build, models=MODELS),
             CREATE,
             FnC(NS + 'validType', valid_spec), FnC(NS + 'getSensorPath', path_spec), FnC(NS + 'getSensorUnit', unit_spec),
             FnC(NS + 'ReadOnly::write', unsupported, 1, cls=NS + 'ReadOnly'), FnC(NS + 'ReadOnlyNoExcept::write', noeffect(), 1, cls=NS + 'ReadOnlyNoExcept'),
             FnC(NS + 'WriteOnly::read', unsupported, cls=NS + 'WriteOnly')],
            assumptions=['createDbusPassive stands in buildSensors for a reader made from the same arguments (its own contract says when there is none); its helper is a function of '
                         'service and path that may fail (C26)'], driver='c27')
