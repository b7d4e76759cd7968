from .base import *
from .c18 import init_spec

Z = NS + 'DbusPidZone'
FAN, THERMAL, STEP = NS + 'FanController', NS + 'ThermalController', NS + 'StepwiseController'
BUILD = 'ControllerBuildException'


def made(ex, st, q, *ls):
    """a freshly constructed object and its place"""
    h = lib.new_handle(ex, q, *ls)
    sh = Sc('p')
    return h


def create_fan(ex, st, e, obj, a):
    owner, idn, ins, init = ex.rv(st, a[0]).x, sx(ex, st, a[1]), ex.rv(st, a[2]), ex.rv(st, a[3])
    h = lib.new_handle(ex, FAN, idn, *ins.l, owner)

    def go(s):
        o = ex.root(s, ('H', FAN))
        v = lib.default_obj(ex, s, FAN)
        v = v.withf('_owner', Val(PTR, [owner])).withf('_id', S_(idn)).withf('_inputs', ins)
        v = v.withf('_pid_info', started(v.f('_pid_info'), init))
        s.roots[('H', FAN)] = o.set(h, v)
        return Val(PTR, [h])
    return cases(ex, st, (ins.len == 0, lambda s: Val(PTR, [iv(0)])), (None, go))


def started(info, init):
    """loop state at its start with the given parameters"""
    v = default(info.sh)
    v = v.withf('lastError', info.f('lastError')) if 'lastError' in info.sh.off else v
    for n, _ in init.sh.fields:
        v = v.withf(n, init.f(n))
    return v


def place(ex, s, q, h, **kw):
    """the object h of class q holds these fields, the others their initial values"""
    v = lib.default_obj(ex, s, q)
    for n, x in kw.items():
        x = x(v.f(n)) if callable(x) else x
        v = v.withf(n, x if isinstance(x, Val) else Val(v.f(n).sh, [x]))
    s.roots[('H', q)] = ex.root(s, ('H', q)).set(h, v)


def create_thermal(ex, st, e, obj, a):
    owner, idn, ins, setp, init, ty = (ex.rv(st, x) for x in a)
    ex.throw(st, ins.len == 0, Exc(BUILD))
    h = lib.new_handle(ex, THERMAL, idn.x, *ins.l, ty.x, owner.x)
    place(ex, st, THERMAL, h, _owner=owner, _id=idn, _inputs=ins, type=ty, _setpoint=setp, _pid_info=lambda v: started(v, init))
    return Val(PTR, [h])


def create_step(ex, st, e, obj, a):
    owner, idn, ins, init = (ex.rv(st, x) for x in a)
    ex.throw(st, ins.len == 0, Exc(BUILD))
    h = lib.new_handle(ex, STEP, idn.x, *ins.l, owner.x)
    place(ex, st, STEP, h, _owner=owner, _id=idn, _inputs=ins, _stepwise_info=init)
    return Val(PTR, [h])


def missing(ex, st, obj, name, flag):
    m = ex.load(st, obj.f('_missingAcceptable'))
    ex.store(st, obj.f('_missingAcceptable'), ite(flag, m.add(name), m))


def add_fan_input(ex, st, e, obj, a):
    name = sx(ex, st, a[0])
    l = obj.f('_fanInputs')
    ex.store(st, l, ex.load(st, l).push(S_(name)))
    missing(ex, st, obj, name, ex.b(st, a[1]))


def add_thermal_input(ex, st, e, obj, a):
    name = sx(ex, st, a[0])
    l = obj.f('_thermalInputs')
    v = ex.load(st, l)
    ex.store(st, l, ite(member(ex, v, name), v, v.push(S_(name))))
    missing(ex, st, obj, name, ex.b(st, a[1]))


def push(field):
    def spec(ex, st, e, obj, a):
        l = obj.f(field)
        ex.store(st, l, ex.load(st, l).push(Val(PTR, [ex.coerce(ex.rv(st, a[0]), PTR, st).x])))
    return spec


def zone_ctor(ex, st, e, obj, a):
    """the given settings; nothing else yet"""
    v = ex.load(st, obj)
    for n, sh in v.sh.fields:
        if n.startswith('_') or n in ('setPoints', 'rpmCeilings'):
            ex.store(st, obj.f(n), default(sh))
    ctor_fields(ex, st, obj, a, _zoneId=0, _minThermalOutputSetPt=1, _zoneFailSafePercent=2, _cycleTime=3, _mgr=lambda ex, st, a: ex.handle_of(st, a[4]), _accumulateSetPoint=8)


THERMALS = ('temp', 'margin', 'power', 'powersum')
CONF = NS + 'conf::'
OPAQUE = [NS + 'ec::pidinfo', NS + 'ec::StepwiseInfo', CONF + 'CycleTime']
PATH = '/xyz/openbmc_project/settings/fanctrl/zone'
EMIT = 'emit_object_added'


def is_thermal(ex, st, e, obj, a):
    t = sx(ex, st, a[0])
    return B_(z3.Or(*[t == sv(x) for x in THERMALS]))


def leaves(ex, v):
    return [lib.content(ex, v)] if isinstance(v.sh, Vec) else list(v.l)


# what the calls on the zone change, kept in order per kind: calls of different kinds commute
CHANNEL = {'addFanInput': 'inputs', 'addThermalInput': 'inputs', 'addFanPID': 'fans', 'addThermalPID': 'thermals',
           'addPidFailSafePercent': 'percents', 'addPidControlProcess': 'processes', EMIT: 'emitted'}
CH = ['inputs', 'fans', 'thermals', 'percents', 'processes']


def on_zone(name):
    """a call of the zone, recorded in order"""
    def m(ex, st, e, obj, a):
        ls = [ex.handle_of(st, obj)]
        for x, t in zip(a, e['fn']['pt']):
            if t.k == 'ref' and 'bus_t' in t.s:
                ls.append(ex.handle_of(st, x))
                continue
            sh = ex.prog.shape(t.deref())
            v = Val(sh, lib.ctor_arg(ex, st, sh, x))
            ls += leaves(ex, v)
        ex.event(st, CHANNEL[name], name, *ls)
    return m


def names_of(ex, ins):
    return Val(Vec(STR), [ins.len, app('names of', z3.ArraySort(I, S), lib.content(ex, ins))])


def split_model(ex, st, e, obj, a):
    return names_of(ex, ex.rv(st, a[0]))


def fan_pid(ex, owner, name, names, info):
    return z3.If(names.len == 0, iv(0), app('fan pid', I, owner, name, lib.content(ex, names), *info.l))


def fan_model(ex, st, e, obj, a):
    o, i, n, p = (ex.rv(st, x) for x in a)
    return Val(PTR, [fan_pid(ex, ex.coerce(o, PTR, st).x, i.x, n, p)])


def maker(what, at):
    def m(ex, st, e, obj, a):
        v = [ex.coerce(ex.rv(st, a[0]), PTR, st)] + [ex.rv(st, x) for x in a[1:]]
        ex.throw(st, v[at].len == 0, Exc(BUILD))
        return Val(PTR, [app(what, I, *[l for x in v for l in leaves(ex, x)])])
    return m


def type_code(t):
    return z3.If(t == sv('margin'), iv(0), z3.If(t == sv('powersum'), iv(2), iv(1)))


def type_model(ex, st, e, obj, a):
    t = sx(ex, st, a[0])
    ex.throw(st, z3.Not(z3.Or(*[t == sv(x) for x in THERMALS])), Exc(BUILD))
    return I_(type_code(t), 32, False)


def build(ex, st, e, obj, a):
    zp, zc = ex.rv(st, a[0]), ex.rv(st, a[1])
    bus = ex.handle_of(st, a[3])
    n = enumN(zp.dom)
    ZS = Map(INT, PTR)
    OUT = Rec('zones so far', [(c, OPQ) for c in CH + ['emitted']] + [('noconf', BOOL), ('bad', BOOL), ('z', ZS)])
    MID = Rec('controllers so far', [(c, OPQ) for c in CH] + [('bad', BOOL)])
    P = (z3.Int('zk'), z3.Int('pk'))
    F_ = {}
    deps = zp.l + zc.l + (bus,)
    ctor, _ = lib.find_ctor(ex, st, Z, [None] * 9)

    def zid(k):
        return enumKey(zp.dom, k)

    def path(k):
        return sconcat(sv(PATH), i2s(zid(k)))

    def zone(k):
        c = zc.at(zid(k))
        args = [I_(zid(k), 64, False), c.f('minThermalOutput'), c.f('failsafePercent'), c.f('cycleTime'), a[2], a[3], S_(path(k)), B_(T), c.f('accumulateSetPoint')]
        return lib.new_handle(ex, Z, *lib.ctor_leaves(ex, st, ctor, args))

    def pids(zk):
        return zp.at(zid(zk))

    def pid(zk, pk):
        key = enumKey(pids(zk).dom, pk)
        return key, pids(zk).at(key)

    def kinds(c):
        ty = c.f('type').x
        return ty == sv('fan'), z3.Or(*[ty == sv(x) for x in THERMALS]), ty == sv('stepwise')

    def add(zk, pk, k, s):
        """one input, registered with the zone under its own missing-acceptable flag"""
        c = pid(zk, pk)[1]
        i = c.f('inputs').at(k)
        ls = (zone(zk), i.f('name').x, i.f('missingIsAcceptable').x)
        return Val(OPQ, [z3.If(kinds(c)[0], ev(s.x, 'addFanInput', *ls), ev(s.x, 'addThermalInput', *ls))])

    def controller(zk, k, s):
        name, c = pid(zk, k)
        z, ins, ty, setp = zone(zk), c.f('inputs'), c.f('type').x, c.f('setpoint').x
        fan, th, sw = kinds(c)
        names = names_of(ex, ins)
        was = {c: s.f(c).x for c in CH}
        path_ = sconcat(sconcat(sconcat(sv(PATH), i2s(zid(zk))), sv('/')), name)
        of = z3.Or(fan, th, sw)
        t_pid = ev(was['thermals'], 'addThermalPID', z, app('thermal pid', I, z, name, lib.content(ex, ins), setp, *c.f('pidInfo').l, type_code(ty)))
        s_pid = ev(was['thermals'], 'addThermalPID', z, app('stepwise controller', I, z, name, lib.content(ex, names), *c.f('stepwiseInfo').l))
        now = {'inputs': z3.If(of, F_['in'].end(zk, k).x, was['inputs']),
               'fans': z3.If(fan, ev(was['fans'], 'addFanPID', z, fan_pid(ex, z, name, names, c.f('pidInfo'))), was['fans']),
               'thermals': z3.If(fan, was['thermals'], z3.If(th, t_pid, z3.If(sw, s_pid, was['thermals']))),
               'percents': z3.If(of, ev(was['percents'], 'addPidFailSafePercent', z, lib.content(ex, names), c.f('failSafePercent').x), was['percents']),
               'processes': z3.If(z3.And(of, z3.Not(fan)), ev(was['processes'], 'addPidControlProcess', z, name, ty, setp, bus, path_, T), was['processes'])}
        bad = z3.Or(s.f('bad').x, z3.And(z3.Not(fan), z3.Or(th, sw), ins.len == 0))
        return Val(MID, [z3.If(s.f('bad').x, was[c], now[c]) for c in CH] + [bad])

    def one(k, s):
        r = F_['mid'].end(k)
        stop = z3.Or(s.f('noconf').x, s.f('bad').x)
        noconf = z3.Not(zc.has(zid(k)))
        z = zone(k)
        new_ = [r.f(c).x for c in CH] + [ev(s.f('emitted').x, EMIT, z), noconf, z3.And(z3.Not(noconf), r.f('bad').x)] + list(s.f('z').set(zid(k), Val(PTR, [z])).l)
        return Val(OUT, [z3.If(stop, o, w) for o, w in zip(s.l, new_)])
    out = ex.fold('zones', OUT, Val(OUT, [trace_val(ex, st, c).x for c in CH + ['emitted']] + [F, F] + list(default(ZS).l)), one, n=n, deps=deps,
                  absorb=lambda s: z3.Or(s.f('noconf').x, s.f('bad').x))
    F_['mid'] = mid = ex.fold('controllers', MID, lambda zk: Val(MID, [out.at(zk).f(c).x for c in CH] + [F]), controller, n=lambda zk: enumN(pids(zk).dom), deps=deps, params=P[:1],
                              absorb=lambda s: s.f('bad').x)
    F_['in'] = ex.fold('inputs', OPQ, lambda zk, pk: mid.at(pk, [zk]).f('inputs'), add, n=lambda zk, pk: pid(zk, pk)[1].f('inputs').len, deps=deps, params=P)
    r = out.end()
    for c in CH + ['emitted']:
        st.roots[('T', c)] = r.f(c)
    ex.throw(st, r.f('noconf').x, Exc('std::runtime_error'))
    ex.throw(st, r.f('bad').x, Exc(BUILD))
    return r.f('z')


METHODS = ['addFanInput', 'addThermalInput', 'addFanPID', 'addThermalPID', 'addPidFailSafePercent', 'addPidControlProcess', EMIT]
MODELS = {Z + '::' + m: on_zone(m) for m in METHODS}
MODELS['sdbusplus::server::object_t::emit_object_added'] = on_zone(EMIT)
MODELS.update({NS + 'splitNames': split_model, FAN + '::createFanPid': fan_model, THERMAL + '::createThermalPid': maker('thermal pid', 2),
               STEP + '::createStepwiseController': maker('stepwise controller', 2), NS + 'isThermalType': is_thermal, NS + 'getThermalType': type_model,
               Z + '::getZoneID': lambda ex, st, e, obj, a: Val(ex.prog.shape(e['fn']['rt']), [app('zone id', I, ex.handle_of(st, obj))])})
FILES = ['pid/builder.cpp', 'pid/fancontroller.cpp', 'pid/thermalcontroller.cpp', 'pid/stepwisecontroller.cpp', 'pid/zone.cpp', 'pid/util.cpp']
PROP = Prop('C24', FILES,
            [FnC(FAN + '::createFanPid', create_fan, concrete=[FAN]),
             FnC(THERMAL + '::createThermalPid', create_thermal, concrete=[THERMAL]),
             FnC(STEP + '::createStepwiseController', create_step, concrete=[STEP]),
             FnC(Z + '::DbusPidZone', zone_ctor, cls=Z, ignore=['_log'], ignore_roots=['file']),
             FnC(Z + '::addFanInput', add_fan_input, cls=Z),
             FnC(Z + '::addThermalInput', add_thermal_input, cls=Z),
             FnC(Z + '::addFanPID', push('_fans'), cls=Z),
             FnC(Z + '::addThermalPID', push('_thermals'), cls=Z),
             FnC(NS + 'isThermalType', is_thermal),
             FnC(NS + 'buildZones', build, models=MODELS, opaque=OPAQUE)],
            driver='c24')
