"""D-Bus discovery: what init() collects from the bus and which controllers the profiles leave."""
from .base import *
from vcg.contract import Part
from .c17 import get_spec as zone_index
from .c20 import VAL, num, opt
from .c26 import MAPPER, must

DC = NS + 'dbus_configuration::'
ERR = Exc('std::runtime_error')
CONFIG = 'xyz.openbmc_project.Configuration.'
PID, ZONE, STEP = CONFIG + 'Pid', CONFIG + 'Pid.Zone', CONFIG + 'Stepwise'
OM = 'org.freedesktop.DBus.ObjectManager'
VALUE, PWM = 'xyz.openbmc_project.Sensor.Value', 'xyz.openbmc_project.Control.FanPwm'
TREE = Map(STR, Map(STR, Vec(STR)))
CONF = Map(STR, Map(STR, Map(STR, VAL)))
OWNERS = Map(STR, Rec('std::pair', [('first', BOOL), ('second', STR)]))
SENSORS = Map(STR, STR)
ZONES = Map(STR, Sc('i', 64, False))


def texts(*names):
    a = z3.K(I, sv(''))
    for i, n in enumerate(names):
        a = z3.Store(a, iv(i), sv(n))
    return Val(Vec(STR), [iv(len(names)), a])


def request(dest, path, intf, member, *args):
    m = lib.msg_call(None, None, dest, path, sv(intf), sv(member))
    for v in args:
        m = lib.msg_arg(None, m, v)
    return m


def answer(ex, m, bus, sh):
    """(bus after the call, failed, value) of one request"""
    r = app('reply', I, m, bus)
    n = lib.tyname(sh)
    v = Val(sh, [app(f'read {n}.{i}', so, r) for i, so in enumerate(sh.sorts)])
    lib.wellformed(ex, v)
    return ev(bus, 'call', m), z3.Or(app('bus error', B, m, bus), app('unreadable ' + n, B, r)), v


SEEN = Rec('seen', [('owners', OWNERS), ('sensors', SENSORS)])


def seen(ex, tree):
    """who has configurations (and where its object manager is), and which objects are sensors or pwm controls"""
    path = lambda zi: enumKey(tree.dom, zi)
    offers = lambda zi: tree.at(path(zi))
    owner = lambda zi, zk: enumKey(offers(zi).dom, zk)
    infs = lambda zi, zk: offers(zi).at(owner(zi, zk))
    zi, zk = z3.Int('zi'), z3.Int('zk')
    deps = tree.l
    F_ = {}

    def first(zi, zk):
        s = F_['owner'].at(zk, [zi])
        o = s.f('owners')
        k = owner(zi, zk)
        return Val(SEEN, ite(o.has(k), o, o.set(k, default(OWNERS.v))).l + s.f('sensors').l)

    def step(zi, zk, j, s):
        i, p, k = infs(zi, zk).at(j).x, path(zi), owner(zi, zk)
        o, n = s.f('owners'), s.f('sensors')
        has, at = z3.Or(*[i == sv(x) for x in (PID, ZONE, STEP)]), i == sv(OM)
        o2 = [o.l[0], z3.If(has, z3.Store(o.l[1], k, T), o.l[1]), z3.If(at, z3.Store(o.l[2], k, p), o.l[2])]
        sensor = z3.Or(i == sv(PWM), z3.And(i == sv(VALUE), app('sfind', I, p, sv('pwm'), iv(0)) == NPOS))
        return Val(SEEN, tuple(o2) + ite(sensor, n.set(p, S_(i)), n).l)
    out = ex.fold('seen paths', SEEN, default(SEEN), lambda k, s: F_['owner'].end(k), n=enumN(tree.dom), deps=deps)
    F_['owner'] = ex.fold('seen owners', SEEN, lambda zi: out.at(zi), lambda zi, k, s: F_['inf'].end(zi, k), n=lambda zi: enumN(offers(zi).dom), deps=deps, params=(zi,))
    F_['inf'] = ex.fold('seen interfaces', SEEN, first, step, n=lambda zi, zk: infs(zi, zk).len, deps=deps, params=(zi, zk))
    return out.end()


FOUND = Rec('found', [('conf', CONF), ('bus', OPQ), ('bad', BOOL)])


def found(ex, owners, bus):
    """the objects with a controller, stepwise or zone configuration, of every owner that has one"""
    key = lambda zo: enumKey(owners.dom, zo)

    def reply(zo):
        q = request(key(zo), owners.at(key(zo)).f('second').x, OM, 'GetManagedObjects')
        return answer(ex, q, out.at(zo).f('bus').x, CONF)

    def first(zo):
        s = out.at(zo)
        b, bad, v = reply(zo)
        return Val(FOUND, s.f('conf').l + (b, bad))

    def step(zo, k, s):
        _, _, v = reply(zo)
        p = enumKey(v.dom, k)
        o, c = v.at(p), s.f('conf')
        keep = z3.And(z3.Or(*[o.has(sv(x)) for x in (PID, ZONE, STEP)]), z3.Not(c.has(p)))
        return Val(FOUND, ite(keep, c.set(p, o), c).l + s.l[-2:])

    def owner(k, s):
        e = objs.end(k)
        bad = reply(k)[1]
        skip = Val(FOUND, s.l)
        failed = Val(FOUND, s.f('conf').l + (reply(k)[0], T))
        return ite(z3.Or(s.f('bad').x, z3.Not(owners.at(key(k)).f('first').x)), skip, ite(bad, failed, e))
    out = ex.fold('found owners', FOUND, Val(FOUND, default(CONF).l + (bus, F)), owner, n=enumN(owners.dom), deps=owners.l + (bus,), absorb=lambda s: s.f('bad').x)
    zo = z3.Int('zo')
    objs = ex.fold('found objects', FOUND, first, step, n=lambda zo: enumN(reply(zo)[2].dom), deps=owners.l + (bus,), params=(zo,))
    return out.end()


KEPT = Rec('kept', [('conf', CONF), ('bad', BOOL)])


def kept(ex, conf, sel):
    """what the selected profiles leave: the configurations that name no profile or a selected one; objects left with none go"""
    path = lambda zp: enumKey(conf.dom, zp)
    zp, zc = z3.Int('zp'), z3.Int('zc')
    deps = conf.l + sel.l
    F_ = {}
    now = lambda zp: F_['out'].at(zp).f('conf').at(path(zp))
    name = lambda zp, zc: enumKey(now(zp).dom, zc)
    listed = lambda zp, zc: now(zp).at(name(zp, zc)).at(sv('Profiles'))
    lst = lambda zp, zc: listed(zp, zc).f('a5')

    def drop(zp, k, s):
        props = now(zp).at(name(zp, k))
        l = lst(zp, k)
        says = props.has(sv('Profiles'))
        bad = z3.And(says, listed(zp, k).f('tag').x != 5)
        out = z3.And(says, l.len > 0, z3.Not(F_['any'].end(zp, k).x))
        c = s.f('conf')
        left = z3.Store(c.l[1], path(zp), z3.Store(z3.Select(c.l[1], path(zp)), name(zp, k), F))
        less = Val(CONF, (c.l[0], left) + c.l[2:])
        return ite(z3.Or(s.f('bad').x, bad), Val(KEPT, s.f('conf').l + (T,)), Val(KEPT, ite(out, less, c).l + (F,)))

    def step(k, s):
        e = F_['in'].end(k)
        c = e.f('conf')
        left = c.at(path(k)).dom
        return ite(s.f('bad').x, s, ite(e.f('bad').x, e, Val(KEPT, ite(enumN(left) == 0, c.rem(path(k)), c).l + (F,))))
    stop = lambda s: s.f('bad').x
    F_['out'] = ex.fold('kept objects', KEPT, Val(KEPT, conf.l + (F,)), step, n=enumN(conf.dom), deps=deps, absorb=stop)
    F_['in'] = ex.fold('kept configurations', KEPT, lambda zp: F_['out'].at(zp), drop, n=lambda zp: enumN(now(zp).dom), deps=deps, params=(zp,), absorb=stop)
    F_['any'] = ex.fold('selected', BOOL, lambda zp, zc: B_(F), lambda zp, zc, k, s: B_(z3.Or(s.x, lib.vmem(sel, lst(zp, zc).at(k).x))), n=lambda zp, zc: lst(zp, zc).len,
                        deps=deps, params=(zp, zc), absorb=lambda s: s.x)
    return F_['out'].end()


def profiles(ex, st, e, obj, a):
    """getSelectedProfiles, by its own contract a function of what the bus answers"""
    b = trace_val(ex, st, 'bus').x
    ex.throw(st, app('no profiles', B, b), ERR)
    sh = Vec(STR)
    v = Val(sh, [app(f'profiles.{i}', so, b) for i, so in enumerate(sh.sorts)])
    ex.pre_facts.append(v.len >= 0)
    st.roots[('T', 'bus')] = Val(OPQ, [ev(b, 'profiles')])
    return v


def listen(ex, st, e, obj, a):
    b = trace_val(ex, st, 'listening').x
    st.roots[('T', 'listening')] = Val(OPQ, [ev(b, 'matches')])


def gather_spec(ex, st, e, obj, a):
    for l in a[2:5]:
        ex.store(st, l, default(l.sh))
    listen(ex, st, e, obj, a)
    q = request(sv(MAPPER), sv('/xyz/openbmc_project/object_mapper'), MAPPER, 'GetSubTree', S_(sv('/')), I_(iv(0), 32, False), texts(OM, PID, ZONE, STEP, VALUE, PWM))
    bus, bad, tree = answer(ex, q, trace_val(ex, st, 'bus').x, TREE)
    ex.throw(st, z3.Or(bad, enumN(tree.dom) == 0), ERR)
    s = seen(ex, tree)
    f = found(ex, s.f('owners'), bus)
    ex.throw(st, f.f('bad').x, ERR)
    st.roots[('T', 'bus')] = f.f('bus')
    sel = profiles(ex, st, e, obj, a)
    k = kept(ex, f.f('conf'), sel)
    ex.throw(st, z3.And(sel.len > 0, k.f('bad').x), ERR)
    st.roots[('T', 'configurations')] = ite(sel.len > 0, k.f('conf'), f.f('conf'))
    st.roots[('T', 'sensors')] = s.f('sensors')


def gather_setup(ex, st, this, args):
    for n, sh in (('configurations', CONF), ('sensors', SENSORS), ('zones', ZONES)):
        ex.initial[('T', n)] = default(sh)
    return []


GATHER = FnC(DC + 'init', gather_spec, name=DC + 'init (what is found on the bus and selected)', throws_any=True, part=Part(NS + 'setZoneIndex', [('configurations', CONF), ('sensors', SENSORS), ('zones', ZONES)]),
             models={DC + 'createMatches': listen, DC + 'getSelectedProfiles': profiles}, setup=gather_setup)


PROPS_ = Map(STR, VAL)


def text(ex, st, m, key):
    """a mandatory text: absent or of another type it is an error"""
    ex.throw(st, z3.Not(m.has(sv(key))), Exc('std::out_of_range'))
    return must(ex, st, m.at(sv(key)), 3)


def at_num(ex, st, m, key):
    ex.throw(st, z3.Not(m.has(sv(key))), Exc('std::out_of_range'))
    return num(ex, st, m.at(sv(key)))


def details_spec(ex, st, e, obj, a):
    """one object's zone configuration: its zone's number and settings"""
    conf, zones, zd = trace_val(ex, st, 'object'), trace_val(ex, st, 'zones'), a[4]
    objs = conf.f('second')

    def zone(s):
        z = objs.at(sv(ZONE))
        name = text(ex, s, z, 'Name')
        zl = Loc(('T', 'zones'), zones.sh)
        idx = zone_index(ex, s, None, None, [S_(name), zl]).x
        m = ex.load(s, zd)
        u64 = lambda n: I_(iv(n), 64, True)
        new_ = default(m.sh.v)
        new_ = new_.withf('cycleTime', new_.f('cycleTime').withf('cycleIntervalTimeMS', u64(100)).withf('updateThermalsTimeMS', u64(1000)))
        d = ite(m.has(idx), m.at(idx), new_)
        mt = at_num(ex, s, z, 'MinThermalOutput')
        fsp = opt(ex, s, z, 'FailSafePercent', lambda ex, s, v: i2d(d2i(num(ex, s, v))), D_(dv(0.0)))
        ct = d.f('cycleTime')
        for k, f in (('CycleIntervalTimeMS', 'cycleIntervalTimeMS'), ('UpdateThermalsTimeMS', 'updateThermalsTimeMS')):
            v = z.at(sv(k))

            def there(s2, old=ct.f(f), v=v):
                x = num(ex, s2, v)
                return Val(old.sh, [z3.If(dle(dv(1.0), x), d2i(x), old.x)])
            ct = ct.withf(f, cases(ex, s, (z.has(sv(k)), there), (None, lambda s2: ct.f(f))))
        acc = opt(ex, s, z, 'AccumulateSetPoint', lambda ex, s, v: must(ex, s, v, 4), B_(F))
        d = d.withf('minThermalOutput', D_(mt)).withf('failsafePercent', D_(fsp)).withf('cycleTime', ct).withf('accumulateSetPoint', B_(acc))
        ex.store(s, zd, m.set(idx, d))
    cases(ex, st, (objs.has(sv(ZONE)), zone), (None, lambda s: None))


OBJECT = Rec('std::pair', [('first', STR), ('second', Map(STR, PROPS_))])


def details_setup(ex, st, this, args):
    for n, sh in (('object', OBJECT), ('zones', ZONES)):
        ex.initial[('T', n)] = consts(sh, n)
        st.roots[('T', n)] = ex.initial[('T', n)]
    return []


DETAILS = FnC(DC + 'init', details_spec, name=DC + 'init (a zone configuration)', throws_any=True, setup=details_setup, models={NS + 'getZoneIndex': zone_index},
              part=Part(DC + 'populatePidInfo', [('zones', ZONES)], within=[DC + 'populatePidInfo'], ins=[('object', OBJECT), ('zones', ZONES)]))
