from .base import *
from .frames import zone_frames

Z = NS + 'DbusPidZone'
FP = NS + 'fileParseRpm'


def known_name(ex, st, this, args):
    """the controller has a control-process object"""
    n = sx(ex, st, args[1])
    m = ex.load(st, this.f('_pidsControlProcess'))
    return [m.has(n), m.at(n).x != 0]


def enabled(ex, st, zone, n):
    return app('enabled', B, ex.load(st, zone.f('_pidsControlProcess')).at(n).x)


def enabled_spec(ex, st, e, obj, a):
    return B_(enabled(ex, st, obj, sx(ex, st, a[0])))


def add_spec(ex, st, e, obj, a):
    v, name = D(ex, st, a[0]), sx(ex, st, a[1])
    on = enabled(ex, st, obj, name)
    acc = ex.load(st, obj.f('_accumulateSetPoint')).x
    profile = z3.If(acc, lib_substr(name), name)
    m = ex.load(st, obj.f('setPoints'))
    old = z3.If(m.has(profile), m.at(profile).x, dv(0.0))
    new = z3.If(acc, dadd(old, v), z3.If(dlt(old, v), v, old))
    mx, leader = ex.load(st, obj.f('_maximumSetPoint')).x, ex.load(st, obj.f('_maximumSetPointName')).x
    up = z3.And(on, dlt(mx, new))
    ex.store(st, obj.f('setPoints'), ite(on, m.set(profile, D_(new)), m))
    setf(ex, st, obj, _maximumSetPoint=z3.If(up, new, mx), _maximumSetPointName=z3.If(up, profile, leader))


def lib_substr(name):
    """what follows the first underscore (everything, if there is none)"""
    p = sfind(name, sv('_'))
    return z3.If(p == NPOS, name, ssub(name, p + 1, NPOS))


def ceil_spec(ex, st, e, obj, a):
    l = obj.f('rpmCeilings')
    ex.store(st, l, ex.load(st, l).push(D_(D(ex, st, a[0]))))


def clear_ceil(ex, st, e, obj, a):
    l = obj.f('rpmCeilings')
    ex.store(st, l, default(l.sh))


def clear_set(ex, st, e, obj, a):
    ex.store(st, obj.f('setPoints'), default(obj.f('setPoints').sh))
    setf(ex, st, obj, _maximumSetPoint=dv(0.0), _maximumSetPointName=sv(''))


def file_number(path, old):
    """an integer above 100 in the file replaces the value"""
    n = app('file number i32', I, path)
    ok = z3.And(app('file readable', B, path), app('file has token', B, path), n > 100)
    return ok, z3.If(ok, i2d(n), old)


def file_spec(ex, st, e, obj, a):
    ok, v = file_number(sx(ex, st, a[0]), D(ex, st, a[1]))
    ex.store(st, a[1], D_(v))
    return B_(ok)


def numbers(ex, st, this, args):
    """the ceilings are numbers: there is no lowest one otherwise"""
    c = ex.load(st, this.f('rpmCeilings'))
    k = z3.Int('kc')
    x = c.at(k).x
    return [z3.ForAll([k], z3.Not(is_nan(x)), patterns=[x])]


def resolve_spec(ex, st, e, obj, a):
    g = lambda f: ex.load(st, obj.f(f))
    mx, leader, mn = g('_maximumSetPoint').x, g('_maximumSetPointName').x, g('_minThermalOutputSetPt').x
    c = g('rpmCeilings')
    lowest = ex.fold('lowest', DBL, D_(c.at(iv(0)).x), lambda k, s: D_(z3.If(dlt(c.at(k).x, s.x), c.at(k).x, s.x)), n=c.len, deps=c.l)
    low = lowest.end().x
    ex.pre_facts.append(z3.Implies(c.len > 0, lib.vagg('vmin', c) == low))    # meaning of min_element
    mx0, leader0 = mx, leader
    run = lambda k: lowest.at(k).x

    def capped(ex, st, mod, entry):
        # a scan that lowers the set point ceiling by ceiling
        for key, e0 in entry.items():
            if not isinstance(e0, z3.ExprRef):
                continue
            if e0.eq(mx0):
                yield 'lowered so far', lambda kk, m, key=key: m[key] == z3.If(z3.And(kk > 0, dlt(run(kk), mx0)), run(kk), mx0)
            if e0.eq(leader0):
                yield 'leader so far', lambda kk, m, key=key: m[key] == z3.If(z3.And(kk > 0, dlt(run(kk), mx0)), sv('Ceiling'), leader0)
        yield 'lowest is a number', lambda kk, m: z3.Implies(c.len > 0, z3.Not(is_nan(run(kk))))
    ex.hints.append(capped)
    cap = z3.And(c.len > 0, dlt(low, mx))
    mx, leader = z3.If(cap, low, mx), z3.If(cap, sv('Ceiling'), leader)
    # accumulation: the leader is every thermal controller of that profile
    acc = g('_accumulateSetPoint').x
    th = g('_thermals')
    ids = lambda k: app('getID', S, th.at(k).x)
    profile = leader

    def step(k, s):
        i = ids(k)
        return S_(z3.If(sfind(i, profile) == NPOS, s.x, z3.If(slen(s.x) == 0, i, sconcat(sconcat(s.x, sv(' + ')), i))))
    joined = ex.fold('leaders', STR, S_(sv('')), step, n=th.len, deps=(profile,) + th.l).end().x
    leader = z3.If(acc, joined, leader)
    low_ = dle(mx, mn)
    mx, leader = z3.If(low_, mn, mx), z3.If(low_, sv('Minimum'), leader)
    tuning = gv(ex, st, 'tuningEnabled', BOOL).x
    base = sv('/etc/thermal.d/setpoint')
    _, m1 = file_number(base, mx)
    _, m2 = file_number(sconcat(sconcat(base, sv('.zone')), i2s(g('_zoneId').x)), m1)
    setf(ex, st, obj, _maximumSetPoint=z3.If(tuning, m2, mx), _maximumSetPointName=leader)


def getter(field):
    return lambda ex, st, e, obj, a: ex.load(st, obj.f(field))


DM = ['setPoints', '_pidsControlProcess']
PROP = Prop('C07', ['pid/zone.cpp'],
            [FnC(Z + '::addSetPoint', add_spec, cls=Z, pre=known_name, defmaps=DM),
             FnC(Z + '::addRPMCeiling', ceil_spec, cls=Z),
             FnC(Z + '::clearRPMCeilings', clear_ceil, cls=Z),
             FnC(Z + '::clearSetPoints', clear_set, cls=Z),
             FnC(FP, file_spec),
             FnC(Z + '::determineMaxSetPointRequest', resolve_spec, cls=Z, pre=numbers, ignore=['_maximumSetPointNamePrev'], models={FP: file_spec}),
             FnC(Z + '::getMaxSetPointRequest', getter('_maximumSetPoint'), cls=Z),
             FnC(Z + '::leader', getter('_maximumSetPointName'), cls=Z),
             FnC(Z + '::getAccSetPoint', getter('_accumulateSetPoint'), cls=Z)],
            driver='c07', more=lambda: zone_frames(PROP.contracts, ['setPoints', 'rpmCeilings', '_maximumSetPoint', '_maximumSetPointName']),
            assumptions=['a thermal controller that adds a set point has a control-process object; Controller::getID and the Enable property are functions of the object',
                         'the content of a set-point file does not change during one resolution'])
