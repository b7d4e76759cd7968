"""Contracts of DbusPidZone's failsafe bookkeeping (used by C05 and C06)."""
from .base import *

Z = NS + 'DbusPidZone'
READ = Rec('r', [('value', DBL), ('updated', Sc('t')), ('unscaled', DBL)])


def own_percent(ex, st, zone, name):
    """the sensor's own failsafe percentage, or the zone's when it has none (0)"""
    sfp = ex.load(st, zone.f('_sensorFailSafePercent'))
    own = z3.If(sfp.has(name), sfp.at(name).x, dv(0.0))
    return z3.If(own == dv(0.0), ex.load(st, zone.f('_zoneFailSafePercent')).x, own)


def entry(failing, reason, pct):
    return Val(failing.sh.v, [reason, pct])


def mark_spec(ex, st, e, obj, a):
    name, reason = sx(ex, st, a[0]), sx(ex, st, a[1])
    ok = ex.load(st, obj.f('_missingAcceptable')).has(name)
    fl = ex.load(st, obj.f('_failSafeSensors'))
    new = fl.set(name, entry(fl, reason, own_percent(ex, st, obj, name)))
    ex.store(st, obj.f('_failSafeSensors'), ite(ok, fl, new))


def get_sensor(ex, st, e, obj, a):
    """callee contract: the sensor of that name (the manager knows every configured name)"""
    h = vpure(ex, PTR, 'getSensor', ex.handle_of(st, obj), sx(ex, st, a[0])).x
    return Val(Sc('p', tgt=e['fn']['rt'].e), [h])


def inputs_spec(ex, st, zone, ins, now, once=False):
    """one pass over the listed inputs: cached readings and failing set (once: each
    sensor is read once, a second read might see another update)"""
    mgr = ex.load(st, zone.f('_mgr')).x
    cache, fl = ex.load(st, zone.f('_cachedValuesByName')), ex.load(st, zone.f('_failSafeSensors'))
    okset = ex.load(st, zone.f('_missingAcceptable'))
    sfp, zp = ex.load(st, zone.f('_sensorFailSafePercent')), ex.load(st, zone.f('_zoneFailSafePercent')).x
    heap = ex.root(st, ('H', NS + 'Sensor'))
    SH = Rec('pass', [('cache', cache.sh), ('fail', fl.sh)] + ([('reads', OPQ)] if once else []))

    def step(k, s):
        n = ins.at(k).x
        h = app('getSensor', I, mgr, n)
        r = vpure(ex, READ, 'read', h, *((s.f('reads').x,) if once else ()))
        to = heap.at(h).f('_timeout').x
        age = lib.rescale(now - r.f('updated').x, (1, 10 ** 9), (1, 1))
        failed = app('getFailed', B, h)
        bad = z3.Or(failed, z3.And(to != 0, age >= to))
        reason = z3.If(failed, app('getFailReason', S, h), sv('Sensor timeout'))
        f = s.f('fail')
        own = z3.If(sfp.has(n), sfp.at(n).x, dv(0.0))
        pct = z3.If(own == dv(0.0), zp, own)
        f2 = ite(bad, ite(okset.has(n), f, f.set(n, entry(f, reason, pct))), f.rem(n))
        c2 = s.f('cache').set(n, Val(cache.sh.v, [r.f('value').x, r.f('unscaled').x]))
        return Val(SH, c2.l + f2.l + ((ev(s.f('reads').x, 'read', h),) if once else ()))
    f = ex.fold('inputs', SH, Val(SH, cache.l + fl.l + ((trace_val(ex, st, 'reads').x,) if once else ())), step, n=ins.len, deps=(now, mgr) + ins.l)
    r = f.end()
    if once:
        st.roots[('T', 'reads')] = r.f('reads')
    setf(ex, st, zone, _cachedValuesByName=r.f('cache'), _failSafeSensors=r.f('fail'))


def update_spec(field, once=False):
    def spec(ex, st, e, obj, a):
        inputs_spec(ex, st, obj, ex.load(st, obj.f(field)), z3.Const('now', I), once)
    return spec


def init_spec(ex, st, e, obj, a):
    okset = ex.load(st, obj.f('_missingAcceptable'))
    sfp, zp = ex.load(st, obj.f('_sensorFailSafePercent')), ex.load(st, obj.f('_zoneFailSafePercent')).x

    def run(field, outs):
        ins = ex.load(st, obj.f(field))
        parts = [('cache', '_cachedValuesByName'), ('fail', '_failSafeSensors')] + ([('out', '_cachedFanOutputs')] if outs else [])
        cur = {n: ex.load(st, obj.f(fl)) for n, fl in parts}
        SH = Rec('init', [(n, v.sh) for n, v in cur.items()])

        def step(k, s):
            n = ins.at(k).x
            f = s.f('fail')
            own = z3.If(sfp.has(n), sfp.at(n).x, dv(0.0))
            pct = z3.If(own == dv(0.0), zp, own)
            nan2 = lambda m: m.set(n, Val(m.sh.v, [NAN, NAN]))
            f2 = ite(okset.has(n), f, f.set(n, entry(f, sv(''), pct)))
            return Val(SH, nan2(s.f('cache')).l + f2.l + (nan2(s.f('out')).l if outs else ()))
        l = ()
        for v in cur.values():
            l += v.l
        r = ex.fold('init ' + field, SH, Val(SH, l), step, n=ins.len, deps=ins.l).end()
        setf(ex, st, obj, **{fl: r.f(n) for n, fl in parts})
    run('_fanInputs', True)
    run('_thermalInputs', False)


def mode_spec(ex, st, e, obj, a):
    """in failsafe exactly while some sensor is failing"""
    dom = ex.load(st, obj.f('_failSafeSensors')).dom
    return B_(enumN(dom) > 0)


MODELS = {NS + 'outputFailsafeLogWithZone': noeffect(), NS + 'SensorManager::getSensor': get_sensor}


def heap_setup(ex, st, this, args):
    ex.root(st, ('H', NS + 'Sensor'))
    return []


def keeps_keys(ex, st, mod, entry):
    """a scan that adds keys to a map and removes none"""
    x = z3.Const('key kept', S)
    for key, e0 in entry.items():
        if isinstance(e0, z3.ExprRef) and e0.sort() == z3.ArraySort(S, B) and z3.is_const(e0) and e0.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            yield 'keys kept', lambda kk, m, key=key, e0=e0: z3.ForAll([x], z3.Implies(z3.Select(e0, x), z3.Select(m[key], x)), patterns=[z3.Select(e0, x)])


def ticking(ex, st, this, args):
    """the cache has been filled before the first tick (the loop's contract, and initializeCache's)"""
    k = z3.Int('kc')
    cache = ex.load(st, this.f('_cachedValuesByName'))
    hs = []
    ex.hints.append(keeps_keys)
    for f in ('_fanInputs', '_thermalInputs'):
        v = ex.load(st, this.f(f))
        x = v.at(k).x
        hs.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v.len), cache.has(x)), patterns=[x]))
    return hs


def filling(ex, st, this, args):
    """what has been gone through is in the cache"""
    ex.hints.append(keeps_keys)
    ins = [ex.load(st, this.f(f)) for f in ('_fanInputs', '_thermalInputs')]
    j = z3.Int('jf')

    def hint(ex, st, mod, entry):
        for key, e0 in entry.items():
            if isinstance(e0, z3.ExprRef) and e0.sort() == z3.ArraySort(S, B):
                for v in ins:
                    x = v.at(j).x
                    yield 'filled', lambda kk, m, key=key, x=x: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < kk), z3.Select(m[key], x)), patterns=[x])
                    yield 'filled before', lambda kk, m, key=key, x=x, n=v.len: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(m[key], x)), patterns=[x])
    ex.hints.append(hint)
    return []


def filled(ex, st0, ss, sc, rc):
    """what `ticking` relies on"""
    this = Loc(('L', 'this', 0), sc.roots[('L', 'this', 0)].sh)
    cache = ex.load(sc, this.f('_cachedValuesByName'))
    k = z3.Int('kf')
    for f in ('_fanInputs', '_thermalInputs'):
        v = ex.load(sc, this.f(f))
        yield f'every one of {f} is in the cache', z3.Implies(z3.And(k >= 0, k < v.len), cache.has(v.at(k).x))
