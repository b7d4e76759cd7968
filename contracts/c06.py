from .base import *
from . import zone as Zn
from .zone import Z, MODELS
from .frames import zone_frames


def percent_spec(ex, st, e, obj, a):
    fl = ex.load(st, obj.f('_failSafeSensors'))
    zp = ex.load(st, obj.f('_zoneFailSafePercent')).x
    n = enumN(fl.dom)
    pct = lambda k: fl.at(enumKey(fl.dom, k)).f('second').x
    f = ex.fold('max', DBL, D_(pct(iv(0))), lambda k, s: D_(z3.If(dlt(s.x, pct(k)), pct(k), s.x)), n=n, deps=fl.l)
    m = f.end().x
    return D_(z3.If(z3.Or(n == 0, m == dv(0.0)), zp, m))


def add_spec(ex, st, e, obj, a):
    names, pct = ex.rv(st, a[0]), D(ex, st, a[1])
    m = ex.load(st, obj.f('_sensorFailSafePercent'))

    def step(k, s):
        n = names.at(k).x
        s = Val(m.sh, s.l)
        old = s.at(n).x
        return s.set(n, D_(z3.If(z3.And(s.has(n), z3.Not(dlt(old, pct))), old, pct)))
    f = ex.fold('largest', m.sh, m, step, n=names.len, deps=(pct,) + names.l)
    ex.store(st, obj.f('_sensorFailSafePercent'), f.end())


PROP = Prop('C06', ['pid/zone.cpp'],
            [FnC(Z + '::getFailSafePercent', percent_spec, cls=Z),
             FnC(Z + '::addPidFailSafePercent', add_spec, cls=Z),
             FnC(Z + '::markSensorMissing', Zn.mark_spec, cls=Z, defmaps=['_sensorFailSafePercent']),
             FnC(Z + '::getFailSafeSensors', lambda ex, st, e, obj, a: ex.load(st, obj.f('_failSafeSensors')), cls=Z)],
            models=MODELS, driver='c06', more=lambda: zone_frames(PROP.contracts, ['_failSafeSensors', '_sensorFailSafePercent']))
