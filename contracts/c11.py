from .base import *

P = NS + 'DbusPassive'
RED = NS + 'DbusPassiveRedundancy'


def flags(ex, st, obj):
    return {n: ex.load(st, obj.f(n)).x for n in ('_failed', '_functional', '_available', '_availableOverridden', '_unavailableAsFailed',
                                                '_typeMargin', '_typeFan', '_badReading', '_marginHot', '_objectMissing')}


def failed_spec(ex, st, e, obj, a):
    f = flags(ex, st, obj)
    r = ex.load(st, obj.f('redundancy')).x
    failures = ex.root(st, ('H', RED)).at(r).f('failed')
    red = z3.And(r != 0, failures.has(ex.load(st, obj.f('path')).x))
    hidden = z3.And(z3.Not(f['_typeFan']), z3.Not(f['_available']), z3.Not(f['_unavailableAsFailed']))
    own = z3.Or(f['_badReading'], f['_marginHot'], f['_failed'], z3.Not(f['_available']), z3.Not(f['_functional']))
    return B_(z3.Or(red, f['_objectMissing'], z3.And(z3.Not(hidden), own)))


def reason_spec(ex, st, e, obj, a):
    f = flags(ex, st, obj)
    r = sv('Unknown')
    for c, t in reversed([(f['_objectMissing'], 'Sensor D-Bus object missing'), (f['_badReading'], 'Sensor reading bad'),
                          (f['_marginHot'], 'Margin hot'), (f['_failed'], 'Sensor threshold asserted'),
                          (z3.Not(f['_available']), 'Sensor unavailable'), (z3.Not(f['_functional']), 'Sensor not functional')]):
        r = z3.If(c, sv(t), r)
    return S_(r)


def setter(**kw):
    def spec(ex, st, e, obj, a):
        v = D(ex, st, a[0])
        setf(ex, st, obj, **{n: (v if x is None else x) for n, x in kw.items()})
    return spec


def from_property(ex, st, e, obj, a):
    f = flags(ex, st, obj)
    setf(ex, st, obj, _available=z3.If(f['_availableOverridden'], f['_available'], D(ex, st, a[0])))


def ctor_spec(ex, st, e, obj, a):
    """a new sensor: nothing wrong with it except what the caller says"""
    t, missing = sx(ex, st, a[1]), D(ex, st, a[4])
    setf(ex, st, obj, _failed=F, _functional=T, _available=T, _availableOverridden=F, _unavailableAsFailed=T,
         _typeMargin=t == sv('margin'), _typeFan=t == sv('fan'), _badReading=F, _marginHot=F, _objectMissing=missing,
         _id=sx(ex, st, a[2]), path=sx(ex, st, a[5]), _helper=D(ex, st, a[3]), redundancy=D(ex, st, a[6]))
    z = dv(0.0)
    setf(ex, st, obj, _value=z, _unscaled=z, _max=z, _min=z)


def heap(ex, st, this, args):
    ex.root(st, ('H', RED))
    return []


LOG = {NS + 'outputFailsafeLogWithSensor': noeffect()}
PROP = Prop('C11', ['dbus/dbuspassive.cpp', 'dbus/dbuspassiveredundancy.cpp'],
            [FnC(P + '::DbusPassive', ctor_spec, cls=P, ignore=['_scale', '_updated', '_helper'], ignore_roots=['arg3'],
                 models={NS + 'getMatch': lambda ex, st, e, obj, a: S_(app('match rule', S, sx(ex, st, a[0])))}),
             FnC(P + '::getFailed', failed_spec, cls=P, setup=heap, models=LOG),
             FnC(P + '::getFailReason', reason_spec, cls=P),
             FnC(P + '::setFailed', setter(_failed=None), cls=P),
             FnC(P + '::setFunctional', setter(_functional=None), cls=P),
             FnC(P + '::setAvailable', setter(_available=None, _availableOverridden=T), cls=P),
             FnC(P + '::setAvailableFromProperty', from_property, cls=P)],
            driver='c11',
            assumptions=['logging the failure has no effect on the sensor (outputFailsafeLogWithSensor is C21)'])
