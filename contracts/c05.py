from .base import *
from . import zone as Zn
from .zone import Z, MODELS
from .frames import zone_frames

CV = '_cachedValuesByName'
K = z3.Const('key0', S)


def probe(ex, st, this, args):
    ex.probes.append(K)
    return Zn.heap_setup(ex, st, this, args)


def present(ex, st0, ss, sc, rc):
    """logging may add zero entries for unread thermal inputs, it removes none"""
    this = Loc(('L', 'this', 0), ss.roots[('L', 'this', 0)].sh)
    return [('every reading is cached', z3.Implies(ex.load(ss, this.f(CV)).has(K), ex.load(sc, this.f(CV)).has(K)))]


PROP = Prop('C05', ['pid/zone.cpp'],
            [FnC(Z + '::markSensorMissing', Zn.mark_spec, cls=Z, defmaps=['_sensorFailSafePercent']),
             FnC(Z + '::initializeCache', Zn.init_spec, cls=Z, defmaps=['_sensorFailSafePercent'], setup=Zn.filling, post=Zn.filled, models={Z + '::markSensorMissing': Zn.mark_spec}),
             FnC(Z + '::updateFanTelemetry', Zn.update_spec('_fanInputs'), cls=Z, pre=Zn.ticking, setup=probe, ignore_roots=['file'], post=present,
                 defmaps=['_sensorFailSafePercent', '_cachedFanOutputs', CV], models={Z + '::markSensorMissing': Zn.mark_spec}),
             FnC(Z + '::updateSensors', Zn.update_spec('_thermalInputs'), cls=Z, pre=Zn.ticking, setup=Zn.heap_setup, ignore_roots=['file'],
                 defmaps=['_sensorFailSafePercent', '_cachedFanOutputs'], models={Z + '::markSensorMissing': Zn.mark_spec}),
             FnC(Z + '::getFailSafeMode', Zn.mode_spec, cls=Z)],
            models=MODELS, driver='c05', more=lambda: zone_frames(PROP.contracts, ['_failSafeSensors', '_missingAcceptable', '_cachedValuesByName']),
            assumptions=['Sensor::read, getFailed and getFailReason are functions of the sensor during one pass',
                         'every listed input is known to the sensor manager',
                         'no input is added to a zone once its loop runs (so the cache initializeCache filled before the first tick, by the contracts of C05 and C10, knows every input)'])
