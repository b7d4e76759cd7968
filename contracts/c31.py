"""Cross-thread values: the monitor discipline of the sensors' locks.  Inside a
critical section the fields hold what the last writer published; every acquisition
may see a different update; outside of one they may not be touched at all."""
from .base import *
from . import c11, c12, c23
from . import zone as Zn
from .zone import Z, READ

DP, HS = c12.P, NS + 'HostSensor'
PASSIVE = lib.Guard(DP, '_lock', ['_value', '_unscaled', '_updated'])
HOST = lib.Guard(HS, '_lock', ['_value', '_updated'])


def locked(spec):
    """the whole effect happens in one critical section"""
    def s(ex, st, e, obj, a):
        m = obj.f('_lock')
        ex.guard.acquire(ex, st, m)
        r = spec(ex, st, e, obj, a)
        ex.guard.release(ex, st, m)
        return r
    return s


def own(g, q, spec=None, n=None, **kw):
    return FnC(q, locked(spec) if spec else None, n, cls=g.cls, guard=g, ignore=g.fields, **kw)


def one_read(ex, st, e, obj, a):
    """Sensor::read while signals arrive: every call may return another update"""
    h = ex.handle_of(st, obj)
    r = vpure(ex, READ, 'read', h, trace_val(ex, st, 'reads').x)
    ex.event(st, 'reads', 'read', h)
    return r


ZM = {Z + '::markSensorMissing': Zn.mark_spec, NS + 'Sensor::read': one_read, NS + 'ReadInterface::read': one_read}
SET = {DP + '::setValue': noeffect()}
PROP = Prop('C31', ['pid/zone.cpp', 'dbus/dbuspassive.cpp', 'dbus/dbusutil.cpp', 'dbus/dbuspassiveredundancy.cpp', 'sensors/host.cpp'],
            [own(PASSIVE, DP + '::read', c12.read_spec),
             own(PASSIVE, DP + '::setValue', c12.store2, 2, name=DP + '::setValue(value, unscaled)'),
             own(PASSIVE, DP + '::setValue', c12.store1, 1, name=DP + '::setValue(value)'),
             own(PASSIVE, DP + '::updateValue', models=SET),
             own(PASSIVE, DP + '::getFailed', setup=c11.heap, models=c11.LOG),
             own(PASSIVE, DP + '::getFailReason'),
             own(PASSIVE, DP + '::setFailed', None, 1),
             own(PASSIVE, DP + '::setFunctional', None, 1),
             own(PASSIVE, DP + '::setAvailable', None, 1),
             own(PASSIVE, DP + '::getID'),
             own(PASSIVE, DP + '::initFromSettings', models=SET),
             own(HOST, HS + '::read', c23.hs_read),
             own(HOST, HS + '::value', c23.hs_value, 1, models={c23.VALUE: c23.server_value}),
             own(HOST, HS + '::getFailed', setup=c23.setup, models=c23.LOG),
             FnC(Z + '::updateSensors', Zn.update_spec('_thermalInputs', True), cls=Z, pre=Zn.ticking, setup=Zn.heap_setup, ignore_roots=['file'],
                 defmaps=['_sensorFailSafePercent', '_cachedFanOutputs'], models=ZM),
             FnC(Z + '::updateFanTelemetry', Zn.update_spec('_fanInputs', True), cls=Z, pre=Zn.ticking, setup=Zn.heap_setup, ignore_roots=['file'],
                 defmaps=['_sensorFailSafePercent', '_cachedFanOutputs', '_cachedValuesByName'], models=ZM)],
            models=Zn.MODELS,
            driver='c31',
            assumptions=['std::mutex gives mutual exclusion; a critical section of a lock sees every update published under that lock (sequential consistency of race-free code)',
                         'Sensor::read may return a different update each time it is called; getFailed and getFailReason are functions of the sensor during one pass',
                         'no input is added to a zone once its loop runs (so the cache initializeCache filled before the first tick, by the contracts of C05 and C10, knows every input)'])
