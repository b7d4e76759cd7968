"""Frame contracts of the zone: which method may change which part of its state."""
import copy
from .base import *
from .zone import Z

# the public methods of the zone that are under no contract of their own property
OTHERS = ['setOutputCache', 'getCachedValue', 'getCachedValues', 'getSensor', 'getSensorNames',
          'initializeLog', 'writeLog', 'dumpCache', 'addPidControlProcess', 'isPidProcessEnabled', 'updateThermalPowerDebugInterface', 'failSafe']


def noop(ex, st, e, obj, a):
    return None


def zone_frames(own, fields):
    """every other method of the zone leaves these fields as its own contract says (as it found them, where it has none)"""
    from . import c05, c06, c07, c14, c24
    out, seen = [], {c.q for c in own}
    for P in (c05.PROP, c07.PROP, c06.PROP, c14.PROP):
        for c in P.contracts:
            if c.q in seen or c.cls != Z:
                continue
            seen.add(c.q)
            n = copy.copy(c)
            n.models = {**P.models, **c.models}
            n.only, n.name, n.post = list(fields), c.name + ' (frame)', None
            out.append(n)
    models = {'make sdbusplus::server::object_t': lambda ex, st, e, obj, a: Val(PTR, [lib.new_handle(ex, 'process object')]),
              **{'sdbusplus::xyz::openbmc_project::Object::server::Enable::enabled': noop}}
    for m, spec in (('addFanInput', c24.add_fan_input), ('addThermalInput', c24.add_thermal_input), ('addFanPID', c24.push('_fans')), ('addThermalPID', c24.push('_thermals'))):
        out.append(FnC(Z + '::' + m, spec, cls=Z, only=list(fields), name=Z + '::' + m + ' (frame)'))
    for m in OTHERS:
        if Z + '::' + m not in seen:
            out.append(FnC(Z + '::' + m, noop, cls=Z, only=list(fields), name=Z + '::' + m + ' (frame)', models=models))
    return out
