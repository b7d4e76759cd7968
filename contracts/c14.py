from .base import *
from .frames import zone_frames

Z = NS + 'DbusPidZone'


def process_model(ex, st, e, obj, a):
    """Controller::process(): one event carrying the redundant-write flag it runs under"""
    flag = ex.load(st, ex.zone.f('_redundantWrite')).x
    ex.event(st, 'process', 'process', ex.handle_of(st, obj), flag)


def setup(ex, st, this, args):
    ex.zone = this
    return []


def passes(field, clear):
    def spec(ex, st, e, obj, a):
        v = ex.load(st, obj.f(field))
        flag = ex.load(st, obj.f('_redundantWrite')).x
        f = ex.fold('pass ' + field, OPQ, trace_val(ex, st, 'process'), lambda k, s: Val(OPQ, [ev(s.x, 'process', v.at(k).x, flag)]),
                    n=v.len, deps=(flag,) + v.l)
        st.roots[('T', 'process')] = f.end()
        if clear:
            setf(ex, st, obj, _redundantWrite=F)
    return spec


def set_spec(ex, st, e, obj, a):
    m = D(ex, st, a[0])
    old = ex.load(st, obj.f('_redundantWrite')).x
    setf(ex, st, obj, _manualMode=m, _redundantWrite=z3.If(m, old, T))


def base_manual(ex, st, e, obj, a):
    """the generated Mode interface's setter: returns what it now holds"""
    m = D(ex, st, a[0])
    ex.event(st, 'dbus', 'Mode.manual', m)
    return B_(m)


MODE = [q for q in ('sdbusplus::xyz::openbmc_project::Control::server::Mode::manual',)]


def manual_spec(ex, st, e, obj, a):
    set_spec(ex, st, e, obj, a)
    return base_manual(ex, st, e, obj, a)


def getter(field):
    return lambda ex, st, e, obj, a: ex.load(st, obj.f(field))


PROP = Prop('C14', ['pid/zone.cpp'],
            [FnC(Z + '::setManualMode', set_spec, cls=Z),
             FnC(Z + '::manual', manual_spec, cls=Z, models={Z + '::setManualMode': set_spec}),
             FnC(Z + '::processFans', passes('_fans', True), cls=Z, setup=setup),
             FnC(Z + '::processThermals', passes('_thermals', False), cls=Z, setup=setup),
             FnC(Z + '::getManualMode', getter('_manualMode'), cls=Z),
             FnC(Z + '::getRedundantWrite', getter('_redundantWrite'), cls=Z)],
            models={NS + 'Controller::process': process_model, **{q: base_manual for q in MODE}}, driver='c14', more=lambda: zone_frames(PROP.contracts, ['_redundantWrite', '_manualMode', '_fans', '_thermals']),
            assumptions=['a controller does not change the zone\'s controller lists or its redundant-write flag while it runs'])
