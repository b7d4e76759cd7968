from .base import *

FC = NS + 'FanController'


def sensor_write(ex, st, e, obj, a):
    """Sensor::write(value, force, written): one event; *written set if the sensor reports one"""
    h = ex.handle_of(st, obj)
    v = D(ex, st, a[0])
    if len(a) == 1:
        ex.event(st, 'write', 'write1', h, v)
        return None
    force = ex.b(st, a[1])
    p = ex.rv(st, a[2])
    tr = trace_val(ex, st, 'write').x
    ex.event(st, 'write', 'write', h, v, force)
    if isinstance(p, PV):
        loc = ex.deref(st, p)
        old = ex.load(st, loc).x
        ex.store(st, loc, Val(loc.sh, [z3.If(app('reports', B, h, v, force, tr), app('raw', I, h, v, force, tr), old)]))
    return None


def output_spec(ex, st, e, obj, a):
    owner, ins = ex.load(st, obj.f('_owner')).x, ex.load(st, obj.f('_inputs'))
    v = D(ex, st, a[0])
    tuning = gv(ex, st, 'tuningEnabled', BOOL).x
    fs = vpure(ex, BOOL, 'getFailSafeMode', owner).x
    fp = vpure(ex, DBL, 'getFailSafePercent', owner).x
    pct = ddiv(z3.If(z3.And(z3.Not(tuning), fs, dlt(v, fp)), fp, v), dv(100.0))
    force = vpure(ex, BOOL, 'getRedundantWrite', owner).x
    SH = Rec('two traces', [('w', OPQ), ('c', OPQ)])
    sens = ex.heap_shape(NS + 'Sensor')
    heap = ex.root(st, ('H', NS + 'Sensor'))

    def step(k, s):
        n = ins.at(k).x
        h = vpure(ex, PTR, 'getSensor', owner, n).x
        w = s.f('w').x
        raw = z3.If(app('reports', B, h, pct, force, w), app('raw', I, h, pct, force, w), iv(-1))
        name = heap.at(h).f('_name').x
        return Val(SH, [ev(w, 'write', h, pct, force), ev(s.f('c').x, 'setOutputCache', owner, name, pct, i2d(raw))])
    f = ex.fold('out', SH, Val(SH, [trace_val(ex, st, 'write').x, trace_val(ex, st, 'cache').x]), step, n=ins.len, deps=(owner, pct) + ins.l)
    r = f.end()
    st.roots[('T', 'write')] = r.f('w')
    st.roots[('T', 'cache')] = r.f('c')


def heap_setup(ex, st, this, args):
    ex.root(st, ('H', NS + 'Sensor'))
    return []


PROP = Prop('C04', ['pid/fancontroller.cpp'],
            [FnC(FC + '::outputProc', output_spec, cls=FC, setup=heap_setup, ignore=['failsafeTransition', 'failsafePrevState'],
                 channel=dict(setOutputCache='cache'))],
            models={NS + 'Sensor::write': sensor_write}, driver='c04',
            assumptions=['getFailSafeMode, getFailSafePercent, getRedundantWrite, getSensor are functions of the zone (and name) during one pass',
                         'Sensor::write sets *written or leaves it; it does not change a sensor name'])
