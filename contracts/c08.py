from .base import *

FC = NS + 'FanController'
UNS = 'getCachedValues.1'


def cached_values(ex, st, e, obj, a):
    h, n = ex.handle_of(st, obj), sx(ex, st, a[0])
    ex.throw(st, app('lookup fails', B, h, n), Exc('std::out_of_range'))
    sh = ex.prog.shape(e['fn']['rt'])
    return vpure(ex, sh, 'getCachedValues', h, n)


def input_spec(ex, st, e, obj, a):
    owner, ins = ex.load(st, obj.f('_owner')).x, ex.load(st, obj.f('_inputs'))
    SH = Rec('fan input', [('bad', BOOL), ('any', BOOL), ('min', DBL)])

    def step(k, s):
        n = ins.at(k).x
        v = vpure(ex, Rec('e', [('scaled', DBL), ('unscaled', DBL)]), 'getCachedValues', owner, n).f('unscaled').x
        ok = z3.And(is_fin(v), dlt(dv(0.0), v))
        any_, m = s.f('any').x, s.f('min').x
        return Val(SH, [z3.Or(s.f('bad').x, app('lookup fails', B, owner, n)), z3.Or(any_, ok),
                        z3.If(ok, z3.If(z3.And(any_, z3.Not(dlt(v, m))), m, v), m)])
    f = ex.fold('fan', SH, Val(SH, [F, F, dv(0.0)]), step, n=ins.len, deps=(owner,) + ins.l, absorb=lambda s: s.f('bad').x)
    r = f.end()
    ex.throw(st, r.f('bad').x, Exc('std::out_of_range'))
    return D_(z3.If(r.f('any').x, r.f('min').x, dv(0.0)))


def setpt_spec(ex, st, e, obj, a):
    owner = ex.load(st, obj.f('_owner')).x
    m = vpure(ex, DBL, 'getMaxSetPointRequest', owner).x
    prev = ex.load(st, obj.f('_setpoint')).x
    setf(ex, st, obj, _setpoint=m, _direction=z3.If(dlt(prev, m), iv(1), z3.If(dlt(m, prev), iv(0), iv(2))))
    return D_(m)


def direction_spec(ex, st, e, obj, a):
    return ex.load(st, obj.f('_direction'))


PROP = Prop('C08', ['pid/fancontroller.cpp'],
            [FnC(FC + '::inputProc', input_spec, cls=FC),
             FnC(FC + '::setptProc', setpt_spec, cls=FC),
             FnC(FC + '::getFanDirection', direction_spec, cls=FC)],
            models={NS + 'ZoneInterface::getCachedValues': cached_values}, driver='c08',
            assumptions=['getCachedValues and getMaxSetPointRequest are functions of the zone (and name) during one call'])
