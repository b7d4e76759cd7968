from .base import *

TC = NS + 'ThermalController'
MARGIN, ABSOLUTE, SUM = 0, 1, 2
BADTYPE = 'ControllerBuildException'


def setpt_spec(ex, st, e, obj, a):
    return ex.load(st, obj.f('_setpoint'))


def input_spec(ex, st, e, obj, a):
    owner, ins, ty = ex.load(st, obj.f('_owner')).x, ex.load(st, obj.f('_inputs')), ex.load(st, obj.f('type')).x
    SH = Rec('thermal input', [('bad', BOOL), ('any', BOOL), ('v', DBL)])
    big = float.fromhex('0x1.fffffffffffffp+1023')
    init = z3.If(ty == MARGIN, dv(big), z3.If(ty == ABSOLUTE, dv(-big), dv(0.0)))

    def step(k, s):
        i = ins.at(k)
        c = vpure(ex, DBL, 'getCachedValue', owner, i.f('name').x).x
        fin = is_fin(c)
        conv = z3.And(ty == MARGIN, i.f('convertTempToMargin').x)
        z = i.f('convertMarginZero').x
        m = z3.If(conv, dsub(z, c), c)
        v = s.f('v').x
        nv = z3.If(ty == MARGIN, z3.If(dlt(m, v), m, v), z3.If(ty == ABSOLUTE, z3.If(dlt(v, m), m, v), dadd(v, m)))
        return Val(SH, [z3.Or(s.f('bad').x, z3.And(fin, conv, z3.Not(is_fin(z)))), z3.Or(s.f('any').x, fin), z3.If(fin, nv, v)])
    f = ex.fold('thermal', SH, Val(SH, [F, F, init]), step, n=ins.len, deps=(owner, ty) + ins.l, absorb=lambda s: s.f('bad').x)
    r = f.end()
    ex.throw(st, r.f('bad').x, Exc(BADTYPE))
    return D_(z3.If(r.f('any').x, r.f('v').x, ex.load(st, obj.f('_setpoint')).x))


def output_spec(ex, st, e, obj, a):
    owner, idn = ex.load(st, obj.f('_owner')).x, ex.load(st, obj.f('_id')).x
    vcall(ex, st, 'addSetPoint', owner, D(ex, st, a[0]), idn)


def type_spec(ex, st, e, obj, a):
    t = sx(ex, st, a[0])
    is_ = lambda *ss: z3.Or(*[t == sv(s) for s in ss])
    ex.throw(st, z3.Not(is_('margin', 'temp', 'power', 'powersum')), Exc(BADTYPE))
    return I_(z3.If(is_('margin'), iv(MARGIN), z3.If(is_('powersum'), iv(SUM), iv(ABSOLUTE))), 32, False)


def has_input(ex, st, this, args):
    # createThermalPid refuses a controller without inputs (C24)
    ty = ex.load(st, this.f('type')).x
    return [ex.load(st, this.f('_inputs')).len > 0, ty >= 0, ty <= 2]


DBG = dict(updateThermalPowerDebugInterface='debug')
PROP = Prop('C09', ['pid/thermalcontroller.cpp'],
            [FnC(TC + '::inputProc', input_spec, cls=TC, pre=has_input, channel=DBG, ignore_roots=['debug']),
             FnC(TC + '::setptProc', setpt_spec, cls=TC),
             FnC(TC + '::outputProc', output_spec, cls=TC, channel=DBG, ignore_roots=['debug']),
             FnC(NS + 'getThermalType', type_spec)],
            driver='c09',
            assumptions=['ZoneInterface::getCachedValue is a function of zone and name during one call',
                         'the debug telemetry updateThermalPowerDebugInterface changes no control state (see C07)',
                         'inputProc: the controller has at least one input (established by createThermalPid, C24)'])
