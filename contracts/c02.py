from .base import *
from .c01 import pid_spec, PID, LOGGING

PC = NS + 'PIDController'


def ordinary(p):
    """ordinary hysteresis is configured"""
    g = lambda n: p.f(n).x
    return z3.And(z3.Not(g('checkHysterWithSetpt')),
                  z3.Not(z3.And(deq(g('positiveHysteresis'), dv(0.0)), deq(g('negativeHysteresis'), dv(0.0)))))


def cal_spec(ex, st, e, obj, a):
    info = ex.deref(st, a[2])
    p = ex.load(st, info)
    sp, x = D(ex, st, a[0]), D(ex, st, a[1])
    pos, neg = p.f('positiveHysteresis').x, p.f('negativeHysteresis').x
    last = ex.load(st, obj.f('lastInput')).x
    fnref = {'fn': {'pt': [ex.prog.find(PID).d['params'][0]['t']]}}

    def pid(s, inp):
        return pid_spec(ex, s, fnref, None, [PV([(T, info)]), D_(inp), D_(sp)])

    def held(s):
        setf(ex, s, info, lastOutput=ex.load(s, info).f('lastOutput').x)

    def setpoint_mode(s):
        r = cases(ex, s,
                  (dlt(dadd(sp, pos), x), lambda t: pid(t, x)),
                  (dlt(x, dsub(sp, neg)), lambda t: (setf(ex, t, info, integral=dv(0.0)), D_(dv(0.0)))[1]),
                  (None, lambda t: p.f('lastOutput')))
        setf(ex, s, info, lastOutput=r.x)
        return r

    def ordinary_mode(s):
        move = z3.Or(z3.Not(is_fin(last)), dlt(pos, dsub(x, last)), dlt(neg, dsub(last, x)))
        h = z3.If(move, x, last)
        setf(ex, s, obj, lastInput=h)
        return pid(s, h)

    return cases(ex, st,
                 (p.f('checkHysterWithSetpt').x, setpoint_mode),
                 (ordinary(p), ordinary_mode),
                 (None, lambda s: pid(s, x)))


def post(ex, st0, ss, sc, rc):
    this = Loc(('L', 'this', 0), ex.prog.rec_shape(PC))
    info = ('H', NS + 'ec::pid_info_t')
    p = ex.load(st0, this).f('_pid_info')
    if info in st0.roots or info in sc.roots:
        p = Val(ex.heap_shape(info[1]), [z3.Select(x, z3.Int('arg2')) for x in ex.initial[info].l])
    a, b = ex.load(sc, this).f('lastInput').x, ex.load(ss, this).f('lastInput').x
    return [('held input (ordinary hysteresis)', z3.Implies(ordinary(p), a == b))]


def process_spec(ex, st, e, obj, a):
    h = ex.handle_of(st, obj)
    sp = vcall(ex, st, 'setptProc', h, sh=DBL)
    x = vcall(ex, st, 'inputProc', h, sh=DBL)
    info = obj.f('_pid_info')
    out = cal_spec(ex, st, None, obj, [sp, x, PV([(T, info)])])
    setf(ex, st, info, lastOutput=out.x)
    vcall(ex, st, 'outputProc', h, out.x)


PROP = Prop('C02', ['pid/pidcontroller.cpp', 'pid/ec/pid.cpp'],
            [FnC(PC + '::calPIDOutput', cal_spec, cls=PC, ignore=['lastInput'], post=post),
             FnC(PC + '::process', process_spec, cls=PC, ignore=['lastInput'], post=post, models={PC + '::calPIDOutput': cal_spec},
                 channel=dict(setptProc='setpoint', inputProc='input', outputProc='output'))],
            models={**LOGGING, PID: pid_spec}, driver='c02',
            assumptions=['setptProc/inputProc do not write _pid_info or the held input (checked for the fan and thermal overrides in C08, C09)'])
