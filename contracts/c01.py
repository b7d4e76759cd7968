from .base import *

PID = NS + 'ec::pid'


def clampv(x, lo, hi):
    return z3.If(dlt(x, lo), lo, z3.If(dlt(hi, x), hi, x))


def pid_spec(ex, st, e, obj, a):
    """P+I+D+FF; see C01.  NaN compares false at every limit."""
    loc = ex.deref(st, a[0], ex.prog.shape(e['fn']['pt'][0]).tgt)
    p = ex.load(st, loc)
    x, sp = D(ex, st, a[1]), D(ex, st, a[2])
    g = lambda n: p.f(n).x
    lim = lambda n: (p.f(n).f('min').x, p.f(n).f('max').x)
    err = dsub(sp, x)
    pt = dmul(g('proportionalCoeff'), err)
    acc = dadd(g('integral'), dmul(dmul(err, g('integralCoeff')), g('ts')))
    it = z3.If(dne(g('integralCoeff'), dv(0.0)), clampv(acc, *lim('integralLimit')), dv(0.0))
    dt = dmul(g('derivativeCoeff'), ddiv(dsub(err, g('lastError')), g('ts')))
    ff = dmul(dadd(sp, g('feedFwdOffset')), g('feedFwdGain'))
    out = clampv(Sum(pt, it, dt, ff), *lim('outLim'))
    init = g('initialized')
    lo = dadd(g('lastOutput'), dmul(g('slewNeg'), g('ts')))
    hi = dadd(g('lastOutput'), dmul(g('slewPos'), g('ts')))
    neg, pos = dne(g('slewNeg'), dv(0.0)), dne(g('slewPos'), dv(0.0))
    o2 = z3.If(z3.And(init, neg, dlt(out, lo)), lo, out)
    o3 = z3.If(z3.And(init, pos, dlt(hi, o2)), hi, o2)
    it3 = z3.If(z3.And(init, z3.Or(neg, pos)), dsub(o3, pt), it)
    setf(ex, st, loc, integral=clampv(it3, *lim('integralLimit')), initialized=T, lastError=err, lastOutput=o3)
    return D_(o3)


def intervals(ex, st, this, args):
    """the limits are intervals (a NaN limit does not limit)"""
    p = ex.load(st, ex.deref(st, args[0], args[0].sh.tgt))
    return [z3.Not(dlt(p.f(n).f('max').x, p.f(n).f('min').x)) for n in ('integralLimit', 'outLim')]



LOGGING = {
    NS + 'ec::LogInit': noeffect(),
    NS + 'ec::LogPeek': noeffect(lambda ex, st, e, obj, a: Val(ex.prog.shape(e['fn']['rt']), [app('LogPeek', I, sx(ex, st, a[0]))])),
    NS + 'ec::LogTimestamp': noeffect(lambda ex, st, e, obj, a: Val(ex.prog.shape(e['fn']['rt']), [z3.Const('logts', I)])),
    NS + 'ec::LogContext': noeffect(),
}

PROP = Prop('C01', ['pid/ec/pid.cpp'], [FnC(PID, pid_spec, nparams=4, pre=intervals)], models=LOGGING, driver='c01',
            assumptions=['LogInit/LogPeek/LogTimestamp/LogContext do not touch the PID state (their contracts are C22)'])
