from .base import *

SC = NS + 'StepwiseController'
STEP = NS + 'ec::stepwise'


def lookup(info, x):
    """output of the last point reached, scanning readings upward from the second entry"""
    rd, out = info.f('reading'), info.f('output')
    n = rd.sh.cnt

    def go(i, v):
        if i >= n:
            return v
        r = rd.at(iv(i)).x
        return z3.If(z3.Or(is_nan(r), dlt(x, r)), v, go(i + 1, out.at(iv(i)).x))
    return go(1, out.at(iv(0)).x)


def stepwise_spec(ex, st, e, obj, a):
    return D_(lookup(ex.rv(st, a[0]), D(ex, st, a[1])))


def input_spec(ex, st, e, obj, a):
    owner, ins = ex.load(st, obj.f('_owner')).x, ex.load(st, obj.f('_inputs'))
    lowest = dv(-float.fromhex('0x1.fffffffffffffp+1023'))

    def step(k, v):
        c = vpure(ex, DBL, 'getCachedValue', owner, ins.at(k).x).x
        return D_(z3.If(dlt(v.x, c), c, v.x))
    f = ex.fold('max', DBL, D_(lowest), step, n=ins.len, deps=(owner,) + ins.l)
    return f.end()


def output_spec(ex, st, e, obj, a):
    owner, idn = ex.load(st, obj.f('_owner')).x, ex.load(st, obj.f('_id')).x
    ceil = ex.load(st, obj.f('_stepwise_info').f('isCeiling')).x
    v = D(ex, st, a[0])
    cases(ex, st, (ceil, lambda s: vcall(ex, s, 'addRPMCeiling', owner, v)),
          (None, lambda s: vcall(ex, s, 'addSetPoint', owner, v, idn)))


def process_spec(ex, st, e, obj, a):
    x = input_spec(ex, st, e, obj, []).x
    info = ex.load(st, obj.f('_stepwise_info'))
    lo, li = ex.load(st, obj.f('lastOutput')).x, ex.load(st, obj.f('lastInput')).x
    move = z3.Or(is_nan(lo), dlt(info.f('positiveHysteresis').x, dsub(x, li)), dlt(info.f('negativeHysteresis').x, dsub(li, x)))
    out = z3.If(move, stepwise_spec(ex, st, e, obj, [info, D_(x)]).x, lo)
    setf(ex, st, obj, lastOutput=out, lastInput=z3.If(move, x, li))
    output_spec(ex, st, e, obj, [D_(out)])


PROP = Prop('C03', ['pid/ec/stepwise.cpp', 'pid/stepwisecontroller.cpp'],
            [FnC(STEP, stepwise_spec),
             FnC(SC + '::inputProc', input_spec, cls=SC),
             FnC(SC + '::outputProc', output_spec, cls=SC),
             FnC(SC + '::process', process_spec, cls=SC, models={SC + '::inputProc': input_spec, SC + '::outputProc': output_spec})],
            models={STEP: stepwise_spec}, driver='c03',
            assumptions=['ZoneInterface::getCachedValue is a function of zone and name during one call'])
