from .base import *
from .c26 import send, ask, service, must, DH, PROPS, CRIT

DC = NS + 'dbus_configuration::'
WARN = 'xyz.openbmc_project.Sensor.Threshold.Warning'
VAL = Var([Sc('i', 64, True), Sc('i', 64, False), DBL, STR, BOOL, Vec(STR), Vec(DBL)])


def num(ex, st, v):
    """an attribute read as a number: integers, reals and flags are, text and lists are not"""
    tag = v.f('tag').x
    ex.throw(st, z3.Not(z3.Or(*[tag == i for i in (0, 1, 2, 4)])), Exc('std::invalid_argument'))
    return z3.If(tag == 0, i2d(v.f('a0').x), z3.If(tag == 1, i2d(v.f('a1').x), z3.If(tag == 2, v.f('a2').x, z3.If(v.f('a4').x, dv(1.0), dv(0.0)))))


def attr(ex, st, m, key):
    ex.throw(st, z3.Not(m.has(key)), Exc('std::runtime_error'))
    return m.at(key)


def need(ex, st, m, key):
    return num(ex, st, attr(ex, st, m, sv(key)))


def opt(ex, st, m, key, conv, dflt):
    v = m.at(sv(key))
    return cases(ex, st, (m.has(sv(key)), lambda s: Val(dflt.sh, [conv(ex, s, v)])), (None, lambda s: dflt)).x


def get_attr(ex, st, e, obj, a):
    return attr(ex, st, ex.rv(st, a[0]), sx(ex, st, a[1]))


def cycle(ex, st, e, obj, a):
    m, key = ex.rv(st, a[0]), sx(ex, st, a[2])
    old = ex.load(st, a[3])
    v = m.at(key)

    def there(s):
        x = num(ex, s, v)
        return Val(old.sh, [z3.If(dle(dv(1.0), x), d2i(x), old.x)])
    r = cases(ex, st, (m.has(key), there), (None, lambda s: old))
    ex.store(st, a[3], r)


def ask_reading(ex, st, svc, path, intf, prop):
    """the sensor's threshold, 0 when the sensor does not answer"""
    def f(s):
        q = send(ex, s, svc, path, PROPS, 'Get', S_(intf), S_(prop))
        v, _ = lib.msg_read(ex, s, q, Var([DBL]))
        return v.f('a0')
    return ask(ex, st, f, D_(dv(0.0))).x


def populate(ex, st, e, obj, a):
    m = ex.rv(st, a[1])
    info, cfg = a[2], ex.rv(st, a[4])
    cls = must(ex, st, attr(ex, st, m, sv('Class')), 3)
    setp = cases(ex, st, (cls == sv('fan'), lambda s: D_(dv(0.0))), (None, lambda s: D_(need(ex, s, m, 'SetPoint')))).x
    fsp = opt(ex, st, m, 'FailSafePercent', lambda ex, s, v: i2d(d2i(num(ex, s, v))), D_(dv(0.0)))
    p = ex.rv(st, a[3])
    null = p.x == 0
    inputs = ex.load(st, info.f('inputs'))

    def threshold(s):
        prop = ex.load(s, ex.deref(s, p)).x
        intf = z3.If(z3.Or(prop == sv('WarningHigh'), prop == sv('WarningLow')), sv(WARN), sv(CRIT))
        name = inputs.at(iv(0)).f('name').x
        ex.throw(s, z3.Not(cfg.has(name)), Exc('std::out_of_range'))
        path = cfg.at(name).f('readPath').x
        svc = service(ex, s, None, None, [S_(intf), S_(path)]).x
        return D_(dadd(setp, ask_reading(ex, s, svc, path, intf, prop)))
    setp = cases(ex, st, (null, lambda s: D_(setp)), (None, threshold)).x
    setf(ex, st, info, type=cls, setpoint=setp, failSafePercent=fsp)
    pi = info.f('pidInfo')
    n = lambda k: need(ex, st, m, k)
    setf(ex, st, pi, ts=dv(1.0), proportionalCoeff=n('PCoefficient'), integralCoeff=n('ICoefficient'), feedFwdOffset=n('FFOffCoefficient'),
         feedFwdGain=n('FFGainCoefficient'), slewNeg=n('SlewNeg'), slewPos=n('SlewPos'))
    setf(ex, st, pi.f('integralLimit'), max=n('ILimitMax'), min=n('ILimitMin'))
    setf(ex, st, pi.f('outLim'), max=n('OutLimitMax'), min=n('OutLimitMin'))
    zero = D_(dv(0.0))
    setf(ex, st, pi, checkHysterWithSetpt=opt(ex, st, m, 'CheckHysteresisWithSetpoint', lambda ex, s, v: must(ex, s, v, 4), B_(F)),
         negativeHysteresis=opt(ex, st, m, 'NegativeHysteresis', num, zero), positiveHysteresis=opt(ex, st, m, 'PositiveHysteresis', num, zero),
         derivativeCoeff=opt(ex, st, m, 'DCoefficient', num, zero))


PROP = Prop('C20', ['dbus/dbusconfiguration.cpp', 'dbus/dbusutil.cpp'],
            [FnC(DC + 'getPIDAttribute', get_attr),
             FnC(DC + 'getCycleTimeSetting', cycle),
             FnC(DC + 'populatePidInfo', populate, nullable=[3], throws_any=True, models={DH + '::getService': service})], driver='c20',
            assumptions=['a call on the bus answers or raises sdbusplus::exception_t; reading a reply yields a value of the type read or raises it',
                         'percentages and intervals lie within the range of the integer type they are truncated to'])
