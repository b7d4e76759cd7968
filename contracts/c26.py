from .base import *

DH = NS + 'DbusHelper'
PROPS = 'org.freedesktop.DBus.Properties'
VAL = Var([Sc('i', 64, False), DBL, STR, BOOL])
PM = Map(STR, VAL)
VALUEIF = 'xyz.openbmc_project.Sensor.Value'
CRIT = 'xyz.openbmc_project.Sensor.Threshold.Critical'
AVAIL = 'xyz.openbmc_project.State.Decorator.Availability'
MAPPER = 'xyz.openbmc_project.ObjectMapper'


def value_shape(ex):
    for f in ex.prog.fns[DH + '::getProperties']:
        pass
    return PM


def send(ex, st, dest, path, intf, member, *args):
    m = lib.msg_call(ex, st, dest, path, sv(intf), sv(member))
    for v in args:
        m = lib.msg_arg(ex, m, v)
    return lib.bus_call(ex, st, m)


def number(ex, st, v):
    """a variant read as a number; text is not one"""
    tag = v.f('tag').x
    ex.throw(st, tag == 2, Exc('std::invalid_argument'))
    return z3.If(tag == 0, i2d(v.f('a0').x), z3.If(tag == 1, v.f('a1').x, z3.If(v.f('a3').x, dv(1.0), dv(0.0))))


def must(ex, st, v, alt):
    ex.throw(st, v.f('tag').x != alt, Exc('std::bad_variant_access'))
    return v.f(f'a{alt}').x


def ask(ex, st, fn, otherwise):
    """value of fn(st), a sequence of bus calls and reads; on a bus error `otherwise`"""
    ex.thr.append([])
    v = fn(st)
    outs = [(st.copy(), v)]
    keep = []
    for s, e in ex.thr.pop():
        if e.cls == lib.SDERR:
            outs.append((s, otherwise))
        else:
            keep.append((s, e))
    ex.thr[-1] += keep
    m, r = ex.merge_vals(outs)
    assign(st, m)
    return r


def get_properties(ex, st, e, obj, a):
    svc, path = sx(ex, st, a[0]), sx(ex, st, a[1])
    prop = ex.deref(st, ex.rv(st, a[2]))
    r = send(ex, st, svc, path, PROPS, 'GetAll', S_(sv(VALUEIF)))
    m, _ = lib.msg_read(ex, st, r, PM)

    def opt(key, conv, dflt):
        """value of an optional property"""
        v = m.at(sv(key))
        return cases(ex, st, (m.has(sv(key)), lambda s: Val(dflt.sh, [conv(s, v)])), (None, lambda s: dflt)).x
    unit = opt('Unit', lambda s, v: must(ex, s, v, 2), ex.load(st, prop.f('unit')))
    scale = opt('Scale', lambda s, v: must(ex, s, v, 0), I_(iv(0)))
    mx = opt('MaxValue', lambda s, v: number(ex, s, v), D_(dv(0.0)))
    mn = opt('MinValue', lambda s, v: number(ex, s, v), D_(dv(0.0)))
    value = opt('Value', lambda s, v: number(ex, s, v), D_(dv(0.0)))

    def avail(s):
        q = send(ex, s, svc, path, PROPS, 'Get', S_(sv(AVAIL)), S_(sv('Available')))
        v, _ = lib.msg_read(ex, s, q, Var([BOOL]))
        return v.f('a0')
    av = ask(ex, st, avail, B_(T)).x
    setf(ex, st, prop, unit=unit, scale=scale, max=mx, min=mn, value=value, available=av)


def thresholds(ex, st, e, obj, a):
    svc, path = sx(ex, st, a[0]), sx(ex, st, a[1])

    def crit(s):
        r = send(ex, s, svc, path, PROPS, 'GetAll', S_(sv(CRIT)))
        m, _ = lib.msg_read(ex, s, r, PM)

        def alarm(s, key):
            v = m.at(sv(key))
            return cases(ex, s, (m.has(sv(key)), lambda t: B_(must(ex, t, v, 3))), (None, lambda t: B_(F)))
        lo = alarm(s, 'CriticalAlarmLow').x
        # the high alarm matters only when the low one is not set
        return cases(ex, s, (lo, lambda t: B_(T)), (None, lambda t: alarm(t, 'CriticalAlarmHigh')))
    return ask(ex, st, crit, B_(F))


def service(ex, st, e, obj, a):
    intf, path = sx(ex, st, a[0]), sx(ex, st, a[1])
    MS = Map(STR, Vec(STR))
    names = Val(Vec(STR), [iv(1), z3.Store(z3.K(I, sv('')), iv(0), intf)])
    r = send(ex, st, sv(MAPPER), sv('/xyz/openbmc_project/object_mapper'), MAPPER, 'GetObject', S_(path), names)
    m, _ = lib.msg_read(ex, st, r, MS)
    ex.throw(st, enumN(m.dom) == 0, Exc('std::runtime_error'))
    return S_(enumKey(m.dom, iv(0)))


PROP = Prop('C26', ['dbus/dbushelper.cpp'],
            [FnC(DH + '::getProperties', get_properties, cls=DH, throws_any=True),
             FnC(DH + '::thresholdsAsserted', thresholds, cls=DH, throws_any=True),
             FnC(DH + '::getService', service, cls=DH, throws_any=True)], driver='c26',
            assumptions=['a call on the bus answers or raises sdbusplus::exception_t; reading a reply yields a value of the type read or raises it'])
