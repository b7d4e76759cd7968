from .base import *
from .c11 import P, setter, from_property

VALUE = 'xyz.openbmc_project.Sensor.Value'
CRIT = 'xyz.openbmc_project.Sensor.Threshold.Critical'
AVAIL = 'xyz.openbmc_project.State.Decorator.Availability'
FUNC = 'xyz.openbmc_project.State.Decorator.OperationalStatus'
READ = NS + 'ReadReturn'
PROPS = Map(STR, Var([Sc('i', 64), DBL, BOOL]))
now = z3.Const('now', I)


def pow10(s):
    return app('dpow', R, dv(10.0), i2d(s))


def scaled(ex, st, mn, mx, u):
    return z3.If(z3.And(z3.Not(dle(mx, dv(0.0))), z3.Not(dle(mx, mn))), ddiv(dsub(u, mn), dsub(mx, mn)), u)


def update(ex, st, obj, v, force):
    """the effect of one reading"""
    ld_ = lambda n: ex.load(st, obj.f(n)).x
    fin = is_fin(v)
    take = z3.Or(fin, force)
    u = dmul(v, pow10(ld_('_scale')))
    s = scaled(ex, st, ld_('_min'), ld_('_max'), u)
    keep = lambda n, x: z3.If(take, x, ld_(n))
    setf(ex, st, obj, _badReading=z3.Not(fin), _value=keep('_value', s), _unscaled=keep('_unscaled', u), _updated=keep('_updated', now),
         _marginHot=z3.If(z3.And(take, ld_('_typeMargin')), dle(u, dv(0.0)), ld_('_marginHot')))


def update_spec(ex, st, e, obj, a):
    update(ex, st, obj, D(ex, st, a[0]), D(ex, st, a[1]))


def store2(ex, st, e, obj, a):
    setf(ex, st, obj, _value=D(ex, st, a[0]), _unscaled=D(ex, st, a[1]), _updated=now)


def store1(ex, st, e, obj, a):
    setf(ex, st, obj, _value=D(ex, st, a[0]), _unscaled=D(ex, st, a[0]), _updated=now)


def read_spec(ex, st, e, obj, a):
    r = default(ex.prog.rec_shape(READ))
    for n, f in (('value', '_value'), ('updated', '_updated'), ('unscaled', '_unscaled')):
        r = r.withf(n, ex.load(st, obj.f(f)))
    return r


def init_spec(ex, st, e, obj, a):
    s = ex.load(st, a[0]) if isinstance(a[0], Loc) else ex.rv(st, a[0])
    p = pow10(s.f('scale').x)
    setf(ex, st, obj, _failed=D(ex, st, a[1]), _scale=s.f('scale').x, _min=dmul(s.f('min').x, p), _max=dmul(s.f('max').x, p),
         _unavailableAsFailed=s.f('unavailableAsFailed').x,
         _available=z3.If(ex.load(st, obj.f('_availableOverridden')).x, ex.load(st, obj.f('_available')).x, s.f('available').x))
    update(ex, st, obj, s.f('value').x, T)


def signal_spec(ex, st, e, obj, a):
    m = D(ex, st, a[0])
    intf, m = lib.msg_read(ex, st, m, STR)
    props, m = lib.msg_read(ex, st, m, PROPS)
    ex.store(st, a[0], Val(Sc('o'), [m]))
    own = ex.deref(st, ex.rv(st, a[1]), e['fn']['pt'][1].e)
    arm = lambda n, *keys: z3.And(intf.x == sv(n), z3.Or(*[props.has(sv(k)) for k in keys]))

    def flag(s, key, cond=T):
        """the boolean property; any other type is an error"""
        v = props.at(sv(key))
        ex.throw(s, z3.And(cond, v.f('tag').x != 2), Exc('std::bad_variant_access'))
        return v.f('a2').x

    def value(s):
        v = props.at(sv('Value'))
        t = v.f('tag').x
        update(ex, s, own, z3.If(t == 0, i2d(v.f('a0').x), z3.If(t == 1, v.f('a1').x, b2d(v.f('a2').x))), F)

    def critical(s):
        lo, hi = props.has(sv('CriticalAlarmLow')), props.has(sv('CriticalAlarmHigh'))
        l = z3.And(lo, flag(s, 'CriticalAlarmLow', lo))
        h = z3.And(z3.Not(l), hi)
        setf(ex, s, own, _failed=z3.Or(l, z3.And(h, flag(s, 'CriticalAlarmHigh', h))))

    def available(s):
        v = flag(s, 'Available')
        setf(ex, s, own, _available=v, _availableOverridden=T)
        s1, s2 = s.copy(), s.copy()
        s1.assume(v)
        s2.assume(z3.Not(v))
        update(ex, s2, own, NAN, T)
        assign(s, ex.merge([s1, s2]))

    def functional(s):
        setf(ex, s, own, _functional=flag(s, 'Functional'))
    cases(ex, st, (arm(VALUE, 'Value'), value), (arm(CRIT, 'CriticalAlarmLow', 'CriticalAlarmHigh'), critical),
          (arm(AVAIL, 'Available'), available), (arm(FUNC, 'Functional'), functional), (None, lambda s: None))
    return Val(Sc('i', 32), [iv(0)])


def nonnan(*xs):
    return [x != NAN for x in xs]


def owner_limits(ex, st, this, args):
    """limits are numbers"""
    own = ex.deref(st, ex.rv(st, args[1]))
    return nonnan(ex.load(st, own.f('_min')).x, ex.load(st, own.f('_max')).x)


def own_limits(ex, st, this, args):
    return nonnan(ex.load(st, this.f('_min')).x, ex.load(st, this.f('_max')).x)


def new_limits(ex, st, this, args):
    s = ex.load(st, args[0])
    p = pow10(s.f('scale').x)
    return nonnan(dmul(s.f('min').x, p), dmul(s.f('max').x, p))


def scale_spec(ex, st, e, obj, a):
    ex.store(st, a[2], Val(DBL, [scaled(ex, st, D(ex, st, a[0]), D(ex, st, a[1]), D(ex, st, a[2]))]))


PROP = Prop('C12', ['dbus/dbuspassive.cpp', 'dbus/dbusutil.cpp'],
            [FnC(NS + 'handleSensorValue', signal_spec, setup=owner_limits),
             FnC(P + '::updateValue', update_spec, cls=P, pre=own_limits),
             FnC(P + '::setValue', store2, 2, cls=P, name=P + '::setValue(value, unscaled)'),
             FnC(P + '::setValue', store1, 1, cls=P, name=P + '::setValue(value)'),
             FnC(P + '::read', read_spec, cls=P),
             FnC(P + '::initFromSettings', init_spec, cls=P, pre=new_limits),
             FnC(NS + 'scaleSensorReading', scale_spec, pre=lambda ex, st, this, a: nonnan(D(ex, st, a[0]), D(ex, st, a[1])))],
            driver='c12',
            assumptions=['std::pow(10, scale) is an uninterpreted function of the scale',
                         'the sensor limits are numbers (not NaN)', 'the clock is read once per update'])
