from .base import *

FANPWM = 'xyz.openbmc_project.Control.FanPwm'
VAR = Var([Sc('i', 64, True)])


def value_of(ex, st, obj, x, percent):
    if not percent:
        return x
    mn, mx = i2d(ex.load(st, obj.f('_min')).x), i2d(ex.load(st, obj.f('_max')).x)
    return dadd(dmul(dsub(mx, mn), x), mn)


def set_message(ex, dest, path, raw):
    """Properties.Set(FanPwm, Target, variant<uint64>) for path at dest"""
    m = lib.msg_call(ex, None, dest, path, sv('org.freedesktop.DBus.Properties'), sv('Set'))
    m = lib.msg_arg(ex, m, S_(sv(FANPWM)))
    m = lib.msg_arg(ex, m, S_(sv('Target')))
    return lib.msg_arg(ex, m, Val(VAR, [iv(0), raw]))


def dbus_write(percent):
    def spec(ex, st, e, obj, a):
        raw = d2i(value_of(ex, st, obj, D(ex, st, a[0]), percent))
        force = D(ex, st, a[1]) if len(a) > 1 else F
        old = ex.load(st, obj.f('oldValue')).x
        skip = z3.And(old == raw, z3.Not(force))
        m = set_message(ex, ex.load(st, obj.f('connectionName')).x, ex.load(st, obj.f('path')).x, raw)
        tr = trace_val(ex, st, 'bus').x
        st.roots[('T', 'bus')] = Val(OPQ, [z3.If(skip, tr, ev(tr, 'call', m))])
        setf(ex, st, obj, oldValue=raw)      # equal to the old one when nothing is sent
        if len(a) > 2:
            w = ex.rv(st, a[2])
            if isinstance(w, PV):
                return
            l = ex.deref(st, w)
            ex.store(st, l, ite(w.x != 0, Val(l.sh, [raw]), ex.load(st, l)))
    return spec


def sysfs_write(percent):
    def spec(ex, st, e, obj, a):
        raw = d2i(value_of(ex, st, obj, D(ex, st, a[0]), percent))
        p = ex.load(st, obj.f('_writePath')).x
        tr = ev(trace_val(ex, st, 'file').x, 'open', p)
        st.roots[('T', 'file')] = Val(OPQ, [z3.If(app('file opens', B, p), ev(tr, 'write', p, i2s(raw)), tr)])
    return spec


def default_write(ex, st, e, obj, a):
    """writers without a raw form: one plain write of the value, nothing reported"""
    vcall(ex, st, 'write', ex.handle_of(st, obj), D(ex, st, a[0]))


def fixup_model(ex, st, e, obj, a):
    return S_(app('FixupPath', S, sx(ex, st, a[0])))


def fixed_path(ex, st, a):
    return app('FixupPath', S, sx(ex, st, a[0]))


def create(q):
    """a writer for the first owner of the fan's PWM object; none when there is no owner"""
    def spec(ex, st, e, obj, a):
        h, p = D(ex, st, a[3]), sx(ex, st, a[0])
        intf = sv(FANPWM)
        conn = app('getService', S, h, intf, p)
        ok = z3.Not(app('getService throws', B, h, intf, p))
        return Val(PTR, [z3.If(ok, new(ex, q, p, D(ex, st, a[1]), D(ex, st, a[2]), conn), iv(0))])
    return spec


def get_service(ex, st, e, obj, a):
    ls = (ex.handle_of(st, obj), sx(ex, st, a[0]), sx(ex, st, a[1]))
    ex.throw(st, app('getService throws', B, *ls), Exc(lib.SDERR))
    return S_(app('getService', S, *ls))


DP, DW, SP, SW = [NS + x for x in ('DbusWritePercent', 'DbusWrite', 'SysFsWritePercent', 'SysFsWrite')]
PROP = Prop('C13', ['dbus/dbuswrite.cpp', 'sysfs/sysfswrite.cpp'],
            [FnC(DP + '::createDbusWrite', create('DbusWritePercent'), cls=DP, models={NS + 'DbusHelperInterface::getService': get_service}),
             FnC(DW + '::createDbusWrite', create('DbusWrite'), cls=DW, models={NS + 'DbusHelperInterface::getService': get_service}),
             FnC(DP + '::DbusWritePercent', ctor(_min=1, _max=2, path=0, connectionName=3, oldValue=iv(-1)), cls=DP),
             FnC(DW + '::DbusWrite', ctor(_min=1, _max=2, path=0, connectionName=3, oldValue=iv(-1)), cls=DW),
             FnC(SP + '::SysFsWritePercent', ctor(_min=1, _max=2, _writePath=fixed_path), cls=SP, models={NS + 'FixupPath': fixup_model}),
             FnC(SW + '::SysFsWrite', ctor(_min=1, _max=2, _writePath=fixed_path), cls=SW, models={NS + 'FixupPath': fixup_model}),
             FnC(DP + '::write', dbus_write(True), 3, cls=DP, nullable=[2], name=DP + '::write(value, force, written)'),
             FnC(DP + '::write', dbus_write(True), 1, cls=DP, name=DP + '::write(value)'),
             FnC(DW + '::write', dbus_write(False), 3, cls=DW, nullable=[2], name=DW + '::write(value, force, written)'),
             FnC(DW + '::write', dbus_write(False), 1, cls=DW, name=DW + '::write(value)'),
             FnC(SP + '::write', sysfs_write(True), 1, cls=SP),
             FnC(SW + '::write', sysfs_write(False), 1, cls=SW),
             FnC(NS + 'WriteInterface::write', default_write, 3, cls=NS + 'WriteInterface')],
            driver='c13',
            assumptions=['the converted value fits a 64-bit integer (anything else is undefined behaviour of the cast)',
                         'sending on the bus either delivers the message or raises sdbusplus::exception_t'])
