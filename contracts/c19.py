from .base import *

IP = NS + 'ipmi::'
ZH, CI, DZ = IP + 'ZoneControlIpmiHandler', IP + 'ZoneControlInterface', IP + 'DbusZoneControl'
MODE = 'xyz.openbmc_project.Control.Mode'
BAD = iv(0xC1)
BYTE = Sc('i', 8, True)
FLAG = Var([Sc('b')])


def byte(ex, st, p, k):
    """byte k of the buffer p points to"""
    return ex.load(st, ex.handle_loc(z3.simplify(ex.rv(st, p).x + k), ex.rv(st, p).sh.tgt)).x


def control(ex, st, obj):
    return ex.load(st, obj.f('_control')).x


def deref(ex, st, p):
    return ex.deref(st, ex.rv(st, p))


def get_prop(ex, st, e, obj, a):
    """a control's property read: a code, and the flag when the code is success"""
    h = ex.handle_of(st, obj)
    ls = (h, D(ex, st, a[0]), sx(ex, st, a[2]))
    ex.event(st, 'control', 'get', *ls)
    rc = app('property code', I, *ls)
    l = deref(ex, st, a[1])
    ex.store(st, l, Val(Sc('b'), [z3.If(rc == 0, app('property flag', B, *ls), app('whatever is left', B, *ls))]))
    return Val(BYTE, [rc])


def set_prop(ex, st, e, obj, a):
    ls = (ex.handle_of(st, obj), D(ex, st, a[0]), ex.b(st, a[1]), sx(ex, st, a[2]))
    ex.event(st, 'control', 'set', *ls)
    return Val(BYTE, [app('property set code', I, *ls)])


def getter(prop):
    """2-byte request: that zone's flag in one reply byte, or the code alone"""
    def spec(ex, st, e, obj, a):
        n = ex.load(st, deref(ex, st, a[2])).x
        zone = byte(ex, st, a[0], 1)
        ls = (control(ex, st, obj), zone, sv(prop))
        rc = app('property code', I, *ls)
        flag = app('property flag', B, *ls)
        done = z3.And(n >= 2, rc == 0)
        rl, nl = deref(ex, st, a[1]), deref(ex, st, a[2])
        cases(ex, st, (n >= 2, lambda s: ex.event(s, 'control', 'get', *ls)), (None, lambda s: None))
        cases(ex, st, (done, lambda s: (ex.store(s, rl, Val(BYTE, [z3.If(flag, iv(1), iv(0))])), ex.store(s, nl, Val(nl.sh, [iv(1)])))), (None, lambda s: None))
        return Val(BYTE, [z3.If(n >= 2, rc, BAD)])
    return spec


def setter(ex, st, e, obj, a):
    n = ex.load(st, deref(ex, st, a[2])).x
    ls = (control(ex, st, obj), byte(ex, st, a[0], 1), byte(ex, st, a[0], 2) != 0, sv('Manual'))
    cases(ex, st, (n >= 3, lambda s: ex.event(s, 'control', 'set', *ls)), (None, lambda s: None))
    return Val(BYTE, [z3.If(n >= 3, app('property set code', I, *ls), BAD)])


def dispatch(ex, st, e, obj, a):
    """0: manual state, 1: set it, 2: failsafe state; anything else and anything short is refused"""
    h = deref(ex, st, a[0])
    n = ex.load(st, deref(ex, st, a[4])).x
    cmd = byte(ex, st, a[2], 0)
    args = [a[2], a[3], a[4]]
    r = []

    def run(fn):
        def go(s):
            r.append(fn(ex, s, e, h, args))
        return go
    cases(ex, st, (z3.And(n >= 2, cmd == 0), run(getter('Manual'))), (z3.And(n >= 2, cmd == 1), run(setter)),
          (z3.And(n >= 2, cmd == 2), run(getter('FailSafe'))), (None, lambda s: None))
    return Val(BYTE, [z3.If(n < 2, BAD, z3.If(cmd == 0, r[0].x, z3.If(cmd == 1, r[1].x, z3.If(cmd == 2, r[2].x, BAD))))])


def target(zone):
    return sconcat(sv('/xyz/openbmc_project/settings/fanctrl/zone'), i2s(zone))


def dbus_get(ex, st, e, obj, a):
    """GetAll of the zone's control object; the named property"""
    m = lib.msg_call(ex, st, sv('xyz.openbmc_project.State.FanCtrl'), target(D(ex, st, a[0])), sv('org.freedesktop.DBus.Properties'), sv('GetAll'))
    m = lib.msg_arg(ex, m, S_(sv(MODE)))
    out = deref(ex, st, a[1])
    prop = sx(ex, st, a[2])
    rc = ex.newroot(st, BYTE, Val(BYTE, [iv(0)]))
    ex.thr.append([])
    r = lib.bus_call(ex, st, m)
    props, _ = lib.msg_read(ex, st, r, Map(STR, FLAG))
    thr = ex.thr.pop()
    flag = z3.And(props.has(prop), props.at(prop).f('a0').x)
    ex.store(st, out, B_(flag))
    outs = [(st.copy(), iv(0))] + [(s, BAD) for s, _ in thr]
    for s, v in outs:
        ex.store(s, rc, Val(BYTE, [v]))
    assign(st, ex.merge([s for s, _ in outs]))
    return ex.load(st, rc)


def dbus_set(ex, st, e, obj, a):
    m = lib.msg_call(ex, st, sv('xyz.openbmc_project.State.FanCtrl'), target(D(ex, st, a[0])), sv('org.freedesktop.DBus.Properties'), sv('Set'))
    m = lib.msg_arg(ex, m, S_(sv(MODE)))
    m = lib.msg_arg(ex, m, S_(sx(ex, st, a[2])))
    m = lib.msg_arg(ex, m, Val(FLAG, [iv(0), ex.b(st, a[1])]))
    rc = ex.newroot(st, BYTE, Val(BYTE, [iv(0)]))
    ex.thr.append([])
    lib.bus_call(ex, st, m)
    thr = ex.thr.pop()
    outs = [(st.copy(), iv(0))] + [(s, BAD) for s, _ in thr]
    for s, v in outs:
        ex.store(s, rc, Val(BYTE, [v]))
    assign(st, ex.merge([s for s, _ in outs]))
    return ex.load(st, rc)


# --- the command is registered with the handler of this process
def request(ex):
    """any request"""
    f = ex.prog.fns[IP + 'manualModeControl'][0].d['params']
    return [Val(ex.prog.shape(p['t']), [z3.Int('request ' + n)]) for p, n in zip(f[1:], ('cmd', 'buffer', 'reply', 'length'))]


def register(ex, st, e, obj, a):
    """the router calls what is registered with each request of that number and command"""
    ex.event(st, 'router', 'registered', D(ex, st, a[0]), D(ex, st, a[1]))
    ex.call_value(st, ex.rv(st, a[2]), request(ex), None)


def handled(ex, st, e, obj, a):
    ex.event(st, 'router', 'handled', *[ex.handle_of(st, ex.rv(st, x)) for x in a])
    return Val(ex.prog.shape(e['fn']['rt']), [app('handled', I)])


def registers(ex, st, e, obj, a):
    ex.event(st, 'router', 'registered', iv(49871), iv(3))
    ex.event(st, 'router', 'handled', ex.handle_of(st, gloc(IP + 'handler', ex.prog.rec_shape(ZH))), *[x.x for x in request(ex)])


ROUTER = {'oem::Router::registerHandler': register, IP + 'manualModeControl': handled,
          'oem::mutableRouter': noeffect(lambda ex, st, e, obj, a: Val(ex.prog.shape(e['fn']['rt']), [z3.Int('router')]))}
CTL = {CI + '::getFanCtrlProperty': get_prop, CI + '::setFanCtrlProperty': set_prop}
PROP = Prop('C19', ['ipmi/manualcmds.cpp', 'ipmi/dbus_mode.cpp', 'ipmi/main_ipmi.cpp'],
            [FnC(ZH + '::getManualModeState', getter('Manual'), cls=ZH, models=CTL),
             FnC(ZH + '::getFailsafeModeState', getter('FailSafe'), cls=ZH, models=CTL),
             FnC(ZH + '::setManualModeState', setter, cls=ZH, models=CTL),
             FnC(IP + 'manualModeControl', dispatch, models=CTL),
             FnC(DZ + '::getFanCtrlProperty', dbus_get, cls=DZ),
             FnC(DZ + '::setFanCtrlProperty', dbus_set, cls=DZ),
             FnC('setupGlobalOemFanControl', registers, models=ROUTER)],
            driver='c19',
            assumptions=['request and reply buffers are valid for the lengths the caller states',
                         'a zone control answers success only after storing the flag'])
