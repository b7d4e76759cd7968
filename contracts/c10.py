from .base import *

NOW = z3.Const('now', I)
NOW_S = z3.Const('now steady', I)
ABORTED = z3.Const('timer aborted', B)
LOGGING = ['loggingEnabled', NS + 'loggingEnabled']


def clears(name, ch):
    """clearing is ordered against the other work, not against other clearing"""
    def m(ex, st, e, obj, a):
        ex.event(st, ch, name, ex.handle_of(st, obj), trace_val(ex, st, 'ev').x)
    return m


def expires_at(ex, st, e, obj, a):
    ex.event(st, 'ev', 'expires_at', ex.handle_of(st, obj), D(ex, st, a[0]))


def expiry(ex, st, e, obj, a):
    return Val(ex.prog.shape(e['fn']['rt']), [app('expiry', I, ex.handle_of(st, obj))])


def async_wait(ex, st, e, obj, a):
    """the handler runs once, later, with whatever error code the timer reports"""
    ex.event(st, 'ev', 'async_wait', ex.handle_of(st, obj))
    ex.call_value(st, a[0], [Val(Sc('o'), [z3.If(ABORTED, iv(1), iv(0))])], None)


def ec_eq(ex, st, e, obj, a):
    vals = [ex.rv(st, x) for x in a]
    return B_(ABORTED)


def loop_call(ex, st, e, obj, a):
    """callee contract of the re-arming call"""
    ex.event(st, 'ev', 'pidControlLoop', D(ex, st, a[0]), D(ex, st, a[1]), D(ex, st, a[3]), D(ex, st, a[4]))


def thermal_pass(ex, st, z):
    t = trace_val(ex, st, 'ev').x
    t = ev(t, 'updateSensors', z)
    for ch, n in (('sp', 'clearSetPoints'), ('ceil', 'clearRPMCeilings')):
        st.roots[('T', ch)] = Val(OPQ, [ev(trace_val(ex, st, ch).x, n, z, t)])
    t = ev(t, 'processThermals', z)
    t = ev(t, 'determineMaxSetPointRequest', z)
    st.roots[('T', 'ev')] = Val(OPQ, [t])


def evt(ex, st, name, *ls):
    ex.event(st, 'ev', name, *ls)


def loop_spec(ex, st, e, obj, a):
    z, tm, cancel, first, cnt = (D(ex, st, x) for x in a)
    stop = ex.rv(st, ex.deref(st, ex.rv(st, a[2]))).x
    fan = app('getCycleIntervalTime', I, z)
    therm = app('getUpdateThermalsCycle', I, z)

    def run(s):
        def init(s1):
            evt(ex, s1, 'initializeCache', z)
            thermal_pass(ex, s1, z)
        cases(ex, s, (first, init), (None, lambda s1: None))
        base = z3.If(first, NOW, app('expiry', I, tm))
        evt(ex, s, 'expires_at', tm, base + fan * 1000000)
        evt(ex, s, 'async_wait', tm)

        def tick(s2):
            evt(ex, s2, 'updateFanTelemetry', z)
            due = cnt >= therm
            cases(ex, s2, (due, lambda s3: thermal_pass(ex, s3, z)), (None, lambda s3: None))
            evt(ex, s2, 'processFans', z)
            evt(ex, s2, 'pidControlLoop', z, tm, F, z3.If(due, cnt - therm, cnt) + fan)
        cases(ex, s, (ABORTED, lambda s2: None),
              (app('getManualMode', B, z), lambda s2: evt(ex, s2, 'pidControlLoop', z, tm, F, cnt)),
              (None, tick))
    cases(ex, st, (stop, lambda s: None), (None, run))


TIMER = 'boost::asio::basic_waitable_timer'
MODELS = {NS + 'ZoneInterface::clearSetPoints': clears('clearSetPoints', 'sp'), NS + 'ZoneInterface::clearRPMCeilings': clears('clearRPMCeilings', 'ceil'),
          TIMER + '::expires_at': expires_at, TIMER + '::expiry': expiry, TIMER + '::async_wait': async_wait,
          'boost::system::operator==': ec_eq, NS + 'pidControlLoop': loop_call}
PROP = Prop('C10', ['pid/pidloop.cpp'],
            [FnC(NS + 'pidControlLoop', loop_spec, 5, models=MODELS, channel={'initializeLog': 'log', 'writeLog': 'log'}, ignore_roots=['log'])],
            driver='c10',
            assumptions=['boost::asio runs the armed handler once, with operation_aborted exactly when the timer was cancelled'])
