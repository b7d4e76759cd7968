"""The zone's telemetry log: a header, then one row per automatic tick."""
from .base import *
from . import zone as Zn
from .zone import Z, READ
from . import c10

CV, OUTS, LIMIT = '_cachedValuesByName', '_cachedFanOutputs', '_sensorFailSafePercent'
VALS = Rec('e', [('scaled', DBL), ('unscaled', DBL)])


def logging(ex, st):
    return gv(ex, st, 'loggingEnabled', BOOL).x


def cat(*xs):
    r = None
    for x in xs:
        x = sv(x) if isinstance(x, str) else x
        r = x if r is None else sconcat(r, x)
    return r


def txt(x):
    return lib.text_of(D_(x))


def content(ex, st):
    ex.initial.setdefault(('T', 'text'), S_(z3.Const('text so far', S)))
    return ex.root(st, ('T', 'text')).x


def put(st, t):
    st.roots[('T', 'text')] = S_(t)


def header_spec(ex, st, e, obj, a):
    fans, therms = ex.load(st, obj.f('_fanInputs')), ex.load(st, obj.f('_thermalInputs'))
    ex.hints.append(pieces)
    f = ex.fold('fans', STR, S_(cat(content(ex, st), 'epoch_ms,setpt,requester')),
                lambda k, s: S_(cat(s.x, ',', fans.at(k).x, ',', fans.at(k).x, '_raw,', fans.at(k).x, '_pwm,', fans.at(k).x, '_pwm_raw')), n=fans.len, deps=fans.l)
    t = ex.fold('thermals', STR, f.end(), lambda k, s: S_(cat(s.x, ',', therms.at(k).x, ',', therms.at(k).x, '_raw')), n=therms.len, deps=therms.l)
    put(st, cat(t.end().x, ',failsafe\n'))


def pieces(ex, st, mod, entry):
    """a text put together apart, to be sent to the log in one go"""
    sent = ex.root(st, ('T', 'text')).x
    for key, e0 in entry.items():
        if isinstance(e0, z3.ExprRef) and e0.sort() == S and key[0] != ('T', 'text'):
            for f in ex.folds:
                for i, so in enumerate(f.sh.sorts):
                    if so == S and not f.params:
                        yield f'sent with what is put together: {f.name}', lambda kk, m, key=key, f=f, i=i: sconcat(sent, m[key]) == f.at(kk).l[i]


def write_spec(ex, st, e, obj, a):
    put(st, cat(content(ex, st), sx(ex, st, a[0])))


def row_spec(ex, st, e, obj, a):
    """the row up to the failsafe flag"""
    fans, therms = ex.load(st, obj.f('_fanInputs')), ex.load(st, obj.f('_thermalInputs'))
    ex.hints.append(pieces)
    mgr = ex.load(st, obj.f('_mgr')).x
    cache, outs = ex.load(st, obj.f(CV)), ex.load(st, obj.f(OUTS))
    now = z3.Const('now', I)
    ex.root(st, ('H', NS + 'Sensor'))
    on = logging(ex, st)
    name = ex.load(st, obj.f('_maximumSetPointName')).x
    start = cat(content(ex, st), i2s(lib.rescale(now, (1, 10 ** 9), (1, 1000))), ',', txt(ex.load(st, obj.f('_maximumSetPoint')).x), ',', name)
    SH = Rec('row', [('text', STR), ('cache', cache.sh)])
    before = content(ex, st)
    zero = default(outs.sh.v)

    def fan(k, s):
        n = fans.at(k).x
        r = vpure(ex, READ, 'read', app('getSensor', I, mgr, n))
        p = ite(outs.has(n), outs.at(n), zero)
        t = cat(s.f('text').x, ',', txt(r.f('value').x), ',', txt(r.f('unscaled').x), ',', txt(p.l[0]), ',', txt(p.l[1]))
        return Val(SH, [If(on, t, s.f('text').x)] + list(s.f('cache').set(n, Val(cache.sh.v, [r.f('value').x, r.f('unscaled').x])).l))
    f = ex.fold('fans', SH, Val(SH, [If(on, start, before)] + list(cache.l)), fan, n=fans.len, deps=(now, mgr) + fans.l).end()
    seen = f.f('cache')

    def therm(k, s):
        n = therms.at(k).x
        v = ite(seen.has(n), seen.at(n), zero)
        return S_(cat(s.x, ',', txt(v.l[0]), ',', txt(v.l[1])))
    t = ex.fold('thermals', STR, f.f('text'), therm, n=therms.len, deps=therms.l).end().x
    put(st, If(on, t, f.f('text').x))


# ---------------------------------------------------------------- the loop
def told(name, *chs, logs=False):
    """a method that changes what a row or the flag will say; a logging one also shows where it ran"""
    def m(ex, st, e, obj, a):
        call(ex, st, name, ex.handle_of(st, obj), logs)
    return m


def call(ex, st, name, z, logs=False):
    if logs:
        ex.event(st, 'log', name, z, trace_val(ex, st, 'state').x)
    ex.event(st, 'state', name, z)


def mode(ex, st, z):
    return app('getFailSafeMode', B, z, trace_val(ex, st, 'state').x)


def write_log(ex, st, e, obj, a):
    ex.event(st, 'log', 'writeLog', ex.handle_of(st, obj), lift(sx(ex, st, a[0])))


def again(ex, st, e, obj, a):
    ex.event(st, 'log', 'pidControlLoop', D(ex, st, a[0]), D(ex, st, a[3]))


def loop_spec(ex, st, e, obj, a):
    z, first = D(ex, st, a[0]), D(ex, st, a[3])
    cnt = D(ex, st, a[4])
    stop = ex.rv(st, ex.deref(st, ex.rv(st, a[2]))).x
    on = logging(ex, st)

    def thermals(s):
        for n in ('updateSensors', 'processThermals', 'determineMaxSetPointRequest'):
            call(ex, s, n, z)

    def run(s):
        def init(s1):
            cases(ex, s1, (on, lambda s2: call(ex, s2, 'initializeLog', z, True)), (None, lambda s2: None))
            call(ex, s1, 'initializeCache', z)
            thermals(s1)
        cases(ex, s, (first, init), (None, lambda s1: None))

        def tick(s2):
            call(ex, s2, 'updateFanTelemetry', z, True)
            cases(ex, s2, (cnt >= app('getUpdateThermalsCycle', I, z), thermals), (None, lambda s3: None))
            m = mode(ex, s2, z)
            cases(ex, s2, (on, lambda s3: ex.event(s3, 'log', 'writeLog', z, z3.If(m, sv(',1\n'), sv(',0\n')))), (None, lambda s3: None))
            ex.event(s2, 'log', 'pidControlLoop', z, F)
        cases(ex, s, (c10.ABORTED, lambda s2: None),
              (app('getManualMode', B, z), lambda s2: ex.event(s2, 'log', 'pidControlLoop', z, F)),
              (None, tick))
    cases(ex, st, (stop, lambda s: None), (None, run))


ZI = NS + 'ZoneInterface::'
LOOP = {**{k: v for k, v in c10.MODELS.items() if not k.startswith(ZI)}, NS + 'pidControlLoop': again, ZI + 'writeLog': write_log,
        ZI + 'getFailSafeMode': lambda ex, st, e, obj, a: B_(mode(ex, st, ex.handle_of(st, obj))),
        **{ZI + n: told(n) for n in ('initializeCache', 'updateSensors', 'processThermals', 'determineMaxSetPointRequest')},
        **{ZI + n: told(n, logs=True) for n in ('initializeLog', 'updateFanTelemetry')}, **{ZI + n: noeffect() for n in ('clearSetPoints', 'clearRPMCeilings', 'processFans')}}


def initial_state(ex, st, this, args):
    content(ex, st)
    return Zn.heap_setup(ex, st, this, args)


def open_spec(ex, st, e, obj, a):
    """the log is opened, in the logging folder under the zone's number, exactly when logging is on"""
    on = logging(ex, st)
    path = cat(gv(ex, st, 'loggingPath', STR).x, '/zone_', i2s(D(ex, st, a[0])), '.log')
    l = obj.f('_log')
    cur = ex.load(st, l)
    opens = app('file opens', B, path)
    ex.store(st, l, ite(on, Val(cur.sh, [path, opens]), default(cur.sh)))


PROP = Prop('C32', ['pid/zone.cpp', 'pid/pidloop.cpp'],
            [FnC(Z + '::DbusPidZone', open_spec, cls=Z, only=['_log']),
             FnC(Z + '::initializeLog', header_spec, cls=Z, setup=initial_state, track=['content']),
             FnC(Z + '::writeLog', write_spec, cls=Z, setup=initial_state, track=['content']),
             FnC(Z + '::updateFanTelemetry', row_spec, cls=Z, setup=initial_state, pre=Zn.ticking, track=['content'], ignore=[CV, OUTS, LIMIT, '_failSafeSensors'],
                 defmaps=[LIMIT, OUTS, CV]),
             FnC(NS + 'pidControlLoop', loop_spec, 5, models=LOOP, ignore_roots=['ev', 'state'])],
            models=Zn.MODELS, driver='c32',
            assumptions=['Sensor::read is a function of the sensor during one pass', 'the failsafe mode changes only with the work of the tick',
                         'text sent to a stream that could be opened reaches the file',
                         'no input is added to a zone once its loop runs (so the cache initializeCache filled before the first tick, by the contracts of C05 and C10, knows every input)'])
