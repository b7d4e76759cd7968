from .base import *

FL = NS + 'FailsafeLogger'
NOW = z3.Const('now', I)
LOGGERS, SENSORS = 'zoneIdToFailsafeLogger', 'sensorNameToZoneId'
LSH, SSH = Map(INT, PTR), Map(STR, Vec(INT))


def now_ms():
    return lib.rescale(NOW, (1, 10 ** 9), (1, 1000))


def keep_recent(ex, st, ts, now):
    """the time stamps without the leading ones that are at least a second old"""
    n = ts.len
    U = Sc('i', 64, True)

    def old(i):
        return ex.int_arith('-', now, ts.at(i).x, U) >= 1000
    R = app('outdated', I, now, *ts.l)
    stop = ex.fold('recent one seen', BOOL, B_(F), lambda k, s: B_(z3.Or(s.x, z3.Not(old(k)))), n=n, deps=ts.l + (now,))
    gen, f = stop.gen, stop.fs[0]

    def more(t):
        k = t.children()[-1]
        return gen(t) + [z3.Implies(z3.And(k >= 0, k <= R), z3.Not(f(k)))]
    ex.ax.extra[f.name()] = more
    ex.pre_facts += [R >= 0, R <= n, z3.Or(R == n, z3.Not(old(R)))]

    def hint(ex_, st_, mod, entry):
        return [('only outdated entries go', lambda kk, m: kk <= R),
                ('the next one', lambda kk, m: z3.Implies(kk < R, z3.Not(f(z3.simplify(kk + 1)))))]
    ex.hints.append(hint)
    return Val(ts.sh, (ts.l[0] + R, n - R) + ts.l[2:])


def log_spec(ex, st, e, obj, a):
    now = now_ms()
    new_state = ex.b(st, a[1])
    ts = keep_recent(ex, st, ex.load(st, obj.f('_logTimestamps')), now)
    was = ex.load(st, obj.f('_currentFailsafeState')).x
    seen = ex.load(st, obj.f('_logsInCurrentState'))
    change = new_state != was
    seen = ite(change, default(seen.sh), seen)
    cause = sconcat(sconcat(sx(ex, st, a[2]), sv(' @ ')), sx(ex, st, a[3]))
    suppressed = z3.Or(ts.len >= ex.load(st, obj.f('_logMaxCountPerSecond')).x, seen.has(cause))
    setf(ex, st, obj, _currentFailsafeState=new_state, _logsInCurrentState=ite(suppressed, seen, seen.add(cause)),
         _logTimestamps=ite(suppressed, ts, ts.push(Val(ts.sh.e, [now]))))
    cur = trace_val(ex, st, 'cerr').x
    show = z3.And(z3.Not(suppressed), z3.Or(new_state, was))
    st.roots[('T', 'cerr')] = Val(OPQ, [z3.If(show, app('entry printed', I, cur), cur)])


def logged(ex, st, e, obj, a):
    ex.event(st, 'log', 'failsafe log', ex.handle_of(st, obj), D(ex, st, a[0]), ex.b(st, a[1]), sx(ex, st, a[2]), sx(ex, st, a[3]))


def to_zone(ex, st, zone, state, loc, why, cur):
    ls = gv(ex, st, LOGGERS, LSH)
    return z3.If(ls.has(zone), ev(cur, 'failsafe log', ls.at(zone).x, zone, state, loc, why), cur)


def with_zone(ex, st, e, obj, a):
    cur = to_zone(ex, st, D(ex, st, a[0]), ex.b(st, a[1]), sx(ex, st, a[2]), sx(ex, st, a[3]), trace_val(ex, st, 'log').x)
    st.roots[('T', 'log')] = Val(OPQ, [cur])


def with_sensor(ex, st, e, obj, a):
    """each zone of the sensor, in order; a sensor that no zone uses reaches nobody"""
    m = gv(ex, st, SENSORS, SSH)
    key = sx(ex, st, a[0])
    zs = ite(m.has(key), m.at(key), default(m.sh.v))
    args = (ex.b(st, a[1]), sx(ex, st, a[2]), sx(ex, st, a[3]))
    f = ex.fold('logged', OPQ, trace_val(ex, st, 'log'), lambda k, s: Val(OPQ, [to_zone(ex, st, zs.at(k).x, *args, s.x)]),
                n=zs.len, deps=zs.l + args)
    st.roots[('T', 'log')] = f.end()


def build(ex, st, e, obj, a):
    """a fresh logger for every zone, and for every sensor the zones it belongs to, each once"""
    zones = ex.rv(st, a[0])
    dom, n = zones.dom, enumN(zones.dom)
    mx = D(ex, st, a[1])
    both = Rec('loggers', [('l', LSH), ('s', SSH)])
    B = {}

    def zone(k):
        key = enumKey(dom, k)
        return key, zones.at(key).x

    def names(k):
        return vpure(ex, Vec(STR), 'getSensorNames', zone(k)[1])

    def add(k, j, s):
        key, name = zone(k)[0], names(k).at(j).x
        v = ite(s.has(name), s.at(name), default(SSH.v))
        return s.set(name, ite(lib.vmem(v, key), v, v.push(I_(key))))

    def step(k, s):
        key, z = zone(k)
        h = new(ex, 'FailsafeLogger', mx, app('getFailSafeMode', z3.BoolSort(), z))
        return Val(both, s.f('l').set(key, Val(PTR, [h])).l + B['inner'].end(k).l)
    f = ex.fold('loggers', both, Val(both, default(LSH).l + default(SSH).l), step, n=n, deps=zones.l + (mx,))
    B['inner'] = ex.fold('sensors of a zone', SSH, lambda k: f.at(k).f('s'), add, n=lambda k: names(k).len, deps=zones.l + (mx,), params=(z3.Int('zk'),))
    r = f.end()
    ex.store(st, gloc(LOGGERS, LSH), r.f('l'))
    ex.store(st, gloc(SENSORS, SSH), r.f('s'))


OUT = {FL + '::outputFailsafeLog': logged}
PROP = Prop('C21', ['failsafeloggers/failsafe_logger.cpp', 'failsafeloggers/failsafe_logger_utility.cpp', 'failsafeloggers/builder.cpp'],
            [FnC(FL + '::outputFailsafeLog', log_spec, cls=FL, track=[('entries', 'cerr')], pre=lambda *x: [NOW >= 0, NOW < 1 << 63]),
             FnC(FL + '::FailsafeLogger', ctor(_logMaxCountPerSecond=0, _currentFailsafeState=1, _logTimestamps=default(Deq(Sc('i', 64, True))), _logsInCurrentState=default(Set(STR))), cls=FL),
             FnC(NS + 'outputFailsafeLogWithZone', with_zone, models=OUT),
             FnC(NS + 'outputFailsafeLogWithSensor', with_sensor, models=OUT, defmaps=[SENSORS]),
             FnC(NS + 'buildFailsafeLoggers', build)],
            driver='c21', assumptions=['the system clock does not run before 1970'])
