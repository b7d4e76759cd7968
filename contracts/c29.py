"""The daemon's life cycle (main.cpp): stop, reload, retry, terminate."""
from .base import *

TIMER = 'boost::asio::basic_waitable_timer'
ABORT = iv(125)
CANCELING, ZONES, TIMERS, MGR = NS + 'state::isCanceling', NS + 'state::zones', NS + 'state::timers', NS + 'state::mgmr'
ZMAP, TVEC = Map(Sc('i', 64), PTR), Vec(PTR)


def evt(ex, st, name, *ls):
    ex.event(st, 'ev', name, *ls)


def uses(h):
    return app('use count', I, h)


def first_zone(zs):
    return zs.at(enumKey(zs.dom, iv(0))).x


def in_use(zs):
    return z3.And(enumN(zs.dom) > 0, uses(first_zone(zs)) > 1)


def stop_spec(ex, st, e, obj, a):
    """every timer is cancelled; zones go only when none is in use (the ticks leave in map order)"""
    ts, zs = gv(ex, st, TIMERS, TVEC), gv(ex, st, ZONES, ZMAP)
    f = ex.fold('cancelled', OPQ, trace_val(ex, st, 'timers'), lambda k, s: Val(OPQ, [ev(s.x, 'cancel', ts.at(k).x)]), n=ts.len, deps=ts.l)
    st.roots[('T', 'timers')] = f.end()
    ex.store(st, gloc(TIMERS, TVEC), default(TVEC))
    ex.store(st, gloc(CANCELING, BOOL), Val(BOOL, [T]))
    ex.throw(st, in_use(zs), Exc('std::runtime_error'))
    ex.store(st, gloc(ZONES, ZMAP), default(ZMAP))
    ex.store(st, gloc(CANCELING, BOOL), Val(BOOL, [F]))


def cancel(ex, st, e, obj, a):
    ex.event(st, 'timers', 'cancel', ex.handle_of(st, obj))
    return default(ex.prog.shape(e['fn']['rt'])) if e['fn']['rt'].s != 'void' else None


def use_count(ex, st, e, obj, a):
    return I_(uses(ex.rv(st, obj).x))


def order(ex, st, this, args):
    """the loops leave their zones in the order they were started"""
    zs = gv(ex, st, ZONES, ZMAP)
    # the map holds zones, not null pointers: each is used at least once
    return [z3.Implies(enumN(zs.dom) > 0, uses(first_zone(zs)) >= 1)] + \
        [z3.Implies(z3.And(iv(i) < enumN(zs.dom), uses(zs.at(enumKey(zs.dom, iv(i))).x) > 1), uses(first_zone(zs)) > 1) for i in (1, 2, 3)]


COMMON = {TIMER + '::cancel': cancel, 'std::__shared_ptr::use_count': use_count, 'std::shared_ptr::use_count': use_count}


# --- reload
SC, ZC, ZD = NS + 'sensorConfig', NS + 'zoneConfig', NS + 'zoneDetailsConfig'
OPAQUE = [NS + 'SensorManager', NS + 'conf::SensorConfig', NS + 'conf::ControllerInfo', NS + 'conf::ZoneConfig', 'nlohmann::basic_json']
EXIT = Exc('the process exits')


def leaves(ex, st, a):
    return [l for x in a for l in (lib.leaves_of(ex, st, [x]))]


def builder(name, exc=None, ch=None):
    """an external construction step: a function of its arguments, which may fail"""
    def m(ex, st, e, obj, a):
        ls = leaves(ex, st, a)
        if exc:
            ex.throw(st, app(name + ' fails', B, *ls), Exc(exc))
        return lib.pure_result(ex, name, e['fn']['rt'], ls)
    return m


EC = z3.Int('timer result')


def lasting(ex, obj):
    """a timer that outlives the function (a dying one reports 'aborted' and the retry is lost)"""
    return isinstance(obj, Loc) and (obj.root[0] == 'G' or obj.root in ex.locstat)


def code_ctor(ex, st, e, obj, a):
    if not a:
        return Val(OPQ, [iv(0)])
    return Val(OPQ, [D(ex, st, a[0])])


def code_eq(ex, st, e, obj, a):
    x, y = [D(ex, st, v) for v in a[:2]]
    return B_(x == y)


def code_bool(ex, st, e, obj, a):
    return B_(D(ex, st, obj) != 0)


def post(ex, st, e, obj, a):
    """the posted function runs once, from the event loop"""
    evt(ex, st, 'post')
    ex.call_value(st, a[1], [], None)


def expires_after(ex, st, e, obj, a):
    evt(ex, st, 'expires_after', z3.If(D(ex, st, a[0]) > 0, iv(1), iv(0)))
    return default(ex.prog.shape(e['fn']['rt'])) if e['fn']['rt'].s != 'void' else None


def async_wait(ex, st, e, obj, a):
    if 'signal_set' in strip_t(e['fn']['q']):
        f = ex.rv(st, a[0])
        ex.event(st, 'signals', 'armed ' + (strip_t(f.fn['q']) if isinstance(f, FnPtr) else '?'))
        return None
    evt(ex, st, 'async_wait' if lasting(ex, obj) else 'async_wait on a dying timer')
    ex.call_value(st, a[0], [Val(OPQ, [EC])], None)


def step(name, fails=None):
    def m(ex, st, e, obj, a):
        b = app(name + ' fails', B, trace_val(ex, st, 'ev').x)
        evt(ex, st, name, *leaves(ex, st, a))
        if fails:
            ex.throw(st, b, Exc(fails))
    return m


def attempt(ex, st, call, again, done=None):
    """run it; on failure another attempt is scheduled"""
    b = app(call + ' fails', B, trace_val(ex, st, 'ev').x)
    evt(ex, st, call)
    cases(ex, st, (b, lambda s: evt(ex, s, again, F)), (None, (lambda s: evt(ex, s, done)) if done else (lambda s: None)))


def retrying(call, again, done=None):
    def spec(ex, st, e, obj, a):
        def now(s):
            evt(ex, s, 'post')
            attempt(ex, s, call, again, done)

        def later(s):
            evt(ex, s, 'expires_after', iv(1))
            evt(ex, s, 'async_wait')
            cases(ex, s, (EC == ABORT, lambda s2: None), (None, lambda s2: attempt(ex, s2, call, again, done)))
        cases(ex, st, (D(ex, st, a[0]), now), (None, later))
    return spec


RESTART, TERMINATE = 'tryRestartControlLoops', 'tryTerminateControlLoops'


def signal_spec(ex, st, e, obj, a):
    """SIGTERM ends the daemon, anything else reloads; the next signal is waited for"""
    def reload(s):
        evt(ex, s, 'expires_after', iv(1))
        evt(ex, s, 'async_wait')
        cases(ex, s, (EC != 0, lambda s2: None), (None, lambda s2: evt(ex, s2, RESTART, T)))

    def handle(s):
        cases(ex, s, (D(ex, s, a[1]) == 15, lambda s2: evt(ex, s2, TERMINATE, T)), (None, reload))
        ex.event(s, 'signals', 'armed signalHandler')
    cases(ex, st, (D(ex, st, a[0]) != 0, lambda s: None), (None, handle))


def listened(ex, st, this, args):
    """the set listens to SIGHUP (1) and SIGTERM (15)"""
    n = D(ex, st, args[1])
    return [z3.Or(n == 1, n == 15)]


def stop_io(ex, st, e, obj, a):
    evt(ex, st, 'io.stop')


def path_empty(ex, st, e, obj, a):
    return B_(sx(ex, st, obj) == sv(''))


def exists(p):
    return app('file exists', B, p)


COMMON.update({'std::filesystem::path::empty': path_empty, 'std::filesystem::exists': lambda ex, st, e, obj, a: B_(exists(sx(ex, st, a[0]))),
               'std::filesystem::current_path': lambda ex, st, e, obj, a: S_(z3.Const('current directory', S)),
               'std::filesystem::operator/': lambda ex, st, e, obj, a: S_(app('path join', S, sx(ex, st, a[0]), sx(ex, st, a[1]))),
               'boost::system::error_code::error_code': code_ctor, 'boost::system::operator==': code_eq, 'boost::system::error_code::operator bool': code_bool,
               'boost::asio::post': post, TIMER + '::expires_after': expires_after, TIMER + '::async_wait': async_wait, 'boost::asio::io_context::stop': stop_io,
               'boost::system::error_code::message': lambda ex, st, e, obj, a: S_(app('message', S, D(ex, st, obj))),
               'boost::asio::basic_signal_set::async_wait': async_wait})
RUN = {NS + 'restartControlLoops': step('restartControlLoops', 'std::exception'), NS + 'stopControlLoops': step('stopControlLoops', 'std::runtime_error'),
       NS + RESTART: step(RESTART), NS + TERMINATE: step(TERMINATE)}


def search_spec(ex, st, e, obj, a):
    """the first config.json there is: working directory, then /var/lib, then /usr/share"""
    ps = [app('path join', S, d, sv('config.json')) for d in (z3.Const('current directory', S), sv('/var/lib/swampd'), sv('/usr/share/swampd'))]
    r = sv('config.json')
    for p in reversed(ps):
        r = z3.If(exists(p), p, r)
    return S_(r)


def search(ex, st, e, obj, a):
    return S_(z3.Const('search path', S))


def timer_made(ex, st, ls):
    """each construction is another timer"""
    tr = trace_val(ex, st, 'alloc').x
    h = app('new timer', I, tr)
    ex.pre_facts.append(h != 0)
    st.roots[('T', 'alloc')] = Val(OPQ, [ev(tr, 'timer')])
    return h


def make_timer(ex, st, e, obj, a):
    return Val(PTR, [timer_made(ex, st, a)])


def loop_started(ex, st, e, obj, a):
    """a loop on (zone, timer), stopped by the flag; by now its timer can be cancelled by stopControlLoops"""
    flag = ex.rv(st, a[2])
    t = D(ex, st, a[1])
    own = any(isinstance(l, Loc) and l.root == ('G', CANCELING, BOOL) for c, l in flag.alts) if isinstance(flag, PV) else False
    ex.event(st, 'loops', 'pidControlLoop', D(ex, st, a[0]), t, T if own else F, gv(ex, st, TIMERS, TVEC).len)


def sh_of(ex, q):
    return next(ex.prog.shape(g['t']) for g in ex.prog.globs.values() if strip_t(g['q']) == q)


def glob(ex, st, q):
    return gv(ex, st, q, sh_of(ex, q))


def put(ex, st, q, v):
    ex.store(st, gloc(q, sh_of(ex, q)), v)


def result(ex, name, sh, ls):
    return Val(sh, [app(f'{name}.{i}' if sh.n > 1 else name, so, *ls) for i, so in enumerate(sh.sorts)])


def init_model(ex, st, e, obj, a):
    """discovery: fills the three configurations; false when the bus does not have everything yet"""
    tr = trace_val(ex, st, 'discovery').x
    ex.event(st, 'discovery', 'init')
    for i, x in enumerate(a[2:5]):
        l = x
        ex.store(st, l, result(ex, f'discovered {i}', l.sh, [tr]))
    return B_(app('discovery complete', B, tr))


def mgr_of(ex, st):
    return glob(ex, st, MGR)


def from_file(ex, s, path):
    bad = app('parse fails', B, path)
    ex.throw(s, bad, EXIT)
    js = result(ex, 'parse', JS(ex), [path]).l
    ex.throw(s, app('sensors from json fails', B, *js), EXIT)
    put(ex, s, SC, result(ex, 'sensors from json', sh_of(ex, SC), js))
    ex.throw(s, app('pids from json fails', B, *js), EXIT)
    both = result(ex, 'pids from json', Rec('pair', [('first', sh_of(ex, ZC)), ('second', sh_of(ex, ZD))]), js)
    put(ex, s, ZC, both.f('first'))
    put(ex, s, ZD, both.f('second'))
    return B_(T)


def from_bus(ex, s):
    tr = trace_val(ex, s, 'discovery').x
    ex.event(s, 'discovery', 'init')
    for i, q in enumerate((SC, ZC, ZD)):
        put(ex, s, q, result(ex, f'discovered {i}', sh_of(ex, q), [tr]))
    return B_(app('discovery complete', B, tr))


def restart_spec(ex, st, e, obj, a):
    """stop; read the configuration; build everything; one fresh timer and loop per zone"""
    stop_spec(ex, st, None, None, [])
    conf = glob(ex, st, 'configPath').x
    path = z3.If(conf != sv(''), conf, z3.Const('search path', S))

    ready = cases(ex, st, (exists(path), lambda s: from_file(ex, s, path)), (None, lambda s: from_bus(ex, s)))
    cases(ex, st, (ready.x, lambda s: build_all(ex, s)), (None, lambda s: None))


def build_all(ex, st):
    cfg = list(glob(ex, st, SC).l)
    ex.throw(st, app('sensors fails', B, *cfg), Exc('std::exception'))
    msh = sh_of(ex, MGR)
    put(ex, st, MGR, Val(msh, (T,) + result(ex, 'sensors', msh.e, cfg).l))
    zcfg = list(glob(ex, st, ZC).l) + list(glob(ex, st, ZD).l) + list(glob(ex, st, MGR).l[1:])
    ex.throw(st, app('zones fails', B, *zcfg), Exc('std::exception'))
    zs = result(ex, 'zones', ZMAP, zcfg)
    ex.store(st, gloc(ZONES, ZMAP), zs)
    ex.event(st, 'loggers', 'buildFailsafeLoggers', *zs.l)
    ex.throw(st, enumN(zs.dom) == 0, EXIT)
    SH = Rec('loops', [('t', TVEC), ('alloc', OPQ), ('loops', OPQ)])

    def one(k, s):
        al = s.f('alloc').x
        h = app('new timer', I, al)
        ts = s.f('t').push(Val(PTR, [h]))
        z = zs.at(enumKey(zs.dom, k)).x
        return Val(SH, list(ts.l) + [ev(al, 'timer'), ev(s.f('loops').x, 'pidControlLoop', z, h, T, ts.len)])
    f = ex.fold('loops', SH, Val(SH, list(gv(ex, st, TIMERS, TVEC).l) + [trace_val(ex, st, 'alloc').x, trace_val(ex, st, 'loops').x]), one, n=enumN(zs.dom), deps=zs.l)
    r = f.end()
    ex.store(st, gloc(TIMERS, TVEC), r.f('t'))
    st.roots[('T', 'alloc')], st.roots[('T', 'loops')] = r.f('alloc'), r.f('loops')


def JS(ex):
    return Sc('o')


def loggers(ex, st, e, obj, a):
    ex.event(st, 'loggers', 'buildFailsafeLoggers', *ex.rv(st, a[0]).l)


def build_sensors(ex, st, e, obj, a):
    ls = list(ex.rv(st, a[0]).l)
    ex.throw(st, app('sensors fails', B, *ls), Exc('std::exception'))
    return result(ex, 'sensors', ex.prog.shape(e['fn']['rt']), ls)


def build_zones(ex, st, e, obj, a):
    ls = list(ex.rv(st, a[0]).l) + list(ex.rv(st, a[1]).l) + list(ex.rv(st, a[2]).l)
    ex.throw(st, app('zones fails', B, *ls), Exc('std::exception'))
    return result(ex, 'zones', ex.prog.shape(e['fn']['rt']), ls)


def leave(ex, st, e, obj, a):
    ex.throw(st, T, EXIT)


BUILD = {'parseValidateJson': builder('parse', 'std::exception'), NS + 'buildSensorsFromJson': builder('sensors from json', 'std::exception'),
         NS + 'buildPIDsFromJson': builder('pids from json', 'std::exception'), 'exit': leave, 'std::exit': leave,
         NS + 'dbus_configuration::init': init_model, NS + 'buildSensors': build_sensors, NS + 'buildZones': build_zones, NS + 'buildFailsafeLoggers': loggers,
         NS + 'stopControlLoops': stop_spec, NS + 'searchConfigurationPath': search, NS + 'pidControlLoop': loop_started, 'make ' + TIMER: make_timer}
PROP = Prop('C29', ['main.cpp'],
            [FnC(NS + 'stopControlLoops', stop_spec, setup=order, throw_state=[('G', CANCELING, BOOL), ('G', ZONES, ZMAP), ('T', 'timers')]),
             FnC(NS + 'restartControlLoops', restart_spec, opaque=OPAQUE, models=BUILD),
             FnC(NS + RESTART, retrying('restartControlLoops', RESTART), models=RUN),
             FnC(NS + TERMINATE, retrying('stopControlLoops', TERMINATE, 'io.stop'), models=RUN),
             FnC(NS + 'searchConfigurationPath', search_spec),
             FnC('signalHandler', signal_spec, pre=listened, models=RUN, opaque=['boost::system::error_code'])],
            models=COMMON, driver='c29',
            assumptions=['the pid loops take and give up their zones in map order (whenever any zone is in use, the first one is): pidControlLoop posts one completion per zone, in order, and each ends at its next tick',
                         'boost::asio runs a posted function exactly once and a timer handler exactly once, with operation_aborted when cancelled; handlers never run concurrently (one io_context, one thread)',
                         'the construction steps (parse, build*, discovery) are functions of their arguments that may fail; their own behaviour is the subject of C17, C18, C24, C30',
                         'main() itself and the interleavings of handlers are exercised by the driver only'])
