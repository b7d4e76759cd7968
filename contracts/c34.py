"""Start-up: options, bus names, and where the configuration comes from (main.cpp)."""
from .base import *
from . import c29
from .c29 import evt, exists

OTHER = z3.Const('unusable command line', B)
CODE = z3.Const('exit code of the option parser', I)
NAMESET = Set(STR)
CHECKS = {'CLI::ExistingFile': 'file', 'CLI::ExistingDirectory': 'directory'}
OPTIONS = (('-c,--conf', 'configPath', 'file'), ('-l,--log', 'loggingPath', 'directory'), ('-t,--tuning', 'tuningEnabled', None),
           ('-d,--debug', 'debugEnabled', None), ('-g,--corelogging', 'coreLoggingEnabled', None))


def key(name):
    return ','.join(sorted(name.replace(' ', '').split(',')))


def given(name):
    return app('given', B, sv(key(name)))


def text_given(name):
    return app('argument', S, sv(key(name)))


def is_a(kind, t):
    return app('existing ' + kind, B, t)


def option(ex, st, e, obj, a):
    name = const_s(sx(ex, st, a[0]))
    if name is None or not isinstance(a[1], Loc):
        raise Unsup('option')
    if not hasattr(ex, 'cli'):
        ex.cli = []
    ex.cli.append([name, a[1], None])
    return Val(PTR, [iv(len(ex.cli))])


def check(ex, st, e, obj, a):
    i = z3.simplify(ex.handle_of(st, obj))
    kind = CHECKS.get(const_s(sx(ex, st, a[0])))
    if not z3.is_int_value(i) or kind is None or ex.cli[i.as_long() - 1][2]:
        raise Unsup('option check')
    ex.cli[i.as_long() - 1][2] = kind
    return Val(PTR, [i])


def validator(ex, st, e, v, x):
    if isinstance(v, Loc) and v.root[0] == 'G':
        return S_(sv(v.root[1]))
    raise Unsup('validator')


def parse(ex, st, e, obj, a):
    """each option given is stored; one that fails its check, or anything else on the line, is an error"""
    bad = OTHER
    for name, l, kind in ex.cli:
        if kind:
            bad = z3.Or(bad, z3.And(given(name), z3.Not(is_a(kind, text_given(name)))))
    ex.throw(st, bad, Exc('CLI::ParseError'))
    for name, l, kind in ex.cli:
        old = ex.load(st, l)
        if old.sh.k == 'b':
            ex.store(st, l, B_(z3.Or(given(name), old.x)))
        else:
            ex.store(st, l, S_(z3.If(given(name), text_given(name), old.x)))


def getline(ex, st, e, obj, a):
    s = ex.load(st, a[0])
    if s.sh.q != lib.FSTREAM:
        raise Unsup('getline')
    ex.store(st, a[1], S_(z3.If(s.f('open').x, app('first line', S, s.f('path').x), sx(ex, st, a[1]))))
    ex.store(st, a[0].f('path'), S_(app('rest of', S, s.f('path').x)))
    return a[0]


def name_on(ex, st, e, obj, a):
    own(ex, st, ex.handle_of(st, obj), sx(ex, st, a[0]))


def own(ex, st, bus, name):
    s = ex.root(st, ('T', 'names'))
    st.roots[('T', 'names')] = Val(NAMESET, [z3.Store(s.dom, app('name on', S, bus, name), z3.BoolVal(True))])


def run(ex, st, e, obj, a):
    """what is in place when the event loop starts"""
    st.roots[('T', 'names at run')] = ex.root(st, ('T', 'names'))
    for n in ('restart', 'signals', 'monitor'):
        ex.event(st, 'run', 'with', trace_val(ex, st, n).x)
    return I_(iv(0), 64, False)


def mark(ch, name):
    def m(ex, st, e, obj, a):
        ex.event(st, ch, name, *[D(ex, st, x) for x in a])
    return m


def listen(ex, st, e, obj, a):
    f = ex.rv(st, a[0])
    ex.event(st, 'signals', 'listen ' + (strip_t(f.fn['q']) if isinstance(f, FnPtr) else '?'), ex.handle_of(st, obj))


def setup(ex, st, this, args):
    for n in ('names', 'names at run'):
        ex.initial[('T', n)] = Val(NAMESET, [z3.Const(n, NAMESET.sorts[0])])
        ex.root(st, ('T', n))
    st.assume(gv(ex, st, 'configPath', STR).x == sv(''))
    return []


def loc(ex, n):
    return gloc(n, BOOL if n.endswith('Enabled') else STR)


def addr(ex, st, q):
    sh = c29.sh_of(ex, q)
    return ex.handle_of(st, gloc(q, sh))


def main_spec(ex, st, e, obj, a):
    old = gv(ex, st, 'configPath', STR).x
    ex.store(st, loc(ex, 'loggingPath'), S_(sv('')))
    for n in ('loggingEnabled', 'tuningEnabled', 'debugEnabled', 'coreLoggingEnabled'):
        ex.store(st, loc(ex, n), B_(F))
    bad = OTHER
    for name, g, kind in OPTIONS:
        if kind:
            bad = z3.Or(bad, z3.And(given(name), z3.Not(is_a(kind, text_given(name)))))

    def go(s):
        th = lambda n: sv('/etc/thermal.d/' + n)
        log = z3.If(given('-l,--log'), text_given('-l,--log'), sv(''))
        marked = app('file readable', B, th('logging'))
        alt = app('first line', S, th('logging'))
        put = lambda n, v: ex.store(s, loc(ex, n), v)
        put('configPath', S_(z3.If(given('-c,--conf'), text_given('-c,--conf'), old)))
        put('loggingEnabled', B_(z3.Or(log != sv(''), marked)))
        temp = z3.Const('temporary folder', S)
        put('loggingPath', S_(z3.If(marked, z3.If(exists(alt), alt, z3.If(log == sv(''), temp, log)), log)))
        for n, o, f in (('tuningEnabled', '-t,--tuning', 'tuning'), ('debugEnabled', '-d,--debug', 'debugging'), ('coreLoggingEnabled', '-g,--corelogging', 'corelogging')):
            put(n, B_(z3.Or(given(o), exists(th(f)))))
        own(ex, s, addr(ex, s, 'hostBus'), sv('xyz.openbmc_project.Hwmon.external'))
        own(ex, s, addr(ex, s, 'modeControlBus'), sv('xyz.openbmc_project.State.FanCtrl'))
        ex.event(s, 'signals', 'listen signalHandler', addr(ex, s, 'signals'))
        ex.event(s, 'restart', 'tryRestartControlLoops', T)
        ex.event(s, 'monitor', 'startMonitoring')
        run(ex, s, None, None, [])
        return I_(iv(0), 32, False)
    return cases(ex, st, (bad, lambda s: I_(CODE, 32, False)), (None, go))


CLI = 'CLI::App'
MODELS = {CLI + '::App': lambda ex, st, e, obj, a: Val(OPQ, [iv(0)]), CLI + '::add_option': option, CLI + '::add_flag': option, 'CLI::Option::check': check,
          CLI + '::parse': parse, CLI + '::exit': lambda ex, st, e, obj, a: I_(CODE, 32, False), 'ctor-copy CLI::Validator': validator,
          'std::filesystem::temp_directory_path': lambda ex, st, e, obj, a: S_(z3.Const('temporary folder', S)), 'std::getline': getline,
          'sdbusplus::bus_t::request_name': name_on, 'sdbusplus::asio::connection::request_name': name_on, 'boost::asio::io_context::run': run,
          'boost::asio::basic_signal_set::async_wait': listen, NS + c29.RESTART: mark('restart', c29.RESTART),
          'HostStateMonitor::getInstance': lambda ex, st, e, obj, a: Val(ex.prog.shape(e['fn']['rt']), [iv(1)]),
          'HostStateMonitor::startMonitoring': mark('monitor', 'startMonitoring')}
# where the configuration comes from: the steps of a reload that are not about it always work here
def fine(name, n=2):
    def m(ex, st, e, obj, a):
        return c29.result(ex, name, ex.prog.shape(e['fn']['rt']), [l for x in a[:n] for l in ex.rv(st, x).l])
    return m


def source_spec(ex, st, e, obj, a):
    conf = c29.glob(ex, st, 'configPath').x
    path = z3.If(conf != sv(''), conf, z3.Const('search path', S))
    ready = cases(ex, st, (exists(path), lambda s: c29.from_file(ex, s, path)), (None, lambda s: c29.from_bus(ex, s)))

    def use(s):
        msh = c29.sh_of(ex, c29.MGR)
        c29.put(ex, s, c29.MGR, Val(msh, (T,) + c29.result(ex, 'sensors built', msh.e, list(c29.glob(ex, s, c29.SC).l)).l))
        z = [l for q in (c29.ZC, c29.ZD) for l in c29.glob(ex, s, q).l]
        zs = c29.result(ex, 'zones built', c29.ZMAP, z)
        ex.throw(s, enumN(zs.dom) == 0, c29.EXIT)
    cases(ex, st, (ready.x, use), (None, lambda s: None))


SOURCE = {**c29.BUILD, NS + 'stopControlLoops': noeffect(), NS + 'buildSensors': fine('sensors built', 1), NS + 'buildZones': fine('zones built'),
          NS + 'buildFailsafeLoggers': noeffect(), NS + 'pidControlLoop': noeffect()}
ELSE = [('G', c29.TIMERS, c29.TVEC), ('G', c29.ZONES, c29.ZMAP), 'alloc', 'loggers']


PROP = Prop('C34', ['main.cpp'],
            [FnC('main', main_spec, models=MODELS, setup=setup, opaque=['CLI::App', 'CLI::Option', 'CLI::Validator']),
             FnC(NS + 'searchConfigurationPath', c29.search_spec),
             FnC(NS + 'restartControlLoops', source_spec, models=SOURCE, opaque=c29.OPAQUE, ignore_roots=ELSE, name=NS + 'restartControlLoops (source)')],
            models=c29.COMMON, driver='c34')
