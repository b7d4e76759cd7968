"""D-Bus discovery: what init() does with one object that survived the profile filter (statement contracts)."""
from .base import *
from vcg.contract import Part, cover
from .c17 import get_spec as zone_index
from .c20 import num, opt, attr
from .c26 import must
from .c30i import GATHER, DC, ERR, VALUE, PWM, PROPS_, ZONES, SENSORS, text

POP = DC + 'populatePidInfo'
FIND = NS + 'findSensors'
LAST = DC + 'getSensorNameFromPath'
BUSNAME = DC + 'sensorNameToDbusName'
SPLICE = NS + 'spliceInputs'
NAMES = Vec(STR)
PAIRS = Vec(Rec('std::pair', [('first', STR), ('second', STR)]))
RANGE = Exc('std::out_of_range')


def ins(ex, st, **kw):
    """any value of the variables declared before the stretch"""
    for n, sh in kw.items():
        ex.initial[('T', n)] = st.roots[('T', n)] = consts(sh, n)
        for v in lib_lens(kw[n], ex.initial[('T', n)]):
            ex.pre_facts.append(v >= 0)
    return []


def lib_lens(sh, v):
    return [v.len] if isinstance(sh, Vec) else []


def outs(ex, **kw):
    for n, sh in kw.items():
        ex.initial.setdefault(('T', n), default(sh))


def put(st, n, v):
    st.roots[('T', n)] = v


def bus_name(s):
    return app('sreplace', S, s, iv(ord(' ')), iv(ord('_')))


def busname(ex, st, e, obj, a):
    """the name with _ for every blank"""
    return S_(bus_name(sx(ex, st, a[0])))


def last(ex, st, e, obj, a):
    return S_(app('last part', S, sx(ex, st, a[0])))


def found(sensors, name, old):
    """findSensors by its own contract: a function of its arguments"""
    return Val(old.sh, [app(f'found sensors.{i}', so, *sensors.l, name, *old.l) for i, so in enumerate(old.sh.sorts)])


def find(ex, st, e, obj, a):
    sensors, name, old = ex.rv(st, a[0]), sx(ex, st, a[1]), ex.load(st, a[2])
    v = found(sensors, name, old)
    ex.pre_facts.append(v.len >= 0)
    ex.store(st, a[2], v)
    return B_(v.len > 0)


MODELS = {BUSNAME: busname, LAST: last, FIND: find, NS + 'getZoneIndex': zone_index}


def need(ex, st, m, key, tag):
    ex.throw(st, z3.Not(m.has(sv(key))), RANGE)
    return must_v(ex, st, m.at(sv(key)), tag)


def must_v(ex, st, v, tag):
    ex.throw(st, v.f('tag').x != tag, Exc('std::bad_variant_access'))
    return v.f(f'a{tag}')


def may(ex, st, m, key, tag, dflt):
    v = m.at(sv(key))
    return cases(ex, st, (m.has(sv(key)), lambda s: must_v(ex, s, v, tag)), (None, lambda s: dflt))


# --- what a controller says, for one of its zones
def options_setup(ex, st, this, args):
    ins(ex, st, base=PROPS_, pidClass=STR, zone=STR, zones=ZONES)
    outs(ex, zoneOf=I_(iv(0), 64, False).sh, inputs=NAMES, outputs=NAMES, acceptable=NAMES, unavailableAsFailed=BOOL, ignoreFailIfHostOff=BOOL,
         inputsFound=PAIRS, outputsFound=PAIRS, acceptableFound=PAIRS, used=NAMES)
    return []


def options(ex, st, e, obj, a):
    """its zone is there, its options are as written; nothing is resolved yet"""
    base, cls = trace_val(ex, st, 'base'), trace_val(ex, st, 'pidClass').x
    zl = Loc(('T', 'zones'), ZONES)
    idx = zone_index(ex, st, None, None, [trace_val(ex, st, 'zone'), zl]).x
    zc = ex.load(st, a[3])
    ex.store(st, a[3], ite(zc.has(idx), zc, zc.set(idx, default(zc.sh.v))))
    put(st, 'zoneOf', I_(idx, 64, False))
    put(st, 'inputs', need(ex, st, base, 'Inputs', 5))
    put(st, 'acceptable', may(ex, st, base, 'MissingIsAcceptable', 5, default(NAMES)))
    put(st, 'outputs', cases(ex, st, (cls == sv('fan'), lambda s: must_v(ex, s, attr(ex, s, base, sv('Outputs')), 5)), (None, lambda s: default(NAMES))))
    put(st, 'unavailableAsFailed', may(ex, st, base, 'InputUnavailableAsFailed', 4, B_(T)))
    put(st, 'ignoreFailIfHostOff', may(ex, st, base, 'IgnoreFailIfHostOff', 4, B_(F)))
    for n in ('inputsFound', 'outputsFound', 'acceptableFound'):
        put(st, n, default(PAIRS))
    put(st, 'used', default(NAMES))


def zone_entry(l):
    """the zone's entry of the zone configuration (init's fourth parameter)"""
    if len(l.path) == 1 and l.path[0][0] == 'ix' and isinstance(l.sh, Map) and l.root[1] == 'arg3':
        return I_(l.path[0][1], 64, False)
    return None


INS = [('base', 'base'), ('pidClass', 'pidClass'), ('zone', 'zone'), ('zones', ZONES)]
OPTIONS = FnC(DC + 'init', options, name=DC + 'init (a controller: its options)', throws_any=True, setup=options_setup, models=MODELS,
              part=Part(FIND, [('zones', ZONES), ('zoneOf', zone_entry), ('inputs', 'inputSensorNames'), ('outputs', 'outputSensorNames'), ('acceptable', 'missingAcceptableSensorNames'),
                               ('unavailableAsFailed', 'unavailableAsFailed'), ('ignoreFailIfHostOff', 'ignoreFailIfHostOff'), ('inputsFound', 'inputSensorInterfaces'),
                               ('outputsFound', 'outputSensorInterfaces'), ('acceptableFound', 'missingAcceptableSensorInterfaces'), ('used', 'archivedInputSensorNames')],
                        within=[POP, POP], ins=INS))


# --- the sensors its names stand for
def resolve_setup(ex, st, this, args):
    return ins(ex, st, sensors=SENSORS, pidClass=STR, used=NAMES, unavailableAsFailed=BOOL, ignoreFailIfHostOff=BOOL, inputs=NAMES, outputs=NAMES, acceptable=NAMES, inputsFound=PAIRS, outputsFound=PAIRS, acceptableFound=PAIRS)


def resolve(ex, st, e, obj, a):
    """every name in turn adds the sensors it stands for"""
    sensors = trace_val(ex, st, 'sensors')
    for n in ('inputs', 'outputs', 'acceptable'):
        names, old = trace_val(ex, st, n), trace_val(ex, st, n + 'Found')

        def step(k, s, names=names):
            return found(sensors, bus_name(names.at(k).x), s)
        f = ex.fold(n + ' resolved', PAIRS, old, step, n=names.len, deps=names.l + old.l + sensors.l)
        put(st, n + 'Found', f.end())


RESOLVE = FnC(DC + 'init', resolve, name=DC + 'init (a controller: its sensors)', throws_any=True, setup=resolve_setup, models=MODELS,
              part=Part(LAST, [('inputsFound', 'inputSensorInterfaces'), ('outputsFound', 'outputSensorInterfaces'), ('acceptableFound', 'missingAcceptableSensorInterfaces')],
                        within=[POP, POP], start=FIND,
                        ins=[('sensors', 'sensors'), ('pidClass', 'pidClass'), ('used', 'archivedInputSensorNames'), ('unavailableAsFailed', 'unavailableAsFailed'), ('ignoreFailIfHostOff', 'ignoreFailIfHostOff'),
                             ('inputs', 'inputSensorNames'), ('outputs', 'outputSensorNames'),
                             ('acceptable', 'missingAcceptableSensorNames'), ('inputsFound', 'inputSensorInterfaces'), ('outputsFound', 'outputSensorInterfaces'),
                             ('acceptableFound', 'missingAcceptableSensorInterfaces')]))


# --- the sensors it uses are entered in the sensor configuration
CONFS = Map(STR, Rec(NS + 'conf::SensorConfig', [('type', STR), ('readPath', STR), ('writePath', STR), ('min', Sc('i', 64, False)), ('max', Sc('i', 64, False)), ('timeout', Sc('i', 64, False)),
                                                 ('ignoreDbusMinMax', BOOL), ('unavailableAsFailed', BOOL), ('ignoreFailIfHostOff', BOOL)]))
USED = Rec('used', [('conf', CONFS), ('names', NAMES), ('bad', BOOL)])
THERMAL = ('temp', 'margin', 'power', 'powersum')
THRESHOLDS = ('CriticalLow', 'CriticalHigh', 'WarningLow', 'WarningHigh')


def last_of(path):
    return app('last part', S, path)


def enter_setup(ex, st, this, args):
    ins(ex, st, base=PROPS_, pidName=STR, pidClass=STR, inputsFound=PAIRS, outputsFound=PAIRS, acceptableFound=PAIRS, used=NAMES, unavailableAsFailed=BOOL, ignoreFailIfHostOff=BOOL)
    ex.pre_facts.append(ex.initial[('T', 'inputsFound')].len < 2 ** 32 - 1)
    outs(ex, acceptable=NAMES, left=BOOL, offset=STR, margins=Vec(DBL))
    return []


def enter(ex, st, e, obj, a):
    g = lambda n: trace_val(ex, st, n)
    base, cls, inp, outp, acc, used = (g(n) for n in ('base', 'pidClass', 'inputsFound', 'outputsFound', 'acceptableFound', 'used'))
    una, ign, cls = g('unavailableAsFailed'), g('ignoreFailIfHostOff'), cls.x
    c0 = ex.load(st, a[2])
    deps = inp.l + outp.l + c0.l + used.l + (cls,) + una.l + ign.l
    thermal = z3.Or(*[cls == sv(x) for x in THERMAL])
    i64 = lambda n: I_(iv(n), 64, False)

    def step(k, s):
        x = inp.at(k)
        path = x.f('first')
        key = last_of(path.x)
        c, n = s.f('conf'), s.f('names')
        old = ite(c.has(key), c.at(key), default(c.sh.v))
        new_ = old.withf('type', S_(cls)).withf('readPath', path).withf('timeout', i64(0)).withf('ignoreDbusMinMax', B_(T)).withf('unavailableAsFailed', una).withf('ignoreFailIfHostOff', ign)
        bad = z3.Or(s.f('bad').x, x.f('second').x != sv(VALUE))
        l = ite(thermal, c.set(key, new_), c).l + ite(thermal, n.push(S_(key)), n).l
        return ite(s.f('bad').x, s, Val(USED, l + (bad,)))
    r = ex.fold('entered', USED, Val(USED, c0.l + used.l + (F,)), step, n=inp.len, deps=deps, absorb=lambda s: s.f('bad').x).end()
    ex.throw(st, r.f('bad').x, ERR)

    def named(k, s):
        x = acc.at(k)
        return ite(s.f('bad').x, s, Val(NAMED, s.f('names').push(S_(last_of(x.f('first').x))).l + (z3.Or(s.f('bad').x, x.f('second').x != sv(VALUE)),)))
    NAMED = Rec('named', [('names', NAMES), ('bad', BOOL)])
    m = ex.fold('acceptable names', NAMED, Val(NAMED, default(NAMES).l + (F,)), named, n=acc.len, deps=acc.l, absorb=lambda s: s.f('bad').x).end()
    ex.throw(st, m.f('bad').x, ERR)
    one = outp.len == 1

    def fans(s):
        ex.throw(s, z3.And(z3.Not(one), inp.len != outp.len), ERR)

        def fan(k, s):
            tach, pwm = inp.at(k).f('first'), ite(one, outp.at(iv(0)), outp.at(k))
            key = sconcat(last_of(tach.x), last_of(pwm.f('first').x))
            c, n = s.f('conf'), s.f('names')
            old = ite(c.has(key), c.at(key), default(c.sh.v))
            new_ = old.withf('type', S_(cls)).withf('readPath', tach).withf('writePath', pwm.f('first')).withf('max', i64(255)).withf('min', i64(0))
            wrong = z3.Or(s.f('bad').x, pwm.f('second').x != sv(PWM))
            return ite(wrong, Val(USED, s.l[:-1] + (T,)), Val(USED, c.set(key, new_).l + n.push(S_(key)).l + (F,)))
        f = ex.fold('fans', USED, Val(USED, r.l[:-1] + (F,)), fan, n=inp.len, deps=deps, absorb=lambda s: s.f('bad').x).end()
        ex.throw(s, f.f('bad').x, ERR)
        return f

    def single(ex_, st_, mod, entry):     # with one output it serves every input
        return [(f'{k[0][1]} fixed', lambda kk, m, k=k: z3.Implies(one, m[k] == entry[k])) for k in mod if mod[k].sort() == S]
    ex.hints.append(single)
    f = cases(ex, st, (cls == sv('fan'), fans), (None, lambda s: r))
    ex.store(st, a[2], f.f('conf'))
    put(st, 'used', f.f('names'))
    put(st, 'acceptable', m.f('names'))
    none = f.f('names').len == 0
    put(st, 'left', B_(none))

    def rest(s):
        def off(s2):
            t = must_v(ex, s2, base.at(sv('SetPointOffset')), 3)
            ex.throw(s2, z3.And(*[t.x != sv(x) for x in THRESHOLDS]), ERR)
            return t
        put(s, 'offset', cases(ex, s, (base.has(sv('SetPointOffset')), off), (None, lambda s2: S_(sv('')))))
        put(s, 'margins', may(ex, s, base, 'TempToMargin', 6, default(Vec(DBL))))
    cases(ex, st, (z3.Not(none), rest), (None, lambda s: None))


ENTER = FnC(DC + 'init', enter, name=DC + 'init (a controller: sensors entered)', throws_any=True, setup=enter_setup, models=MODELS,
            part=Part(SPLICE, [('used', 'archivedInputSensorNames'), ('acceptable', 'missingAcceptableSensorNames'), ('offset', 'offsetType'), ('margins', 'inputTempToMargin')],
                      within=[POP, POP], start=LAST,
                      ins=[('base', 'base'), ('pidName', 'pidName'), ('pidClass', 'pidClass'), ('inputsFound', 'inputSensorInterfaces'), ('outputsFound', 'outputSensorInterfaces'),
                           ('acceptableFound', 'missingAcceptableSensorInterfaces'), ('used', 'archivedInputSensorNames'), ('unavailableAsFailed', 'unavailableAsFailed'),
                           ('ignoreFailIfHostOff', 'ignoreFailIfHostOff')]))


# --- the controller itself
BUILT = {}


def info_shape(ex):
    return ex.prog.rec_shape(NS + 'conf::ControllerInfo')


def inputs_shape(ex):
    return info_shape(ex).off['inputs'][1]


def spliced(ex, names, margins, acc):
    sh = inputs_shape(ex)
    v = Val(sh, [app(f'spliced.{i}', so, *names.l, *margins.l, *acc.l) for i, so in enumerate(sh.sorts)])
    ex.pre_facts.append(v.len >= 0)
    return v


def splice(ex, st, e, obj, a):
    return spliced(ex, *[ex.rv(st, x) for x in a])


def populated(base, inf, thr, cfg, bus):
    """(fails, controller, bus) by the contract of populatePidInfo: a function of what it is given"""
    h = app('populated', I, *base.l, *inf.l, *thr, *cfg.l, bus)
    return app('populate fails', B, h), Val(inf.sh, [app(f'populated.{i}', so, h) for i, so in enumerate(inf.sh.sorts)]), ev(bus, 'populate', h)


def populate(ex, st, e, obj, a):
    p = ex.rv(st, a[3])
    if isinstance(p, PV):
        loc = next((l for c, l in p.alts if l is not None), None)
        thr = (p.nonnull(), ex.load(st, loc).x if loc is not None else sv(''))
    else:
        thr = (F, sv(''))
    bad, v, bus = populated(ex.rv(st, a[1]), ex.load(st, a[2]), thr, ex.rv(st, a[4]), trace_val(ex, st, 'bus').x)
    ex.throw(st, bad, ERR)
    put(st, 'bus', Val(OPQ, [bus]))
    ex.store(st, a[2], v)


def build_setup(ex, st, this, args):
    return ins(ex, st, base=PROPS_, pidName=STR, used=NAMES, acceptable=NAMES, margins=Vec(DBL), offset=STR, controllers=Map(STR, info_shape(ex)))


def build(ex, st, e, obj, a):
    """one controller under its own name; with a threshold one for each input, under the input's name"""
    g = lambda n: trace_val(ex, st, n)
    base, cs, cfg, off = g('base'), g('controllers'), ex.rv(st, a[2]), g('offset').x
    inp = spliced(ex, g('used'), g('margins'), g('acceptable'))
    bus = g('bus').x
    new_ = lambda s, key, c: ite(c.has(key), c.at(key), ex.value_init(info_shape(ex), s))

    def one(s):
        key = g('pidName').x
        bad, v, b = populated(base, new_(s, key, cs).withf('inputs', inp), (F, sv('')), cfg, bus)
        ex.throw(s, bad, ERR)
        put(s, 'bus', Val(OPQ, [b]))
        put(s, 'controllers', cs.set(key, v))
    SH = Rec('built', [('c', cs.sh), ('bus', OPQ), ('bad', BOOL)])

    def step(k, s):
        x = inp.at(k)
        c = s.f('c')
        n = new_(st, x.f('name').x, c)
        bad, v, b = populated(base, n.withf('inputs', n.f('inputs').push(x)), (T, off), cfg, s.f('bus').x)
        return ite(z3.Or(s.f('bad').x, bad), Val(SH, s.l[:-1] + (T,)), Val(SH, c.set(x.f('name').x, v).l + (b, F)))

    def each(s):
        r = ex.fold('built', SH, Val(SH, cs.l + (bus, F)), step, n=inp.len, deps=inp.l + base.l + cs.l + cfg.l + (off, bus), absorb=lambda s: s.f('bad').x).end()
        ex.throw(s, r.f('bad').x, ERR)
        put(s, 'bus', r.f('bus'))
        put(s, 'controllers', r.f('c'))
    cases(ex, st, (off == sv(''), one), (None, each))


BUILD = FnC(DC + 'init', build, name=DC + 'init (a controller: built)', throws_any=True, setup=build_setup, models={**MODELS, SPLICE: splice, POP: populate},
            part=Part(None, [('controllers', 'conf')], within=[POP, POP], start=SPLICE,
                      ins=[('base', 'base'), ('pidName', 'pidName'), ('used', 'archivedInputSensorNames'), ('acceptable', 'missingAcceptableSensorNames'), ('margins', 'inputTempToMargin'),
                           ('offset', 'offsetType'), ('controllers', 'conf')]))


# --- one object: its zone configuration, and whether it has a controller
from .c30i import DETAILS, OBJECT, details_spec, PID, STEP, ZONE, CONF


def object_ins(ex, st):
    ins(ex, st, object=OBJECT, zones=ZONES)


def head_outs(ex):
    outs(ex, taken=BOOL, base=PROPS_, pidName=STR, pidClass=STR, over=NAMES)


def head(cls, intf):
    def spec(ex, st, e, obj, a):
        if cls:
            details_spec(ex, st, e, obj, a)
        objs = trace_val(ex, st, 'object').f('second')
        has = objs.has(sv(intf))
        put(st, 'taken', B_(has))

        def there(s):
            base = objs.at(sv(intf))
            put(s, 'base', base)
            put(s, 'pidName', S_(bus_name(need(ex, s, base, 'Name', 3).x)))
            if cls:
                put(s, 'pidClass', need(ex, s, base, 'Class', 3))
            put(s, 'over', need(ex, s, base, 'Zones', 5))
        cases(ex, st, (has, there), (None, lambda s: None))
    return spec


def head_setup(ex, st, this, args):
    object_ins(ex, st)
    head_outs(ex)
    return []


HEAD = FnC(DC + 'init', head(True, PID), name=DC + 'init (an object: zone configuration, controller)', throws_any=True, setup=head_setup, models=MODELS,
           part=Part(POP, [('zones', ZONES), ('base', 'base'), ('pidName', 'pidName'), ('pidClass', 'pidClass')], within=[POP], enter=True, over='over',
                     ins=[('object', OBJECT), ('zones', ZONES)]))
STEPS = (SPLICE, POP)
HEAD2 = FnC(DC + 'init', head(False, STEP), name=DC + 'init (an object: stepwise controller)', throws_any=True, setup=head_setup, models=MODELS,
            part=Part(STEPS, [('base', 'base'), ('pidName', 'pidName')], within=[POP], start=STEPS, enter=True, over='over', ins=[('object', OBJECT), ('zones', ZONES)]))


# --- a stepwise controller, for one of its zones
def soptions_setup(ex, st, this, args):
    ins(ex, st, base=PROPS_, zone=STR, zones=ZONES)
    outs(ex, zoneOf=I_(iv(0), 64, False).sh, inputs=NAMES, names=NAMES, acceptable=NAMES, acceptableFound=NAMES, unavailableAsFailed=BOOL, ignoreFailIfHostOff=BOOL, sensorFound=BOOL)
    return []


def soptions(ex, st, e, obj, a):
    base = trace_val(ex, st, 'base')
    zl = Loc(('T', 'zones'), ZONES)
    idx = zone_index(ex, st, None, None, [trace_val(ex, st, 'zone'), zl]).x
    zc = ex.load(st, a[3])
    ex.store(st, a[3], ite(zc.has(idx), zc, zc.set(idx, default(zc.sh.v))))
    put(st, 'zoneOf', I_(idx, 64, False))
    put(st, 'names', need(ex, st, base, 'Inputs', 5))
    put(st, 'acceptable', may(ex, st, base, 'MissingIsAcceptable', 5, default(NAMES)))
    put(st, 'unavailableAsFailed', may(ex, st, base, 'InputUnavailableAsFailed', 4, B_(T)))
    put(st, 'ignoreFailIfHostOff', may(ex, st, base, 'IgnoreFailIfHostOff', 4, B_(F)))
    put(st, 'inputs', default(NAMES))
    put(st, 'acceptableFound', default(NAMES))
    put(st, 'sensorFound', B_(F))


SOPTIONS = FnC(DC + 'init', soptions, name=DC + 'init (a stepwise controller: its options)', throws_any=True, setup=soptions_setup, models=MODELS,
               part=Part(FIND, [('zones', ZONES), ('zoneOf', zone_entry), ('names', 'sensorNames'), ('inputs', 'inputs'), ('acceptable', 'missingAcceptableSensorNames'),
                                ('acceptableFound', 'missingAcceptableSensors'), ('unavailableAsFailed', 'unavailableAsFailed'), ('ignoreFailIfHostOff', 'ignoreFailIfHostOff'), ('sensorFound', 'sensorFound')],
                         within=[POP, STEPS], ins=[('base', 'base'), ('zone', 'zone'), ('zones', ZONES)]))


def sbuild_setup(ex, st, this, args):
    ins(ex, st, base=PROPS_, pidName=STR, sensors=SENSORS, names=NAMES, inputs=NAMES, acceptable=NAMES, acceptableFound=NAMES, unavailableAsFailed=BOOL, ignoreFailIfHostOff=BOOL,
        sensorFound=BOOL, controllers=Map(STR, info_shape(ex)))
    outs(ex, left=BOOL)
    return []


SUSED = Rec('used', [('conf', CONFS), ('names', NAMES), ('any', BOOL), ('over', BOOL)])


def sbuild(ex, st, e, obj, a):
    g = lambda n: trace_val(ex, st, n)
    base, sensors, names, inputs, acc, accf, cs = (g(n) for n in ('base', 'sensors', 'names', 'inputs', 'acceptable', 'acceptableFound', 'controllers'))
    una, ign = g('unavailableAsFailed'), g('ignoreFailIfHostOff')
    c0 = ex.load(st, a[2])
    deps = names.l + inputs.l + sensors.l + c0.l + una.l + ign.l + acc.l + accf.l + g('sensorFound').l
    zs, za = z3.Int('zs'), z3.Int('za')
    F_ = {}
    stands = lambda v, z: found(sensors, bus_name(v.at(z).x), default(PAIRS))

    def enter(z, k, s):
        path = stands(names, z).at(k).f('first')
        key = last_of(path.x)
        c = s.f('conf')
        old = ite(c.has(key), c.at(key), default(c.sh.v))
        new_ = old.withf('readPath', path).withf('type', S_(sv('temp'))).withf('ignoreDbusMinMax', B_(T)).withf('unavailableAsFailed', una).withf('ignoreFailIfHostOff', ign).withf('timeout', I_(iv(0), 64, False))
        return Val(SUSED, c.set(key, new_).l + s.f('names').push(S_(key)).l + (T, s.f('over').x))

    def name(k, s):
        none = z3.Not(stands(names, k).len > 0)
        return ite(s.f('over').x, s, ite(none, Val(SUSED, s.l[:-1] + (T,)), F_['in'].end(k)))
    out = ex.fold('inputs entered', SUSED, Val(SUSED, c0.l + inputs.l + (g('sensorFound').x, F)), name, n=names.len, deps=deps, absorb=lambda s: s.f('over').x)
    F_['in'] = ex.fold('sensors entered', SUSED, lambda z: out.at(z), enter, n=lambda z: stands(names, z).len, deps=deps, params=(zs,))
    r = out.end()
    ex.store(st, a[2], r.f('conf'))
    none = z3.Not(r.f('any').x)
    put(st, 'left', B_(none))
    put(st, 'inputs', r.f('names'))
    put(st, 'sensorFound', r.f('any'))
    ACC = Rec('acceptable', [('names', NAMES), ('over', BOOL)])

    def rest(s):
        def accname(k, t):
            return ite(t.f('over').x, t, ite(z3.Not(stands(acc, k).len > 0), Val(ACC, t.l[:-1] + (T,)), F_['ain'].end(k)))
        aout = ex.fold('acceptable entered', ACC, Val(ACC, accf.l + (F,)), accname, n=acc.len, deps=deps, absorb=lambda t: t.f('over').x)
        F_['ain'] = ex.fold('acceptable sensors', ACC, lambda z: aout.at(z), lambda z, k, t: Val(ACC, t.f('names').push(S_(last_of(stands(acc, z).at(k).f('first').x))).l + (t.f('over').x,)),
                            n=lambda z: stands(acc, z).len, deps=deps, params=(za,))
        found_ = aout.end().f('names')
        put(s, 'acceptableFound', found_)
        key = g('pidName').x
        margins = may(ex, s, base, 'TempToMargin', 6, default(Vec(DBL)))
        i = ite(cs.has(key), cs.at(key), ex.value_init(info_shape(ex), s))
        i = i.withf('inputs', spliced(ex, r.f('names'), margins, found_)).withf('type', S_(sv('stepwise')))
        sub = need(ex, s, base, 'Class', 3).x
        w = i.f('stepwiseInfo')
        numopt = lambda k: opt(ex, s, base, k, num, D_(dv(0.0)))
        w = w.withf('ts', D_(dv(1.0))).withf('isCeiling', B_(sub == sv('Ceiling'))).withf('positiveHysteresis', D_(numopt('PositiveHysteresis'))).withf('negativeHysteresis', D_(numopt('NegativeHysteresis')))
        rd = need(ex, s, base, 'Reading', 6)
        ex.pre_facts.append(rd.len >= 0)
        ex.throw(s, z3.Or(rd.len > 20, rd.len == 0), Exc('std::invalid_argument'))
        ou = need(ex, s, base, 'Output', 6)
        ex.throw(s, ou.len != rd.len, Exc('std::invalid_argument'))

        def table(old, v):
            q = z3.Int('q')
            x = z3.Lambda([q], z3.If(z3.And(q >= 0, q < v.len), z3.Select(v.l[1], q), z3.If(z3.And(q == v.len, v.len < 20), NAN, z3.Select(old.l[0], q))))
            return Val(old.sh, [x])
        w = w.withf('reading', table(w.f('reading'), rd)).withf('output', table(w.f('output'), ou))
        put(s, 'controllers', cs.set(key, i.withf('stepwiseInfo', w)))
    cases(ex, st, (z3.Not(none), rest), (None, lambda s: None))


SBUILD = FnC(DC + 'init', sbuild, name=DC + 'init (a stepwise controller: built)', throws_any=True, setup=sbuild_setup, models={**MODELS, SPLICE: splice},
             part=Part(None, [('inputs', 'inputs'), ('sensorFound', 'sensorFound'), ('acceptableFound', 'missingAcceptableSensors'), ('controllers', 'conf')],
                       within=[POP, STEPS], start=FIND,
                       ins=[('base', 'base'), ('pidName', 'pidName'), ('sensors', 'sensors'), ('names', 'sensorNames'), ('inputs', 'inputs'), ('acceptable', 'missingAcceptableSensorNames'),
                            ('acceptableFound', 'missingAcceptableSensors'), ('unavailableAsFailed', 'unavailableAsFailed'), ('ignoreFailIfHostOff', 'ignoreFailIfHostOff'), ('sensorFound', 'sensorFound'), ('controllers', 'conf')]))


# --- the numbers the zone configurations ask for, and what is left at the end
def numbered(zones, name, idx):
    """setZoneIndex by its own contract (C17): a function of its arguments"""
    return Val(zones.sh, [app(f'numbered.{i}', so, *zones.l, name, idx) for i, so in enumerate(zones.sh.sorts)])


def number(ex, st, e, obj, a):
    z = ex.load(st, a[1])
    name, idx = sx(ex, st, a[0]), D(ex, st, a[2])
    ex.store(st, a[1], numbered(z, name, idx))
    return I_(app('number of', I, *z.l, name, idx), 64, False)


def index_setup(ex, st, this, args):
    return ins(ex, st, configurations=CONF, zones=ZONES)


NUMBERED = Rec('numbered', [('zones', ZONES), ('absent', BOOL), ('other', BOOL)])


def index(ex, st, e, obj, a):
    conf, z0 = trace_val(ex, st, 'configurations'), trace_val(ex, st, 'zones')
    stop = lambda s: z3.Or(s.f('absent').x, s.f('other').x)

    def step(k, s):
        objs = conf.at(enumKey(conf.dom, k))
        z = objs.at(sv(ZONE))
        name, want = z.at(sv('Name')), z.at(sv('ZoneIndex'))
        asks = z3.And(z.has(sv('ZoneIndex')), want.f('tag').x == 2)
        absent = z3.Not(z.has(sv('Name')))
        other = z3.And(z3.Not(absent), name.f('tag').x != 3)
        t = ite(z3.And(asks, z3.Not(absent), z3.Not(other)), numbered(s.f('zones'), name.f('a3').x, d2i(want.f('a2').x)), s.f('zones'))
        return ite(z3.Or(stop(s), z3.Not(objs.has(sv(ZONE)))), s, Val(NUMBERED, t.l + (absent, other)))
    r = ex.fold('numbered zones', NUMBERED, Val(NUMBERED, z0.l + (F, F)), step, n=enumN(conf.dom), deps=conf.l + z0.l, absorb=stop).end()
    ex.throw(st, r.f('absent').x, RANGE)
    ex.throw(st, r.f('other').x, Exc('std::bad_variant_access'))
    put(st, 'zones', r.f('zones'))
    put(st, 'over', conf)


INDEX = FnC(DC + 'init', index, name=DC + 'init (the numbers of the zones)', throws_any=True, setup=lambda ex, st, this, args: (outs(ex, over=CONF), index_setup(ex, st, this, args))[1],
            models={**MODELS, NS + 'setZoneIndex': number},
            part=Part(POP, [('zones', ZONES)], start=NS + 'setZoneIndex', over='over', ins=[('configurations', CONF), ('zones', ZONES)]))


def tail_setup(ex, st, this, args):
    cover(ex.prog, ex.prog.find(DC + 'init'), [c.part for c in ALL])
    outs(ex, result=BOOL)
    return []


def tail(ex, st, e, obj, a):
    z, d = ex.load(st, a[3]), ex.load(st, a[4])
    put(st, 'result', B_(z3.Not(z3.Or(enumN(z.dom) == 0, enumN(d.dom) == 0))))


TAIL = FnC(DC + 'init', tail, name=DC + 'init (is there anything to do)', throws_any=True, setup=tail_setup, models={NS + 'debugPrint': noeffect()},
           part=Part(None, [], start=NS + 'debugPrint'))


NAME = FnC(BUSNAME, busname)
ALL = [GATHER, INDEX, HEAD, OPTIONS, RESOLVE, ENTER, BUILD, HEAD2, SOPTIONS, SBUILD, TAIL]
