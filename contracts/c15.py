from .base import *
from vcg.json import *
from .c16 import optional, field

FJ = NS + 'conf::from_json'
MAXPTS = 20
INFO = NS + 'conf::ControllerInfo'


def info(ex):
    return Sc('o', q=INFO)


def controller(ex, st, e, obj, a):
    j = ex.rv(st, a[0]).x
    c = a[1]
    num = lambda x, k: field(ex, st, x, k, DBL)
    p = need(ex, st, j, sv('pid'))
    ty = field(ex, st, j, 'type', STR)
    names = conv(ex, st, need(ex, st, j, sv('inputs')), Vec(STR))

    def opt(key, sh):
        h = jhas(j, sv(key))
        ok, v = convp(ex, jat(j, sv(key)), sh)
        ex.throw(st, z3.And(h, z3.Not(ok)), Exc(ERR))
        return lib_ite(h, v, default(sh))
    from vcg.shape import ite as lib_ite
    margins, missing = opt('tempToMargin', Vec(DBL)), opt('missingIsAcceptable', Vec(STR))
    setf(ex, st, c, type=ty, setpoint=num(j, 'setpoint'), failSafePercent=i2d(optional(ex, st, j, 'FailSafePercent', Sc('i', 32, False), iv(0))))
    v = vpure(ex, c.f('inputs').sh, 'spliceInputs', *names.l, *margins.l, *missing.l)
    ex.store(st, c.f('inputs'), v)
    check = optional(ex, st, p, 'checkHysteresisWithSetpoint', BOOL, F)
    zero = dv(0.0)
    pos, neg, der = (optional(ex, st, p, k, DBL, zero) for k in ('positiveHysteresis', 'negativeHysteresis', 'derivativeCoeff'))

    def pid(s):
        n = lambda k: field(ex, s, p, k, DBL)
        pi = c.f('pidInfo')
        setf(ex, s, pi, ts=n('samplePeriod'), proportionalCoeff=n('proportionalCoeff'), integralCoeff=n('integralCoeff'),
             feedFwdOffset=n('feedFwdOffsetCoeff'), feedFwdGain=n('feedFwdGainCoeff'), slewNeg=n('slewNeg'), slewPos=n('slewPos'),
             positiveHysteresis=pos, negativeHysteresis=neg, derivativeCoeff=der, checkHysterWithSetpt=check)
        setf(ex, s, pi.f('integralLimit'), min=n('integralLimit_min'), max=n('integralLimit_max'))
        setf(ex, s, pi.f('outLim'), min=n('outLim_min'), max=n('outLim_max'))

    def table(s, key, loc):
        t = jat(p, sv(key))
        v = ex.load(s, loc)
        for i in range(MAXPTS):
            k = sv(str(i))
            h = z3.And(jhas(p, sv(key)), jhas(t, k))
            ok, x = convp(ex, jat(t, k), DBL)
            ex.throw(s, z3.And(h, z3.Not(ok)), Exc(ERR))
            v = v.set(iv(i), Val(DBL, [z3.If(h, x.x, dv(float('nan')))]))
        ex.store(s, loc, v)

    def step(s):
        si = c.f('stepwiseInfo')
        setf(ex, s, si, ts=field(ex, s, p, 'samplePeriod', DBL), isCeiling=field(ex, s, p, 'isCeiling', BOOL), positiveHysteresis=pos, negativeHysteresis=neg)
        table(s, 'reading', si.f('reading'))
        table(s, 'output', si.f('output'))
    cases(ex, st, (ty == sv('stepwise'), step), (None, pid))


def splice(ex, st, e, obj, a):
    ls = [l for x in a for l in ex.rv(st, x).l]
    return vpure(ex, ex.prog.shape(e['fn']['rt'].deref()), 'spliceInputs', *ls)


def cycle(ex, st, e, obj, a):
    """a listed interval of at least 1 ms replaces the current one"""
    j, key = ex.rv(st, a[0]).x, sx(ex, st, a[2])
    old = ex.load(st, a[3])
    ok, v = convp(ex, jat(j, key), old.sh)
    ex.throw(st, z3.And(jhas(j, key), z3.Not(ok)), Exc(ERR))
    ex.store(st, a[3], Val(old.sh, [z3.If(z3.And(jhas(j, key), v.x >= 1), v.x, old.x)]))


def one(ex, j):
    """(readable, value) of one controller entry, as the contract of from_json fixes it"""
    return app('controller readable', B, j), vpure(ex, info(ex), 'controller entry', j)


def one_model(ex, st, e, obj, a):
    ok, v = one(ex, ex.rv(st, a[0]).x)
    ex.throw(st, z3.Not(ok), Exc(ERR))
    ex.store(st, a[1], v)


def build(ex, st, e, obj, a):
    """every zone under its id with its settings and controllers, later entries winning"""
    zs = need(ex, st, ex.rv(st, a[0]).x, sv('zones'))
    i64 = Sc('i', 64, False)
    ZC = ex.prog.rec_shape(NS + 'conf::ZoneConfig')
    PM = Map(STR, info(ex))
    PSH = Rec('controllers so far', [('bad', BOOL), ('m', PM)])

    lst = lambda zk: jat(jelem(zs, zk), sv('pids'))

    def add(zk, k, s):
        x = jelem(lst(zk), k)
        nm = jat(x, sv('name'))
        ok, v = one(ex, x)
        good = z3.And(ok, jhas(x, sv('name')), jkind(nm) == STR_)
        return Val(PSH, [z3.Or(s.f('bad').x, z3.Not(good))] + [z3.If(good, n, o) for n, o in zip(s.f('m').set(jstr(nm), v).l, s.f('m').l)])
    pids = ex.fold('controllers', PSH, Val(PSH, [F] + list(default(PM).l)), add, n=lambda zk: jlen(lst(zk)), params=(z3.Int('zk'),), deps=(zs,), absorb=lambda s: s.f('bad').x)
    SH = Rec('zones so far', [('bad', BOOL), ('p', Map(i64, PM)), ('z', Map(i64, ZC))])

    def zone(k, s):
        z = jelem(zs, k)
        conds = []

        def must(key, sh):
            ok, v = convp(ex, jat(z, sv(key)), sh)
            conds.append(z3.And(jhas(z, sv(key)), ok))
            return v.x

        def may(key, sh, dflt, least=None):
            h = jhas(z, sv(key))
            ok, v = convp(ex, jat(z, sv(key)), sh)
            conds.append(z3.Or(z3.Not(h), ok))
            return z3.If(z3.And(h, v.x >= least) if least is not None else h, v.x, iv(dflt) if isinstance(dflt, int) else dflt)
        zid = must('id', i64)
        u64 = Sc('i', 64, True)
        zc = default(ZC).withf('minThermalOutput', Val(DBL, [must('minThermalOutput', DBL)])).withf('failsafePercent', Val(DBL, [must('failsafePercent', DBL)]))
        ct = zc.f('cycleTime').withf('cycleIntervalTimeMS', Val(u64, [may('cycleIntervalTimeMS', u64, 100, 1)])) \
            .withf('updateThermalsTimeMS', Val(u64, [may('updateThermalsTimeMS', u64, 1000, 1)]))
        zc = zc.withf('cycleTime', ct).withf('accumulateSetPoint', B_(may('accumulateSetPoint', BOOL, F)))
        conds.append(jhas(z, sv('pids')))
        r = pids.end(k)
        good = z3.And(*conds, z3.Not(r.f('bad').x))
        new_ = list(s.f('p').set(zid, r.f('m')).l) + list(s.f('z').set(zid, zc).l)
        return Val(SH, [z3.Or(s.f('bad').x, z3.Not(good))] + [z3.If(good, n, o) for n, o in zip(new_, list(s.f('p').l) + list(s.f('z').l))])
    r = ex.fold('zones', SH, Val(SH, [F] + list(default(Map(i64, PM)).l) + list(default(Map(i64, ZC)).l)), zone, n=jlen(zs), deps=(zs,), absorb=lambda s: s.f('bad').x).end()
    ex.throw(st, r.f('bad').x, Exc(ERR))
    return Val(Rec('std::pair', [('first', Map(i64, PM)), ('second', Map(i64, ZC))]), list(r.f('p').l) + list(r.f('z').l))


PROP = Prop('C15', ['pid/buildjson.cpp'],
            [FnC(FJ, controller, name='from_json(ControllerInfo)', models={NS + 'spliceInputs': splice}),
             FnC(NS + 'getCycleTimeSetting', cycle),
             FnC(NS + 'buildPIDsFromJson', build, opaque=[INFO], models={'from_json ' + INFO: one_model, NS + 'getCycleTimeSetting': cycle})],
            assumptions=['nlohmann::json at/find/count/size/get/get_to and iteration behave as documented; a json value is a function of its kind, keys and elements',
                         'reading an absent key through the const subscript (undefined in nlohmann) is counted as an error',
                         'spliceInputs by its own contract (C18)'], driver='c15')
