from .base import *
from .c01 import clampv, intervals, pid_spec

EC = NS + 'ec::'
CTX = ['input', 'setpoint', 'error', 'proportionalTerm', 'integralTerm1', 'integralTerm2', 'derivativeTerm', 'feedFwdTerm', 'output1', 'output2',
       'minOut', 'maxOut', 'integralTerm3', 'output3', 'integralTerm', 'output']


def txt(v):
    return lib.text_of(v)


def cat(*xs):
    r = sv('')
    for x in xs:
        r = sconcat(r, sv(x) if isinstance(x, str) else x)
    return r


def line(ms, vals):
    r = i2s(ms)
    for v in vals:
        r = cat(r, ',', txt(v))
    return cat(r, '\n')


def context_spec(ex, st, e, obj, a):
    log = a[0]
    now, c = ex.rv(st, a[1]).x, ex.rv(st, a[2])
    last, lc = ex.load(st, log.f('lastLog')).x, ex.load(st, log.f('lastContext'))
    same = z3.And(*[deq(c.f(n).x, lc.f(n).x) for n in CTX])
    due = z3.Or(last == 0, now - last >= 60000, z3.Not(same))

    def write(s):
        setf(ex, s, log, lastLog=now, lastContext=c)
        lib.file_write(ex, s, ex.load(s, log.f('fileContext')), line(now, [c.f(n) for n in CTX]))
    cases(ex, st, (due, write), (None, lambda s: None))


NAMES = EC + 'nameToLog'
COEF = ['ts', 'integral', 'lastOutput', 'proportionalCoeff', 'integralCoeff', 'derivativeCoeff', 'feedFwdOffset', 'feedFwdGain',
        ('integralLimit', 'min'), ('integralLimit', 'max'), ('outLim', 'min'), ('outLim', 'max'), 'slewNeg', 'slewPos', 'positiveHysteresis', 'negativeHysteresis']
CTXHEAD = 'epoch_ms,input,setpoint,error,proportionalTerm,integralTerm1,integralTerm2,derivativeTerm,feedFwdTerm,output1,output2,minOut,maxOut,integralTerm3,output3,integralTerm,output\n'
COEFHEAD = 'epoch_ms,ts,integral,lastOutput,proportionalCoeff,integralCoeff,derivativeCoeff,feedFwdOffset,feedFwdGain,integralLimit.min,integralLimit.max,outLim.min,outLim.max,slewNeg,slewPos,positiveHysteresis,negativeHysteresis\n'


def clean(ex, name):
    """the letters and digits of a name, in order"""
    def step(k, s):
        c = app('schar', I, name, k)
        ok = z3.Or(*[z3.And(c >= ord(a), c <= ord(b)) for a, b in ('AZ', 'az', '09')])
        return S_(z3.If(ok, sconcat(s.x, lib.chs(c)), s.x))
    return ex.fold('clean', STR, S_(sv('')), step, n=slen(name), deps=(name,)).end().x


def names(ex):
    sh = Map(STR, ex.prog.rec_shape(EC + 'PidCoreLog'))
    return gloc(NAMES, sh)


def taken(ex, m, cn):
    """some log already has this file-name part"""
    dom, n = m.dom, enumN(m.dom)
    return ex.fold('taken', BOOL, B_(F), lambda k, s: B_(z3.Or(s.x, m.at(enumKey(dom, k)).f('nameClean').x == cn)), n=n, absorb=lambda s: s.x, deps=m.l + (cn,))


def zero_ctx(ex):
    return default(ex.prog.rec_shape(EC + 'PidCoreContext'))


def init_spec(ex, st, e, obj, a):
    name = sx(ex, st, a[0])
    info = ex.rv(st, ex.deref(st, ex.rv(st, a[1]), ex.prog.shape(e['fn']['pt'][1]).tgt))
    loc = names(ex)
    m = ex.load(st, loc)
    cn = clean(ex, name)
    on = gv(ex, st, 'coreLoggingEnabled', BOOL).x
    folder = gv(ex, st, 'loggingPath', STR).x
    ok = z3.And(on, name != sv(''), cn != sv(''))
    fc, ff = cat(folder, '/pidcore.', cn), cat(folder, '/pidcoeffs.', cn)

    def restart(s):
        """coefficients once; the next context line is due"""
        l = loc.ix(name)
        lib.file_write(ex, s, ex.load(s, l.f('fileCoeffs')), line(lib.rescale(z3.Const('now', I), (1, 10 ** 9), (1, 1000)),
                       [info.f(n) if isinstance(n, str) else info.f(n[0]).f(n[1]) for n in COEF]))
        setf(ex, s, l, lastLog=iv(0), lastContext=zero_ctx(ex))

    def create(s):
        v = default(m.sh.v)
        for n, x in (('nameOriginal', name), ('nameClean', cn)):
            v = v.withf(n, S_(x))
        fsh = v.f('fileContext').sh
        v = v.withf('fileContext', Val(fsh, [fc, T])).withf('fileCoeffs', Val(fsh, [ff, T]))
        ex.store(s, loc, m.set(name, v))
        lib.file_write(ex, s, v.f('fileContext'), sv(CTXHEAD))
        lib.file_write(ex, s, v.f('fileCoeffs'), sv(COEFHEAD))
        restart(s)

    def fresh(s):
        ex.event(s, 'file', 'open', fc)

        def second(s2):
            ex.event(s2, 'file', 'open', ff)
            cases(ex, s2, (app('file opens', z3.BoolSort(), ff), create), (None, lambda s3: None))
        cases(ex, s, (app('file opens', z3.BoolSort(), fc), second), (None, lambda s3: None))
    t = taken(ex, m, cn)
    cases(ex, st, (z3.Not(ok), lambda s: None), (m.has(name), restart), (t.end().x, lambda s: None), (None, fresh))


def private(ex, st0, ss, sc, rc):
    """two names never share files: an invariant of the table of logs"""
    m0, m1 = ex.load(st0, names(ex)), ex.load(sc, names(ex))
    p, q = z3.Consts('name_p name_q', S)

    def inv(m, a, b):
        return z3.Implies(z3.And(m.has(a), m.has(b), a != b), m.at(a).f('nameClean').x != m.at(b).f('nameClean').x)
    t = [f for f in ex.folds if f.name.startswith('taken')][0]
    name = sx(ex, st0, ex.args0[0])
    cn = m1.at(name).f('nameClean').x
    hyp = [inv(m0, p, q)]
    for k in (p, q):
        ex.pre_facts.append(z3.Implies(m0.has(k), z3.And(enumPos(m0.dom, k) >= 0, enumPos(m0.dom, k) < enumN(m0.dom), enumKey(m0.dom, enumPos(m0.dom, k)) == k)))
        i = enumPos(m0.dom, k)
        ex.pre_facts.append(t.inst((), i))
        ex.pre_facts.append(z3.Implies(z3.And(i + 1 <= enumN(m0.dom), i >= 0, t.at(i + 1).x), t.end().x))
    return [('no two names share a file name', z3.Implies(z3.And(*hyp), inv(m1, p, q)))]


def keep_args(ex, st, this, args):
    ex.args0 = args
    return []


def peek_spec(ex, st, e, obj, a):
    """where the log of a name is, if it has one"""
    loc, name = names(ex), sx(ex, st, a[0])
    return Val(ex.prog.shape(e['fn']['rt']), [z3.If(ex.load(st, loc).has(name), ex.pv_handle(PV([(T, loc.ix(name))])), iv(0))])


# --- what a step of a loop logs
def log_init(ex, st, e, obj, a):
    ex.event(st, 'log', 'start', sx(ex, st, a[0]))


def log_context(ex, st, e, obj, a):
    c = ex.rv(st, a[2])
    ex.event(st, 'log', 'context', ex.rv(st, a[1]).x, *[c.f(n).x for n in CTX])


STEP = {
    EC + 'LogInit': log_init,
    EC + 'LogPeek': noeffect(lambda ex, st, e, obj, a: Val(ex.prog.shape(e['fn']['rt']), [app('LogPeek', I, sx(ex, st, a[0]))])),
    EC + 'LogTimestamp': noeffect(lambda ex, st, e, obj, a: Val(ex.prog.shape(e['fn']['rt']), [z3.Const('logts', I)])),
    EC + 'LogContext': log_context,
}


def step_spec(ex, st, e, obj, a):
    """a loop's log starts with the loop; a step of a loop that has a log offers it what the step was computed from and through"""
    p = ex.load(st, ex.deref(st, a[0], ex.prog.shape(e['fn']['pt'][0]).tgt))
    named = ex.rv(st, a[3]).x != 0
    name = ex.load(st, ex.deref(st, a[3], ex.prog.shape(e['fn']['pt'][3]).tgt)).x
    x, sp = D(ex, st, a[1]), D(ex, st, a[2])
    g = lambda n: p.f(n).x
    lim = lambda n: (p.f(n).f('min').x, p.f(n).f('max').x)
    zero = dv(0.0)
    err = dsub(sp, x)
    pt = dmul(g('proportionalCoeff'), err)
    acc = dadd(g('integral'), dmul(dmul(err, g('integralCoeff')), g('ts')))
    has_i = dne(g('integralCoeff'), zero)
    it = z3.If(has_i, clampv(acc, *lim('integralLimit')), zero)
    dt = dmul(g('derivativeCoeff'), ddiv(dsub(err, g('lastError')), g('ts')))
    ff = dmul(dadd(sp, g('feedFwdOffset')), g('feedFwdGain'))
    o1 = Sum(pt, it, dt, ff)
    o2 = clampv(o1, *lim('outLim'))
    init = g('initialized')
    lo = dadd(g('lastOutput'), dmul(g('slewNeg'), g('ts')))
    hi = dadd(g('lastOutput'), dmul(g('slewPos'), g('ts')))
    neg, pos = z3.And(init, dne(g('slewNeg'), zero)), z3.And(init, dne(g('slewPos'), zero))
    o3 = z3.If(z3.And(neg, dlt(o2, lo)), lo, o2)
    o3 = z3.If(z3.And(pos, dlt(hi, o3)), hi, o3)
    it3 = z3.If(z3.Or(neg, pos), dsub(o3, pt), it)
    vals = dict(input=x, setpoint=sp, error=err, proportionalTerm=pt, integralTerm1=z3.If(has_i, acc, zero), integralTerm2=it, derivativeTerm=dt, feedFwdTerm=ff,
                output1=o1, output2=o2, minOut=z3.If(neg, lo, zero), maxOut=z3.If(pos, hi, zero), integralTerm3=it3, output3=o3,
                integralTerm=clampv(it3, *lim('integralLimit')), output=o3)
    cases(ex, st, (z3.And(named, z3.Not(init)), lambda s: ex.event(s, 'log', 'start', name)), (None, lambda s: None))
    cases(ex, st, (z3.And(named, app('LogPeek', I, name) != 0), lambda s: ex.event(s, 'log', 'context', z3.Const('logts', I), *[vals[n] for n in CTX])), (None, lambda s: None))
    return pid_spec(ex, st, e, obj, a)


PROP = Prop('C22', ['pid/ec/logging.cpp', 'pid/ec/pid.cpp'],
            [FnC(EC + 'LogContext', context_spec),
             FnC(EC + 'LogPeek', peek_spec),
             FnC(EC + 'LogInit', init_spec, setup=keep_args, post=private),
             FnC(EC + 'pid', step_spec, nparams=4, pre=intervals, nullable=[3], models=STEP, name=EC + 'pid (what is logged)')], driver='c22')
