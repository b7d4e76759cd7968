from .base import *

INFO = 'pid_control::ec::pidinfo'


def splice_spec(ex, st, e, obj, a):
    names, margins, acc = (ex.rv(st, x) for x in a)
    sh = ex.prog.shape(e['fn']['rt']).e

    def at(i):
        n = names.at(i).x
        conv = i < margins.len
        f = ex.fold('listed', BOOL, B_(F), lambda k, s: B_(z3.Or(s.x, acc.at(k).x == n)), n=acc.len, absorb=lambda s: s.x, deps=acc.l + (n,))
        ex.probes.append(n)
        ex.pre_facts.append(lib.vmem(acc, n) == f.end().x)
        m = dict(name=n, convertMarginZero=z3.If(conv, margins.at(i).x, NAN), convertTempToMargin=conv, missingIsAcceptable=f.end().x)
        return Val(sh, [m[f] for f, _ in sh.fields])
    r = vec_by(ex, names.len, sh, at, 'spliced')
    ex.elems += [NAN, F]
    return r


def split_spec(ex, st, e, obj, a):
    ins = ex.rv(st, a[0])
    return vec_by(ex, ins.len, STR, lambda i: ins.at(i).f('name'), 'names')


def init_spec(ex, st, e, obj, a):
    info = ex.deref(st, a[0], ex.prog.shape(e['fn']['pt'][0]).tgt)
    new = ex.rv(st, a[1])
    for n, _ in new.sh.fields:
        ex.store(st, info.f(n), new.f(n))


PROP = Prop('C18', ['util.cpp', 'pid/util.cpp'],
            [FnC(NS + 'spliceInputs', splice_spec), FnC(NS + 'splitNames', split_spec), FnC(NS + 'initializePIDStruct', init_spec)],
            driver='c18')
