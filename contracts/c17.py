from .base import *

SET = NS + 'setZoneIndex'
GET = NS + 'getZoneIndex'


def lowest_free(ex, zones, index):
    """the smallest number >= index that no name holds (it exists: the map is finite)"""
    dom, n = zones.dom, enumN(zones.dom)
    R = app('lowest free', I, *zones.l, index)

    def step(d, k, s):
        return B_(z3.Or(s.x, zones.at(enumKey(dom, k)).x == index + d))
    used = ex.fold('used', BOOL, lambda d: B_(F), step, n=lambda d: n, absorb=lambda s: s.x, deps=zones.l + (index,), params=(z3.Int('d'),))
    nm = used.fs[0].name()
    gen = used.gen

    def more(t):
        out = gen(t)
        d = t.children()[0]
        # numbers below the lowest free one are used
        out.append(z3.Implies(z3.And(d >= 0, index + d < R), used.end(d).x))
        return out
    ex.ax.extra[nm] = more
    ex.pre_facts += [R >= index, z3.Not(used.end(z3.simplify(R - index)).x)]

    ex.pre_facts += [z3.Implies(index + d < R, used.end(iv(d)).x) for d in range(5)]

    def hint(ex_, st, mod, entry):
        return [('all numbers tried so far are used', lambda kk, m: z3.Implies(z3.And(R - index >= 0, R - index < kk), used.end(z3.simplify(R - index)).x))]
    ex.hints.append(hint)
    return R


def set_spec(ex, st, e, obj, a):
    name = sx(ex, st, a[0])
    loc = a[1]
    z = ex.load(st, loc)
    idx = D(ex, st, a[2])
    has = z.has(name)
    R = lowest_free(ex, z, idx)
    ex.store(st, loc, ite(has, z, z.set(name, I_(R))))
    return I_(z3.If(has, z.at(name).x, R), 64, False)


def get_spec(ex, st, e, obj, a):
    return set_spec(ex, st, e, obj, [a[0], a[1], I_(iv(0))])


PROP = Prop('C17', ['dbus/dbusutil.cpp'],
            [FnC(SET, set_spec), FnC(GET, get_spec, models={SET: set_spec})],
            driver='c17')
