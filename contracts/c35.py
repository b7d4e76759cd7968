"""What the zone and its control processes show on D-Bus is what the loop holds."""
import copy
from .base import *
from . import c07, c09, c14, zone
from .c09 import TC, MARGIN, ABSOLUTE

Z = NS + 'DbusPidZone'
ENABLE = 'sdbusplus::xyz::openbmc_project::Object::server::Enable::enabled'
PANEL = 'sdbusplus::xyz::openbmc_project::Debug::Pid::server::ThermalPower::'
SHOWN = dict(enabled=BOOL, setpoint=DBL, classType=STR, output=DBL, leader=STR, input=DBL)


def every(sh, name):
    """a value of each object"""
    return Val(sh, [z3.K(sh.ks, z3.BoolVal(True))] + [z3.Const('%s before %d' % (name, i), s) for i, s in enumerate(sh.sorts[1:])])


def shown(ex, st, p):
    """values of one D-Bus property, by the object that has it"""
    k = ('T', 'shown ' + p)
    if k not in ex.initial:
        ex.initial[k] = every(Map(INT, SHOWN[p]), k[1])
    return ex.root(st, k)


def show(ex, st, h, **kw):
    for p, v in kw.items():
        st.roots[('T', 'shown ' + p)] = shown(ex, st, p).set(h, v)


def prop(p):
    """the generated interface's accessor: with an argument it sets the property and returns what it now holds"""
    def m(ex, st, e, obj, a):
        h = ex.handle_of(st, obj)
        if not a:
            return shown(ex, st, p).at(h)
        v = ex.coerce(ex.rv(st, a[0]), SHOWN[p], st)
        show(ex, st, h, **{p: v})
        return v
    return m


def setup(ex, st, this, args):
    for p in SHOWN:
        shown(ex, st, p)
    return []


def process(ex, bus, path):
    return lib.new_handle(ex, 'control process', bus, path)


def make(ex, st, e, obj, a):
    return Val(PTR, [process(ex, ex.handle_of(st, a[0]), sx(ex, st, a[1]))])


def processes(ex, st, obj):
    return ex.load(st, obj.f('_pidsControlProcess'))


def add_spec(ex, st, e, obj, a):
    name, ty, sp, path = sx(ex, st, a[0]), sx(ex, st, a[1]), D(ex, st, a[2]), sx(ex, st, a[4])
    h = process(ex, ex.handle_of(st, a[3]), path)
    m = processes(ex, st, obj)
    ex.store(st, obj.f('_pidsControlProcess'), m.set(name, Val(m.sh.v, [h])))
    cls = shown(ex, st, 'classType').at(h).x
    for k, v in (('temp', 'Temperature'), ('margin', 'Margin'), ('power', 'Power'), ('powersum', 'PowerSum')):
        cls = z3.If(ty == sv(k), sv(v), cls)
    show(ex, st, h, enabled=B_(T), setpoint=D_(sp), classType=S_(cls))


def is_spec(ex, st, e, obj, a):
    return shown(ex, st, 'enabled').at(processes(ex, st, obj).at(sx(ex, st, a[0])).x)


def has_process(i):
    def pre(ex, st, this, args):
        n, m = sx(ex, st, args[i]), processes(ex, st, this)
        return setup(ex, st, this, args) + [m.has(n), m.at(n).x != 0]
    return pre


def update_spec(ex, st, e, obj, a):
    h = processes(ex, st, obj).at(sx(ex, st, a[0])).x
    who, i, o = sx(ex, st, a[1]), D(ex, st, a[2]), D(ex, st, a[3])
    own = slen(who) == 0
    show(ex, st, h, output=D_(z3.If(own, o, shown(ex, st, 'output').at(h).x)),
         leader=S_(z3.If(own, shown(ex, st, 'leader').at(h).x, who)), input=D_(z3.If(own, shown(ex, st, 'input').at(h).x, i)))


def failsafe_spec(ex, st, e, obj, a):
    return zone.mode_spec(ex, st, e, obj, a)


# what the process of the thermal controller's own name shows (nothing is reported to any other)
PANEL0 = dict(leader=STR, input=DBL, output=DBL, astray=BOOL)


def panel(ex, st, **kw):
    r = {}
    for p, sh in PANEL0.items():
        k = ('T', 'panel ' + p)
        if k not in ex.initial:
            ex.initial[k] = Val(sh, [z3.Const(k[1] + ' before', sh.sorts[0])])
        if p in kw:
            st.roots[k] = kw[p]
        r[p] = ex.root(st, k).x
    return r


def report(ex, st, e, obj, a):
    name, who, i, o = sx(ex, st, a[0]), sx(ex, st, a[1]), D(ex, st, a[2]), D(ex, st, a[3])
    mine = z3.And(ex.handle_of(st, obj) == ex.own[0], name == ex.own[1])
    old, out = panel(ex, st), slen(who) == 0
    panel(ex, st, output=D_(z3.If(z3.And(mine, out), o, old['output'])), leader=S_(z3.If(z3.And(mine, z3.Not(out)), who, old['leader'])),
          input=D_(z3.If(z3.And(mine, z3.Not(out)), i, old['input'])), astray=B_(z3.Or(old['astray'], z3.Not(mine))))


def input_spec(ex, st, e, obj, a):
    owner, ins, ty = ex.load(st, obj.f('_owner')).x, ex.load(st, obj.f('_inputs')), ex.load(st, obj.f('type')).x
    SH = Rec('reported input', [('bad', BOOL), ('any', BOOL), ('v', DBL), ('who', STR), ('shown', DBL), ('moved', BOOL)])
    big = float.fromhex('0x1.fffffffffffffp+1023')
    init = z3.If(ty == MARGIN, dv(big), z3.If(ty == ABSOLUTE, dv(-big), dv(0.0)))
    old = panel(ex, st)

    def step(k, s):
        i = ins.at(k)
        c = vpure(ex, DBL, 'getCachedValue', owner, i.f('name').x).x
        fin = is_fin(c)
        conv = z3.And(ty == MARGIN, i.f('convertTempToMargin').x)
        z = i.f('convertMarginZero').x
        m = z3.If(conv, dsub(z, c), c)
        v = s.f('v').x
        nv = z3.If(ty == MARGIN, z3.If(dlt(m, v), m, v), z3.If(ty == ABSOLUTE, z3.If(dlt(v, m), m, v), dadd(v, m)))
        moved = z3.And(fin, z3.Not(deq(nv, v)))
        return Val(SH, [z3.Or(s.f('bad').x, z3.And(fin, conv, z3.Not(is_fin(z)))), z3.Or(s.f('any').x, fin), z3.If(fin, nv, v),
                        z3.If(moved, i.f('name').x, s.f('who').x), z3.If(moved, nv, s.f('shown').x), z3.Or(s.f('moved').x, moved)])
    f = ex.fold('reported', SH, Val(SH, [F, F, init, old['leader'], old['input'], F]), step, n=ins.len,
                deps=(owner, ty, old['leader'], old['input']) + ins.l, absorb=lambda s: s.f('bad').x)
    r = f.end()

    def late(ex, st, mod, entry):
        # a report put off until every input has been looked at
        g = lambda kk, x: f.at(kk).f(x).x
        yield 'what is shown', lambda kk, m: z3.If(g(kk, 'moved'), g(kk, 'shown') == g(kk, 'v'), z3.And(g(kk, 'shown') == old['input'], g(kk, 'who') == old['leader']))
        for key, e0 in entry.items():
            if isinstance(e0, z3.ExprRef) and e0.sort() == S:
                yield 'name of the last that moved it', lambda kk, m, key=key: z3.Implies(g(kk, 'moved'), m[key] == g(kk, 'who'))
                yield 'named once it moved', lambda kk, m, key=key: z3.And(g(kk, 'moved') == (slen(m[key]) > 0))
    ex.hints.append(late)
    ex.throw(st, r.f('bad').x, Exc(c09.BADTYPE))
    panel(ex, st, leader=S_(r.f('who').x), input=D_(r.f('shown').x))
    return D_(z3.If(r.f('any').x, r.f('v').x, ex.load(st, obj.f('_setpoint')).x))


def output_spec(ex, st, e, obj, a):
    c09.output_spec(ex, st, e, obj, a)
    panel(ex, st, output=D_(D(ex, st, a[0])))


def names(ex, st, this, args):
    ins = ex.load(st, this.f('_inputs'))
    k = z3.Int('kn')
    x = ins.at(k).f('name').x
    panel(ex, st)
    ex.own = ex.load(st, this.f('_owner')).x, ex.load(st, this.f('_id')).x
    return c09.has_input(ex, st, this, args) + [z3.ForAll([k], slen(x) > 0, patterns=[x])]


DM = ['_pidsControlProcess']
VIEW = {'make sdbusplus::server::object_t': make, ENABLE: prop('enabled'), **{PANEL + p: prop(p) for p in SHOWN if p != 'enabled'}}
REPORT = {NS + 'ZoneInterface::updateThermalPowerDebugInterface': report}
PROP = Prop('C35', ['pid/zone.cpp', 'pid/thermalcontroller.cpp'],
            [FnC(Z + '::addPidControlProcess', add_spec, cls=Z, setup=setup, models=VIEW),
             FnC(Z + '::isPidProcessEnabled', is_spec, cls=Z, setup=has_process(0), models=VIEW, defmaps=DM),
             FnC(Z + '::updateThermalPowerDebugInterface', update_spec, cls=Z, setup=has_process(0), models=VIEW, defmaps=DM),
             FnC(Z + '::failSafe', failsafe_spec, cls=Z),
             FnC(Z + '::manual', c14.manual_spec, cls=Z, models={**c14.PROP.models, Z + '::setManualMode': c14.set_spec}),
             FnC(Z + '::leader', c07.getter('_maximumSetPointName'), cls=Z),
             FnC(TC + '::inputProc', input_spec, cls=TC, pre=names, models=REPORT),
             FnC(TC + '::outputProc', output_spec, cls=TC, pre=names, models=REPORT)],
            driver='c35',
            assumptions=['a controller reports under the name its control process was added with (C24); inputs have names',
                         "the generated interfaces' accessors hold what they were last given"])
