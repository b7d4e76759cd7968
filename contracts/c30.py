"""D-Bus discovery: profiles, and the sensors a name stands for."""
from .base import *
from .c26 import PROPS, MAPPER
from .c30i import ERR, request, answer
from .c30p import ALL, NAME

DC = NS + 'dbus_configuration::'
MODE = 'xyz.openbmc_project.Control.ThermalMode'
CALLS = Map(STR, Map(STR, Vec(STR)))


def one_name(s):
    return Val(Vec(STR), [iv(1), z3.Store(z3.K(I, sv('')), iv(0), sv(s))])


SELECTED = Rec('selected', [('ret', Vec(STR)), ('bus', OPQ), ('bad', BOOL)])


def selected_spec(ex, st, e, obj, a):
    """the current mode of every object that offers one; any failure is an error"""
    q = request(sv(MAPPER), sv('/xyz/openbmc_project/object_mapper'), MAPPER, 'GetSubTree', S_(sv('/')), I_(iv(0), 32, False), one_name(MODE))
    bus, bad, tree = answer(ex, q, trace_val(ex, st, 'bus').x, CALLS)
    st.roots[('T', 'bus')] = Val(OPQ, [bus])
    ex.throw(st, bad, ERR)
    path = lambda zk: enumKey(tree.dom, zk)
    owners = lambda zk: tree.at(path(zk))
    F_ = {}

    def ask(zk, k, s):
        q = request(enumKey(owners(zk).dom, k), path(zk), PROPS, 'Get', S_(sv(MODE)), S_(sv('Current')))
        b, bad, v = answer(ex, q, s.f('bus').x, Var([STR]))
        new = list(s.f('ret').push(S_(v.f('a0').x)).l) + [b, bad]
        return Val(SELECTED, [z3.If(s.f('bad').x, o, n) for o, n in zip(s.l, new)])
    stop = lambda s: s.f('bad').x
    out = ex.fold('paths', SELECTED, Val(SELECTED, list(default(Vec(STR)).l) + [bus, F]),
                  lambda k, s: ite(s.f('bad').x, s, F_['in'].end(k)), n=enumN(tree.dom), deps=tree.l, absorb=stop)
    F_['in'] = ex.fold('owners', SELECTED, lambda zk: out.at(zk), ask, n=lambda zk: enumN(owners(zk).dom), deps=tree.l, params=(z3.Int('zk'),), absorb=stop)
    r = out.end()
    st.roots[('T', 'bus')] = r.f('bus')
    ex.throw(st, r.f('bad').x, ERR)
    return r.f('ret')


def matches(path, name):
    """the path ends in the name (which may be a regular expression)"""
    return app('regex found', B, path, app('regex', I, sconcat(sconcat(sv('/'), name), sv('$'))))


def find_spec(ex, st, e, obj, a):
    sensors, name = ex.rv(st, a[0]), sx(ex, st, a[1])
    old = ex.load(st, a[2])

    def step(k, s):
        key = enumKey(sensors.dom, k)
        p = Val(old.sh.e, [key, sensors.at(key).x])
        return ite(matches(key, name), s.push(p), s)
    f = ex.fold('matches', old.sh, old, step, n=enumN(sensors.dom), deps=sensors.l + old.l + (name,))
    ex.store(st, a[2], f.end())
    return B_(f.end().len > 0)


def last_part(ex, st, e, obj, a):
    """what follows the last slash; all of a path without one"""
    p = sx(ex, st, a[0])
    at = app('srfind', I, p, sv('/'))
    return S_(ssub(p, z3.If(at == NPOS, iv(0), at + 1), NPOS))


PROP = Prop('C30', ['dbus/dbusconfiguration.cpp', 'dbus/dbusutil.cpp'],
            [FnC(DC + 'getSelectedProfiles', selected_spec, throws_any=True),
             FnC(NS + 'findSensors', find_spec),
             FnC(DC + 'getSensorNameFromPath', last_part),
             NAME] + ALL,
            assumptions=['std::regex matching is an opaque function of path and pattern, std::replace one of the text and the two characters',
                         'the hash maps of init are gone through in an arbitrary but fixed order',
                         'init is under statement contracts: each stretch is proved from any state (what it takes over from the stretch before is arbitrary, and every other local stays '
                         'as it is), a mechanical check shows that the stretches cover every statement of init, and what the loops around them go through is compared; that the whole is '
                         'the stretches one after the other, for every zone of every object in turn, is not itself an obligation',
                         'inside init getSelectedProfiles, findSensors, getSensorNameFromPath, setZoneIndex/getZoneIndex (C17), spliceInputs (C18) and populatePidInfo (C20) stand for their '
                         'own contracts (as functions of what they are given)',
                         'an object has fewer than 2^32-1 input sensors; HANDLE_MISSING_OBJECT_PATHS as configured by default (off)'],
            driver='c30',
            notes='proved for all inputs: getSelectedProfiles (which requests are made, whose answers are collected, when it fails), findSensors (exactly the matching paths, in '
                  'order), getSensorNameFromPath, sensorNameToDbusName, and the whole of init in eleven stretches: what is asked of the bus and kept by the profile filter, the numbers of '
                  'the zones, the zone configuration of an object, the options of a controller for one of its zones, the sensors its names stand for, their entries in the sensor '
                  'configuration, the controllers built, the same for stepwise controllers, and the verdict; bounded as well: init as a whole is compared with an independent oracle '
                  'on 20000 random object trees per run')
