from .base import *
from vcg.json import *

FJ = NS + 'conf::from_json'


def sens(ex):
    return ex.prog.rec_shape(NS + 'conf::SensorConfig')


def field(ex, st, j, key, sh):
    """a mandatory key"""
    x = need(ex, st, j, sv(key))
    return conv(ex, st, x, sh).x


def optional(ex, st, j, key, sh, dflt):
    """an optional key: its value, or the default"""
    h = jhas(j, sv(key))
    ok, v = convp(ex, jat(j, sv(key)), sh)
    ex.throw(st, z3.And(h, z3.Not(ok)), Exc(ERR))
    return z3.If(h, v.x, dflt)


def sensor(ex, st, e, obj, a):
    j = ex.rv(st, a[0]).x
    s = a[1]
    i64 = Sc('i', 64, False)
    ty = field(ex, st, j, 'type', STR)
    fan = ty == sv('fan')

    def limit(key):
        h = z3.And(fan, jhas(j, sv(key)))
        ok, v = convp(ex, jat(j, sv(key)), i64)
        ex.throw(st, z3.And(h, z3.Not(ok)), Exc(ERR))
        return z3.If(h, v.x, iv(0))
    setf(ex, st, s, type=ty, readPath=field(ex, st, j, 'readPath', STR), writePath=optional(ex, st, j, 'writePath', STR, sv('')),
         ignoreDbusMinMax=optional(ex, st, j, 'ignoreDbusMinMax', BOOL, F), unavailableAsFailed=optional(ex, st, j, 'unavailableAsFailed', BOOL, T),
         ignoreFailIfHostOff=optional(ex, st, j, 'ignoreFailIfHostOff', BOOL, F), min=limit('min'), max=limit('max'),
         timeout=optional(ex, st, j, 'timeout', i64, z3.If(fan, iv(0), iv(2))))


def one(ex, j):
    """(readable, value) of one sensor entry, as the contract of from_json fixes it"""
    return app('sensor readable', B, j), vpure(ex, sens(ex), 'sensor entry', j)


def one_model(ex, st, e, obj, a):
    ok, v = one(ex, ex.rv(st, a[0]).x)
    ex.throw(st, z3.Not(ok), Exc(ERR))
    ex.store(st, a[1], v)


def build(ex, st, e, obj, a):
    """every entry of the sensors list under its name, later entries winning"""
    j = ex.rv(st, a[0]).x
    lst = need(ex, st, j, sv('sensors'))
    mp = Map(STR, sens(ex))
    SH = Rec('sensors so far', [('bad', BOOL), ('m', mp)])

    def step(k, s):
        x = jelem(lst, k)
        nm = jat(x, sv('name'))
        ok, v = one(ex, x)
        good = z3.And(ok, jhas(x, sv('name')), jkind(nm) == STR_)
        return Val(SH, [z3.Or(s.f('bad').x, z3.Not(good))] + [z3.If(good, n, o) for n, o in zip(s.f('m').set(jstr(nm), v).l, s.f('m').l)])
    r = ex.fold('sensors', SH, Val(SH, [F] + list(default(mp).l)), step, n=jlen(lst), deps=(lst,), absorb=lambda s: s.f('bad').x).end()
    ex.throw(st, r.f('bad').x, Exc(ERR))
    return r.f('m')


def validate(ex, st, e, obj, a):
    """accepted exactly when there are sensors, zones, and controllers in every zone"""
    j = ex.rv(st, a[0]).x
    s, z = sv('sensors'), sv('zones')
    zs = jat(j, z)
    SH = Rec('zones checked', [('bad', BOOL)])

    def step(k, x):
        zn = jelem(zs, k)
        return Val(SH, [z3.Or(x.x, z3.Not(jhas(zn, sv('pids'))), jlen(jat(zn, sv('pids'))) == 0)])
    r = ex.fold('zones', SH, Val(SH, [F]), step, n=jlen(zs), deps=(zs,), absorb=lambda x: x.x).end()
    ex.throw(st, z3.Or(z3.Not(jhas(j, s)), jlen(jat(j, s)) == 0, z3.Not(jhas(j, z)), r.x), Exc('ConfigurationException'))


def parse(ex, st, e, obj, a):
    """the document in a readable, well-formed file whose document is accepted"""
    path = sx(ex, st, a[0])
    ex.throw(st, z3.Not(lib.opened(ex, st, path, 'read')), Exc('ConfigurationException'))
    j = app('json in file', I, path)
    ex.throw(st, z3.Or(jkind(j) == DISCARDED, z3.Not(app('document accepted', B, j))), Exc('ConfigurationException'))
    return Val(J, [j])


def accepted(ex, st, e, obj, a):
    ex.throw(st, z3.Not(app('document accepted', B, ex.rv(st, a[0]).x)), Exc('ConfigurationException'))


PROP = Prop('C16', ['sensors/buildjson.cpp', 'buildjson/buildjson.cpp'],
            [FnC(FJ, sensor, name='from_json(SensorConfig)'),
             FnC(NS + 'buildSensorsFromJson', build, models={'from_json ' + NS + 'conf::SensorConfig': one_model}),
             FnC('validateJson', validate),
             FnC('parseValidateJson', parse, models={'validateJson': accepted})],
            assumptions=['nlohmann::json at/find/count/size/get/get_to and iteration behave as documented; a json value is a function of its kind, keys and elements',
                         'reading an absent key through the const subscript (undefined in nlohmann) is counted as an error'], driver='c16')
