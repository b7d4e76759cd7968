from .base import *

RR = NS + 'ReadReturn'


def number(path):
    """the integer at the start of the file; 0 when it is missing, empty or not numeric"""
    return z3.If(z3.And(app('file readable', B, path), app('file has token', B, path)), app('file number i64', I, path), iv(0))


def read_spec(ex, st, e, obj, a):
    sh = ex.prog.rec_shape(RR)
    v = i2d(number(ex.load(st, obj.f('_path')).x))
    return default(sh).withf('value', v).withf('updated', z3.Const('now', I)).withf('unscaled', v)


def fixup(ex, st, e, obj, a):
    """the first entry of the directory in front of "**" replaces it"""
    s = sx(ex, st, a[0])
    n = sfind(s, sv('**'))
    base = ssub(s, iv(0), n)
    ex.throw(st, z3.And(n != NPOS, app('not a directory', B, base)), Exc('std::filesystem::filesystem_error'))
    first = z3.Select(app('entry', z3.ArraySort(I, S), base), iv(0))
    cnt = app('entries', I, base)
    fl = z3.If(cnt > 0, first, sv(''))
    return S_(z3.If(z3.Or(n == NPOS, slen(fl) == 0), s, sconcat(fl, ssub(s, n + 2, slen(s) - (n + 2)))))


PROP = Prop('C28', ['sysfs/sysfsread.cpp', 'sysfs/util.cpp'],
            [FnC(NS + 'SysFsRead::read', read_spec, cls=NS + 'SysFsRead'),
             FnC(NS + 'FixupPath', fixup)],
            driver='c28',
            assumptions=['extraction of an integer from a file yields 0 for a token that is not numeric and clamps to the type (standard library)'])
