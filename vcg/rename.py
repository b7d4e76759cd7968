"""Names: the contracts name fields, functions and globals of /repo.  A tree in which one of them merely has another
name is read under the old one: names.json lists the names (with their types) of every translation unit; a listed name
that is gone is identified with the one new name of the same type in the same class or scope (several: in the order
of declaration).  State that has no counterpart in names.json is `novel`."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
NAMES = os.path.join(os.path.dirname(HERE), 'names.json')
OURS = re.compile(r'^(pid_control|dbus_configuration|state|conf|ec)\b|^[A-Za-z_]\w*$')


def ours(q):
    return q.startswith('pid_control::') or ('::' not in q and '<' not in q)


def ts(d, i):
    return d['types'][i]['s'] if isinstance(i, int) and i >= 0 else ''


def summary(d):
    """names and types in one exported translation unit"""
    rec, fn, var = {}, {}, {}
    for r in d['records'].values():
        if ours(r['q']) and '<' not in r['q']:
            rec[r['q']] = [[f['n'], ts(d, f['t'])] for f in r['fields']]
    for f in d['functions']:
        q = f['q']
        if not ours(q) or 'operator' in q or '<' in q or '~' in q or f.get('body') is None:
            continue
        p = q.split('::')
        if len(p) > 1 and p[-1] == p[-2]:
            continue
        fn.setdefault(q, [' '.join(ts(d, x['t']) for x in f['params']) + ' -> ' + ts(d, f['rt']) + (' const' if f.get('const') else ''), f['l']])

    def calls(x):
        if isinstance(x, list):
            for y in x:
                calls(y)
        elif isinstance(x, dict):
            c = x.get('fn')
            if isinstance(c, dict) and isinstance(c.get('q'), str) and ours(c['q']) and not re.search(r'[<~]|operator', c['q']) and 'pt' in c:
                p = c['q'].split('::')
                if not (len(p) > 1 and p[-1] == p[-2]):
                    fn.setdefault(c['q'], [' '.join(ts(d, t) for t in c['pt']) + ' -> ' + ts(d, c.get('rt')) + (' const' if c.get('const') else ''), 1 << 30])
            for v in x.values():
                if isinstance(v, (dict, list)):
                    calls(v)
    calls(d['functions'])
    for g in d['globals'].values():
        if ours(g['q']) and not g.get('local'):
            var[g['q']] = ('const ' if g.get('const') else '') + ts(d, g['t'])
    return dict(rec=rec, fn=fn, var=var)


def match(old, new):
    """[(old name, new name)]: old, new lists of (name, type) without common names"""
    out = []
    for t in sorted({t for _, t in old}):
        a, b = [n for n, u in old if u == t], [n for n, u in new if u == t]
        if a and len(a) == len(b):
            out += list(zip(a, b))
    return out


def scope(q):
    return q.rsplit('::', 1)[0] if '::' in q else ''


class Aliases:
    def __init__(self):
        self.field = {}      # (class, new) -> old
        self.name = {}       # new qualified name -> old qualified name (functions and globals)
        self.novel_fields, self.novel_globals = set(), set()

    def __bool__(self):
        return bool(self.field or self.name)

    def macros(self):
        """old unqualified name -> new unqualified name"""
        m = {o: n for (_, n), o in self.field.items()}
        m.update({o.split('::')[-1]: n.split('::')[-1] for n, o in self.name.items()})
        return m

    def text(self):
        return sorted([f'{c}::{n} is {o}' for (c, n), o in self.field.items()] + [f'{n} is {o}' for n, o in self.name.items()])


def find(docs, occurs=lambda n: False):
    """docs: {tu: exported json}"""
    A = Aliases()
    try:
        base = json.load(open(NAMES))
    except OSError:
        return A
    allrec, allvar = {}, set()
    for b in base.values():
        allrec.update(b['rec'])
        allvar |= set(b['var'])
    for tu, d in docs.items():
        b = base.get(tu)
        s = summary(d)
        for q, fs in s['rec'].items():
            if q in allrec:
                o = allrec[q]
                on, nn = {n for n, _ in o}, {n for n, _ in fs}
                for x, y in match([(n, t) for n, t in o if n not in nn], [(n, t) for n, t in fs if n not in on]):
                    A.field[(q, y)] = x
        if b is None:
            continue
        for kind, ty in (('fn', lambda v: v[0]), ('var', lambda v: v)):
            o = [(q, ty(v)) for q, v in sorted(b[kind].items(), key=lambda x: x[1][1] if kind == 'fn' else 0) if q not in s[kind]]
            n = [(q, ty(v)) for q, v in sorted(s[kind].items(), key=lambda x: x[1][1] if kind == 'fn' else 0) if q not in b[kind]]
            for sc in {scope(q) for q, _ in o}:
                for x, y in match([(q, t) for q, t in o if scope(q) == sc], [(q, t) for q, t in n if scope(q) == sc]):
                    if not occurs(x.split('::')[-1]):       # what still exists has not been renamed
                        A.name[y] = x
    for tu, d in docs.items():
        s = summary(d)
        for q, fs in s['rec'].items():
            if q in allrec:
                A.novel_fields |= {(q, n) for n, _ in fs if n not in {x for x, _ in allrec[q]} and (q, n) not in A.field}
        if tu in base:
            A.novel_globals |= {q for q in s['var'] if q not in allvar and q not in A.name}
            # a name the tree had elsewhere before is not new; a function-local static is
            lb = set(base[tu].get('local', []))
            A.novel_globals |= {g['q'] for g in d['globals'].values() if g.get('local') and not g.get('const') and g['q'] not in lb}
    return A


def load(prog, paths, occurs=lambda n: False):
    """fill prog from the exported units; the aliases in force"""
    docs = {t: json.load(open(p)) for t, p in paths.items()}
    A = find(docs, occurs)
    for d in docs.values():
        prog.load(rewrite(d, A))
    known = {f for b in (json.load(open(NAMES)) if os.path.exists(NAMES) else {}).values() for fs in b['rec'].values() for f, _ in fs}
    prog.novel = (frozenset(n for _, n in A.novel_fields if n not in known), frozenset(A.novel_globals))
    return A


def locals_of(d):
    return sorted({g['q'] for g in d['globals'].values() if g.get('local') and not g.get('const')})


def rewrite(d, A):
    """the exported unit under the listed names"""
    if not A:
        return d
    ids = {}
    for r in d['records'].values():
        for f in r['fields']:
            o = A.field.get((r['q'], f['n']))
            if o:
                f['n'] = o
                ids[f['id']] = o
        for m in r.get('methods', ()):
            o = A.name.get(r['q'] + '::' + m['n'])
            if o:
                m['n'] = o.split('::')[-1]

    def walk(x):
        if isinstance(x, list):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            if x.get('k') == 'mem' and x.get('d') in ids:
                x['n'] = ids[x['d']]
            if 'f' in x and isinstance(x['f'], str) and x.get('d') in ids:
                x['f'] = ids[x['d']]
            q = x.get('q')
            if isinstance(q, str) and q in A.name:
                x['q'] = A.name[q]
            for v in x.values():
                if isinstance(v, (dict, list)):
                    walk(v)
    walk(d['functions'])
    for g in d['globals'].values():
        if g['q'] in A.name:
            g['q'] = A.name[g['q']]
    return d
