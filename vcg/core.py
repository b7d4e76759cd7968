"""Symbolic executor over the exported AST: turns a function body of /repo into
guarded outcomes over logical leaves.  Loops are cut at invariants (loops.py)."""
import json
import re
import z3
from .logic import *
from .shape import *


class Unsup(Exception):
    """construct outside the supported subset: the function is undecided"""


def strip_t(q):
    """drop template arguments and inline namespaces from a qualified name"""
    out, d, i = [], 0, 0
    m = re.search(r'operator.*$', q)
    tail = ''
    # protect operator names
    k = q.rfind('operator')
    if k > 0 and q[k - 1] in ':' and not (k + 8 < len(q) and (q[k + 8].isalnum() or q[k + 8] == '_')):
        q, tail = q[:k], q[k:]
        if tail.startswith('operator') and len(tail) > 8 and tail[8] == ' ':
            pass
    for c in q:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    r = ''.join(out) + tail
    return r.replace('__cxx11::', '').replace('_V2::', '')


# ----------------------------------------------------------------- program
class Ty:
    __slots__ = ('d', 'id', '_sh')

    def __init__(self, d):
        self.d = d
        self._sh = None

    @property
    def k(self):
        return self.d['k']

    @property
    def q(self):
        return self.d.get('q')

    @property
    def s(self):
        return self.d['s']

    @property
    def e(self):
        return self.d['e']

    def targs(self):
        return [a['t'] for a in self.d.get('args', []) if 't' in a]

    def deref(self):
        return self.d['e'] if self.k in ('ref',) else self

    def __repr__(self):
        return self.s


class Fn:
    def __init__(self, d, tu):
        self.d, self.tu = d, tu
        self.q = strip_t(d['q'])
        self.file, self.line = d['file'], d['l']
        self.sig = tuple(p['t'].s.replace('const ', '') for p in d['params'])

    def __repr__(self):
        return f'{self.q}({", ".join(self.sig)})'


class Program:
    TK = ('t', 'at', 'ct', 'clt', 'rt', 'cls', 'base')

    def __init__(self):
        self.novel = (frozenset(), frozenset())     # fields and globals the contracts do not know (see rename.py)
        self.fns = {}    # q -> [Fn]
        self.byid = {}
        self.recs = {}
        self.globs = {}
        self.ntu = 0
        self.shape_cache = {}
        self.derived = {}

    def load(self, path):
        d = path if isinstance(path, dict) else json.load(open(path))
        tu = self.ntu
        self.ntu += 1
        base = (tu + 1) << 20
        types = [Ty(t) for t in d['types']]
        for t in types:
            td = t.d
            for k in ('e', 'r'):
                if isinstance(td.get(k), int):
                    td[k] = types[td[k]]
            if 'args' in td:
                for a in td['args']:
                    if 't' in a:
                        a['t'] = types[a['t']]

        def fix(x):
            if isinstance(x, list):
                for y in x:
                    fix(y)
            elif isinstance(x, dict):
                for k, v in x.items():
                    if k in self.TK and isinstance(v, int) and not isinstance(v, bool):
                        x[k] = types[v] if v >= 0 else None
                    elif k == 'pt':
                        x[k] = [types[i] for i in v]
                    elif k in ('d', 'id') and isinstance(v, int):
                        x[k] = base + v
                    elif isinstance(v, (dict, list)):
                        fix(v)
        fix(d['functions'])
        for r in d['records'].values():
            for f in r['fields']:
                fix(f)
                f['t'] = f['t'] if isinstance(f['t'], Ty) else types[f['t']]
            r['bases'] = [types[b] for b in r['bases']]
            fix(r['methods'] if 'methods' in r else [])
            q = r['q']
            if q not in self.recs:
                self.recs[q] = r
                for b in r['bases']:
                    self.derived.setdefault(b.q, set()).add(q)
        for i, g in d['globals'].items():
            if isinstance(g['t'], int):
                g['t'] = types[g['t']]
            fix({'x': g.get('init')})
            self.globs[base + int(i)] = g
        for fd in d['functions']:
            f = Fn(fd, tu)
            self.byid[fd['id']] = f
            L = self.fns.setdefault(f.q, [])
            if not any(o.sig == f.sig and o.d.get('ta', 0) == f.d.get('ta', 0) for o in L if 'ta' not in fd):
                L.append(f)

    def find(self, q, nparams=None, sig=None):
        c = self.fns.get(q, [])
        if nparams is not None:
            c = [f for f in c if len(f.d['params']) == nparams]
        if sig is not None:
            c = [f for f in c if all(s in p for s, p in zip(sig, f.sig))]
        if not c:
            raise Unsup(f'function {q} not found')
        return c[0]

    def resolve(self, fnref):
        f = self.byid.get(fnref['id'])
        if f:
            return f
        q = strip_t(fnref['q'])
        sig = tuple(p.s.replace('const ', '') for p in fnref['pt'])
        for f in self.fns.get(q, []):
            if f.sig == sig:
                return f
        return None

    # ------------------------------------------------------------- shapes
    def shape(self, t):
        key = t.s.replace('const ', '').replace('__cxx11::', '')
        s = self.shape_cache.get(key)
        if s is None:
            s = self._shape(t)
            self.shape_cache[key] = s
        return s

    opaque = frozenset()   # records a contract treats as indivisible values (no access to their fields)

    def bases(self, q):
        r = self.recs.get(q)
        out = []
        if r:
            for b in r['bases']:
                out.append(b.q)
                out += self.bases(b.q)
        return out

    def rec_shape(self, q):
        r = self.recs[q]
        fs = []
        for b in r['bases']:
            s = self.shape(b)
            if isinstance(s, Rec):
                fs += s.fields
        for f in r['fields']:
            fs.append((f['n'], self.shape(f['t'])))
        return Rec(q, fs)

    RATIO = re.compile(r'ratio<(\d+)(?:, ?(\d+))?>')

    def _shape(self, t):
        k = t.k
        if k == 'b':
            n = t.d['n']
            if n in ('bool', '_Bool'):
                return Sc('b')
            if 'w' in t.d:
                return Sc('i', t.d['w'], t.d['u'])
            if n in ('double', 'float', 'long double'):
                return Sc('d', 32 if n == 'float' else 64)
            if n == 'void':
                return Nil('void')
            if 'nullptr' in n:
                return Sc('p')
            return Nil(n)
        if k == 'enum':
            return Sc('i', t.d['w'], t.d['u'], q=t.q)
        if k == 'ptr':
            e = t.e
            if e.k == 'b' and e.d.get('n') == 'char':
                return Sc('s')
            return Sc('p', tgt=e)
        if k == 'ref':
            return Sc('p', tgt=t.e)   # reference member: address of the referent
        if k == 'arr':
            return Arr(t.d.get('n'), self.shape(t.e))
        if k == 'fn':
            return Nil('fn')
        if k == 'rec':
            q = t.q.replace('__cxx11::', '').replace('_V2::', '')
            if q in self.opaque:
                return Sc('o', q=q)
            a = t.targs()
            if q in ('std::basic_string', 'std::basic_string_view', 'std::filesystem::path'):
                return Sc('s')
            if q in ('sdbusplus::object_path',):
                return Sc('s')
            if q == 'std::filesystem::directory_entry':
                return Sc('s')
            if q == 'std::filesystem::directory_iterator':
                return Vec(Sc('s'))
            if q in ('std::vector', 'std::list', 'std::initializer_list'):
                return Vec(self.shape(a[0]))
            if q == 'std::deque':
                return Deq(self.shape(a[0]))
            if q == 'std::array':
                n = [x['i'] for x in t.d['args'] if 'i' in x][0]
                return Arr(n, self.shape(a[0]))
            if q in ('std::map', 'std::unordered_map', 'boost::container::flat_map'):
                return Map(self.shape(a[0]), self.shape(a[1]))
            if q in ('std::set', 'std::unordered_set'):
                return Set(self.shape(a[0]))
            if q == 'std::pair':
                return Rec('std::pair', [('first', self.shape(a[0])), ('second', self.shape(a[1]))])
            if q == 'std::tuple':
                return Rec('std::tuple', [(f'm{i}', self.shape(x)) for i, x in enumerate(a)])
            if q == 'std::optional':
                return Opt(self.shape(a[0]))
            if q == 'std::variant':
                return Var([self.shape(x) for x in a])
            if q in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::reference_wrapper'):
                return Sc('p', tgt=a[0])
            if q == 'std::chrono::duration':
                m = self.RATIO.search(t.s.split('duration', 1)[1]) if 'ratio' in t.s else None
                r = (1, 1)
                if m:
                    r = (int(m.group(1)), int(m.group(2) or 1))
                return Sc('t', ratio=r)
            if q == 'std::chrono::time_point':
                return Sc('t', ratio=(1, 10 ** 9))
            if q in ('nlohmann::basic_json', 'std::any', 'std::function', 'sdbusplus::message_t', 'sdbusplus::bus_t',
                     'std::basic_regex', 'std::match_results'):
                return Sc('o', q=q)
            if q in ('std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream'):
                return Rec('std::fstream', [('path', Sc('s')), ('open', Sc('b'))])
            if q in ('std::basic_ostringstream', 'std::basic_stringstream'):
                return Rec('std::ostringstream', [('text', Sc('s'))])
            if q in self.recs and q not in ('sdbusplus::match', 'sdbusplus::server::manager_t'):
                return self.rec_shape(q)
            return Nil(q)
        return Nil(t.s)


# ------------------------------------------------------------------- values
class Loc:
    """a place: root + path.  Steps: ('f', off, n, shape) | ('ix', idx, shape)"""
    __slots__ = ('root', 'path', 'sh')

    def __init__(self, root, sh, path=()):
        self.root, self.sh, self.path = root, sh, path

    def f(self, name):
        if not isinstance(self.sh, Rec) or name not in self.sh.off:
            raise Unsup(f'field {name} of {self.sh}')
        o, s = self.sh.off[name]
        return Loc(self.root, s, self.path + (('f', o, s.n, s),))

    def ix(self, i):
        e = self.sh.v if isinstance(self.sh, Map) else self.sh.e
        return Loc(self.root, e, self.path + (('ix', i, e),))

    def same(self, o):
        if self.root != o.root or len(self.path) != len(o.path):
            return False
        for a, b in zip(self.path, o.path):
            if a[0] != b[0]:
                return False
            if a[0] == 'f' and a[1:3] != b[1:3]:
                return False
            if a[0] == 'ix' and not z3.eq(a[1], b[1]):
                return False
        return True

    def __repr__(self):
        return f'Loc({self.root},{len(self.path)})'


class ByteView(Loc):
    """a packed record of bytes laid over a byte buffer"""
    __slots__ = ('base', 'rec')

    def __init__(self, base, rec, tgt):
        Loc.__init__(self, ('H', tgt), rec)
        self.base, self.rec = base, rec

    def f(self, name):
        if name not in self.rec.off:
            raise Unsup(f'field {name} of {self.rec}')
        o, s = self.rec.off[name]
        return Loc(self.root, s, (('ix', z3.simplify(self.base + o), s),))

    def same(self, o):
        return isinstance(o, ByteView) and z3.eq(self.base, o.base) and self.rec == o.rec


class Py:
    """value without logical leaves"""
    def same(self, o):
        return self is o


def erased_by(s):
    """the iterators (declarations) whose entries a loop takes out of their map"""
    found, own = [], set()

    def names(n, out):
        if isinstance(n, dict):
            if n.get('k') == 'var':
                out.append(n.get('d'))
            for v in n.values():
                names(v, out)
        elif isinstance(n, (list, tuple)):
            for v in n:
                names(v, out)

    def walk(n):
        if isinstance(n, dict):
            if n.get('k') == 'decl':
                own.update(v.get('d') for v in n.get('v', ()))
            if n.get('k') == 'rfor' and isinstance(n.get('var'), dict):
                own.add(n['var'].get('d'))
            if n.get('k') == 'mcall' and n['fn']['q'].endswith('::erase') and len(n['args']) == 1:
                names(n['args'][0], found)
            for v in n.values():
                walk(v)
        elif isinstance(n, (list, tuple)):
            for v in n:
                walk(v)
    walk(s.get('body'))
    walk(s.get('inc'))
    return [d for d in dict.fromkeys(found) if d not in own]


class LockGuard(Py):
    """a lock guard: the mutex it holds"""
    def __init__(self, m):
        self.m = m


class It(Py):
    """iterator: container place + position.  kind vec: idx; map: (idx,key,end)"""
    def __init__(self, kind, c, idx=None, key=None, end=None):
        self.kind, self.c, self.idx, self.key, self.end = kind, c, idx, key, end

    def leaves(self):
        return [x for x in (self.idx, self.key, self.end) if x is not None]

    def withl(self, l):
        l = list(l)
        g = [l.pop(0) if x is not None else None for x in (self.idx, self.key, self.end)]
        return It(self.kind, self.c, *g)

    def same(self, o):
        return isinstance(o, It) and self.kind == o.kind and self.c.same(o.c) and \
            len(self.leaves()) == len(o.leaves()) and all(z3.eq(a, b) for a, b in zip(self.leaves(), o.leaves()))


class PV(Py):
    """pointer to a place: alternatives [(cond, Loc|Clo|None)]"""
    def __init__(self, alts):
        self.alts = alts

    def nonnull(self):
        return z3.Or(*[c for c, l in self.alts if l is not None]) if any(l is not None for _, l in self.alts) else F

    def same(self, o):
        return isinstance(o, PV) and len(self.alts) == len(o.alts) and all(
            z3.eq(a[0], b[0]) and (a[1] is b[1] or (isinstance(a[1], Loc) and isinstance(b[1], Loc) and a[1].same(b[1])))
            for a, b in zip(self.alts, o.alts))


class Clo(Py):
    def __init__(self, ops, env, this, tu):
        self.ops, self.env, self.this, self.tu = ops, env, this, tu


class FnPtr(Py):
    def __init__(self, fnref):
        self.fn = fnref


class Alt(Py):
    """function value that depends on the path: [(cond, function)]"""
    def __init__(self, alts):
        self.alts = alts

    def same(self, o):
        return isinstance(o, Alt) and len(o.alts) == len(self.alts) and all(z3.eq(a, c) and b is d for (a, b), (c, d) in zip(self.alts, o.alts))


class Obj(Py):
    """library object with python-level state (stream, match, ...)"""
    def __init__(self, cls, **kw):
        self.cls = cls
        self.__dict__.update(kw)


class IList(Py):
    def __init__(self, vals):
        self.vals = vals


class Poison(Py):
    pass


class State:
    __slots__ = ('roots', 'py', 'pc')

    def __init__(self, roots=None, py=None, pc=()):
        self.roots = roots or {}
        self.py = py or {}
        self.pc = pc

    def copy(self):
        return State(dict(self.roots), dict(self.py), self.pc)

    def assume(self, c):
        if z3.is_true(c):
            return
        self.pc = self.pc + (c,)


class Exc:
    def __init__(self, cls, val=None):
        self.cls, self.val = cls, val


class Frame:
    def __init__(self, fn, tu, this=None, parent=None):
        self.fn, self.tu, self.this = fn, tu, this
        self.env = dict(parent.env) if parent else {}
        self.cur_exc = None
        self.depth = parent.depth + 1 if parent else 0
        self.dyn = None


class Outs:
    def __init__(self):
        self.normal = []
        self.brk = []
        self.cont = []
        self.ret = []   # (st, value)


EXC_BASE = {
    'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::out_of_range': 'std::logic_error',
    'std::invalid_argument': 'std::logic_error', 'sdbusplus::exception_t': 'std::exception',
    'sdbusplus::exception::SdBusError': 'sdbusplus::exception_t', 'std::bad_variant_access': 'std::exception',
    'nlohmann::detail::exception': 'std::exception', 'std::filesystem::filesystem_error': 'std::runtime_error',
    'std::regex_error': 'std::runtime_error', 'std::bad_optional_access': 'std::exception',
}


def mentions(t, name):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name().split('~')[0] == name:
            return True
        todo += x.children()
    return False


# a null const char*: a distinguished string, compared with only where a null
# pointer was merged into the value
NULLSTR = sv('\x01null\x01')


def null_cstr(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.eq(x, NULLSTR):
            return t == NULLSTR
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            todo += [x.arg(1), x.arg(2)]
    return F


def cstr_pair(p, v):
    return isinstance(p, PV) and all(l is None for _, l in p.alts) and isinstance(v, Val) and isinstance(v.sh, Sc) and v.sh.k == 's'


def is_byte(t):
    return t is not None and t.k == 'b' and t.d.get('w') == 8 and t.d.get('u')


class Exec:
    def __init__(self, prog, models, axioms=None):
        self.prog = prog
        self.models = models          # q -> callable
        self.ax = axioms or Axioms()
        self.uid = 0
        self.thr = [[]]               # stack of lists of (st, Exc)
        self.loop_handler = None
        self.maxdepth = 12
        self.pre_facts = []
        self.inlined = set()
        self.obl_safety = []
        self.ptr_cls = {}
        self.trusted = set()          # library/interface models used
        self.solver_feasible = None
        self.initial = {}
        self.locstat = set()      # function-local statics: internal state of the function
        self.keepstat, self.kept = True, {}
        self.heap_types, self._pyh, self.addr, self.dyn_roots = {}, {}, {}, {}
        self.concrete = set()
        self.guard = None       # lock discipline of the contract at hand
        self.perm = []          # (path condition, goal, what): access obligations of the code
        self.track, self.channel = set(), {}
        self.nobl_loop = 0

    # ------------------------------------------------------------ basics
    def fresh(self, sh, name):
        self.uid += 1
        return consts(sh, f'{name}!{self.uid}')

    def newroot(self, st, sh, val, name='tmp'):
        self.uid += 1
        r = ('L', name, self.uid)
        if isinstance(val, Py):
            st.py[r] = val
            st.roots[r] = Val(Nil(), ())
            return Loc(r, Nil())
        st.roots[r] = val
        return Loc(r, sh)

    def root(self, st, r):
        v = st.roots.get(r)
        if v is None:
            v = self.init_root(r)
            st.roots[r] = v
        return v

    def init_root(self, r):
        v = self.initial.get(r)
        if v is not None:
            return v
        if r[0] == 'H':
            e = self.heap_shape(r[1])
            v = Val(Arr(None, e), [z3.Const(f'heap {r[1]}.{i}', s) for i, s in enumerate(arr(I, e.sorts))])
        elif r[0] == 'T':
            v = Val(Sc('o'), [z3.Const(f'trace {r[1]}', I)])
        elif r[0] == 'G':
            v = consts(r[2], f'global {r[1]}') if len(r) > 2 else None
        else:
            raise Unsup(f'root {r}')
        self.initial[r] = v
        return v

    def heap_shape(self, q):
        if q in self.prog.recs:
            return self.prog.rec_shape(q)
        for t in self.ptr_cls.values():
            pass
        if q in self.heap_types:
            return self.prog.shape(self.heap_types[q])
        raise Unsup('heap ' + q)
    def load(self, st, l):
        if not isinstance(l, Loc):
            return l
        if l.root in st.py:
            if l.path:
                raise Unsup('path into python value')
            v = st.py[l.root]
            if isinstance(v, Poison):
                raise Unsup('value differs between joined paths')
            return v
        v = self.root(st, l.root)
        ls = v.l
        sh = v.sh
        for s in l.path:
            if s[0] == 'f':
                ls = ls[s[1]:s[1] + s[2]]
                sh = s[3]
            else:
                ls = Val(sh, ls).at(s[1]).l
                sh = s[2]
        return Val(sh, ls)

    def store(self, st, l, val):
        if isinstance(val, Loc):
            val = self.load(st, val)
        if isinstance(val, Py):
            if isinstance(val, PV) and l.sh.n == 1 and isinstance(l.sh, Sc) and l.sh.k == 'p':
                if len(val.alts) == 1 and val.alts[0][1] is None:
                    val = Val(l.sh, [iv(0)])
                    self.store(st, l, val)
                    return
            if l.path:
                # opaque content in a structured place
                if l.sh.n == 0:
                    return
                if isinstance(l.sh, Sc) and l.sh.k in 'op':
                    self.uid += 1
                    self.store(st, l, Val(l.sh, [self.py_handle(val)]))
                    return
                raise Unsup(f'python value {type(val).__name__} into structure')
            st.py[l.root] = val
            if l.root not in st.roots:
                st.roots[l.root] = Val(Nil(), ())
            return
        if l.root in st.py:
            if l.path:
                raise Unsup('path into python value')
            del st.py[l.root]
            st.roots[l.root] = val
            return
        base = self.root(st, l.root)
        if not l.path and base.sh.n != val.sh.n:
            st.roots[l.root] = val
            return

        def rec(cur, path):
            if not path:
                if cur.sh.n != val.sh.n:
                    raise Unsup(f'shape mismatch {cur.sh} <- {val.sh}')
                return Val(cur.sh, val.l)
            s = path[0]
            if s[0] == 'f':
                sub = rec(Val(s[3], cur.l[s[1]:s[1] + s[2]]), path[1:])
                return Val(cur.sh, cur.l[:s[1]] + sub.l + cur.l[s[1] + s[2]:])
            sub = rec(cur.at(s[1]), path[1:])
            return self.set_ix(cur, s[1], sub)
        st.roots[l.root] = rec(base, l.path)

    @staticmethod
    def set_ix(cur, i, sub):
        if isinstance(cur.sh, Map):   # writing through an existing entry keeps dom
            return Val(cur.sh, (cur.l[0],) + tuple(z3.Store(a, i, x) for a, x in zip(cur.l[1:], sub.l)))
        return cur.set(i, sub)

    def py_handle(self, v):
        h = self._pyh.get(id(v))
        if h is None:
            h = iv(10 ** 9 + len(self._pyh))
            self._pyh[id(v)] = h
            self._pyh[('keep', id(v))] = v
        return h

    def rv(self, st, x):
        return self.load(st, x)

    def b(self, st, x):
        """value as Bool"""
        v = self.load(st, x)
        if isinstance(v, PV):
            return v.nonnull()
        if isinstance(v, (Clo, FnPtr)):
            return T
        if isinstance(v, Py):
            raise Unsup(f'bool of {type(v).__name__}')
        t = v.x
        if v.sh.k == 'b':
            return t
        if v.sh.k == 'd':
            return dne(t, dv(0.0))
        if v.sh.k == 's':
            return z3.Not(null_cstr(t))
        return t != iv(0)

    def event(self, st, ch, name, *leaves):
        r = ('T', ch)
        cur = self.root(st, r).x
        st.roots[r] = Val(Sc('o'), [app('ev ' + name, I, cur, *leaves)])

    # -------------------------------------------------------------- merging
    def suffix_cond(self, st, common):
        s = st.pc[common:]
        return z3.And(*s) if len(s) > 1 else (s[0] if s else T)

    def merge(self, sts):
        """merge states with mutually exclusive path conditions; sts nonempty"""
        sts = [s for s in sts if not any(z3.is_false(c) for c in s.pc)]
        if not sts:
            return None
        acc = sts[0]
        for s in sts[1:]:
            acc, _ = self.merge2(acc, s, None, None)
        return acc

    def merge_vals(self, pairs):
        """[(st, val)] -> (st, val)"""
        pairs = [(s, v) for s, v in pairs if not any(z3.is_false(c) for c in s.pc)]
        if not pairs:
            return None, None
        s, v = pairs[0]
        for s2, v2 in pairs[1:]:
            s, v = self.merge2(s, s2, v, v2)
        return s, v

    def merge2(self, a, b, va, vb):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].get_id() == b.pc[n].get_id():
            n += 1
        ca, cb = self.suffix_cond(a, n), self.suffix_cond(b, n)
        r = State(pc=a.pc[:n])
        # complementary suffixes disappear
        if len(a.pc) - n == 1 and len(b.pc) - n == 1 and (z3.eq(z3.simplify(z3.Not(ca)), z3.simplify(cb))):
            pass
        else:
            o = z3.simplify(z3.Or(ca, cb))
            if not z3.is_true(o):
                r.pc = r.pc + (z3.Or(ca, cb),)
        keys = set(a.roots) | set(b.roots)
        for k in keys:
            if k[0] == 'G' and (k in a.py) != (k in b.py):
                r.py[k] = a.py.get(k) or b.py.get(k)
                r.roots[k] = Val(Nil(), ())
                continue
            if k in a.roots and k in b.roots:
                x, y = a.roots[k], b.roots[k]
            elif k[0] in 'HTG':
                x, y = self.root(a, k), self.root(b, k)
            else:
                r.roots[k] = a.roots.get(k) or b.roots.get(k)
                p = a.py.get(k) or b.py.get(k)
                if p is not None:
                    r.py[k] = p
                continue
            pa, pb = a.py.get(k), b.py.get(k)
            if pa is not None or pb is not None:
                if isinstance(pa, PV) and pb is None and isinstance(y, Val) and y.sh.n == 1 and y.sh.k == 'p':
                    r.roots[k] = ite(ca, Val(y.sh, [self.pv_handle(pa)]), y)
                    continue
                if isinstance(pb, PV) and pa is None and isinstance(x, Val) and x.sh.n == 1 and x.sh.k == 'p':
                    r.roots[k] = ite(ca, x, Val(x.sh, [self.pv_handle(pb)]))
                    continue
                if pb is None and cstr_pair(pa, y) or pa is None and cstr_pair(pb, x):
                    n0 = Val(Sc('s'), [NULLSTR])
                    r.roots[k] = ite(ca, n0, y) if pa is not None else ite(ca, x, n0)
                    continue
                r.py[k] = self.merge_py(ca, pa, pb)
                r.roots[k] = Val(Nil(), ())
                continue
            if x is y:
                r.roots[k] = x
            else:
                r.roots[k] = ite(ca, x, y)
        if va is None and vb is None:
            v = None
        else:
            v = self.merge_val(ca, r, a, b, va, vb)
        return r, v

    def merge_val(self, ca, r, a, b, va, vb):
        if isinstance(va, Loc) and isinstance(vb, Loc) and va.same(vb):
            return va
        if isinstance(va, Loc) and isinstance(vb, Loc):
            # reference to different places: keep as conditional only for values
            xa, xb = self.load(a, va), self.load(b, vb)
            if isinstance(xa, Val) and isinstance(xb, Val):
                return ite(ca, xa, xb)
        if isinstance(va, Loc):
            va = self.load(a, va)
        if isinstance(vb, Loc):
            vb = self.load(b, vb)
        if isinstance(va, Val) and isinstance(vb, Val):
            if va.sh.n != vb.sh.n:
                raise Unsup('merge of different shapes')
            return ite(ca, va, vb)
        if va is None or vb is None:
            return None
        if cstr_pair(va, vb) or cstr_pair(vb, va):
            n0 = Val(Sc('s'), [NULLSTR])
            return ite(ca, n0 if isinstance(va, PV) else va, n0 if isinstance(vb, PV) else vb)
        if isinstance(va, PV) and isinstance(vb, Val) and vb.sh.n == 1:
            va = Val(vb.sh, [self.pv_handle(va)])
            return ite(ca, va, vb)
        if isinstance(vb, PV) and isinstance(va, Val) and va.sh.n == 1:
            vb = Val(va.sh, [self.pv_handle(vb)])
            return ite(ca, va, vb)
        m = self.merge_py(ca, va, vb)
        if isinstance(m, Poison):
            raise Unsup('merge of incompatible values')
        return m

    def merge_py(self, ca, a, b):
        if a is b:
            return a
        if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind and a.c.same(b.c) and len(a.leaves()) == len(b.leaves()):
            return a.withl([x if z3.eq(x, y) else z3.If(ca, x, y) for x, y in zip(a.leaves(), b.leaves())])
        if isinstance(a, PV) and isinstance(b, PV):
            if a.same(b):
                return a
            return PV([(z3.And(ca, c), l) for c, l in a.alts] + [(z3.And(z3.Not(ca), c), l) for c, l in b.alts])
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and a.__dict__ == b.__dict__:
            return a
        fv = (Clo, FnPtr, Alt)
        if (isinstance(a, fv) or a is None) and (isinstance(b, fv) or b is None):
            l = [(T, a)] if not isinstance(a, Alt) else a.alts
            r = [(T, b)] if not isinstance(b, Alt) else b.alts
            return Alt([(z3.And(ca, c), f) for c, f in l if f is not None] + [(z3.And(z3.Not(ca), c), f) for c, f in r if f is not None])
        return Poison()

    # ------------------------------------------------------------- throwing
    def throw(self, st, cond, exc):
        """raise exc when cond holds; st continues with the negation"""
        c = z3.simplify(cond)
        if z3.is_false(c):
            return
        s2 = st.copy()
        s2.assume(cond)
        self.thr[-1].append((s2, exc))
        st.assume(z3.Not(cond) if not z3.is_true(c) else F)

    def dead(self, st):
        return any(z3.is_false(c) for c in st.pc)

    def feasible(self, st):
        if self.solver_feasible:
            return self.solver_feasible(st.pc)
        return True

    def guarded(self, st, fn):
        """run fn(); an unsupported construct on an infeasible path is ignored"""
        try:
            return fn()
        except Unsup:
            if not self.feasible(st):
                return None
            raise

    # ---------------------------------------------------------- statements
    def block(self, stmts, st, fr, out):
        """executes; returns live state or None"""
        for i, s in enumerate(stmts):
            if st is None:
                return None
            st = self.stmt(s, st, fr, out)
            if self.guard is not None and st is not None and s is not None and s['k'] == 'decl':
                held = [o for o in (st.py.get(fr.env[v['d']].root) for v in s['v'] if isinstance(fr.env.get(v['d']), Loc)) if isinstance(o, LockGuard)]
                if held:
                    return self.locked_block(held, stmts[i + 1:], st, fr, out)
        return st

    def locked_block(self, held, stmts, st, fr, out):
        """the rest of a block whose lock guards are released on every way out"""
        lists = [out.ret, out.brk, out.cont, self.thr[-1]]
        n = [len(l) for l in lists]
        r = self.block(stmts, st, fr, out)
        ends = [x[0] if isinstance(x, tuple) else x for l, k in zip(lists, n) for x in l[k:]] + ([r] if r is not None else [])
        for s in ends:
            for o in reversed(held):
                self.guard.destroy(self, s, o)
        return r

    def stmt(self, s, st, fr, out):
        if s is None:
            return st
        if self.dead(st):
            return None
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsup(f'statement {k} {s.get("n", "")} line {s.get("l")}')
        r = m(s, st, fr, out)
        if r is not None and self.dead(r):
            return None
        return r

    def s_block(self, s, st, fr, out):
        return self.block(s['b'], st, fr, out)

    def s_null(self, s, st, fr, out):
        return st

    def s_expr(self, s, st, fr, out):
        if s['e']['k'] == 'throw':
            self.do_throw(s['e'], st, fr)
            return None
        self.ev(s['e'], st, fr)
        return st

    def do_throw(self, e, st, fr):
        if e['e'] is None:
            exc = fr.cur_exc
            if exc is None:
                raise Unsup('rethrow outside handler')
            self.thr[-1].append((st.copy(), exc))
        else:
            v = self.rv(st, self.ev(e['e'], st, fr))
            t = e['e']['t']
            q = t.q or t.s
            self.thr[-1].append((st.copy(), Exc(strip_t(q), v)))

    def s_decl(self, s, st, fr, out):
        for v in s['v']:
            self.declare(v, st, fr)
        return st

    def declare(self, v, st, fr, initval=None):
        t = v['t']
        if v.get('static'):
            g = self.prog.globs.get(v['d'])
            l = fr.env[v['d']] = self.global_loc(v['d'], st, fr)
            if isinstance(l, Loc):
                self.locstat.add(l.root)
                # one that starts with a constant and that no run of the function changes (verify() looks) has that value
                if self.keepstat and l.root not in st.roots and isinstance(l.sh, (Set, Map, Vec)) and g.get('init') is not None and fr.rt is not None and \
                        fr.rt.k not in ('ref', 'ptr') and self.fixed(g['init']):
                    x = self.conv(self.rv(st, self.ev(g['init'], st, fr, g['t'])), g['t'], st)
                    if isinstance(x, Val):
                        st.roots[l.root] = self.initial[l.root] = self.kept[l.root] = x
            return
        init = v.get('init')
        if initval is None and init is not None:
            initval = self.ev(init, st, fr, t)
        if t.k == 'ref':
            if isinstance(initval, Loc):
                fr.env[v['d']] = initval
            else:
                sh = initval.sh if isinstance(initval, Val) else None
                fr.env[v['d']] = self.newroot(st, sh, initval, v['n'])
        else:
            if initval is None:
                sh = self.prog.shape(t)
                val = self.fresh(sh, 'uninit ' + v['n'])
            else:
                val = self.conv(self.rv(st, initval), t, st)
            fr.env[v['d']] = self.newroot(st, val.sh if isinstance(val, Val) else None, val, v['n'])
        if v.get('bind'):
            base = fr.env[v['d']]
            val = self.load(st, base) if isinstance(base, Loc) else base
            if isinstance(val, Py) and hasattr(val, 'parts'):
                for b, x in zip(v['bind'], val.parts()):
                    fr.env[b['d']] = self.newroot(st, x.sh if isinstance(x, Val) else None, x, b.get('n', 'bound'))
                return
            names = [n for n, _ in base.sh.fields]
            for b, n in zip(v['bind'], names):
                fr.env[b['d']] = base.f(n)

    def conv(self, val, t, st):
        """adjust value to declared type t"""
        sh = self.prog.shape(t)
        if isinstance(val, IList):
            return self.from_ilist(val, t, st)
        if isinstance(val, Py):
            return val
        if isinstance(sh, Sc) and isinstance(val.sh, Sc) and sh.k != val.sh.k:
            return self.scast(val, sh)
        if sh.n == val.sh.n and type(sh) is type(val.sh):
            return Val(sh, val.l)
        if isinstance(sh, Opt) and not isinstance(val.sh, Opt):
            return Val(sh, (T,) + self.conv2(val, sh.e).l)
        return val

    def conv2(self, val, sh):
        if isinstance(sh, Sc) and isinstance(val.sh, Sc) and sh.k != val.sh.k:
            return self.scast(val, sh)
        return val

    def from_ilist(self, il, t, st):
        sh = self.prog.shape(t)
        return self.ilist_to(il, sh, st)

    def ilist_to(self, il, sh, st):
        if isinstance(sh, Vec):
            v = default(sh)
            for x in il.vals:
                v = v.push(self.coerce(x, sh.e, st))
            return v
        if isinstance(sh, Arr):
            v = default(sh)
            for i, x in enumerate(il.vals):
                v = v.set(iv(i), self.coerce(x, sh.e, st))
            return v
        if isinstance(sh, Map):
            v = default(sh)
            for x in il.vals:
                x = self.coerce(x, Rec('std::pair', [('first', sh.k), ('second', sh.v)]), st)
                key, vv = x.f('first').x, x.f('second')
                v = ite(v.has(key), v, v.set(key, vv)) if not z3.is_false(z3.simplify(v.has(key))) else v.set(key, vv)
            return v
        if isinstance(sh, Set):
            v = default(sh)
            for x in il.vals:
                v = v.add(self.coerce(x, sh.k, st).x)
            return v
        if isinstance(sh, Rec):
            l = []
            for i, (n, fs) in enumerate(sh.fields):
                if i < len(il.vals) and il.vals[i] is not None:
                    l += self.coerce(il.vals[i], fs, st).l
                else:
                    if sh.q in self.prog.recs:      # its in-class initialiser
                        l += self.value_init(sh, st).f(n).l
                    else:
                        l += default(fs).l
            return Val(sh, l)
        if isinstance(sh, Sc):
            if not il.vals:
                return default(sh)
            return self.coerce(il.vals[0], sh, st)
        if sh.n == 0:
            return Val(sh, ())
        raise Unsup(f'init list to {sh}')

    def coerce(self, x, sh, st):
        x = self.rv(st, x)
        if isinstance(x, IList):
            return self.ilist_to(x, sh, st)
        if isinstance(x, PV) and isinstance(sh, Sc) and sh.k == 'p':
            return Val(sh, [self.pv_handle(x)])
        if isinstance(x, Py):
            if isinstance(sh, Sc) and sh.k in 'op':
                return Val(sh, [self.py_handle(x)])
            if sh.n == 0:
                return Val(sh, ())
            raise Unsup(f'coerce {type(x).__name__} to {sh}')
        if isinstance(sh, Opt) and not isinstance(x.sh, Opt):
            return Val(sh, (T,) + self.coerce(x, sh.e, st).l)
        if isinstance(sh, Var) and not isinstance(x.sh, Var):
            return self.to_variant(x, sh)
        if isinstance(sh, Sc) and isinstance(x.sh, Sc):
            if sh.k != x.sh.k:
                return self.scast(x, sh)
            return Val(sh, x.l)
        if sh.n == x.sh.n:
            return Val(sh, x.l)
        raise Unsup(f'coerce {x.sh} to {sh}')

    def pv_handle(self, pv):
        t = iv(0)
        for c, l in pv.alts:
            if l is None:
                continue
            # heap place: the handle itself
            if l.root[0] == 'H' and len(l.path) == 1:
                h = l.path[0][1]
            else:
                nm = f'&{l.root}' + ''.join(f'.{x[1]}:{x[2]}' if x[0] == 'f' else '[]' for x in l.path)
                ixs = [x[1] for x in l.path if x[0] == 'ix']
                h = app(nm, I, *ixs) if ixs else z3.Int(nm)
                self.pre_facts.append(h != 0)
                self.addr[h.get_id()] = (h, l)
            t = z3.If(c, h, t) if not z3.is_true(z3.simplify(c)) else h
        return t

    def to_variant(self, x, sh):
        for i, a in enumerate(sh.alts):
            same = (isinstance(a, Sc) and isinstance(x.sh, Sc) and a.k == x.sh.k and (a.k != 'i' or (a.w, a.u) == (x.sh.w, x.sh.u))) \
                or (not isinstance(a, Sc) and a == x.sh)
            if same:
                v = default(sh)
                v = v.withf('tag', iv(i)).withf(f'a{i}', x)
                return v
        for i, a in enumerate(sh.alts):
            if isinstance(a, Sc) and isinstance(x.sh, Sc) and (a.k == x.sh.k):
                return default(sh).withf('tag', iv(i)).withf(f'a{i}', x)
        raise Unsup('variant conversion')

    def scast(self, v, sh):
        a, b = v.sh.k, sh.k
        x = v.x
        if a == b:
            if a == 'd' and sh.w == 32 and v.sh.w != 32:
                return Val(sh, [app('to float', R, x)])
            return Val(sh, [x])
        if b == 'b':
            if a == 'd':
                return Val(sh, [dne(x, dv(0.0))])
            if a in 'ip':
                return Val(sh, [x != iv(0)])
        if a == 'b':
            if b == 'i':
                return Val(sh, [z3.If(x, iv(1), iv(0))])
            if b == 'd':
                return Val(sh, [b2d(x)])
        if a == 'i' and b == 'd':
            return Val(sh, [i2d(x)])
        if a == 'd' and b == 'i':
            n = d2i(x)
            if sh.w < 64:       # out of range is undefined: nothing is known of it
                lo, hi = (0, (1 << sh.w) - 1) if sh.u else (-(1 << (sh.w - 1)), (1 << (sh.w - 1)) - 1)
                n = z3.If(z3.And(n >= lo, n <= hi), n, app(f'd2i beyond {sh.w}{sh.u}', I, x))
            return Val(sh, [n])
        if a in 'ipo' and b in 'ipot':
            return Val(sh, [x])
        raise Unsup(f'scalar conversion {a}->{b}')

    def cond(self, e, st, fr):
        return self.b(st, self.ev(e, st, fr))

    def s_if(self, s, st, fr, out):
        if s.get('init'):
            st = self.stmt(s['init'], st, fr, out)
            if st is None:
                return None
        if s.get('var'):
            self.declare(s['var'], st, fr)
        c = z3.simplify(self.cond(s['c'], st, fr))
        if self.dead(st):
            return None
        if z3.is_true(c):
            return self.stmt(s['then'], st, fr, out)
        if z3.is_false(c):
            return self.stmt(s['else'], st, fr, out) if s.get('else') else st
        a, b = st, st.copy()
        a.assume(c)
        b.assume(z3.Not(c))
        env0 = fr.env
        fr.env = dict(env0)
        ra = self.guarded(a, lambda: self.stmt(s['then'], a, fr, out))
        fr.env = dict(env0)
        rb = self.guarded(b, lambda: self.stmt(s['else'], b, fr, out)) if s.get('else') else b
        fr.env = env0
        return self.merge([x for x in (ra, rb) if x is not None])

    def s_return(self, s, st, fr, out):
        v = None
        if s.get('e') is not None:
            e = s['e']
            v = self.ev(e, st, fr, fr.rt if hasattr(fr, 'rt') else None)
            if not (hasattr(fr, 'rt') and fr.rt is not None and fr.rt.k == 'ref'):
                v = self.rv(st, v)
                if getattr(fr, 'rt', None) is not None and v is not None:
                    v = self.conv(v, fr.rt, st)
        if not self.dead(st):
            out.ret.append((st, v))
        return None

    def s_break(self, s, st, fr, out):
        out.brk.append(st)
        return None

    def s_continue(self, s, st, fr, out):
        out.cont.append(st)
        return None

    def catches(self, hq, cls):
        c = cls
        while c:
            if c == hq:
                return True
            if c in self.prog.recs:
                bs = self.prog.recs[c]['bases']
                c = strip_t(bs[0].q) if bs else None
            else:
                c = EXC_BASE.get(c)
        return False

    def s_try(self, s, st, fr, out):
        self.thr.append([])
        try:
            r = self.stmt(s['body'], st, fr, out)
        finally:
            thrown = self.thr.pop()
        res = [r] if r is not None else []
        pend = thrown
        env0 = fr.env
        # merge throws of the same class first
        groups = {}
        for (ts, ex) in pend:
            groups.setdefault(ex.cls, []).append((ts, ex))
        for cls, lst in groups.items():
            h = None
            for hh in s['h']:
                if hh.get('t') is None or self.catches(strip_t(hh['t'].q or hh['t'].s), cls):
                    h = hh
                    break
            if h is None:
                self.thr[-1] += lst
                continue
            ms, mv = self.merge_vals([(a, b.val if b.val is not None else None) for a, b in lst]) if all(b.val is not None for _, b in lst) \
                else (self.merge([a for a, _ in lst]), None)
            if ms is None:
                continue
            fr.env = dict(env0)
            if h.get('var'):
                fr.env[h['var']['d']] = self.newroot(ms, None, mv if isinstance(mv, Py) else Obj('exc', c=cls, v=mv), 'exc')
            old = fr.cur_exc
            fr.cur_exc = Exc(cls, mv)
            r2 = self.guarded(ms, lambda: self.stmt(h['body'], ms, fr, out))
            fr.cur_exc = old
            if r2 is not None:
                res.append(r2)
        fr.env = env0
        return self.merge(res) if res else None

    def s_switch(self, s, st, fr, out):
        v = self.rv(st, self.ev(s['c'], st, fr)).x
        # flatten cases
        items = []

        def flat(b):
            for x in (b['b'] if b['k'] == 'block' else [b]):
                while x is not None and x['k'] in ('case', 'default'):
                    items.append(('L', x))
                    x = x['s']
                if x is not None:
                    items.append(('S', x))
        flat(s['body'])
        conds = {}
        allc = []
        for i, (k, x) in enumerate(items):
            if k == 'L' and x['k'] == 'case':
                c = v == self.rv(st, self.ev(x['v'], st, fr)).x
                conds[i] = c
                allc.append(c)
        entry = [(i, conds[i] if i in conds else z3.Not(z3.Or(*allc) if allc else F)) for i, (k, x) in enumerate(items) if k == 'L']
        has_def = any(k == 'L' and x['k'] == 'default' for k, x in items)
        o2 = Outs()
        cur = None
        for i, (k, x) in enumerate(items):
            if k == 'L':
                c = z3.simplify(dict(entry)[i])
                if z3.is_false(c):
                    continue
                n = st.copy()
                n.assume(c)
                cur = n if cur is None else self.merge([cur, n])
            elif cur is not None:
                env0 = fr.env
                cur0 = cur
                cur = self.guarded(cur, lambda: self.stmt(x, cur0, fr, o2))
        res = o2.brk + ([cur] if cur is not None else [])
        if not has_def:
            n = st.copy()
            n.assume(z3.Not(z3.Or(*allc)) if allc else T)
            res.append(n)
        out.ret += o2.ret
        out.cont += o2.cont
        return self.merge(res) if res else None

    @staticmethod
    def always(c):
        while c and c.get('k') == 'cast':
            c = c['e'] if 'e' in c else c.get('x')
        return not c or (c.get('k') in ('bool', 'int') and bool(c.get('v')))

    # loops are handled in loops.py via self.loop(head, body, inc)
    def s_for(self, s, st, fr, out):
        env0 = fr.env
        fr.env = dict(env0)
        st = self.stmt(s['init'], st, fr, out) if s.get('init') else st
        if st is None:
            fr.env = env0
            return None

        def head(x):
            return self.cond(s['c'], x, fr) if s.get('c') else T

        def body(x, o):
            return self.stmt(s['body'], x, fr, o)

        def inc(x):
            if s.get('inc'):
                self.ev(s['inc'], x, fr)
            return x
        try:
            r = self.erasing(s, st, fr, lambda b: self.loop(st, head, b, inc, out, line=s.get('l'), endless=self.always(s.get('c'))), body)
        finally:
            fr.env = env0
        return r

    frozen = []

    def erasing(self, s, st, fr, run, body):
        """a loop that takes entries out of the map it goes through: its iterator goes through the entries
        of the map on entry, as every round takes out its own entry at most (checked)"""
        its = []
        for d in erased_by(s):
            it = fr.env.get(d)
            it = self.load(st, it) if isinstance(it, Loc) else it
            if isinstance(it, It) and it.kind in ('map', 'set') and isinstance(it.c, Loc) and it.idx is not None:
                its.append((d, it.c, self.load(st, it.c).dom))
        if not its:
            return run(body)

        def checked(x, o):
            x0 = x.copy()
            n = [len(l) for l in (o.cont, o.normal)]
            r = body(x, o)
            for e in o.cont[n[0]:] + ([r] if r is not None else []):
                for d, c, dom in its:
                    b, a = self.load(x0, c).dom, self.load(e, c).dom
                    k = z3.Const('entry taken out', dom.sort().domain())
                    ok = z3.Or(z3.Select(a, k) == z3.Select(b, k), z3.And(k == self.load(x0, fr.env[d]).key, z3.Not(z3.Select(a, k))))
                    if not z3.is_true(z3.simplify(ok)) and self.solver_feasible(list(e.pc) + [z3.Not(ok)]):
                        raise Unsup('a map changed while it is gone through')
            return r
        old = self.frozen
        self.frozen = old + [(c, dom) for _, c, dom in its]
        try:
            return run(checked)
        finally:
            self.frozen = old

    def it_dom(self, st, it):
        for c, dom in reversed(self.frozen):
            if c.same(it.c):
                return dom
        return self.load(st, it.c).dom

    def s_while(self, s, st, fr, out):
        def head(x):
            if s.get('var'):
                self.declare(s['var'], x, fr)
            return self.cond(s['c'], x, fr)

        return self.erasing(s, st, fr, lambda b: self.loop(st, head, b, lambda x: x, out, line=s.get('l'), endless=self.always(s['c'])),
                            lambda x, o: self.stmt(s['body'], x, fr, o))

    def s_do(self, s, st, fr, out):
        # do B while(c)  ==  B; while(c) B   (break/continue of the first B join the loop)
        o = Outs()
        r = self.stmt(s['body'], st, fr, o)
        out.ret += o.ret
        live = self.merge([x for x in [r] + o.cont if x is not None]) if (r is not None or o.cont) else None
        res = list(o.brk)
        if live is not None:
            r2 = self.loop(live, lambda x: self.cond(s['c'], x, fr), lambda x, oo: self.stmt(s['body'], x, fr, oo), lambda x: x, out, line=s.get('l'))
            if r2 is not None:
                res.append(r2)
        return self.merge(res) if res else None

    def s_rfor(self, s, st, fr, out):
        if s.get('init'):
            st = self.stmt(s['init'], st, fr, out)
        rng = self.ev(s['range'], st, fr, None)
        var = s['var']
        env0 = fr.env
        fr.env = dict(env0)

        def bodyfn(x, elem, o):
            self.bind_elem(var, elem, x, fr)
            return self.stmt(s['body'], x, fr, o)
        r = self.foreach(st, rng, bodyfn, out, line=s.get('l'), fr=fr)
        fr.env = env0
        return r

    def bind_elem(self, var, elem, st, fr):
        """elem: Loc or Val or (key Val, value Loc)"""
        t = var['t']
        if isinstance(elem, tuple):
            key, vl = elem
            if var.get('bind'):
                d0, d1 = var['bind'][0]['d'], var['bind'][1]['d']
                fr.env[d0] = self.newroot(st, key.sh, key, 'key')
                fr.env[d1] = vl if t.k == 'ref' else self.newroot(st, vl.sh, self.load(st, vl), 'val')
                return
            pr = Rec('std::pair', [('first', key.sh), ('second', vl.sh)])
            val = self.load(st, vl)
            if t.k == 'ref' and not t.e.d.get('c'):
                fr.env[var['d']] = PairRef(key, vl)
                return
            fr.env[var['d']] = self.newroot(st, pr, Val(pr, key.l + val.l), var['n'])
            return
        if t.k == 'ref' and isinstance(elem, Loc):
            fr.env[var['d']] = elem
        else:
            v = self.rv(st, elem)
            if isinstance(v, Val):
                v = self.conv(v, t.deref(), st)
            fr.env[var['d']] = self.newroot(st, v.sh if isinstance(v, Val) else None, v, var['n'])
        if var.get('bind'):
            base = fr.env[var['d']]
            for b, (n, _) in zip(var['bind'], base.sh.fields):
                fr.env[b['d']] = base.f(n)

    def foreach(self, st, rng, bodyfn, out, line=None, fr=None):
        """for each element of a container place/value in iteration order"""
        if not isinstance(rng, (Loc, IList)):
            if isinstance(rng, Val):
                rng = self.newroot(st, rng.sh, rng, 'range')
        if isinstance(rng, Loc):
            v = self.load(st, rng)
            if isinstance(v, IList):
                rng = v
            elif isinstance(v, Py):
                m = getattr(self, 'foreach_py', None)
                return m(st, v, bodyfn, out, line)
        if isinstance(rng, IList):
            n = len(rng.vals)
            elem = lambda x, i: rng.vals[z3.simplify(i).as_long()]
            cnt = iv(n)
            return self.count_loop(st, cnt, elem, bodyfn, out, line, unroll=True)
        v = self.load(st, rng)
        sh = v.sh
        if isinstance(sh, Arr):
            return self.count_loop(st, iv(sh.cnt), lambda x, i: rng.ix(i), bodyfn, out, line, unroll=True)
        if isinstance(sh, (Vec, Deq)):
            self.len_fact(v)
            return self.count_loop(st, v.len, lambda x, i: rng.ix(i), bodyfn, out, line, live=lambda x: self.load(x, rng).len,
                                   src=v.l[1:] if isinstance(sh, Vec) else None)
        if isinstance(sh, (Map, Set)):
            dom = v.dom
            n = enumN(dom)
            ks = sh.k

            def el(x, i):
                d2 = self.load(x, rng).dom
                if not z3.eq(d2, dom):
                    raise Unsup('container modified while iterated')
                key = Val(ks, [enumKey(dom, i)])
                if isinstance(sh, Set):
                    return key
                return (key, rng.ix(key.x))
            return self.count_loop(st, n, el, bodyfn, out, line, seq=('enum', dom))
        if isinstance(sh, Sc) and sh.k == 's':
            return self.count_loop(st, slen(v.x), lambda x, i: Val(Sc('i', 8, False), [app('schar', I, v.x, i)]), bodyfn, out, line)
        if isinstance(sh, Sc) and sh.k == 'o':
            m = getattr(self, 'foreach_opaque', None)
            if m:
                return m(st, rng, v, bodyfn, out, line)
        raise Unsup(f'range-for over {sh}')

    def len_fact(self, v):
        self.pre_facts.append(v.len >= 0)

    def count_loop(self, st, n, elem, bodyfn, out, line, unroll=False, live=None, seq=None, src=None):
        """for (i=0; i<n; ++i) body(elem(i)) with a hidden counter"""
        ctr = self.newroot(st, Sc('i'), Val(Sc('i'), [iv(0)]), 'ctr')

        def head(x):
            return self.load(x, ctr).x < (live(x) if live else n)

        def body(x, o):
            i = self.load(x, ctr).x
            return bodyfn(x, elem(x, i), o)

        def inc(x):
            i = self.load(x, ctr).x
            self.store(x, ctr, Val(Sc('i'), [z3.simplify(i + 1)]))
            return x
        return self.loop(st, head, body, inc, out, line=line, bound=n, ctr=ctr, src=src)

    # ------------------------------------------------------------- calling
    def call_fn(self, fn, st, args, this=None, dyn=None, fr0=None):
        """inline a function body; args are Loc/Val/Py.  Returns value; st is
        updated in place."""
        d = fn.d
        depth = (fr0.depth if fr0 else 0) + 1
        if depth > self.maxdepth:
            raise Unsup('inlining depth')
        self.inlined.add(fn.q)
        fr = Frame(fn, fn.tu, this)
        fr.depth = depth
        fr.dyn = dyn
        fr.rt = d['rt']
        self.bind_params(d, args, st, fr)
        if d.get('ctor'):
            self.ctor_inits(fn, st, fr, this)
        return self.run_body(d['body'], st, fr)

    def bind_params(self, d, args, st, fr):
        for p, a in zip(d['params'], args):
            if a is None:
                continue
            t = p['t']
            if t.k == 'ref':
                if isinstance(a, Loc) or isinstance(a, PairRef):
                    fr.env[p['d']] = a
                else:
                    if isinstance(a, IList):
                        a = self.from_ilist(a, t.e, st)
                    fr.env[p['d']] = self.newroot(st, a.sh if isinstance(a, Val) else None, a, p['n'])
            else:
                v = self.rv(st, a)
                v = self.conv(v, t, st)
                fr.env[p['d']] = self.newroot(st, v.sh if isinstance(v, Val) else None, v, p['n'])
        for p in d['params'][len(args):]:
            if p.get('init') is not None:
                self.declare(p, st, fr)

    def run_body(self, body, st, fr):
        out = Outs()
        work = st.copy()
        env = fr.env
        r = self.stmt(body, work, fr, out)
        rets = list(out.ret)
        if r is not None:
            rets.append((r, None))
        if not rets:
            st.assume(F)
            return self.dead_value(fr)
        voidish = fr.rt is None or fr.rt.s == 'void' if hasattr(fr, 'rt') else True
        if voidish:
            m = self.merge([a for a, _ in rets])
            v = None
        else:
            vals = [(a, b) for a, b in rets if b is not None]
            if not vals:
                m, v = self.merge([a for a, _ in rets]), None
            else:
                m, v = self.merge_vals(vals)
        if m is None:
            st.assume(F)
            return self.dead_value(fr)
        st.roots, st.py, st.pc = m.roots, m.py, m.pc
        return v

    def dead_value(self, fr):
        rt = getattr(fr, 'rt', None)
        if rt is None or rt.s == 'void':
            return None
        sh = self.prog.shape(rt.deref())
        return self.fresh(sh, 'dead')

    def ctor_inits(self, fn, st, fr, this):
        d = fn.d
        done = set()
        for i in d['inits']:
            if i.get('deleg'):
                self.ctor_into(i['e'], this, st, fr)
            elif 'base' in i:
                self.ctor_into(i['e'], this, st, fr, base=i['base'])
            elif i.get('f') is not None:
                done.add(i['f'])
                if not isinstance(this.sh, Rec) or i['f'] not in this.sh.off:
                    continue
                fl = this.f(i['f'])
                if fl.sh.n == 0:
                    try:
                        self.ev(i['e'], st, fr)
                    except Unsup:
                        pass
                    continue
                if i['e'] is None:
                    continue
                self.init_place(fl, i['e'], st, fr)

    def field_type(self, q, name):
        for c in [q] + self.prog.bases(q):
            for f in self.prog.recs.get(c, {}).get('fields', []):
                if f['n'] == name:
                    return f['t']
        return None

    def init_place(self, l, e, st, fr):
        v = self.ev(e, st, fr)
        if isinstance(l.sh, Sc) and l.sh.k == 'p' and isinstance(v, Loc) and not (isinstance(v.sh, Sc) and v.sh.k == 'p'):
            # reference member bound to a place
            self.store(st, l, Val(l.sh, [self.pv_handle(PV([(T, v)]))]))
            return
        self.store(st, l, self.coerce(v, l.sh, st))

    def ctor_into(self, e, this, st, fr, base=None):
        """run constructor expression e on existing place `this` (base/delegating)"""
        if e is None:
            return
        if e['k'] == 'ctor':
            f = self.prog.resolve(e['fn'])
            if f is None:
                # library base or implicit trivial ctor
                q = strip_t(e['fn']['q'])
                m = self.models.get(q)
                args = [self.ev(a, st, fr) for a in e['args']]
                return
            args = [self.ev(a, st, fr) for a in e['args']]
            self.call_fn(f, st, args, this, dyn=fr.dyn, fr0=fr)
        elif e['k'] == 'ilist' or e['k'] == 'zero':
            return
        else:
            raise Unsup('base init ' + e['k'])

    def default_init(self, q, st, fr, zero=False):
        """value of a default-initialised user record (in-class initialisers); zero: value-initialised"""
        sh = self.prog.rec_shape(q)
        tmp = self.newroot(st, sh, default(sh) if zero else self.fresh(sh, 'uninit'), 'obj')
        self.fill_defaults(q, tmp, st, fr)
        return self.load(st, tmp)

    def value_init(self, sh, st):
        """what T() is: zero, but for the in-class initialisers"""
        def inits(q, seen=()):
            r = self.prog.recs.get(q) if q not in seen else None
            return bool(r) and (any(f.get('init') is not None or f['t'].k == 'rec' and inits(f['t'].q, seen + (q,)) for f in r['fields']) or
                                any(inits(b.q, seen + (q,)) for b in r['bases']))
        if isinstance(sh, Rec) and sh.q in self.prog.recs and inits(sh.q):
            return self.default_init(sh.q, st, Frame(None, None), zero=True)
        return default(sh)

    def fill_defaults(self, q, loc, st, fr):
        r = self.prog.recs.get(q)
        if not r:
            return
        for b in r['bases']:
            self.fill_defaults(b.q, loc, st, fr)
        for f in r['fields']:
            fl = loc.f(f['n'])
            if fl.sh.n == 0:
                continue
            if 'init' in f and f['init'] is not None:
                self.store(st, fl, self.coerce(self.ev(f['init'], st, Frame(None, None, loc)), fl.sh, st))
            else:
                t = f['t']
                if t.k == 'rec':
                    q2 = t.q
                    if q2 in self.prog.recs:
                        self.fill_defaults(q2, fl, st, fr)
                    elif not (isinstance(fl.sh, Sc) and fl.sh.k == 't'):
                        self.store(st, fl, default(fl.sh))

    # ---------------------------------------------------------- expressions
    def ev(self, e, st, fr, want=None):
        if e is None:
            return None
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsup(f'expression {k} {e.get("n", "")} line {e.get("l")}')
        if k in ('ilist', 'silist', 'ctor', 'lam'):
            return m(e, st, fr, want)
        return m(e, st, fr)

    def e_int(self, e, st, fr):
        sh = self.prog.shape(e['t'])
        if isinstance(sh, Sc) and sh.k == 'b':
            return Val(sh, [z3.BoolVal(e['v'] != '0')])
        return Val(sh if isinstance(sh, Sc) else Sc('i'), [iv(int(e['v']))])

    def e_bool(self, e, st, fr):
        return Val(Sc('b'), [z3.BoolVal(bool(e['v']))])

    def e_dbl(self, e, st, fr):
        return Val(Sc('d'), [dv(e['v'])])

    def e_str(self, e, st, fr):
        return Val(Sc('s'), [sv(e['v'])])

    def e_null(self, e, st, fr):
        return PV([(T, None)])

    def e_var(self, e, st, fr):
        d = e['d']
        if d in fr.env:
            return fr.env[d]
        if e.get('g'):
            return self.global_loc(d, st, fr, e)
        raise Unsup(f'variable {e["n"]} line {e.get("l")}')

    def fixed(self, e, inner=0):
        """an initialiser whose value does not depend on when it is evaluated"""
        if isinstance(e, list):
            return all(self.fixed(x, inner) for x in e)
        if not isinstance(e, dict):
            return True
        k = e.get('k')
        if k == 'this':
            return False
        if k == 'lam' and not inner:
            return not e.get('caps')
        if k == 'var':
            if not e.get('g'):
                return inner > 0
            g = self.prog.globs[e['d']]
            return bool(g.get('const')) and (g.get('init') is None or self.fixed(g['init'], inner))
        if k in ('call', 'mcall'):
            q = e['fn']['q'] if 'fn' in e else ''
            if not q.startswith('std::'):
                f = self.prog.resolve(e['fn']) if 'fn' in e else None
                if f is None or inner > 4 or not self.fixed(f.d.get('body') or {'k': 'this'}, inner + 1):
                    return False
            if q.startswith('std::filesystem') or 'now' in q or 'getenv' in q:
                return False
        return all(self.fixed(x, inner) for n, x in e.items() if n not in ('fn', 't'))

    def global_loc(self, d, st, fr, e=None):
        g = self.prog.globs[d]
        q = g['q']
        sh = self.prog.shape(g['t'])
        q0 = strip_t(q)
        if q0 in ('std::cerr', 'std::cout', 'std::clog'):
            r = ('G', q0)
            st.py.setdefault(r, Obj('stream', ch=q0[5:]))
            st.roots.setdefault(r, Val(Nil(), ()))
            return Loc(r, Nil())
        if q0 in self.models:
            return self.models[q0](self, st, None, None, [])
        t = g['t']
        if g.get('const') and g.get('init') is not None and not t.k == 'ref' and self.fixed(g['init']):
            r = ('G', q0, sh)
            if r not in st.roots:
                v = self.rv(st, self.ev(g['init'], st, fr, t))
                v = self.conv(v, t, st) if isinstance(v, (Val, IList)) else v
                if isinstance(v, Py):
                    st.py[r] = v
                    st.roots[r] = Val(Nil(), ())
                else:
                    st.roots[r] = v
                    self.initial[r] = v
            return Loc(r, sh)
        r = ('G', q0, sh)
        if sh.n == 0:
            st.roots.setdefault(r, Val(Nil(), ()))
        return Loc(r, sh)

    def e_this(self, e, st, fr):
        return PV([(T, fr.this)])

    def deref(self, st, p, t=None):
        """pointer value -> place.  t: pointee type"""
        p = self.rv(st, p)
        if isinstance(p, PV):
            live = [(c, l) for c, l in p.alts if l is not None]
            if len(live) == 1:
                return live[0][1]
            live = [(c, l) for c, l in live if not z3.is_false(z3.simplify(c))]
            if len(live) == 1:
                return live[0][1]
            for c, l in live:
                if not self.feasible_with(st, c):
                    continue
            live = [(c, l) for c, l in live if self.feasible_with(st, c)]
            if len(live) == 1:
                return live[0][1]
            raise Unsup('pointer with several targets')
        if isinstance(p, It):
            return self.it_deref(st, p)
        if isinstance(p, Loc):
            return p
        if isinstance(p, (Clo, FnPtr)):
            return p
        if isinstance(p, Obj):
            return p
        if isinstance(p, Val) and isinstance(p.sh, Sc) and p.sh.k == 'p':
            a = self.addr.get(p.x.get_id())
            if a:
                return a[1]
            tgt = t or p.sh.tgt
            return self.handle_loc(p.x, tgt)
        if isinstance(p, Val) and isinstance(p.sh, Opt):
            raise Unsup('optional deref by value')
        raise Unsup(f'deref of {p}')

    def feasible_with(self, st, c):
        if self.solver_feasible:
            return self.solver_feasible(st.pc + (c,))
        return True

    def handle_loc(self, h, tgt):
        q = (tgt.q if tgt.k == 'rec' else None) or tgt.s
        q = q.replace('const ', '')
        if z3.is_app(h) and h.decl().name().startswith('new '):
            made = h.decl().name()[4:]          # an object made here: its own class, whatever the pointer's
            if made != q and made in self.concrete and q in self.prog.bases(made):
                q, tgt = made, self.heap_types[made]
        self.heap_types.setdefault(q, tgt)
        sh = self.prog.shape(tgt)
        return Loc(('H', q), sh, (('ix', h, sh),))

    def handle_of(self, st, l):
        """identity of an object place, as an Int"""
        if isinstance(l, Val):
            if l.sh.n == 1:
                return l.x
            raise Unsup('identity of value')
        if isinstance(l, PV):
            return self.pv_handle(l)
        if isinstance(l, Loc):
            if l.root[0] == 'H' and len(l.path) == 1:
                return l.path[0][1]
            if isinstance(l.sh, Sc) and l.sh.k == 'o':
                return self.load(st, l).x
            return self.pv_handle(PV([(T, l)]))
        if isinstance(l, Py):
            return self.py_handle(l)
        raise Unsup('identity')

    def e_mem(self, e, st, fr):
        b = self.ev(e['b'], st, fr)
        if e['arrow']:
            b = self.deref(st, b, e['b']['t'].e if e['b']['t'].k == 'ptr' else None)
        if isinstance(b, PairRef):
            return b.get(e['n'])
        if isinstance(b, Val):
            if isinstance(b.sh, Rec) and e['n'] in b.sh.off:
                return b.f(e['n'])
            raise Unsup(f'member {e["n"]} of {b.sh}')
        if isinstance(b, Loc):
            if b.root in st.py:
                o = st.py[b.root]
                return self.py_member(st, o, e['n'])
            if isinstance(b.sh, Nil):
                raise Unsup(f'member {e["n"]} of opaque {b.sh.q}')
            l = b.f(e['n'])
            if self.guard is not None:
                self.guard.access(self, st, b, e)
            # reference members: follow
            t = self.field_type(b.sh.q, e['n']) if isinstance(b.sh, Rec) else None
            if t is not None and t.k == 'ref':
                return self.deref(st, self.load(st, l), t.e)
            return l
        return self.py_member(st, b, e['n'])

    def py_member(self, st, o, n):
        raise Unsup(f'member {n} of {type(o).__name__}')

    def e_cast(self, e, st, fr):
        ck = e['ck']
        v = self.ev(e['e'], st, fr)
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived'):
            return v
        if ck == 'ToVoid':
            return None
        if ck in ('NullToPointer',):
            return PV([(T, None)])
        if ck == 'BitCast':
            sh = self.prog.shape(e['t'])
            x = self.rv(st, v)
            if isinstance(x, Val) and isinstance(x.sh, Sc) and x.sh.k == 'p' and is_byte(x.sh.tgt) and isinstance(sh, Sc) and sh.tgt is not None and sh.tgt.k == 'rec':
                rec = self.prog.shape(sh.tgt)
                if isinstance(rec, Rec) and all(isinstance(s, Sc) and s.k == 'i' and s.w == 8 and s.u for _, s in rec.fields):
                    return PV([(T, ByteView(x.x, rec, x.sh.tgt.s.replace('const ', '')))])
                raise Unsup('record view of bytes')
            if isinstance(x, Val) and sh.n == 1:
                return Val(sh, x.l)
            return x
        if ck == 'ArrayToPointerDecay':
            if isinstance(v, Val) and isinstance(v.sh, Sc) and v.sh.k == 's':
                return v
            if isinstance(v, Loc):
                vv = self.load(st, v)
                if isinstance(vv, Val) and isinstance(vv.sh, Sc) and vv.sh.k == 's':
                    return vv
                return It('arr', v, idx=iv(0))
            return v
        x = self.rv(st, v)
        t = e['t']
        if ck == 'PointerToBoolean':
            return Val(Sc('b'), [self.b(st, x)])
        if isinstance(x, Py):
            if ck in ('PointerToIntegral', 'IntegralToPointer'):
                raise Unsup(ck)
            return x
        sh = self.prog.shape(t)
        if ck in ('IntegralCast',):
            if isinstance(x.sh, Sc) and x.sh.k == 'b':
                return Val(sh, [z3.If(x.x, iv(1), iv(0))])
            src = x.sh
            if sh.k == 'b':
                return Val(sh, [x.x != 0])
            if sh.w > src.w and (not src.u or sh.u == src.u or True) and not (sh.u and not src.u):
                return Val(sh, [x.x])
            if sh.w == src.w and sh.u == src.u:
                return Val(sh, [x.x])
            # the source range is known from its type
            return Val(sh, [wrap(x.x, sh.w, sh.u)])
        if ck == 'IntegralToBoolean':
            return Val(Sc('b'), [x.x != iv(0)])
        if ck == 'FloatingToBoolean':
            return Val(Sc('b'), [dne(x.x, dv(0.0))])
        if ck == 'IntegralToFloating':
            if x.sh.k == 'b':
                return Val(Sc('d'), [b2d(x.x)])
            return Val(Sc('d'), [i2d(x.x)])
        if ck == 'FloatingToIntegral':
            return Val(sh, [d2i(x.x, sh.w, sh.u)])
        if ck == 'FloatingCast':
            if t.s in ('float', 'const float') :
                return Val(sh, [app('d2f', R, x.x)])
            return Val(sh, [x.x])
        if ck in ('Dependent', 'LValueBitCast'):
            return v
        if ck in ('NonAtomicToAtomic', 'AtomicToNonAtomic'):
            return x
        raise Unsup('cast ' + ck)

    def e_un(self, e, st, fr):
        op = e['op']
        if op == '&':
            v = self.ev(e['e'], st, fr)
            if isinstance(v, Loc):
                if v.root[0] == 'H' and len(v.path) == 1:
                    return Val(Sc('p', tgt=e['e']['t']), [v.path[0][1]])
                return PV([(T, v)])
            if isinstance(v, (Clo, FnPtr)):
                return v
            if isinstance(v, Py):
                return PV([(T, self.newroot(st, None, v))])
            return PV([(T, self.newroot(st, v.sh, v))])
        if op == '*':
            v = self.ev(e['e'], st, fr)
            return self.deref(st, v, e['e']['t'].e if e['e']['t'].k == 'ptr' else None)
        v = self.ev(e['e'], st, fr)
        if op in ('++', '--'):
            x = self.rv(st, v)
            d = 1 if op == '++' else -1
            if isinstance(x, It):
                y = self.it_add(st, x, iv(d))
            elif x.sh.k == 'd':
                y = Val(x.sh, [dadd(x.x, dv(float(d)))])
            else:
                y = Val(x.sh, [self.int_arith('+', x.x, iv(d), x.sh)])
            self.store(st, v, y)
            return x if e['post'] else v
        if op == '!':
            return Val(Sc('b'), [z3.Not(self.b(st, v))])
        x = self.rv(st, v)
        if op == '-':
            if x.sh.k == 'd':
                return Val(x.sh, [dneg(x.x)])
            return Val(x.sh, [z3.simplify(-x.x) if not x.sh.u else wrap(-x.x, x.sh.w, True)])
        if op == '+':
            return x
        if op == '~':
            return Val(x.sh, [app('bitnot', I, x.x)])
        raise Unsup('unary ' + op)

    def int_arith(self, op, a, b, sh):
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif op == '/':
            sa, sb = z3.simplify(a), z3.simplify(b)
            if z3.is_int_value(sb) and sb.as_long() > 0:
                q = z3.If(a >= 0, a / b, -((-a) / b))
                r = q if not sh.u else a / b
            else:
                r = app('idiv', I, a, b)
        elif op == '%':
            sb = z3.simplify(b)
            if z3.is_int_value(sb) and sb.as_long() > 0:
                r = a % b if sh.u else z3.If(a >= 0, a % b, -((-a) % b))
            else:
                r = app('imod', I, a, b)
        elif op in ('&', '|', '^', '<<', '>>'):
            sa, sb = z3.simplify(a), z3.simplify(b)
            if z3.is_int_value(sa) and z3.is_int_value(sb):
                x, y = sa.as_long(), sb.as_long()
                r = iv({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y}[op])
            else:
                r = app('bit' + op, I, a, b)
        else:
            raise Unsup('int op ' + op)
        r = z3.simplify(r)
        if isinstance(sh, Sc) and sh.u and op == '-':
            # wrap-around of unsigned subtraction
            if not z3.is_int_value(r) or r.as_long() < 0:
                r = z3.If(a >= b, r, r + iv(1 << sh.w))
        if isinstance(sh, Sc) and sh.u and op == '+' and not z3.is_int_value(r) and (sh.w <= 32 or mentions(r, 'sfind') or mentions(r, 'srfind')):
            # and of an addition that can leave the range (npos + 1)
            r = z3.If(r < iv(1 << sh.w), r, r - iv(1 << sh.w))
        return r

    def arith(self, op, x, y, sh):
        """x,y Vals of compatible scalar kinds"""
        kx, ky = x.sh.k, y.sh.k
        if kx == 'b' and ky != 'b':
            x = self.scast(x, y.sh)
            kx = x.sh.k
        if ky == 'b' and kx != 'b':
            y = self.scast(y, x.sh)
            ky = y.sh.k
        if kx == 'd' or ky == 'd':
            a = x.x if kx == 'd' else i2d(x.x)
            b = y.x if ky == 'd' else i2d(y.x)
            f = {'+': dadd, '-': dsub, '*': dmul, '/': ddiv}.get(op)
            if f:
                return Val(Sc('d'), [f(a, b)])
            g = {'<': dlt, '<=': dle, '>': dgt, '>=': dge, '==': deq, '!=': dne}.get(op)
            if g:
                return Val(Sc('b'), [g(a, b)])
            raise Unsup('double op ' + op)
        a, b = x.x, y.x
        if kx == 's' or ky == 's':
            if op == '==':
                return Val(Sc('b'), [a == b])
            if op == '!=':
                return Val(Sc('b'), [a != b])
            raise Unsup('string op ' + op)
        if op in ('==', '!='):
            return Val(Sc('b'), [a == b if op == '==' else a != b])
        if kx == 'b':
            a, b = z3.If(a, iv(1), iv(0)), z3.If(b, iv(1), iv(0))
            if op in ('|', '&', '^'):
                f = {'|': z3.Or, '&': z3.And, '^': z3.Xor}[op]
                return Val(Sc('b'), [f(x.x, y.x)])
        if op in ('<', '<=', '>', '>='):
            f = {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            return Val(Sc('b'), [f])
        rs = sh if isinstance(sh, Sc) and sh.k in 'it' else x.sh
        return Val(rs, [self.int_arith(op, a, b, rs)])

    def short(self, e, st, fr, is_and):
        a = z3.simplify(self.cond(e['a'], st, fr))
        if z3.is_true(a):
            return Val(Sc('b'), [self.cond(e['b'], st, fr) if is_and else T])
        if z3.is_false(a):
            return Val(Sc('b'), [F if is_and else self.cond(e['b'], st, fr)])
        s1, s2 = st.copy(), st.copy()
        s1.assume(a if is_and else z3.Not(a))
        s2.assume(z3.Not(a) if is_and else a)

        def rhs():
            return self.cond(e['b'], s1, fr)
        b = self.guarded(s1, rhs)
        if b is None:
            st.assume(z3.Not(a) if is_and else a)
            return Val(Sc('b'), [F if is_and else T])
        changed = not (s1.roots == st.roots and len(s1.pc) == len(st.pc) + 1 and s1.py == st.py)
        if changed:
            m, v = self.merge_vals([(s1, Val(Sc('b'), [b])), (s2, Val(Sc('b'), [F if is_and else T]))])
            if m is None:
                st.assume(F)
                return Val(Sc('b'), [F])
            st.roots, st.py, st.pc = m.roots, m.py, m.pc
        return Val(Sc('b'), [z3.And(a, b) if is_and else z3.Or(a, b)])

    def e_bin(self, e, st, fr):
        op = e['op']
        if op == '&&':
            return self.short(e, st, fr, True)
        if op == '||':
            return self.short(e, st, fr, False)
        if op == ',':
            self.ev(e['a'], st, fr)
            return self.ev(e['b'], st, fr)
        if op == '=':
            v = self.rv(st, self.ev(e['b'], st, fr))
            l = self.ev(e['a'], st, fr)
            v = self.conv(v, e['t'], st)
            self.assign(st, l, v)
            return l
        x = self.rv(st, self.ev(e['a'], st, fr))
        y = self.rv(st, self.ev(e['b'], st, fr))
        return self.binop(op, x, y, e['t'], st)

    def assign(self, st, l, v):
        if not isinstance(l, Loc):
            raise Unsup('assignment to non-place')
        self.store(st, l, v)

    def binop(self, op, x, y, t, st):
        if isinstance(x, PV) or isinstance(y, PV):
            return self.ptr_cmp(op, x, y)
        if isinstance(x, (Clo, FnPtr)) or isinstance(y, (Clo, FnPtr)):
            raise Unsup('function pointer operator')
        if isinstance(x, It):
            if isinstance(y, It):
                if op in ('==', '!='):
                    return self.it_cmp(op, x, y)
                if op == '-':
                    return Val(Sc('i'), [x.idx - y.idx])
                if op == '<':
                    return Val(Sc('b'), [x.idx < y.idx])
            return self.it_add(st, x, y.x if op == '+' else -y.x)
        return self.arith(op, x, y, self.prog.shape(t) if t is not None else None)

    def ptr_cmp(self, op, x, y):
        def nullp(v):
            return isinstance(v, PV) and all(l is None for _, l in v.alts)
        if nullp(y):
            x, y = y, x
        if nullp(x):
            if isinstance(y, PV):
                r = z3.Not(y.nonnull())
            elif isinstance(y, (Clo, FnPtr)):
                r = F
            elif isinstance(y, Val) and isinstance(y.sh, Sc) and y.sh.k == 's':
                r = null_cstr(y.x)
            else:
                r = y.x == 0
        elif isinstance(x, PV) and isinstance(y, PV):
            r = F
            for cx, lx in x.alts:
                for cy, ly in y.alts:
                    if lx is None or ly is None:
                        same = lx is None and ly is None
                    elif not (isinstance(lx, Loc) and isinstance(ly, Loc)):
                        raise Unsup('pointer comparison')
                    elif lx.same(ly):
                        same = True
                    elif lx.root != ly.root and 'H' not in (lx.root[0], ly.root[0]):
                        same = False        # separate variables
                    else:
                        raise Unsup('pointer comparison')
                    if same:
                        r = z3.Or(r, z3.And(cx, cy))
        else:
            raise Unsup('pointer comparison')
        return Val(Sc('b'), [r if op == '==' else z3.Not(r)])

    def e_casg(self, e, st, fr):
        y = self.rv(st, self.ev(e['b'], st, fr))
        l = self.ev(e['a'], st, fr)
        x = self.rv(st, l)
        r = self.binop(e['op'], x, y, e['ct'], st)
        if isinstance(r, Val) and isinstance(x, Val):
            if r.sh.k != x.sh.k:
                r = self.scast(r, x.sh)
            elif x.sh.k == 'i' and (x.sh.w < 32 or (x.sh.w, x.sh.u) != (r.sh.w, r.sh.u)):
                r = Val(x.sh, [wrap(r.x, x.sh.w, x.sh.u)])
            else:
                r = Val(x.sh, r.l)
        self.store(st, l, r)
        return l

    def e_cond(self, e, st, fr):
        c = z3.simplify(self.cond(e['c'], st, fr))
        if z3.is_true(c):
            return self.ev(e['a'], st, fr)
        if z3.is_false(c):
            return self.ev(e['b'], st, fr)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(z3.Not(c))
        isvoid = e['t'].s == 'void'

        def br(sub, s):
            if sub['k'] == 'throw':
                self.do_throw(sub, s, fr)
                s.assume(F)
                return None
            v = self.ev(sub, s, fr)
            if isvoid:
                return None
            if isinstance(v, Loc) and not e.get('lv'):
                v = self.rv(s, v)
            if isinstance(v, Val) and isinstance(v.sh, Sc) and e['t'].k != 'ref':
                v = self.conv(v, e['t'], s)
            return v
        v1 = self.guarded(s1, lambda: br(e['a'], s1))
        v2 = self.guarded(s2, lambda: br(e['b'], s2))
        if self.dead(s1) or (v1 is None and not isvoid):
            st.roots, st.py, st.pc = s2.roots, s2.py, s2.pc
            return v2
        if self.dead(s2) or (v2 is None and not isvoid):
            st.roots, st.py, st.pc = s1.roots, s1.py, s1.pc
            return v1
        if isvoid:
            m, v = self.merge([s1, s2]), None
        else:
            if isinstance(v1, Loc) and isinstance(v2, Loc) and not v1.same(v2) and e.get('lv'):
                v1, v2 = self.rv(s1, v1), self.rv(s2, v2)
            m, v = self.merge_vals([(s1, v1), (s2, v2)])
        if m is None:
            st.assume(F)
            return None
        st.roots, st.py, st.pc = m.roots, m.py, m.pc
        return v

    def e_sub(self, e, st, fr):
        b = self.ev(e['b'], st, fr)
        i = self.rv(st, self.ev(e['i'], st, fr)).x
        b2 = b if isinstance(b, (It,)) else b
        bt = e['b']['t']
        if bt.k == 'ptr' and is_byte(bt.e):
            x = self.rv(st, b)
            if isinstance(x, Val) and isinstance(x.sh, Sc) and x.sh.k == 'p':
                return self.handle_loc(z3.simplify(x.x + i), bt.e)
        if isinstance(b, Loc):
            x = self.load(st, b)
            if isinstance(x, It):
                b2 = x
            elif isinstance(x, PV):
                b2 = It('arr', self.deref(st, x), idx=iv(0))
            else:
                return b.ix(i)
        if isinstance(b2, It):
            return b2.c.ix(z3.simplify(b2.idx + i))
        raise Unsup('subscript')

    def e_ilist(self, e, st, fr, want=None):
        t = e['t']
        vals = [self.ev(x, st, fr) if x is not None and x['k'] != 'dfi' else None for x in e['a']]
        vals = [self.rv(st, v) for v in vals]
        if t.k == 'rec' and t.q in self.prog.recs:
            r = self.prog.recs[t.q]
            sh = self.prog.shape(t)
            v = self.default_init(t.q, st, fr)
            fields = [f for f in r['fields']]
            allf = sh.fields
            off = len(r['bases'])
            if off:
                raise Unsup('aggregate with bases')
            for f, x, x0 in zip(fields, vals, e['a']):
                s = sh.off[f['n']][1]
                if s.n == 0:
                    continue
                if x is None and x0 is not None:
                    # in-class initialiser: sees the fields initialised so far
                    tmp = self.newroot(st, sh, v, 'obj')
                    x = self.rv(st, self.ev(x0['e'], st, Frame(None, None, tmp)))
                if x is None:
                    continue
                v = v.withf(f['n'], self.coerce(x, s, st))
            return v
        if t.k == 'arr':
            sh = self.prog.shape(t)
            return self.ilist_to(IList(vals), sh, st)
        if t.k in ('b', 'ptr', 'enum') and len(vals) == 1:
            return vals[0]
        if t.k in ('b', 'ptr', 'enum') and not vals:
            return default(self.prog.shape(t))
        sh = self.prog.shape(t)
        if isinstance(sh, Arr) and len(vals) == 1 and isinstance(vals[0], Val) and isinstance(vals[0].sh, Arr):
            return vals[0]
        return self.ilist_to(IList(vals), sh, st)

    def e_dfi(self, e, st, fr, want=None):
        return self.ev(e['e'], st, fr)

    def e_silist(self, e, st, fr, want=None):
        x = e['e']
        if x['k'] == 'ilist':
            return IList([self.rv(st, self.ev(y, st, fr)) for y in x['a']])
        return self.ev(x, st, fr)

    def e_zero(self, e, st, fr):
        return default(self.prog.shape(e['t']))

    def e_lam(self, e, st, fr, want=None):
        env = {}
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = fr.this
                continue
            if 'd' not in c:
                raise Unsup('capture')
            if c['ref']:
                env[c['d']] = fr.env.get(c['d'])
                if env[c['d']] is None:
                    env[c['d']] = self.ev(c['init'], st, fr)
            else:
                v = self.rv(st, self.ev(c['init'], st, fr))
                env[c['d']] = self.newroot(st, v.sh if isinstance(v, Val) else None, v, c['n'])
        return Clo(e['ops'], env, this, fr)

    def e_fref(self, e, st, fr):
        return FnPtr(e['fn'])

    def e_mfref(self, e, st, fr):
        raise Unsup('member function reference')

    def e_throw(self, e, st, fr):
        self.do_throw(e, st, fr)
        st.assume(F)
        return None

    def e_new(self, e, st, fr):
        raise Unsup('new')

    def e_delete(self, e, st, fr):
        raise Unsup('delete')

    def call_value(self, st, f, args, fr):
        """call a closure / function pointer / std::function value"""
        f = self.rv(st, f)
        if isinstance(f, PV):
            f = self.deref(st, f)
            f = self.rv(st, f) if isinstance(f, Loc) else f
        if isinstance(f, FnPtr):
            return self.call_ref(f.fn, st, None, args, fr, None)
        if isinstance(f, Alt):
            outs, rest = [], T
            for c, g in f.alts:
                s = st.copy()
                s.assume(z3.simplify(c))
                rest = z3.And(rest, z3.Not(c))
                if self.dead(s) or not self.feasible(s):
                    continue
                outs.append((s, self.call_value(s, g, args, fr)))
            if self.feasible_with(st, rest):
                raise Unsup('call of an undetermined function pointer')
            if not outs:
                st.assume(F)
                return None
            m, v = self.merge_vals(outs)
            if m is None:
                st.assume(F)
                return None
            st.roots, st.py, st.pc = m.roots, m.py, m.pc
            return v
        if isinstance(f, Clo):
            op = f.ops[0]
            if len(f.ops) > 1:
                op = self.pick_op(f.ops, args, st)
            fr2 = Frame(None, None, f.this)
            fr2.env = dict(f.tu.env) if isinstance(f.tu, Frame) else {}
            fr2.env.update(f.env)
            fr2.depth = (fr.depth if fr else 0) + 1
            fr2.dyn = f.tu.dyn if isinstance(f.tu, Frame) else None
            if fr2.depth > self.maxdepth:
                raise Unsup('depth')
            fr2.rt = op['rt']
            self.bind_params(op, args, st, fr2)
            return self.run_body(op['body'], st, fr2)
        if isinstance(f, Obj) and hasattr(f, 'call'):
            return f.call(self, st, args, fr)
        if isinstance(f, Val) and isinstance(f.sh, Sc) and f.sh.k in 'op':
            raise Unsup('call of an opaque function value')
        raise Unsup(f'call of {type(f).__name__}')

    def pick_op(self, ops, args, st):
        for o in ops:
            ok = True
            for p, a in zip(o['params'], args):
                s = self.prog.shape(p['t'].deref())
                v = self.rv(st, a)
                if not isinstance(v, Val) or s.n != v.sh.n or (isinstance(s, Sc) and (s.k != v.sh.k or (s.k == 'i' and (s.w, s.u) != (v.sh.w, v.sh.u)))):
                    ok = False
            if ok:
                return o
        raise Unsup('generic lambda instantiation')

    def e_call(self, e, st, fr):
        if 'fn' in e:
            args = [self.ev(a, st, fr) for a in e['args']]
            return self.call_ref(e['fn'], st, None, args, fr, e)
        f = self.ev(e['f'], st, fr)
        args = [self.ev(a, st, fr) for a in e['args']]
        return self.call_value(st, f, args, fr)

    def e_mcall(self, e, st, fr):
        if 'fn' not in e:
            raise Unsup('member pointer call')
        obj = self.ev(e['obj'], st, fr) if e.get('obj') is not None else None
        if e.get('arrow') and obj is not None:
            ot = e['obj']['t']
            obj = self.deref(st, obj, ot.e if ot.k == 'ptr' else None)
        args = [self.ev(a, st, fr) for a in e['args']]
        return self.call_ref(e['fn'], st, obj, args, fr, e)

    def e_ocall(self, e, st, fr):
        if 'fn' not in e:
            raise Unsup('operator call')
        if e['fn'].get('m') and not e['fn'].get('static'):
            if e['op'] in ('=',) or e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
                args = [self.ev(a, st, fr) for a in e['args'][1:]]
                obj = self.ev(e['args'][0], st, fr)
            else:
                obj = self.ev(e['args'][0], st, fr)
                args = [self.ev(a, st, fr) for a in e['args'][1:]]
                if e['op'] == '()':
                    f = st.py.get(obj.root) if isinstance(obj, Loc) else obj
                    if isinstance(f, (Clo, FnPtr)):
                        return self.call_value(st, f, args, fr)
            return self.call_ref(e['fn'], st, obj, args, fr, e)
        args = [self.ev(a, st, fr) for a in e['args']]
        return self.call_ref(e['fn'], st, None, args, fr, e)

    def e_ctor(self, e, st, fr, want=None):
        fn = e['fn']
        t = e['t']
        q = strip_t(fn['q'])
        if e.get('copy') or (fn.get('defd') and len(e['args']) == 1):
            v = self.ev(e['args'][0], st, fr)
            # copy/move construction is a value copy
            cq = t.q
            if not (cq in self.prog.recs and e.get('user')):
                x = self.rv(st, v)
                if isinstance(x, PairRef):
                    x = x.value(self, st)
                mv = self.models.get('ctor-copy ' + strip_t(cq or ''))
                if mv:
                    return mv(self, st, e, v, x)
                return x
        args = [self.ev(a, st, fr) for a in e['args']]
        m = self.models.get(q)
        if m:
            self.trusted.add(q)
            return m(self, st, e, None, args)
        f = self.prog.resolve(fn)
        if f is not None:
            sh = self.prog.shape(t)
            if isinstance(sh, Sc):
                raise Unsup('ctor of scalar-shaped ' + q)
            l = self.newroot(st, sh, self.fresh(sh, 'uninit'), 'obj')
            if f.d.get('defaulted') or f.d['body'] is None:
                if len(args) == 0:
                    return self.default_init(t.q, st, fr, zero=bool(e.get('zero')))
            self.call_fn(f, st, args, l, dyn=t.q, fr0=fr)
            return self.load(st, l)
        if t.q in self.prog.recs and not args:
            return self.default_init(t.q, st, fr, zero=bool(e.get('zero')))
        if t.q in self.prog.recs and 'exception' in ''.join([t.q.lower()] + [b.lower() for b in self.prog.bases(t.q)]):
            return Obj('excobj', c=t.q)
        gm = self.models.get('ctor*')
        if gm is None:
            sh = self.prog.shape(t)
            if sh.n == 0 and not q.startswith('pid_control'):
                # a library object without logical content (bus match, lock, ...)
                self.trusted.add(q)
                return Val(sh, ())
            raise Unsup('constructor ' + q)
        return gm(self, st, e, None, args)

    # virtual resolution ------------------------------------------------
    def overrider(self, cls, name, nparams, ids):
        """most derived definition of virtual `name` for dynamic class cls"""
        c = cls
        seen = [cls] + self.prog.bases(cls)
        for c in seen:
            cands = [f for f in self.prog.fns.get(c + '::' + name, []) if len(f.d['params']) == nparams]
            if len(cands) == 1:
                return cands[0]
            if cands:
                return cands
        return None

    def call_ref(self, fn, st, obj, args, fr, e):
        q = strip_t(fn['q'])
        name = q.split('::')[-1]
        m = self.models.get(q)
        if m:
            self.trusted.add(q)
            return m(self, st, dict(e or {}, fn=fn), obj, args)
        if fn.get('m') and fn.get('virt') and not (e or {}).get('qual'):
            dyn = None
            if isinstance(obj, Loc):
                dyn = self.dyn_class(st, obj, fr)
            if dyn:
                c = self.overrider(dyn, name, len(fn['pt']), None)
                if isinstance(c, list):
                    sig = tuple(p.s.replace('const ', '') for p in fn['pt'])
                    c = next((x for x in c if x.sig == sig), None)
                if c is not None:
                    m = self.models.get(c.q)
                    if m:
                        self.trusted.add(c.q)
                        return m(self, st, dict(e or {}, fn=fn), obj, args)
                    return self.call_fn(c, st, args, obj, dyn=dyn, fr0=fr)
            gm = self.models.get('virtual*')
            if gm:
                return gm(self, st, dict(e or {}, fn=fn), obj, args)
            raise Unsup('virtual call ' + q)
        f = self.prog.resolve(fn)
        if f is not None and f.d['body'] is not None and not (f.d.get('defaulted') and (fn.get('casg') or fn.get('masg'))):
            this = obj if fn.get('m') and not fn.get('static') else None
            if isinstance(this, (Val, Py)) and not isinstance(this, Loc):
                this = self.newroot(st, this.sh if isinstance(this, Val) else None, this)
            dyn = self.dyn_class(st, this, fr) if isinstance(this, Loc) else None
            return self.call_fn(f, st, args, this, dyn=dyn, fr0=fr)
        if fn.get('casg') or fn.get('masg'):
            v = self.rv(st, args[0])
            if isinstance(v, IList):
                v = self.ilist_to(v, obj.sh, st)
            self.store(st, obj, v)
            return obj
        gm = self.models.get('fn*')
        if gm:
            r = gm(self, st, dict(e or {}, fn=fn), obj, args)
            if r is not NotImplemented:
                return r
        raise Unsup(f'call {q}')

    def dyn_class(self, st, l, fr):
        if l.root in self.dyn_roots and not l.path:
            return self.dyn_roots[l.root]
        if fr is not None and fr.this is not None and isinstance(fr.this, Loc) and l.same(fr.this) and fr.dyn:
            return fr.dyn
        # object of a concrete class held by value
        if isinstance(l.sh, Rec) and l.sh.q in self.prog.recs and not self.prog.recs[l.sh.q].get('abstract') \
                and not self.prog.derived.get(l.sh.q) and l.root[0] != 'H':
            return l.sh.q
        if isinstance(l.sh, Rec) and l.sh.q in self.prog.recs and l.root[0] == 'H' and not self.prog.recs[l.sh.q].get('abstract') \
                and not self.prog.derived.get(l.sh.q):
            return l.sh.q
        return None

    # iterators -------------------------------------------------------
    def it_deref(self, st, it):
        if it.kind in ('vec', 'arr'):
            return it.c.ix(it.idx)
        if it.kind == 'map':
            v = self.load(st, it.c)
            key = Val(v.sh.k, [it.key])
            return PairRef(key, it.c.ix(it.key))
        if it.kind == 'set':
            v = self.load(st, it.c)
            return Val(v.sh.k, [it.key])
        raise Unsup('iterator deref ' + it.kind)

    def it_add(self, st, it, n):
        if it.kind in ('vec', 'arr'):
            return It(it.kind, it.c, z3.simplify(it.idx + n))
        if it.kind in ('map', 'set'):
            if not (z3.is_int_value(n) and n.as_long() == 1):
                raise Unsup('map iterator arithmetic')
            dom = self.it_dom(st, it)
            pos = it.idx if it.idx is not None else enumPos(dom, it.key)
            nxt = z3.simplify(pos + 1)
            return It(it.kind, it.c, idx=nxt, key=enumKey(dom, nxt), end=(nxt >= enumN(dom)))
        raise Unsup('iterator arithmetic')

    def it_cmp(self, op, x, y):
        if x.kind in ('vec', 'arr'):
            r = x.idx == y.idx
        else:
            ex, ey = z3.simplify(x.end), z3.simplify(y.end)
            if z3.is_true(ey):
                r = x.end
            elif z3.is_true(ex):
                r = y.end
            else:
                r = z3.Or(z3.And(x.end, y.end), z3.And(z3.Not(x.end), z3.Not(y.end), x.key == y.key))
        return Val(Sc('b'), [r if op == '==' else z3.Not(r)])


class PairRef(Py):
    """reference to a map entry"""
    def __init__(self, key, loc):
        self.key, self.loc = key, loc

    def get(self, n):
        if n == 'first':
            return self.key
        if n == 'second':
            return self.loc
        raise Unsup('pair member ' + n)

    def value(self, ex, st):
        v = ex.load(st, self.loc)
        sh = Rec('std::pair', [('first', self.key.sh), ('second', v.sh)])
        return Val(sh, self.key.l + v.l)
