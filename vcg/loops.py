"""Loops: constant-bound loops are unrolled completely; every other loop is cut
at an invariant found by Houdini among the contract's fold functions and a few
counter templates.  All kept candidates are proved (initial + preserved)."""
import os
import time
import z3
from .logic import *
from .shape import *
from .core import *


TRACE = os.environ.get('VERIF_LOOPS')


class Fold:
    """spec-level iteration: S(0)=init, S(k+1)=step(k,S(k)), k counts iterations"""

    def __init__(self, ex, name, sh, init, step, absorb=None, params=(), n=None):
        self.ex, self.name, self.sh, self.n = ex, name, sh, n
        self.step, self.absorb, self.params = step, absorb, tuple(params)
        self.init = init
        self.fs = []
        for i, so in enumerate(sh.sorts):
            f = z3.Function(f'fold {name}.{i}', *[p.sort() for p in self.params], I, so)
            self.fs.append(f)
            ex.ax.extra[f.name()] = self.gen
        self.const = None
        ex.folds.append(self)

    def start(self, p):
        return self.init(*p) if callable(self.init) else self.init

    def constant(self):
        """the leaves no step changes: they are what they were at the start"""
        if self.const is None:
            self.const = ()
            try:
                s = Val(self.sh, [z3.FreshConst(so, 'leaf') for so in self.sh.sorts])
                k = z3.FreshConst(I, 'k')
                r = self.step(*self.params, k, s)
                here = [(f(*self.params, k), x) for f, x in zip(self.fs, s.l)]
                self.const = tuple(i for i, (x, y) in enumerate(zip(r.l, s.l)) if z3.eq(z3.simplify(z3.substitute(x, *here)), y))
            except (KeyError, UnboundLocalError, NameError):
                self.const = None
                return ()
        return self.const

    def at(self, k, params=None):
        p = list(self.params if params is None else params)
        l = [f(*p, k) for f in self.fs]
        c = self.constant()
        if c:
            v = self.start(p)
            for i in c:
                l[i] = v.l[i]
        return Val(self.sh, l)

    def inst(self, p, k):
        a, b = self.at(z3.simplify(k + 1), p), self.step(*p, k, self.at(k, p)) if self.params else self.step(k, self.at(k, p))
        return z3.Implies(k >= 0, z3.And(*[x == y for x, y in zip(a.l, b.l)])) if a.l else T

    def base(self, p):
        return z3.And(*[x == y for x, y in zip(self.at(iv(0), p).l, self.start(p).l)])

    def gen(self, t):
        ch = t.children()
        p, k = ch[:-1], z3.simplify(ch[-1])
        out = []
        key = tuple(x.get_id() for x in p)
        out.append(self.base(p))
        c = self.constant()
        if c:
            v = self.start(p)
            out += [self.fs[i](*p, k) == v.l[i] for i in c]
        if z3.is_int_value(k):
            if k.as_long() > 0:
                out.append(self.inst(p, iv(k.as_long() - 1)))
        elif z3.is_add(k) and k.num_args() == 2 and any(z3.is_int_value(x) and x.as_long() > 0 for x in k.children()):
            out.append(self.inst(p, z3.simplify(k - 1)))
        else:
            out.append(z3.Implies(k == 0, z3.And(*[x == y for x, y in zip(self.at(k, p).l, self.at(iv(0), p).l)])))
            if z3.is_const(k):
                out.append(self.inst(p, k))
        if self.ex.bounded is not None and not z3.is_int_value(k):
            out.append(z3.And(k >= 0, k <= self.ex.bounded))     # the bounded form looks at small inputs only
            for j in range(self.ex.bounded + 1):
                out.append(z3.Implies(k == j, z3.And(*[x == y for x, y in zip(self.at(k, p).l, self.at(iv(j), p).l)])))
        if self.absorb is not None and self.n is not None:
            n = self.n(*p) if callable(self.n) else self.n
            a, b = self.at(k, p), self.at(n, p)
            out.append(z3.Implies(z3.And(k >= 0, k <= n, self.absorb(a)), z3.And(*[x == y for x, y in zip(a.l, b.l)])))
        return out

    def end(self, *p):
        n = self.n(*p) if callable(self.n) else self.n
        if self.ex.bounded is not None and not self.params and any(x == S for x in self.sh.sorts):
            # texts are compared piece by piece: spell the few iterations out
            v = self.init() if callable(self.init) else self.init
            vs = [v]
            for k in range(self.ex.bounded):
                vs.append(self.step(iv(k), vs[-1]))
            self.ex.pre_facts.append(n <= self.ex.bounded)
            r = list(vs[-1].l)
            for k in reversed(range(self.ex.bounded)):
                r = [z3.If(n <= k, x, y) for x, y in zip(vs[k].l, r)]
            return Val(self.sh, [z3.simplify(x) if x.sort() != S else x for x in r])
        return self.at(n, p if self.params else None)


def leafkeys(st, only=None):
    out = []
    for r, v in st.roots.items():
        for i in range(len(v.l)):
            out.append((r, i))
        p = st.py.get(r)
        if isinstance(p, It):
            for i in range(len(p.leaves())):
                out.append((r, ('it', i)))
        elif p is not None:
            out.append((r, 'py'))
    return out


def getleaf(ex, st, key):
    r, i = key
    if i == 'py':
        return st.py.get(r)
    if isinstance(i, tuple):
        p = st.py.get(r)
        return p.leaves()[i[1]] if isinstance(p, It) else None
    v = ex.root(st, r)
    return v.l[i] if i < len(v.l) else None


def setleaves(ex, st, d):
    byroot = {}
    for (r, i), x in d.items():
        byroot.setdefault(r, []).append((i, x))
    for r, lst in byroot.items():
        if any(isinstance(i, tuple) for i, _ in lst):
            p = st.py[r]
            l = p.leaves()
            for i, x in lst:
                l[i[1]] = x
            st.py[r] = p.withl(l)
            continue
        if any(i == 'py' for i, _ in lst):
            st.py[r] = Poison()
            continue
        v = ex.root(st, r)
        l = list(v.l)
        for i, x in lst:
            l[i] = x
        st.roots[r] = Val(v.sh, l)


def same_leaf(a, b):
    if isinstance(a, Py) or isinstance(b, Py) or a is None or b is None:
        return a is b or (isinstance(a, Py) and a.same(b))
    return a.get_id() == b.get_id() or z3.eq(z3.simplify(a), z3.simplify(b))


def dvecs(sh, off):
    """leaf offsets of the vectors of doubles inside a shape"""
    out = []
    if isinstance(sh, Vec):
        if sh.e.n == 1 and sh.e.sorts[0] == R:
            out.append(off)
    elif isinstance(sh, Rec):
        o = off
        for n, s in sh.fields:
            out += dvecs(s, o)
            o += s.n
    return out


def mapleaves(sh, off):
    out = []
    if isinstance(sh, Map):
        out.append((off, sh))
    elif isinstance(sh, Rec):
        o = off
        for n, s in sh.fields:
            out += mapleaves(s, o)
            o += s.n
    return out


def install(ex):
    ex.defmaps = set()
    ex.folds = []
    ex.discover, ex.visits, ex.looppath, ex.loopmemo = 0, [0], (), {}
    ex.ghosts = []      # counters of enclosing cut loops
    ex.loopstats = []
    ex.bounded = None
    ex.hints = []
    ex.setarrs = []
    ex.bounded_used = False

    def iterate(st, head, body, inc):
        """one symbolic iteration: (cond, entry, end|None, brks, rets, throws)"""
        s = st.copy()
        o = Outs()
        ex.thr.append([])
        try:
            c = head(s)
            exit_ = s.copy()
            exit_.assume(z3.Not(c))
            s.assume(c)
            e = None
            if not z3.is_false(z3.simplify(c)):
                e = body(s, o)
                ends = ([e] if e is not None else []) + o.cont
                e = ex.merge(ends) if ends else None
                if e is not None:
                    e = inc(e)
        finally:
            th = ex.thr.pop()
        return c, exit_, e, o.brk, o.ret, th

    def loop(st, head, body, inc, out, line=None, bound=None, ctr=None, endless=False, src=None):
        # 1. complete unrolling when every condition is decided
        r = NotImplemented if endless and ex.bounded is None else unroll(st, head, body, inc, out, 70 if ex.bounded is None else ex.bounded, ex.bounded is not None)
        if r is not NotImplemented:
            return r
        if ex.bounded is None and not endless and counts_to_constant(st, head, body, inc):
            r = unroll(st, head, body, inc, out, 70, True, sym=True)
            if r is not NotImplemented:
                return r
        return cut(st, head, body, inc, out, line, bound, ctr, src)

    def counts_to_constant(st, head, body, inc):
        """a counter with a constant bound among other conditions ends the loop"""
        saved = ex.snapshot()
        ex.thr.append([])
        ex.discover += 1
        try:
            p = st.copy()
            c = z3.simplify(head(p))
            if not z3.is_and(c) and not z3.is_app(c):
                return False
            p.assume(c)
            o = Outs()
            e = body(p, o)
            ends = ([e] if e is not None else []) + o.cont
            e = ex.merge(ends) if ends else None
            if e is None:
                return False
            e = inc(e)
            ks = {}
            for r, v in e.roots.items():
                if r[0] != 'L' or r not in st.roots or len(st.roots[r].l) != len(v.l):
                    continue
                for i, (a, b) in enumerate(zip(st.roots[r].l, v.l)):
                    if a.sort() == I and b.sort() == I:
                        a, b = z3.simplify(a), z3.simplify(b)
                        if z3.is_int_value(a) and z3.is_int_value(b) and abs(a.as_long() - b.as_long()) == 1:
                            ks[(r, i)] = iv(1000 if b.as_long() > a.as_long() else -1000)
            if not ks:
                return False
            setleaves(ex, e, ks)
            return z3.is_false(z3.simplify(head(e)))
        except Unsup:
            return False
        finally:
            ex.discover -= 1
            ex.thr.pop()
            ex.restore(saved)

    def unroll(st, head, body, inc, out, limit, force, sym=False):
        s = st.copy()
        res, rets, ths = [], [], []
        for n in range(limit + 1):
            p = s.copy()
            ex.thr.append([])
            try:
                c = z3.simplify(head(p))
            finally:
                th = ex.thr.pop()
            if not (z3.is_true(c) or z3.is_false(c)):
                if not force:
                    return NotImplemented
                if not sym:
                    ex.bounded_used = True
            ths += th
            if z3.is_false(c):
                res.append(p)
                s = None
                break
            if n == limit:
                if not force or sym:
                    return NotImplemented
                if not z3.is_true(c):
                    x = p.copy()
                    x.assume(z3.Not(c))
                    res.append(x)
                ex.bounded_used = True
                break
            if not z3.is_true(c):
                x = p.copy()
                x.assume(z3.Not(c))
                res.append(x)
                p.assume(c)
            o = Outs()
            ex.thr.append([])
            try:
                e = body(p, o)
            finally:
                th = ex.thr.pop()
            ths += th
            rets += o.ret
            res += o.brk
            ends = ([e] if e is not None else []) + o.cont
            s = ex.merge(ends) if ends else None
            if s is None:
                break
            ex.thr.append([])
            try:
                s = inc(s)
            finally:
                ths += ex.thr.pop()
        out.ret += rets
        ex.thr[-1] += ths
        return ex.merge(res) if res else None

    def cut(st, head, body, inc, out, line, bound, ctr, src=None):
        t0 = time.time()
        keys0 = None
        mod = {}
        poison = set()
        ex.uid += 1
        k = z3.Int(f'k!{ex.uid}')
        # --- which leaves can change
        for rnd in range(8):
            s = st.copy()
            setleaves(ex, s, {**mod, **{p: None for p in poison}})
            saved = ex.snapshot()
            ex.ghosts.append(k)
            ex.discover += 1
            try:
                c, x, e, brk, ret, th = iterate(s, head, body, inc)
            finally:
                ex.discover -= 1
                ex.ghosts.pop()
                ex.restore(saved)
            new = {}
            newp = set()
            if e is not None:
                for r in set(s.roots) | {r for r in e.roots if r[0] in 'HTG'}:
                    if r not in s.roots:
                        ex.root(s, r)
                        ex.root(st, r)
                    p1, p2 = s.py.get(r), e.py.get(r)
                    if r[0] == 'G' and p1 is None and p2 is not None:
                        continue
                    if p1 is not None or p2 is not None:
                        if isinstance(p1, It) and isinstance(p2, It) and p1.kind == p2.kind and len(p1.leaves()) == len(p2.leaves()):
                            for i, (a, b) in enumerate(zip(p1.leaves(), p2.leaves())):
                                if (r, ('it', i)) not in mod and not same_leaf(a, b):
                                    new[(r, ('it', i))] = a
                        elif (r, 'py') not in poison and not (p1 is not None and p2 is not None and (p1 is p2 or p1.same(p2))):
                            newp.add((r, 'py'))
                        continue
                    v1, v2 = s.roots[r], e.roots.get(r)
                    if v2 is None or v1 is v2:
                        continue
                    if len(v1.l) != len(v2.l):
                        newp.add((r, 'py'))
                        continue
                    for i, (a, b) in enumerate(zip(v1.l, v2.l)):
                        if (r, i) not in mod and not same_leaf(a, b):
                            new[(r, i)] = a
            if not new and not newp:
                break
            for key, a in new.items():
                ex.uid += 1
                mod[key] = z3.Const(f'h!{ex.uid}', a.sort())
            poison |= newp
        else:
            raise Unsup('loop: modified set does not stabilise')
        if ex.discover:     # an outer loop only asks what can change
            hs = st.copy()
            setleaves(ex, hs, {**mod, **{p: None for p in poison}})
            hs.assume(k >= 0)
            ex.ghosts.append(k)
            try:
                c, xit, e, brk, ret, th = iterate(hs, head, body, inc)
            finally:
                ex.ghosts.pop()
            out.ret += ret
            ex.thr[-1] += th
            return ex.merge([xit] + brk)
        ex.visits[-1] += 1
        me = ex.looppath + ((ex.visits[-1], line),)
        entry = {key: getleaf(ex, st, key) for key in mod}
        # --- candidates
        cands = []

        def add(desc, f):
            cands.append((desc, f))
        def fold_params(f):
            if not f.params:
                return [()]
            import itertools
            gs = ex.ghosts[-3:]
            pls = [tuple(g) for g in itertools.permutations(gs, len(f.params))] if len(gs) >= len(f.params) else []
            return [pl for pl in pls if all(a.sort() == b.sort() for a, b in zip(pl, f.params))]
        # every candidate: f(kterm, leafmap) -> Bool ; leafmap: key -> term
        for key, h in mod.items():
            x0 = entry[key]
            so = h.sort()
            nm = f'{key[0][0]}:{key[0][1]}[{key[1]}]'
            if so == I:
                add(f'{nm}==entry+k', lambda kk, m, key=key, x0=x0: m[key] == x0 + kk)
                add(f'{nm}==entry-k', lambda kk, m, key=key, x0=x0: m[key] == x0 - kk)
                add(f'{nm}>=entry', lambda kk, m, key=key, x0=x0: m[key] >= x0)
            if so == B:
                add(f'{nm}==entry', lambda kk, m, key=key, x0=x0: m[key] == x0)
            for f in ex.folds:
                plist = fold_params(f)
                for pl in plist:
                    for i, fs in enumerate(f.sh.sorts):
                        if fs != so:
                            continue
                        ff = f.fs[i]
                        for off in (0, 1):
                            add(f'{nm}=={f.name}.{i}(k+{off})', lambda kk, m, key=key, ff=ff, pl=pl, off=off: m[key] == ff(*pl, z3.simplify(kk + off)))
                        if so == B:
                            add(f'{nm}==!{f.name}.{i}(k)', lambda kk, m, key=key, ff=ff, pl=pl: m[key] == z3.Not(ff(*pl, kk)))
                        for j, fs2 in enumerate(f.sh.sorts):
                            if fs2 == B and so != B:
                                gg = f.fs[j]
                                add(f'{nm}=={f.name}.{i}(k) if {f.name}.{j}', lambda kk, m, key=key, ff=ff, gg=gg, pl=pl, x0=x0:
                                    z3.If(gg(*pl, kk), m[key] == ff(*pl, kk), m[key] == x0))
        for f in ex.folds:
            for pl in fold_params(f):
                for i, fs in enumerate(f.sh.sorts):
                    if fs == B:
                        add(f'!{f.name}.{i}(k)', lambda kk, m, ff=f.fs[i], pl=pl: z3.Not(ff(*pl, kk)))
        # array leaves seen at the contract's probe indices
        for key in mod:
            so = mod[key].sort()
            if so.kind() != z3.Z3_ARRAY_SORT:
                continue
            for pn, p in enumerate(ex.probes):
                if p.sort() != so.domain():
                    continue
                nm = f'{key[0][1]}[{key[1]}]@{pn}'
                e0 = z3.Select(entry[key], p)
                add(f'{nm}==entry', lambda kk, m, key=key, p=p, e0=e0: z3.Select(m[key], p) == e0)
                if so.range() == B:
                    add(f'{nm} stays', lambda kk, m, key=key, p=p, e0=e0: z3.Implies(e0, z3.Select(m[key], p)))
                if p.sort() == I:
                    add(f'{nm}==entry from k', lambda kk, m, key=key, p=p, e0=e0: z3.Implies(p >= kk, z3.Select(m[key], p) == e0))
                for v in ex.elems:
                    if v.sort() != so.range():
                        continue
                    vn = str(v)[:40]
                    add(f'{nm}=={vn}', lambda kk, m, key=key, p=p, v=v: z3.Select(m[key], p) == v)
                    if p.sort() == I:
                        add(f'{nm}=={vn} below k', lambda kk, m, key=key, p=p, v=v: z3.Implies(z3.And(p >= 0, p < kk), z3.Select(m[key], p) == v))
                for f in ex.folds:
                    for pl in fold_params(f):
                        for i, fs in enumerate(f.sh.sorts):
                            if fs == so.range():
                                add(f'{nm}=={f.name}.{i}(k)', lambda kk, m, key=key, p=p, ff=f.fs[i], pl=pl: z3.Select(m[key], p) == ff(*pl, kk))
                                if fs == B:
                                    add(f'{nm}==entry|{f.name}.{i}(k)', lambda kk, m, key=key, p=p, ff=f.fs[i], pl=pl, e0=e0: z3.Select(m[key], p) == z3.Or(e0, ff(*pl, kk)))
        # vectors filled with the elements of the sequence iterated (an arbitrary position, so every position)
        copies = {}
        for r in {key[0] for key in mod}:
            if r not in st.roots or not src:
                continue
            sh_ = st.roots[r].sh
            if not isinstance(sh_, Vec) or (r, 0) not in mod or not z3.eq(z3.simplify(entry[(r, 0)]), iv(0)):
                continue
            if any((r, i) not in mod for i in range(sh_.n)):
                continue
            ex.uid += 1
            q = z3.Int(f'any!{ex.uid}')
            want = []
            for i in range(1, sh_.n):
                opts = [(j, x) for j, x in enumerate(src) if x.sort() == mod[(r, i)].sort() and (sh_.n == 2 or len(src) == sh_.n - 1 and j == i - 1)]
                for j, x in opts:
                    add(f'{r[1]}[{i}] copies {j}', lambda kk, m, key=(r, i), x=x, q=q: z3.Implies(z3.And(q >= 0, q < kk), z3.Select(m[key], q) == z3.Select(x, q)))
                want.append([(f'{r[1]}[{i}] copies {j}', x) for j, x in opts])
            copies[r] = (want, f'{r[0]}:{r[1]}[0]==entry+k')
        # aggregates over vectors of doubles against real-valued folds
        for r in {key[0] for key in mod}:
            if r not in st.roots:
                continue
            for off in dvecs(st.roots[r].sh, 0):
                kl, ka = (r, off), (r, off + 1)
                if kl not in mod or ka not in mod:
                    continue
                for f in ex.folds:
                    if f.params:
                        continue
                    for i, fs in enumerate(f.sh.sorts):
                        if fs == B:
                            add(f'{r[1]} nonempty=={f.name}.{i}', lambda kk, m, kl=kl, ff=f.fs[i]: (m[kl] > 0) == ff(kk))
                        if fs == R:
                            for agg in ('vmin', 'vmax', 'vsum'):
                                add(f'{agg}({r[1]})=={f.name}.{i}', lambda kk, m, kl=kl, ka=ka, ff=f.fs[i], agg=agg:
                                    z3.Implies(m[kl] > 0, app(agg, R, m[ka], m[kl]) == ff(kk)))
        # maps read with their defaults
        if ex.defmaps:
            for r in {key[0] for key in mod}:
                if r not in st.roots:
                    continue
                for off, msh in mapleaves(st.roots[r].sh, 0):
                    ks_ = [(r, off + i) for i in range(msh.n)]
                    if not any(q in mod for q in ks_):
                        continue
                    full = {q: getleaf(ex, st, q) for q in ks_}

                    def od(m, ks_=ks_, full=full, msh=msh):
                        return ordef(Val(msh, [m.get(q, full[q]) for q in ks_]))
                    for i, e0 in enumerate(od({})):
                        add(f'{r[1]}[{off}] or default == entry', lambda kk, m, od=od, i=i, e0=e0: od(m)[i] == e0)
                        for f in ex.folds:
                            for pl in fold_params(f):
                                for j, fs in enumerate(f.sh.sorts):
                                    if fs == e0.sort():
                                        add(f'{r[1]}[{off}] or default == {f.name}.{j}(k)', lambda kk, m, od=od, i=i, ff=f.fs[j], pl=pl: od(m)[i] == ff(*pl, kk))
        if bound is not None:
            add('k<=bound', lambda kk, m: z3.Or(kk <= bound, bound < 0))
        # comparison in the loop condition gives a bound
        for hint in ex.hints:
            for desc, f in hint(ex, st, mod, entry):
                add(desc, f)
        condb = []

        def headbounds(hst):
            s = hst.copy()
            saved = ex.snapshot()
            ex.thr.append([])
            try:
                c = head(s)
            finally:
                ex.thr.pop()
                ex.restore(saved)
            out_ = []

            def walk(c):
                if z3.is_and(c):
                    for y in c.children():
                        walk(y)
                    return
                neg = False
                if z3.is_not(c):
                    neg, c = True, c.arg(0)
                if z3.is_app(c) and c.num_args() == 2 and c.arg(0).sort() == I:
                    a, b = c.arg(0), c.arg(1)
                    kd = c.decl().kind()
                    if kd == z3.Z3_OP_LT and not neg or kd == z3.Z3_OP_GE and neg:
                        out_.append((a, b))
                    elif kd == z3.Z3_OP_GT and not neg or kd == z3.Z3_OP_LE and neg:
                        out_.append((b, a))
                    elif kd in (z3.Z3_OP_EQ,) and neg or kd == z3.Z3_OP_DISTINCT:
                        out_.append((a, b))
                        out_.append((b, a))
                    elif kd == z3.Z3_OP_GE:      # a >= b  negated handled; i >= 0 style
                        out_.append((b - 1, a))
                elif z3.is_app(c) and neg and c.num_args() == 0:
                    pass
            walk(z3.simplify(c))
            walk(c)
            return out_
        hs = st.copy()
        setleaves(ex, hs, {**mod, **{p: None for p in poison}})
        try:
            hb = headbounds(hs)
        except Unsup:
            hb = []
        subst_base = list(mod.items())

        def mk(a, b):
            def f(kk, m):
                sub = [(h, m[key]) for key, h in subst_base]
                return z3.substitute(a, *sub) <= z3.substitute(b, *sub) if sub else a <= b
            return f
        for a, b in hb:
            add(f'bound', mk(a, b))
        # boolean iterator end flags: end == (idx >= n)
        for key, h in mod.items():
            if isinstance(key[1], tuple):
                r = key[0]
                it = st.py.get(r)
                if isinstance(it, It) and it.kind in ('map', 'set'):
                    try:
                        dom = ex.it_dom(st, it)
                    except Exception:
                        continue
                    lv = it.leaves()
                    if len(lv) == 3:
                        if key[1][1] == 1:
                            add('it.key', lambda kk, m, key=key, dom=dom, r=r: m[key] == enumKey(dom, m.get((r, ('it', 0)), kk)))
                        if key[1][1] == 2:
                            add('it.end', lambda kk, m, key=key, dom=dom, r=r: m[key] == (m.get((r, ('it', 0)), kk) >= enumN(dom)))
                            add('it.le', lambda kk, m, key=key, dom=dom, r=r: m.get((r, ('it', 0)), kk) <= enumN(dom))
        # what an iterator points at
        for key, h in mod.items():
            if not isinstance(key[1], tuple):
                continue
            it = st.py.get(key[0])
            if not isinstance(it, It):
                continue
            try:
                cv = ex.load(st, it.c)
            except Exception:
                continue
            for ai, arr_ in enumerate(cv.l):
                if arr_.sort().kind() != z3.Z3_ARRAY_SORT or arr_.sort().domain() != h.sort():
                    continue
                for f in ex.folds:
                    for pl in fold_params(f):
                        for i, fs in enumerate(f.sh.sorts):
                            if fs == arr_.sort().range():
                                for off in (0, 1):
                                    add(f'*{key[0][1]}.{ai}=={f.name}.{i}(k+{off})', lambda kk, m, key=key, arr_=arr_, ff=f.fs[i], pl=pl, off=off:
                                        z3.Select(arr_, m[key]) == ff(*pl, z3.simplify(kk + off)))
        # equal leaves stay equal
        ks = list(mod)
        if len(ks) <= 14:
            for i in range(len(ks)):
                for j in range(i):
                    if mod[ks[i]].sort() == mod[ks[j]].sort() and same_leaf(entry[ks[i]], entry[ks[j]]):
                        add('same', lambda kk, m, a=ks[i], b=ks[j]: m[a] == m[b])
        # --- initial check
        before = ex.loopmemo.get(me)     # what held when the outer loop's invariant was stronger
        if before is not None:
            cands = [(d, f) for d, f in cands if d in before]
        inits = [(d, f, f(iv(0), entry)) for d, f in cands]
        keep = ex.houdini(st.pc, [], [(d, f, g) for d, f, g in inits])
        keep = [(d, f) for d, f, _ in keep]
        if TRACE:
            print('loop', line, 'entry: dropped', [d for d, _, _ in inits if d not in {x for x, _ in keep}])
        # --- preservation
        rounds = 0
        while True:
            rounds += 1
            hs = st.copy()
            setleaves(ex, hs, {**mod, **{p: None for p in poison}})
            hs.assume(k >= 0)
            inv = [f(k, mod) for _, f in keep]
            for g in inv:
                hs.assume(g)
            saved = ex.snapshot()
            ex.ghosts.append(k)
            nloops = len(ex.loopstats)
            path0, ex.looppath = ex.looppath, me
            ex.visits.append(0)
            try:
                c, xit, e, brk, ret, th = iterate(hs, head, body, inc)
            finally:
                ex.ghosts.pop()
                ex.visits.pop()
                ex.looppath = path0
            if e is None:
                break
            after = {key: getleaf(ex, e, key) for key in mod}
            goals = [(d, f, f(z3.simplify(k + 1), after)) for d, f in keep]
            nested = len(ex.loopstats) > nloops
            if nested:
                k2 = ex.houdini(e.pc, [], goals)
            else:
                k2 = ex.houdini(e.pc, [], goals, weaken=[(d, f) for d, f in keep], hyp={id(f): g for (d, f), g in zip(keep, inv)}, pcdrop=set(g.get_id() for g in inv))
            if len(k2) == len(keep):
                break
            if TRACE:
                print('loop', line, 'round', rounds, 'dropped', [d for d, _ in keep if d not in {x for x, _, _ in k2}])
            keep = [(d, f) for d, f, _ in k2]
            ex.restore(saved)
            if rounds > 60:
                raise Unsup('houdini rounds')
        ex.loopmemo[me] = {d for d, _ in keep}
        ex.loopstats.append(dict(line=line, candidates=len(cands), kept=[d for d, _ in keep], modified=len(mod), time=round(time.time() - t0, 2)))
        ex.nobl_loop += len(keep) * 2
        out.ret += ret
        ex.thr[-1] += th
        kept = {d for d, _ in keep}
        for r, (want, ln) in copies.items():
            got = [next((x for nm, x in o if nm in kept), None) for o in want]
            if not brk and ln in kept and all(x is not None for x in got):
                v = xit.roots[r]            # beyond its length nothing of a vector is observable
                xit.roots[r] = Val(v.sh, (v.l[0],) + tuple(got))
        res = [xit] + brk
        return ex.merge(res)

    ex.loop = loop
