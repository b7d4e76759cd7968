"""Function contracts: a contract is an executable specification with the same
signature as a library model; a body is verified by running both from the same
symbolic pre-state and discharging one obligation per observable leaf."""
import os
import time
import hashlib
import ctypes
import z3
from .logic import *
from .shape import *
from .core import *
from . import lib, json as _json, loops

TIMEOUT = 8000


class Ob:
    """one named proof obligation"""

    def __init__(self, name, hyps, goal, weak=False):
        self.name, self.hyps, self.goal, self.weak = name, hyps, goal, weak
        self.status, self.time, self.model, self.by = None, 0.0, None, None

    def row(self):
        return dict(name=self.name, status=self.status, time=round(self.time, 3), by=self.by)


class Prover:
    """z3 with the ground axiom instances of the terms of each query"""

    def __init__(self, ax):
        self.ax = ax
        self.time = 0.0
        self.queries = 0
        self.cross = None      # list of (name, smt2) when a second back end re-checks
        self.feas = {}

    def solver(self, forms, ms):
        s = z3.Solver()
        s.set('timeout', ms)
        s.set('random_seed', 1)
        for f in forms:
            s.add(f)
        return s

    def check(self, forms, ms=None):
        t = time.time()
        forms = [f for f in forms if not z3.is_true(f)]
        s = self.solver(forms + self.ax.close(forms), ms or TIMEOUT)
        r = s.check()
        self.time += time.time() - t
        self.queries += 1
        return r, s

    def prove(self, ob, facts=()):
        t = time.time()
        g = z3.simplify(ob.goal)
        if z3.is_true(g):
            ob.status, ob.by = 'proved', 'simplifier'
        else:
            forms = list(ob.hyps) + list(facts) + [z3.Not(g)]
            r, s = self.check(forms)
            if r == z3.unsat:
                ob.status, ob.by = 'proved', 'z3'
                if self.cross is not None:
                    self.cross.append((ob.name, s.to_smt2()))
            elif r == z3.sat:
                ob.status, ob.by = 'refuted', 'z3'
                ob.model = s.model()
            else:
                ob.status, ob.by = 'unknown', 'z3 ' + s.reason_unknown()
        ob.time = time.time() - t
        return ob.status == 'proved'


def obs_eq(sh, a, b, nm, out, hyps=(), dep=0, defm=()):
    """goals (name, hyps, goal): value a observably equals b"""
    if all(x.get_id() == y.get_id() for x, y in zip(a.l, b.l)):
        if a.l:
            out.append((nm, hyps, T))
        return
    if isinstance(sh, Sc) and sh.k == 's':
        out.append((nm, hyps, lift(a.x) == lift(b.x)))
    elif isinstance(sh, Sc):
        out.append((nm, hyps, a.x == b.x))
    elif isinstance(sh, Opt):
        out.append((nm + '.has', hyps, a.f('has').x == b.f('has').x))
        obs_eq(sh.e, a.f('val'), b.f('val'), nm + '.value', out, hyps + (b.f('has').x,), dep, defm)
    elif isinstance(sh, Var):
        out.append((nm + '.tag', hyps, a.f('tag').x == b.f('tag').x))
        for i, s in enumerate(sh.alts):
            obs_eq(s, a.f(f'a{i}'), b.f(f'a{i}'), f'{nm}.alt{i}', out, hyps + (b.f('tag').x == i,), dep, defm)
    elif isinstance(sh, Rec):
        for n, s in sh.fields:
            obs_eq(s, a.f(n), b.f(n), f'{nm}.{n}', out, hyps, dep, defm)
    elif isinstance(sh, (Vec, Deq)):
        out.append((nm + '.size', hyps, a.len == b.len))
        k = z3.Int(f'ix{dep}')
        obs_eq(sh.e, a.at(k), b.at(k), nm + '[i]', out, hyps + (k >= 0, k < b.len), dep + 1, defm)
    elif isinstance(sh, Arr):
        k = z3.Int(f'ix{dep}')
        h = (k >= 0, k < sh.cnt) if sh.cnt is not None else ()
        obs_eq(sh.e, a.at(k), b.at(k), nm + '[i]', out, hyps + h, dep + 1, defm)
    elif isinstance(sh, Map) and nm.replace(' ', '.').rsplit('.', 1)[-1] in defm:
        k = z3.Const(f'key{dep}', sh.ks)
        d = default(sh.v)
        obs_eq(sh.v, ite(a.has(k), a.at(k), d), ite(b.has(k), b.at(k), d), nm + '[k] or default', out, hyps, dep + 1, defm)
    elif isinstance(sh, Map):
        k = z3.Const(f'key{dep}', sh.ks)
        out.append((nm + '.has(k)', hyps, a.has(k) == b.has(k)))
        obs_eq(sh.v, a.at(k), b.at(k), nm + '[k]', out, hyps + (b.has(k),), dep + 1, defm)
    elif isinstance(sh, Set):
        k = z3.Const(f'key{dep}', sh.ks)
        out.append((nm + '.has(k)', hyps, a.has(k) == b.has(k)))


class FnC:
    """contract of one function"""

    def __init__(self, q, spec, nparams=None, sig=None, cls=None, pre=None, setup=None, ignore=(), models=None, hints=(),
                 folds=None, facts=None, name=None, track=(), channel=None, cover=(), throws_any=False, throw_state=(),
                 find=None, bound=3, ignore_roots=(), post=None, maxdepth=None, defmaps=(), nullable=(), concrete=(), opaque=(), guard=None, only=None, part=None):
        self.guard = guard
        self.part = part     # (start, stop, [(channel, shape)]): a stretch of a long function, see stretch()
        self.only = only     # frame contract: these fields alone are compared
        self.opaque = frozenset(opaque)
        self.concrete = set(concrete)
        self.nullable = set(nullable)
        self.defmaps = set(defmaps)
        self.q, self.spec, self.nparams, self.sig, self.cls = q, spec, nparams, sig, cls
        self.pre, self.setup, self.ignore, self.models, self.hints = pre, setup, set(ignore), models or {}, list(hints)
        self.facts, self.name = facts, name or q
        self.track, self.channel, self.cover = set(track), dict(channel or {}), list(cover)
        self.throws_any, self.throw_state = throws_any, throw_state
        self.find, self.bound = find, bound
        self.ignore_roots = set(ignore_roots)
        self.post = post
        self.maxdepth = maxdepth


class Result:
    def __init__(self, name):
        self.name = name
        self.obs = []
        self.unsup = None
        self.fn = None
        self.time = 0.0
        self.loops = []
        self.inlined = set()
        self.trusted = set()
        self.nloop = 0
        self.bounded = None
        self.queries = 0
        self.covered = {}
        self.notes = []
        self.loc = ''

    @property
    def status(self):
        if self.unsup:
            return 'unsupported'
        if any(o.status == 'refuted' for o in self.obs):
            if self.loops and self.bounded != 'refuted':
                return 'unknown'
            return 'refuted'
        if any(o.status != 'proved' for o in self.obs):
            return 'unknown'
        return 'proved' if self.obs else 'unsupported'

    def failed(self):
        return [o for o in self.obs if o.status != 'proved']


def make_exec(prog, models, contract=None, bounded=None):
    ms = dict(lib.M)
    ms.update(models)
    ex = Exec(prog, ms, Axioms())
    pr = Prover(ex.ax)
    ex.prover = pr
    ex.foldcache = {}
    ex.snapshot = lambda: (len(ex.pre_facts), [len(x) for x in ex.thr], len(lib.PUSH_FACTS), len(ex.loopstats), ex.nobl_loop, len(ex.perm))

    def restore(s):
        del ex.pre_facts[s[0]:]
        del ex.thr[len(s[1]):]
        for x, n in zip(ex.thr, s[1]):
            del x[n:]
        del lib.PUSH_FACTS[s[2]:]
        del ex.loopstats[s[3]:]
        ex.nobl_loop = s[4]
        del ex.perm[s[5]:]
    ex.restore = restore

    def feasible(pc):
        key = tuple(c.get_id() for c in pc)
        r = pr.feas.get(key)
        if r is None:
            q, _ = pr.check(list(pc) + ex.pre_facts + lib.PUSH_FACTS, 2000)
            r = (q != z3.unsat, pc)
            pr.feas[key] = r
        return r[0]
    ex.solver_feasible = feasible

    def houdini(pc, extra, goals, weaken=None, hyp=None, pcdrop=None):
        cur = list(goals)
        triv = [g for g in cur if z3.is_true(z3.simplify(g[2]))]
        tid = set(id(g) for g in triv)
        base = [c for c in pc if not pcdrop or c.get_id() not in pcdrop] + list(extra) + ex.pre_facts + lib.PUSH_FACTS
        allf = base + [g[2] for g in cur] + (list(hyp.values()) if hyp else [])
        axs = ex.ax.close(allf)
        t = time.time()
        while True:
            todo = [g for g in cur if weaken or id(g) not in tid]
            if not todo:
                break
            s = pr.solver(base + axs, 4000)
            if weaken:
                live = set(id(g[1]) for g in cur)
                for fid, h in hyp.items():
                    if fid in live:
                        s.add(h)
            s.add(z3.Or(*[z3.Not(g[2]) for g in todo]))
            pr.queries += 1
            r = s.check()
            if r == z3.unsat:
                break
            bad = set()
            if r == z3.sat:
                m = s.model()
                for g in todo:
                    if z3.is_false(m.eval(g[2], model_completion=True)):
                        bad.add(id(g))
            if not bad:
                for g in todo:
                    s = pr.solver(base + axs, 2500)
                    if weaken:
                        live = set(id(x[1]) for x in cur)
                        for fid, h in hyp.items():
                            if fid in live:
                                s.add(h)
                    s.add(z3.Not(g[2]))
                    pr.queries += 1
                    if s.check() != z3.unsat:
                        bad.add(id(g))
                if not bad:
                    break
            cur = [g for g in cur if id(g) not in bad]
        pr.time += time.time() - t
        return cur
    ex.houdini = houdini
    loops.install(ex)
    ex.bounded = bounded
    ex.probes, ex.elems = [], []
    ex.concrete = set(contract.concrete) if contract else set()
    if contract:
        ex.track = set(contract.track)
        ex.channel = dict(contract.channel)
        ex.hints = list(contract.hints)
        ex.defmaps = contract.defmaps
        if contract.maxdepth:
            ex.maxdepth = contract.maxdepth

    def fold(name, sh, init, step, absorb=None, n=None, deps=(), params=()):
        """one Fold per (name, dependencies)"""
        key = (name,) + tuple(d.get_id() for d in deps)
        f = ex.foldcache.get(key)
        if f is None:
            f = loops.Fold(ex, f'{name}#{len(ex.foldcache)}', sh, init, step, absorb, n=n, params=params)
            f.deps = deps
            ex.foldcache[key] = f
        return f
    ex.fold = fold
    return ex


def param_value(ex, st, i, p, nullable=False):
    t = p['t']
    nm = f'arg{i}'
    if t.k == 'ref':
        q = t.e.q if t.e.k == 'rec' else None
        if q and q in ex.prog.recs and not isinstance(ex.prog.shape(t.e), Sc):
            h = z3.Int(f'&{nm}')
            ex.pre_facts.append(h != 0)
            return ex.handle_loc(h, t.e)
        sh = ex.prog.shape(t.e)
        l = Loc(('L', nm, 0), sh)
        st.roots[l.root] = consts(sh, nm)
        if sh.n == 0:
            st.roots[l.root] = Val(sh, ())
        return l
    sh = ex.prog.shape(t)
    v = consts(sh, nm)
    if isinstance(sh, Sc) and sh.k == 'p' and not nullable:
        ex.pre_facts.append(v.x != 0)
    return v


def range_facts(sh, v, out, depth=0):
    """machine ranges of integers and non-negative sizes of the pre-state"""
    if isinstance(sh, Sc):
        if sh.k == 'i' and sh.w <= 64:
            lo, hi = (0, (1 << sh.w) - 1) if sh.u else (-(1 << (sh.w - 1)), (1 << (sh.w - 1)) - 1)
            out.append(z3.And(v.x >= lo, v.x <= hi))
        return
    if isinstance(sh, Rec):
        for n, s in sh.fields:
            range_facts(s, v.f(n), out, depth)
        if isinstance(sh, Var):
            out.append(z3.And(v.f('tag').x >= 0, v.f('tag').x < len(sh.alts)))
        return
    if isinstance(sh, (Vec, Deq)):
        out.append(z3.And(v.len >= 0, v.len < (1 << 40)))


def calls(prog, n, q, seen=None):
    """the statement reaches a call to the function"""
    seen = set() if seen is None else seen
    if isinstance(n, dict):
        f = n.get('fn')
        if isinstance(f, dict) and isinstance(f.get('q'), str):
            if f['q'] == q or f['q'].startswith(q + '<'):
                return True
            if f['q'] not in seen:
                seen.add(f['q'])
                for g in prog.fns.get(strip_t(f['q']), ()):
                    if calls(prog, g.d.get('body'), q, seen):
                        return True
        return any(calls(prog, v, q, seen) for v in n.values())
    if isinstance(n, (list, tuple)):
        return any(calls(prog, v, q, seen) for v in n)
    return False


def declared(n, out):
    """the variables a statement introduces, in order"""
    if isinstance(n, dict) and n.get('k') != 'lam':
        if n.get('k') == 'decl':
            out += [v for v in n.get('v', ()) if not v.get('static')]
        for v in n.values():
            declared(v, out)
    elif isinstance(n, (list, tuple)):
        for v in n:
            declared(v, out)


class Part:
    """a stretch of a function under a statement contract: of the body - or, with `within`, of the body of the loop
    that reaches a call of the first named function (in it, of the loop that reaches the second, ...; (f, g): reaches
    f and not g) - the statements from the first that reaches `start` up to the first that reaches `stop`.  With `enter`
    the stretch goes on inside the branch of the if statement that reaches `stop` (whether it is taken is channel `taken`).
    `ins`: what is known before (variables declared there by shape or name; others are arbitrary), `outs`: the variables
    that are compared afterwards, `over`: the channel of what the loop that reaches `stop` goes through."""
    def __init__(self, stop, outs, within=(), start=None, ins=(), enter=False, over=None):
        self.stop, self.outs, self.within, self.start, self.ins, self.enter, self.over = stop, outs, within, start, ins, enter, over

    @staticmethod
    def hit(prog, s, q):
        if isinstance(q, tuple):
            return calls(prog, s, q[0]) and not calls(prog, s, q[1])
        return calls(prog, s, q)

    def place(self, prog, body):
        """(statements before, statements of the stretch, the if statement it goes on in, the statement it ends at)"""
        before, cur = [], list(body)
        for q in self.within:
            def enter(ss):
                for i, s in enumerate(ss):
                    if not self.hit(prog, s, q):
                        continue
                    before.extend(ss[:i])
                    if s['k'] in ('rfor', 'for', 'while'):
                        before.append(dict(k='decl', v=[s['var']] if isinstance(s.get('var'), dict) else []))
                        if s.get('init'):
                            before.append(s['init'])
                        b = s['body']
                        return list(b['b']) if b['k'] == 'block' else [b]
                    if s['k'] == 'block':
                        return enter(s['b'])
                    if s['k'] == 'if' and not self.hit(prog, s.get('c'), q):
                        t = s['then'] if self.hit(prog, s.get('then'), q) else s.get('else')
                        return enter(list(t['b']) if t['k'] == 'block' else [t])
                    break
                raise Unsup(f'no loop that reaches {q}')
            cur = enter(cur)
        i = 0
        if self.start:
            i = next((i for i, s in enumerate(cur) if self.hit(prog, s, self.start)), None)
            if i is None:
                raise Unsup(f'no call of {self.start}')
            if self.enter and cur[i]['k'] != 'decl':
                while i > 0 and cur[i - 1]['k'] == 'decl':      # what its condition looks at
                    i -= 1
        n = next((j for j, s in enumerate(cur) if j >= i and self.hit(prog, s, self.stop)), None) if self.stop else len(cur)
        if n is None or n < i or n == i and not self.enter:
            raise Unsup(f'no call of {self.stop}')
        at = cur[n] if n < len(cur) else None
        if self.enter and at['k'] != 'if':
            raise Unsup(f'no branch with a call of {self.stop}')
        return before + cur[:i], cur[i:n], at if self.enter else None, at


def cover(prog, f, parts):
    """every statement of f is in a stretch under contract (around them only the loops and branches the stretches are in)"""
    body = f.d['body']['b']
    seen = set()
    for p in parts:
        _, ss, branch, at = p.place(prog, body)
        if branch is not None:
            t = branch['then'] if p.hit(prog, branch.get('then'), p.stop) else branch.get('else')
            inner = list(t['b']) if t['k'] == 'block' else [t]
            ss = ss + inner[:next(i for i, s in enumerate(inner) if p.hit(prog, s, p.stop))]
        seen |= {id(s) for s in ss}

    def walk(ss):
        for s in ss:
            if not isinstance(s, dict) or id(s) in seen or s['k'] == 'block' and not s['b']:
                continue
            subs = [s.get(k) for k in ('b', 'body', 'then', 'else')]
            subs = [x for x in subs if x]
            if not subs:
                raise Unsup('a statement in no stretch under contract')
            for x in subs:
                walk(x if isinstance(x, list) else [x])
    walk(body)


def pick(ex, env, ds, what, ch, ref=False):
    ls = [d for d in ds if isinstance(env.get(d), Loc) and (ref or not env[d].path) and (env[d].sh == what if not isinstance(what, str) else True)]
    if isinstance(what, str):
        ls = [d for d in ls if ex.localname.get(d) == what]
    if len(ls) != 1:
        if os.environ.get('VERIF_DEBUG'):
            print([(d, ex.localname.get(d), env[d].sh) for d in ds if isinstance(env.get(d), Loc) and not env[d].path])
        raise Unsup(f'{len(ls)} locals for {ch}')
    return env[ls[0]]


def mentioned(n, out):
    """the variables a statement looks at"""
    if isinstance(n, dict):
        if n.get('k') == 'var' and 'd' in n:
            out.add(n['d'])
        for v in n.values():
            mentioned(v, out)
    elif isinstance(n, (list, tuple)):
        for v in n:
            mentioned(v, out)


def constant(t):
    t = t.e if t.k == 'ref' else t
    return bool(t.d.get('c')) or t.s.startswith('const ')


def bare(e):
    while isinstance(e, dict) and e.get('k') not in ('lam', 'var') and isinstance(e.get('e'), dict):
        e = e['e']
    return e


def harmless(e):
    """computing it calls nothing of the project's"""
    if isinstance(e, dict):
        if e.get('k') == 'lam':
            return not any(not c.get('ref') and not c.get('this') for c in e['caps'])
        q = e['fn'].get('q', '') if isinstance(e.get('fn'), dict) else 'std::'
        return q.startswith('std::') and all(harmless(v) for k, v in e.items() if k != 'fn')
    return all(harmless(v) for v in e) if isinstance(e, (list, tuple)) else True


def stretch(ex, f, st, this, args, dyn, part):
    before, body, branch, at = part.place(ex.prog, f.d['body']['b'])
    fr = Frame(f, f.tu, this)
    fr.depth, fr.dyn, fr.rt = 1, dyn, f.d['rt']
    ex.bind_params(f.d, args, st, fr)
    ex.localname = {}
    old, new = [], []
    declared([s if s['k'] == 'decl' else None for s in before], old)
    for v in old:           # what was declared before the stretch has any value
        try:
            sh = ex.prog.shape(v['t'].deref())
            fr.env[v['d']] = ex.newroot(st, sh, ex.fresh(sh, v['n']), v['n'])
            ex.localname[v['d']] = v['n']
            wf = []
            range_facts(sh, ex.load(st, fr.env[v['d']]), wf)
            for x in wf:
                st.assume(x)
        except (Unsup, KeyError, AttributeError):
            pass
    known = []
    for ch, what in part.ins:
        l = pick(ex, fr.env, [v['d'] for v in old], what, ch)
        st.roots[l.root] = st.roots[('T', ch)]
        known.append(l)
    known += [pick(ex, fr.env, [v['d'] for v in old], what, ch) for ch, what in part.outs
              if isinstance(what, str) and any(v['n'] == what for v in old)]
    seen = set()
    mentioned(body, seen)
    if branch is not None:
        t = branch['then'] if part.hit(ex.prog, branch.get('then'), part.stop) else branch.get('else')
        ss = list(t['b']) if t['k'] == 'block' else [t]
        n = next(i for i, s in enumerate(ss) if part.hit(ex.prog, s, part.stop))
        mentioned([branch.get('init'), branch.get('var'), branch['c'], ss[:n]], seen)
        mentioned(ss[n].get('range') if part.over else None, seen)
    elif part.over:
        mentioned(at.get('range'), seen)
    given = {v['d'] for v in old if v['d'] in fr.env and any(fr.env[v['d']].same(l) for l in known)}
    again = set()
    for v in reversed(old):     # values that are the same whenever they are computed
        i = v.get('init')
        if v['d'] in seen and v['d'] not in given and isinstance(i, dict) and (constant(v['t']) or bare(i)['k'] == 'lam'):
            again.add(v['d'])
            mentioned(i, seen)
    done = set()
    for v in old:           # what the contract says nothing about decides nothing here
        d = v['d']
        if d not in seen or d in given:
            done |= {d} & given if constant(v['t']) else set()
            continue
        if d in again:
            u = set()
            if bare(v['init'])['k'] != 'lam':
                mentioned(v['init'], u)
            if not (u & {x['d'] for x in old}) - done and harmless(v['init']):
                fr.env.pop(d, None)
                n = len(ex.thr[-1])
                ex.declare(v, st, fr)
                ex.localname[d] = v['n']
                if len(ex.thr[-1]) == n:
                    done.add(d)
                    continue
        raise Unsup(f'{v["n"]} is from before the stretch')
    was = {v['n']: (fr.env[v['d']], ex.load(st, fr.env[v['d']])) for v in old if v['d'] in ex.localname}
    was = {n: x for n, x in was.items() if isinstance(x[1], Val)}
    left = []               # a round of the loop may be left early

    def run(ss, st):
        for s in ss:
            r = ex.stmt(s, st, fr, o := Outs())
            if o.brk or o.cont and not part.within or o.ret and ('T', 'result') not in ex.initial:
                raise Unsup('leaves before the end of the stretch')
            left.extend(o.cont)
            for x, v in o.ret:
                x.roots[('T', 'result')] = ex.rv(x, v)
                left.append(x)
            if r is None:
                return None
            st = r
        return st
    r = run(body, st.copy())
    inner = []
    if branch is not None and r is not None:
        if branch.get('init'):
            r = ex.stmt(branch['init'], r, fr, Outs())
        if branch.get('var'):
            ex.declare(branch['var'], r, fr)
        c = z3.simplify(ex.cond(branch['c'], r, fr))
        hit = part.hit(ex.prog, branch.get('then'), part.stop)
        t = branch['then'] if hit else branch.get('else')
        no = r.copy()
        for x, cc in ((r, c if hit else z3.Not(c)), (no, z3.Not(c) if hit else c)):
            x.assume(cc)
            x.roots[('T', 'taken')] = Val(ex.initial[('T', 'taken')].sh, [T if x is r else F])
        other = branch.get('else') if hit else branch['then']
        if other is not None and not (other['k'] == 'block' and not other['b']):
            raise Unsup('two branches')
        left.append(no)
        inner = list(t['b']) if t['k'] == 'block' else [t]
        n = next(i for i, s in enumerate(inner) if part.hit(ex.prog, s, part.stop))
        at = inner[n]
        inner = inner[:n]
        r = run(inner, r)
    if r is not None and part.over:
        if at is None or at['k'] != 'rfor':
            raise Unsup(f'no loop with a call of {part.stop}')
        r.roots[('T', part.over)] = ex.rv(r, ex.ev(at['range'], r, fr, None))
    declared(body + inner, new)
    for v in new:
        ex.localname[v['d']] = v['n']
    ds = [v['d'] for v in old if any(v['d'] == d for d in fr.env)] + [d for d in fr.env if d in {v['d'] for v in new}]
    for ch, what in part.outs:
        if callable(what):      # a reference: to this element of a container
            refs = [what(l) for d, l in fr.env.items() if d in ds and isinstance(l, Loc) and l.path]
            refs = [k for k in refs if k is not None]
            if len(refs) != 1:
                raise Unsup(f'{len(refs)} references for {ch}')
            if r is not None:
                r.roots[('T', ch)] = refs[0]
            continue
        l = pick(ex, fr.env, ds, what, ch, isinstance(what, str))
        for x in ([r] if r is not None else []) + left:
            if l.root in x.roots and (x is r or not l.path):
                x.roots[('T', ch)] = ex.load(x, l)
        was = {n: x for n, x in was.items() if not x[0].same(l)}
    ends = ([r] if r is not None else []) + left
    if not ends:
        st.assume(F)
        return None
    if ('T', 'left') in ex.initial:
        for x in ends:
            x.roots[('T', 'left')] = Val(ex.initial[('T', 'left')].sh, [F if x is r else T])
    elif left and r is not None and branch is None and ('T', 'result') not in ex.initial:
        raise Unsup('leaves before the end of the stretch')
    m = ex.merge([x.copy() for x in ends]) if len(ends) > 1 else ends[0]
    st.roots, st.py, st.pc = m.roots, m.py, m.pc
    for n, (l, v) in was.items():       # the other variables declared before stay as they are
        w = ex.load(st, l)
        same = z3.And(*[x == y for x, y in zip(v.l, w.l) if not z3.eq(x, y)])
        if not z3.is_true(z3.simplify(same)):
            ex.perm.append((list(st.pc), same, f'{n} stays as it is'))
    return None


def run_side(ex, f, st, this, args, dyn, model=None, part=None):
    ex.thr.append([])
    try:
        if model is not None:
            r = model(ex, st, {'fn': {'q': f.d['q'], 'rt': f.d['rt'], 'pt': [p['t'] for p in f.d['params']]}, 'k': 'mcall', 't': f.d['rt']}, this, args)
        else:
            r = stretch(ex, f, st, this, args, dyn, part) if part else ex.call_fn(f, st, args, this, dyn=dyn)
    finally:
        th = ex.thr.pop()
    return r, th


def verify(prog, c, models=None, bounded=None, ms=None, cross=False, keepstat=True):
    """discharge the contract c for the function's body in /repo"""
    res = Result(c.name)
    t0 = time.time()
    del lib.PUSH_FACTS[:]
    mm = dict(models or {})
    mm.update(c.models)
    mm = {k: v for k, v in mm.items() if k != c.q or k in c.models}   # a recursive call uses its own contract
    if prog.opaque != c.opaque:
        prog.opaque, prog.shape_cache = c.opaque, {}
    ex = make_exec(prog, mm, c, bounded)
    ex.keepstat = keepstat
    try:
        f = c.find(prog) if c.find else prog.find(c.q, c.nparams, c.sig)
        res.fn = repr(f)
        res.loc = f'{f.file}:{f.line}'
        st = State()
        this = None
        cls = c.cls or (f.d.get('cls').q if f.d.get('cls') is not None and hasattr(f.d.get('cls'), 'q') else None)
        if cls and not f.d.get('static'):
            sh = prog.rec_shape(cls)
            this = Loc(('L', 'this', 0), sh)
            st.roots[this.root] = consts(sh, 'this')
            ex.dyn_roots[this.root] = cls
        args = [param_value(ex, st, i, p, i in c.nullable) for i, p in enumerate(f.d['params'])]
        pre = []
        if c.setup:
            r = c.setup(ex, st, this, args)
            if r:
                pre += r
        for l in [this] + args:
            v = ex.load(st, l) if isinstance(l, Loc) else l
            if isinstance(v, Val):
                range_facts(v.sh, v, pre)
        if c.pre:
            pre += c.pre(ex, st, this, args)
        for p in pre:
            st.assume(p)
        if c.guard:
            ex.guard = c.guard
            c.guard.begin(ex, st, this)
            c.guard.on = False
        s_spec, s_code = st.copy(), st.copy()
        if c.spec:
            rs, ths = run_side(ex, f, s_spec, this, args, cls, c.spec)
        if c.facts:
            ex.pre_facts += c.facts(ex, st, this, args)
        if c.guard:
            c.guard.on = True
        rc, thc = run_side(ex, f, s_code, this, args, cls, part=c.part)
        for r, v in ex.kept.items():
            if any(not all(z3.eq(x, y) for x, y in zip(s.roots[r].l, v.l)) for s in [s_code] + [t[0] for t in thc] if r in s.roots):
                return verify(prog, c, models, bounded, ms, cross, keepstat=False)
        if c.spec:
            obs = compare(ex, c, f, st, s_spec, rs, ths, s_code, rc, thc)
        else:       # no functional contract here: the access obligations alone
            obs = [Ob(f'{c.name}: no lock is held on return', list(s_code.pc), z3.Not(s_code.roots[('T', 'held')].x))]
        obs += [Ob(f'{c.name}: {what}', pc, goal) for pc, goal, what in ex.perm]
        facts = ex.pre_facts + lib.PUSH_FACTS
        # the pre-state must be satisfiable, and the normal outcome reachable
        r, _ = ex.prover.check(list(st.pc) + facts, 4000)
        if r == z3.unsat:
            raise Unsup('contradictory precondition')
        if cross:
            ex.prover.cross = []
        for ob in obs:
            ex.prover.prove(ob, facts)
        res.obs = obs
        if cross:
            res.cross = recheck(ex.prover.cross)
    except Unsup as u:
        res.unsup = str(u)
        if os.environ.get('VERIF_DEBUG'):
            import traceback
            res.notes.append(traceback.format_exc()[-3500:])
    except (z3.Z3Exception, ctypes.ArgumentError, AssertionError, KeyError, AttributeError, TypeError, IndexError, RecursionError, ValueError) as u:
        import traceback
        res.unsup = f'internal: {type(u).__name__}: {u}'
        res.notes.append(traceback.format_exc()[-1500:])
    res.time = time.time() - t0
    res.loops = list(ex.loopstats)
    res.inlined = set(ex.inlined) - {c.q}
    res.trusted = set(ex.trusted)
    res.nloop = ex.nobl_loop
    res.queries = ex.prover.queries
    res.solver = ex.prover.time
    res.bused = ex.bounded_used
    res.ex = ex
    # weak failure: try the exact bounded form, which can refute definitively
    if bounded is None and not res.unsup and any(o.status == 'refuted' for o in res.obs) and res.loops:
        b = verify(prog, c, models, bounded=c.bound)
        if b.unsup is None and any(o.status == 'refuted' for o in b.obs):
            res.bounded = 'refuted'
            res.notes.append('bounded form (<= %d iterations) refutes: %s' % (c.bound, ', '.join(o.name for o in b.obs if o.status == 'refuted')))
            res.bmodel = [o for o in b.obs if o.status == 'refuted'][0]
        else:
            res.bounded = 'open'
    return res


def conj(cs):
    cs = list(cs)
    return z3.And(*cs) if len(cs) > 1 else (cs[0] if cs else T)


def compare(ex, c, f, st0, ss, rs, ths, sc, rc, thc):
    nm = c.name
    obs = []
    base = list(st0.pc)
    n0 = len(base)
    spec_thr = {}
    for (s, e) in ths:
        k = 'any' if c.throws_any else e.cls
        spec_thr.setdefault(k, []).append((s, e))
    spec_any = [conj(s.pc[n0:]) for l in spec_thr.values() for s, _ in l]
    code_normal = not ex.dead(sc)
    # normal completion only when the contract says so
    if c.only:
        thc, spec_any = [], []
    if code_normal:
        if spec_any:
            obs.append(Ob(f'{nm}: returns only when no exception is specified', list(sc.pc), z3.Not(z3.Or(*spec_any))))
    for i, (s, e) in enumerate(thc):
        k = 'any' if c.throws_any else e.cls
        lst = spec_thr.get(k, [])
        if not lst and not c.throws_any:
            # a subclass of a specified class is accepted
            for kk, v in spec_thr.items():
                if ex.catches(kk, e.cls):
                    lst = lst + v
        conds = [conj(x.pc[n0:]) for x, _ in lst]
        obs.append(Ob(f'{nm}: throws {e.cls} only when specified', list(s.pc), z3.Or(*conds) if conds else F))
        for r in c.throw_state:
            for x, _ in lst:
                a, b = ex.root(s, r), ex.root(x, r)
                g = []
                obs_eq(a.sh, a, b, f'{nm}: on throw {r[1]}', g)
                for n, h, goal in g:
                    obs.append(Ob(n, list(s.pc) + list(x.pc[n0:]) + list(h), goal))
    if not code_normal:
        # contract says it can return normally but the code never does: its throws are checked above
        if not obs:
            obs.append(Ob(f'{nm}: terminates', base, F))
        return obs
    hyps = list(sc.pc)
    extra = [x for x in ss.pc[n0:]] if not spec_any else []
    goals = []
    if c.only:
        pass
    elif rs is not None:
        a, b = rc, rs
        rt = f.d['rt']
        if rt.k == 'ref' and isinstance(a, Loc) and isinstance(b, Loc):
            if not a.same(b):
                a, b = ex.load(sc, a), ex.load(ss, b)
            else:
                a = b = None
        if a is not None:
            a, b = ex.rv(sc, a), ex.rv(ss, b)
            if isinstance(a, PV) or isinstance(b, PV):
                shp = ex.prog.shape(rt)
                a, b = ex.coerce(a, shp, sc), ex.coerce(b, shp, ss)
            if isinstance(a, IList) or isinstance(b, IList):
                a, b = ex.conv(a, rt, sc), ex.conv(b, rt, ss)
            if not isinstance(a, Val) or not isinstance(b, Val):
                if isinstance(a, Py) and a.same(b):
                    a = None
                else:
                    raise Unsup('opaque return value')
            if a is not None:
                if a.sh.n != b.sh.n:
                    raise Unsup('return shape')
                obs_eq(b.sh, a, b, f'{nm}: result', goals)
    elif rc is not None and f.d['rt'].s != 'void' and not c.part and not getattr(c, 'noresult', False):
        raise Unsup('contract gives no result')
    keys = set(sc.roots) | set(ss.roots)
    for r in sorted(keys, key=str):
        if (r[0] == 'L' and r not in st0.roots) or (r[0] == 'G' and len(r) == 2):
            continue
        if r in ex.locstat and r not in ss.roots:
            continue
        if r[0] == 'G' and r[1] in ex.prog.novel[1]:
            continue        # state the contracts do not know
        if r in c.ignore_roots or (r[0] in ('T', 'H', 'L') and r[1] in c.ignore_roots):
            continue
        if r in sc.py or r in ss.py:
            a, b = sc.py.get(r), ss.py.get(r)
            if not (a is b or (a is not None and b is not None and a.same(b))):
                if r[0] == 'G':
                    continue
                raise Unsup(f'opaque value of {r}')
            continue
        a, b = ex.root(sc, r), ex.root(ss, r)
        o = st0.roots.get(r) or ex.initial.get(r)
        if o is not None and all(x.get_id() == y.get_id() == z.get_id() for x, y, z in zip(a.l, b.l, o.l)):
            continue
        if r[0] == 'G' and r not in st0.roots and len(r) > 2 and isinstance(r[2], Nil):
            continue
        g = []
        lab = {'T': 'calls on ', 'H': 'heap ', 'G': 'global ', 'L': ''}[r[0]] + str(r[1])
        obs_eq(a.sh, a, b, f'{nm}: {lab}', g, defm=c.defmaps)
        for n, h, goal in g:
            if any(n.endswith('.' + x) or ('.' + x + '.') in n or ('.' + x + '[') in n for x in c.ignore | ex.prog.novel[0]):
                continue
            if c.only and not any(n.endswith('.' + x) or ('.' + x + '.') in n or ('.' + x + '[') in n for x in c.only):
                continue
            goals.append((n, h, goal))
    if c.post and not c.only:
        goals += [(f'{nm}: {n}', (), g) for n, g in c.post(ex, st0, ss, sc, rc)]
    for n, h, goal in goals:
        obs.append(Ob(n, hyps + extra + list(h), goal))
    if not obs:
        obs.append(Ob(f'{nm}: result and state as specified', hyps, T))
    return obs


def recheck(items, limit=60.0):
    """second back end: cvc5 on the SMT-LIB text of the discharged queries"""
    import subprocess
    import tempfile
    import os
    t0, ok, unk, bad = time.time(), 0, 0, []
    for name, txt in items:
        if time.time() - t0 > limit:
            break
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + txt)
        try:
            r = subprocess.run(['cvc5', '--tlimit=6000', f.name], capture_output=True, text=True, timeout=12).stdout
        except subprocess.TimeoutExpired:
            r = ''
        os.unlink(f.name)
        if r.startswith('unsat'):
            ok += 1
        elif r.startswith('sat'):
            bad.append(name)
        else:
            unk += 1
    return dict(backend='cvc5', confirmed=ok, undecided=unk, disagree=bad, skipped=len(items) - ok - unk - len(bad), seconds=round(time.time() - t0, 1))
