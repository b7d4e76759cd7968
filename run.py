#!/usr/bin/env python3-vt
"""run.py <property> [quick|thorough] : decide one property on /repo's current tree.

1. export the clang AST of the translation units the property depends on,
2. discharge every obligation of the contracts in contracts/<id>.py (z3; cvc5
   re-checks them in the thorough tier),
3. run the executable form of the contracts against the compiled /repo sources
   (drivers/<id>.cpp): replays a failed obligation with a concrete input, and is
   the bounded stand-in for functions outside the verifier's subset,
4. write evidence/<id>.json; exit 1 with a VIOLATION line if the property fails.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(V, '.cache')
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
INCDIRS = ['', 'buildjson', 'dbus', 'errors', 'ipmi', 'notimpl', 'pid', 'sensors', 'sysfs']


def sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


def build_exporter():
    src = os.path.join(V, 'vcg/export.cpp')
    exe = os.path.join(CACHE, 'export-' + sha(src))
    if not os.path.exists(exe):
        os.makedirs(CACHE, exist_ok=True)
        tmp = exe + f'.{os.getpid()}'
        cpp = subprocess.run(['llvm-config-18', '--cppflags'], capture_output=True, text=True, check=True).stdout.split()
        subprocess.run(['g++', '-O1', '-std=c++17', '-fno-rtti', *cpp, src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1',
                        '-l:libLLVM.so.1', '-Wl,-rpath,/usr/lib/llvm-18/lib'], check=True)
        os.replace(tmp, exe)
    return exe


def gen_config(d):
    """config.h with the default build options of the current tree"""
    try:
        txt = open(os.path.join(REPO, 'meson.options')).read()
    except OSError:
        txt = ''
    out = ''
    for o in ('strict-failsafe-pwm', 'offline-failsafe-pwm', 'unc-failsafe', 'handle-missing-object-paths'):
        m = re.search(r"option\(\s*'" + o + r"'.*?value:\s*(\w+)", txt, re.S)
        v = 1 if m and m.group(1) == 'true' else 0
        out += f"#define {o.upper().replace('-', '_')} {v}\n"
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'config.h'), 'w').write(out)


def includes(gen):
    return [f'-I{gen}', f'-I{V}/stubs'] + [f'-I{os.path.join(REPO, d)}' for d in INCDIRS]


def repo_hash():
    h = hashlib.sha256()
    fs = []
    for d in INCDIRS + ['failsafeloggers', 'experiments']:
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            fs += [os.path.join(p, f) for f in os.listdir(p) if f.endswith(('.hpp', '.h'))]
    for f in sorted(fs):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    for dp, _, ff in os.walk(os.path.join(V, 'stubs')):
        for f in sorted(ff):
            h.update(open(os.path.join(dp, f), 'rb').read())
    return h.hexdigest()


def occurs(name):
    """the identifier is still used somewhere in the sources"""
    if 'words' not in G:
        w = set()
        for d in INCDIRS + ['failsafeloggers']:
            p = os.path.join(REPO, d)
            for f in os.listdir(p) if os.path.isdir(p) else ():
                if f.endswith(('.hpp', '.h', '.cpp')):
                    w |= set(re.findall(r'[A-Za-z_]\w*', re.sub(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\\n]|\\.)*"', ' ', open(os.path.join(p, f), errors='replace').read(), flags=re.S)))
        G['words'] = w
    return name in G['words']


def export(tus, work, gen):
    """AST of each unit as JSON; returns {tu: path}, {tu: error}"""
    exe = build_exporter()
    hh = repo_hash()
    ok, bad, procs = {}, {}, []
    adir = os.path.join(CACHE, 'ast')
    os.makedirs(adir, exist_ok=True)
    for t in tus:
        src = os.path.join(REPO, t)
        if not os.path.exists(src):
            bad[t] = 'missing'
            continue
        k = hashlib.sha256((hh + sha(src) + exe).encode()).hexdigest()[:24]
        out = os.path.join(adir, t.replace('/', '_') + '.' + k + '.json')
        if os.path.exists(out):
            ok[t] = out
            continue
        cmd = [exe, REPO, out + f'.{os.getpid()}', src, '--', '-std=c++23', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'] + includes(gen)
        procs.append((t, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for t, out, p in procs:
        o, _ = p.communicate()
        tmp = out + f'.{os.getpid()}'
        if p.returncode == 0 and os.path.exists(tmp):
            os.replace(tmp, out)
            ok[t] = out
        else:
            bad[t] = o[-2000:]
    return ok, bad


# ------------------------------------------------------------------ level 1
def worker(args):
    """verify one contract in a forked child"""
    i, tier = args
    from vcg.contract import verify
    c = G['prop'].contracts[i]
    r = verify(G['prog'], c, G['prop'].models, cross=(tier == 'thorough'))
    d = dict(name=r.name, fn=r.fn, loc=r.loc, status=r.status, unsup=r.unsup, obs=[o.row() for o in r.obs], time=r.time, loops=r.loops,
             inlined=sorted(r.inlined), trusted=sorted(r.trusted), nloop=r.nloop, queries=r.queries, solver=getattr(r, 'solver', 0.0),
             bounded=r.bounded, notes=r.notes, failed=[(o.name, o.status, model_text(o)) for o in r.failed()], cross=getattr(r, 'cross', None), group=f'{c.q} {c.part.within[:1]}' if getattr(c, 'part', None) else None)
    if getattr(r, 'bmodel', None) is not None:
        d['failed'].insert(0, (r.bmodel.name + ' [bounded form]', 'refuted', model_text(r.bmodel)))
    return d


def model_text(o):
    if o.model is None:
        return ''
    try:
        s = []
        for d in o.model.decls():
            s.append(f'{d.name()} = {o.model[d]}')
        return '\n'.join(s)[:20000]
    except Exception as e:
        return str(e)


G = {}


def child(i, tier, q):
    try:
        q.put((i, worker((i, tier))))
    except BaseException as e:
        q.put((i, dict(name=G['prop'].contracts[i].name, status='unsupported', unsup='internal: ' + repr(e), obs=[], failed=[], time=0.0, fn=None, loc='',
                       loops=[], inlined=[], trusted=[], nloop=0, queries=0, solver=0.0, bounded=None, notes=[traceback.format_exc()[-1500:]], cross=None)))


def prove_all(prop, paths, tier, deadline):
    from vcg.core import Program
    from vcg import rename
    prog = Program()
    G['aliases'] = rename.load(prog, {t: paths[t] for t in prop.tus if t in paths}, occurs)
    G['prog'], G['prop'] = prog, prop
    if prop.more:
        prop.contracts, prop.more = list(prop.contracts) + prop.more(), None
    import gc
    gc.freeze()
    n = len(prop.contracts)
    q = mp.Queue()
    todo, run, done = list(range(n)), {}, {}
    limit = 7
    while todo or run:
        while todo and len(run) < limit:
            i = todo.pop(0)
            p = mp.Process(target=child, args=(i, tier, q), daemon=True)
            p.start()
            run[i] = p
        try:
            i, r = q.get(timeout=0.5)
            done[i] = r
            run.pop(i).join(2)
        except Exception:
            for i, p in list(run.items()):
                if not p.is_alive() and i not in done:
                    # give the queue a moment
                    try:
                        j, r = q.get(timeout=1.0)
                        done[j] = r
                        run.pop(j, None)
                    except Exception:
                        if i in run and i not in done:
                            run.pop(i)
                            done[i] = None
        if time.time() > deadline:
            for i, p in run.items():
                p.kill()
                done[i] = None
            for i in todo:
                done[i] = None
            break
    out = []
    for i in range(n):
        r = done.get(i)
        if r is None:
            r = dict(name=prop.contracts[i].name, status='unknown', unsup='time limit', obs=[], failed=[], time=0.0, fn=None, loc='', loops=[], inlined=[],
                     trusted=[], nloop=0, queries=0, solver=0.0, bounded=None, notes=[], cross=None)
        out.append(r)
    return out


# ------------------------------------------------------------------ level 2
def literals(paths):
    """every literal of the exported functions: the generator's dictionary"""
    ints, dbls, strs = set(), set(), set()

    def walk(x):
        if isinstance(x, list):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            k = x.get('k')
            if k == 'int':
                ints.add(x['v'])
            elif k == 'dbl':
                dbls.add(x['v'])
            elif k == 'str':
                strs.add(x['v'])
            for v in x.values():
                if isinstance(v, (dict, list)):
                    walk(v)
    for p in paths.values():
        d = json.load(open(p))
        for f in d['functions']:
            if f['file'].startswith(REPO):
                walk(f.get('body'))
                walk(f.get('inits'))
                walk(f.get('params'))
    out = []
    for v in sorted(ints):
        out.append('i ' + str(v))
    for v in sorted(map(str, dbls)):
        out.append('d ' + v)
    for v in sorted(strs):
        if '\n' not in v and len(v) < 200:
            out.append('s ' + v)
    return '\n'.join(out) + '\n'


def start_driver(prop, work, gen, extra=()):
    src = os.path.join(V, 'drivers', prop.driver + '.cpp')
    exe = os.path.join(work, 'driver')
    flags = []
    for l in open(src):
        m = re.match(r'//\s*LINK:\s*(.*)', l)
        if m:
            flags += m.group(1).split()
    srcs, libs = [], []
    for f in flags:
        if f.startswith('-'):
            libs.append(f)
        else:
            srcs.append(os.path.join(REPO, f))
    objs, procs = [], []
    san = [f for f in libs if f.startswith('-fsanitize')]
    inc = includes(gen) + [f'-I{V}/drivers', f'-DREPO_DIR="{REPO}"'] + list(extra)
    for i, s in enumerate([src] + srcs):
        o = os.path.join(work, f'o{i}.o')
        objs.append(o)
        procs.append(subprocess.Popen(['g++', '-std=c++23', '-O1', '-g0', '-w', '-ftrivial-auto-var-init=pattern', '-c', s, '-o', o] + san + inc,
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    return exe, objs, procs, libs


def rest_archive(work):
    """an archive of all /repo objects (only what is still undefined gets linked)"""
    gen = os.path.join(work, 'gen')
    srcs = []
    for d in INCDIRS + ['failsafeloggers']:
        p = os.path.join(REPO, d)
        srcs += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith('.cpp')] if os.path.isdir(p) else []
    srcs = [f for f in srcs if os.path.basename(f) not in ('main.cpp', 'setsensor.cpp', 'main_ipmi.cpp')]
    od = os.path.join(work, 'rest')
    os.makedirs(od, exist_ok=True)
    todo, run, objs = list(enumerate(srcs)), [], []
    while todo or run:
        while todo and len(run) < 8:
            i, s = todo.pop(0)
            o = os.path.join(od, f'r{i}.o')
            run.append((o, subprocess.Popen(['g++', '-std=c++23', '-O1', '-g0', '-w', '-ftrivial-auto-var-init=pattern', '-c', s, '-o', o] + includes(gen),
                                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        o, p = run.pop(0)
        if p.wait() == 0:
            objs.append(o)
    a = os.path.join(work, 'rest.a')
    subprocess.run(['ar', 'rcs', a] + objs, check=True)
    return a


def finish_driver(prop, st, work, tier, seed, lits):
    exe, objs, procs, libs = st
    errs = ''
    for p in procs:
        o, _ = p.communicate()
        if p.returncode != 0:
            errs += o[-3000:]
    if errs:
        return dict(status='nobuild', out=errs)
    r = subprocess.run(['g++', '-o', exe] + objs + libs, capture_output=True, text=True)
    if r.returncode != 0 and 'undefined reference' in r.stderr:
        # the code has moved between files: offer every other object of the tree
        r = subprocess.run(['g++', '-o', exe] + objs + [rest_archive(work)] + libs, capture_output=True, text=True)
    if r.returncode != 0:
        return dict(status='nobuild', out=r.stderr[-3000:])
    lf = os.path.join(work, 'lits')
    open(lf, 'w').write(lits)
    budget = 90 if tier == 'thorough' else 6
    scratch = os.path.join(work, 'scratch')
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, VERIF_SCRATCH=scratch, TMPDIR=scratch)
    cmd = [exe, str(seed), str(budget), lf, tier]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=budget * 2 + 60, cwd=scratch, env=env)
    except subprocess.TimeoutExpired as e:
        return dict(status='timeout', out=(e.stdout or b'')[-2000:] if isinstance(e.stdout, bytes) else str(e.stdout)[-2000:])
    out = r.stdout
    d = dict(out=out[-6000:], rc=r.returncode, err=r.stderr[-800:])
    m = re.search(r'^STATS (.*)$', out, re.M)
    if m:
        d['stats'] = json.loads(m.group(1))
    f = re.search(r'^FAIL (.*)', out, re.M | re.S)
    if f:
        d['status'], d['fail'] = 'fail', f.group(1)[:6000]
    elif r.returncode < 0:
        d['status'], d['fail'] = 'fail', f'the code under test crashed with signal {-r.returncode}\n' + out[-1500:]
    elif r.returncode != 0 or not m:
        d['status'] = 'error'
    else:
        d['status'] = 'ok'
    return d


def known_findings(pid):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f'finding: property={pid} '):
                out.append(l.split(' ', 2)[2].strip())
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = importlib.import_module('contracts.' + pid.lower()).PROP
    work = tempfile.mkdtemp(prefix=f'verif-{pid}-')
    try:
        return decide(prop, pid, tier, seed, t0, work)
    finally:
        subprocess.run(['rm', '-rf', work])


def decide(prop, pid, tier, seed, t0, work):
    gen = os.path.join(work, 'gen')
    gen_config(gen)
    st = start_driver(prop, work, gen) if prop.driver else None
    l1, experr = [], {}
    paths = {}
    try:
        paths, experr = export(prop.tus, work, gen)
        l1 = prove_all(prop, paths, tier, t0 + (700 if tier == 'thorough' else 400))
    except Exception:
        experr['internal'] = traceback.format_exc()[-2000:]
    l2 = None
    if st:
        try:
            l2 = finish_driver(prop, st, work, tier, seed, literals(paths))
            al = G.get('aliases')
            if l2['status'] == 'nobuild' and al:
                # names have changed in the tree: give the driver the new ones
                st = start_driver(prop, work, gen, [f'-D{o}={n}' for o, n in al.macros().items()])
                l2 = finish_driver(prop, st, work, tier, seed, literals(paths))
        except Exception:
            l2 = dict(status='error', out=traceback.format_exc()[-2000:])
    nob = sum(len(r['obs']) + r['nloop'] for r in l1)
    nok = sum(sum(1 for o in r['obs'] if o['status'] == 'proved') + r['nloop'] for r in l1)
    proved = bool(l1) and all(r['status'] == 'proved' for r in l1)
    for g in {r.get('group') for r in l1} - {None}:
        # a statement that has moved from one stretch of a body to another breaks both their contracts, and says nothing of the body
        bad = [r for r in l1 if r.get('group') == g and (r['status'] == 'refuted' or r['status'] == 'unsupported' and r['unsup'] != 'time limit')]
        if len(bad) > 1:
            for r in bad:
                if r['status'] == 'refuted':
                    r['status'], r['unsup'] = 'unsupported', 'refuted, with another stretch of the same body: ' + ', '.join(x['name'] for x in bad if x is not r)
    refuted = [r for r in l1 if r['status'] == 'refuted']
    open_ = [r for r in l1 if r['status'] not in ('proved', 'refuted')]
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=0)
    back = {}
    for r in l1:
        for o in r['obs']:
            if o['status'] == 'proved':
                back[o['by']] = back.get(o['by'], 0) + 1
    cov = dict(obligations=nob, discharged=nok, checker_cmd=f'python3-vt run.py {pid} {tier}',
               trusted_base=['clang 18 AST (vcg/export.cpp), symbolic executor vcg/core.py, z3'] +
               sorted('model of ' + t for r in l1 for t in r['trusted'])[:0] +
               ['library/interface model: ' + t for t in sorted({t for r in l1 for t in r['trusted']})],
               functions_under_contract=[dict(contract=r['name'], function=r['fn'], at=r['loc'], status=r['status'], obligations=len(r['obs']), loop_obligations=r['nloop'],
                                              loops=[dict(line=l['line'], invariants=l['kept'][:40]) for l in r['loops']],
                                              inlined=r['inlined'], seconds=round(r['time'], 2), solver_seconds=round(r['solver'], 2), queries=r['queries'],
                                              undecided=r['unsup'], cross=r['cross']) for r in l1],
               back_ends=back, solver_seconds=round(sum(r['solver'] for r in l1), 2),
               not_proved=[f"{r['name']}: {r['unsup'] or r['status']}" for r in l1 if r['status'] != 'proved'])
    if l2:
        s = l2.get('stats', {})
        cov['replay_search'] = dict(label='bounded: executable contracts run against the compiled /repo sources; not counted as proved', status=l2['status'], **s)
    ev['coverage'] = cov
    ev['assumptions'] = COMMON + prop.assumptions
    if G.get('aliases'):
        cov['names'] = G['aliases'].text()
    lines = []
    viol = None
    known = known_findings(pid)
    rep = os.path.join(V, 'evidence', f'replay-{pid}.txt')
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    fails = []
    for r in l1:
        for n, s, m in r['failed']:
            fails.append((r, n, s, m))
    obl_txt = ''
    for r, n, s, m in fails[:40]:
        obl_txt += f'obligation: {n}\n  function: {r["fn"]} ({r["loc"]})\n  verifier: {s}\n'
    mod_txt = ''.join(f'--- verifier model for {n}\n{m}\n' for r, n, s, m in fails[:6] if m)
    if l2 and l2['status'] == 'fail':
        if any(k in l2['fail'] for k in known):
            pass
        else:
            viol = f'VIOLATION property={pid} replay={rep}'
            open(rep, 'w').write(f'property {pid}: the real code fails on this input\n\n{l2["fail"]}\n\nreplay: VERIF_SEED={seed} python3-vt {V}/run.py {pid} {tier}\n\n'
                                 f'failed obligations:\n{obl_txt or "(none: outside the proved part)"}\n{mod_txt}')
    elif refuted:
        viol = f'VIOLATION property={pid} replay={rep} no-failing-input-found'
        open(rep, 'w').write(f'property {pid}: obligations refuted by the verifier; no concrete failing input was found\n\n{obl_txt}\n{mod_txt}')
    for k in known:
        print(f'KNOWN-FINDING: property={pid} {k}')
    ev['violations'] = 1 if viol else 0
    if not proved:
        ev['level'] = 'proof'
        cov['explanation'] = 'some contracts are not decided by the verifier on this tree (not_proved); for those the bounded executable-contract run stands in'
    json.dump(ev, open(os.path.join(V, 'evidence', f'{pid}.json'), 'w'), indent=1)
    print(f'{pid}: {len(l1)} contracts, {nok}/{nob} obligations discharged, {len(refuted)} refuted, {len(open_)} undecided; '
          f'replay search: {l2["status"] if l2 else "none"} {l2.get("stats", {}) if l2 else ""} ({time.time() - t0:.1f}s)')
    for r in open_:
        print(f'  undecided: {r["name"]}: {r["unsup"] or ""} ' + '; '.join(n for n, _, _ in r['failed'][:4]))
        if os.environ.get('VERIF_DEBUG'):
            print('\n'.join(r['notes']))
    for t, e in experr.items():
        print(f'  not exported: {t}: {e[-400:]}')
    if l2 and l2['status'] in ('nobuild', 'error', 'timeout'):
        print('  driver:', l2['status'], l2.get('out', '')[-1500:], l2.get('err', ''))
    if viol:
        print(obl_txt)
        if l2 and l2['status'] == 'fail':
            print(l2['fail'][:1500])
        print(viol)
        return 1
    if not proved and (l2 is None or l2['status'] != 'ok') and not (l2 and l2['status'] == 'fail'):
        print('no decision: neither the verifier nor the bounded run could treat this tree')
        return 2 if not any(r['status'] == 'proved' for r in l1) else 0
    return 0


COMMON = [
    'doubles: IEEE comparison, NaN and infinities exact; +,-,*,/ uninterpreted (same operations in the same order); -0 and +0 identified',
    'signed integer arithmetic does not overflow (undefined behaviour is out of scope); conversions and unsigned subtraction wrap exactly',
    'allocation does not fail; pointers and references passed in are valid and distinct objects do not overlap',
    'loops of the code terminate (partial correctness)',
    'build options are the defaults of meson.options',
]

if __name__ == '__main__':
    sys.exit(main())
