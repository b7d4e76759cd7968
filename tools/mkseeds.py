#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.cpp, stubs.tgz, meta.json) for the planted bugs below.
Not used by any check."""
import io, json, os, shutil, subprocess, sys, tarfile
V, R = '/verif', '/repo'
W = '/tmp/mkseed-repo'

DEMO_SH = '''#!/bin/bash
# run in the repository, after its build: exit 0 when the behaviour shown is right
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/stubs"
tar -xzf "$here/stubs.tgz" -C "$w/stubs" || exit 99
inc="-I$w/stubs -I$here"
for d in . buildjson dbus errors ipmi notimpl pid sensors sysfs; do inc="$inc -I$PWD/$d"; done
pids=
objs=
n=0
for s in @SRC@; do
  o="$w/$n.o"; n=$((n+1)); objs="$objs $o"
  g++ -std=c++23 -O1 -w $inc -c "$PWD/$s" -o "$o" & pids="$pids $!"
done
g++ -std=c++23 -O1 -w $inc -c "$here/demo.cpp" -o "$w/demo.o" & pids="$pids $!"
for p in $pids; do wait $p || exit 98; done
g++ -o "$w/demo" "$w/demo.o" $objs -lsystemd 2>/dev/null || g++ -o "$w/demo" "$w/demo.o" $objs || exit 97
mkdir "$w/scratch"
SCRATCH="$w/scratch" timeout 60 "$w/demo" 2>/dev/null
'''

PRE = '''#include <any>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <variant>
#include <vector>
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { std::printf("wrong: %s\\n", #c); bad = 1; } } while (0)
'''
ZONE = ['pid/zone.cpp', 'pid/tuning.cpp', 'sensors/manager.cpp', 'failsafeloggers/failsafe_logger.cpp', 'failsafeloggers/failsafe_logger_utility.cpp']
PASSIVE = ['dbus/dbuspassive.cpp', 'dbus/dbusutil.cpp', 'dbus/dbuspassiveredundancy.cpp', 'failsafeloggers/failsafe_logger_utility.cpp']
SEEDS = []


def seed(id_, prop, edits, src, demo, needs, breaks, extra=()):
    SEEDS.append((id_, prop, edits, src, demo, needs, breaks, extra))


exec(open(os.path.join(V, 'tools/seeds.py')).read())


def stubs_tgz(path):
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode='w') as t:
        for base, dirs, files in os.walk(V + '/stubs'):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(base, f)
                ti = t.gettarinfo(p, os.path.relpath(p, V + '/stubs'))
                ti.mtime, ti.uid, ti.gid, ti.uname, ti.gname = 0, 0, 0, '', ''
                t.addfile(ti, open(p, 'rb'))
        sys.path.insert(0, V)
        cfg = b''.join(b'#define %s 0\n' % n for n in (b'STRICT_FAILSAFE_PWM', b'OFFLINE_FAILSAFE_PWM', b'UNC_FAILSAFE', b'HANDLE_MISSING_OBJECT_PATHS'))
        ti = tarfile.TarInfo('config.h')
        ti.size = len(cfg)
        t.addfile(ti, io.BytesIO(cfg))
    import gzip
    with open(path, 'wb') as f, gzip.GzipFile(fileobj=f, mode='wb', mtime=0, filename='') as g:
        g.write(buf.getvalue())


only = sys.argv[1:]
if not os.path.exists(W):
    subprocess.run(['git', '-C', R, 'worktree', 'prune'])
    subprocess.run(['git', 'clone', '-q', R, W], check=True)
subprocess.run(['git', '-C', W, 'fetch', '-q'], check=True)
subprocess.run(['git', '-C', W, 'reset', '-q', '--hard', 'origin/HEAD'], check=True)
for id_, prop, edits, src, demo, needs, breaks, extra in SEEDS:
    if only and not any(id_.startswith(o) for o in only):
        continue
    d = os.path.join(V, 'seeded', id_)
    os.makedirs(d, exist_ok=True)
    subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'], check=True)
    run = lambda: subprocess.run(['bash', d + '/demo.sh'], cwd=W, capture_output=True, text=True)
    open(d + '/demo.cpp', 'w').write(PRE + demo.strip('\n') + '\n')
    for x in extra:
        shutil.copy(os.path.join(V, 'drivers', x), d)
    open(d + '/demo.sh', 'w').write(DEMO_SH.replace('@SRC@', ' '.join(src)))
    os.chmod(d + '/demo.sh', 0o755)
    stubs_tgz(d + '/stubs.tgz')
    r0 = run()
    for f, a, b in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(a) == 1, (id_, f, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    diff = subprocess.run(['git', '-C', W, 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    r1 = run()
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    ok = r0.returncode == 0 and r1.returncode == 1
    print(id_, prop, 'clean', r0.returncode, 'patched', r1.returncode, '' if ok else 'BAD ' + r0.stdout + r0.stderr + r1.stderr, r1.stdout.strip()[:200])
subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'], check=True)
