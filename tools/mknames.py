"""writes names.json: the names of /repo's classes, fields, functions and globals as the contracts know them"""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
from vcg import rename
tus = sorted({t for f in glob.glob(V + '/contracts/c[0-9][0-9].py') for t in importlib.import_module('contracts.' + os.path.basename(f)[:-3]).PROP.tus})
run.gen_config('/tmp/names-gen')
ok, bad = run.export(tus, '/tmp', '/tmp/names-gen')
assert not bad, bad
out = {}
for t in tus:
    d = json.load(open(ok[t]))
    out[t] = rename.summary(d)
    out[t]['local'] = rename.locals_of(d)
json.dump(out, open(V + '/names.json', 'w'), indent=0, sort_keys=True)
