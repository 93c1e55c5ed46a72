#!/usr/bin/env python3
"""Compares the engine and the stand-ins for the C and C++ libraries (rt/) with the real ones: every entry of
library.cpp is executed symbolically, and the paths' predicted results are checked against a native run.
usage: library.py   prints what is not supported or differs (std::thread, doubles in streams and exception_ptr are known not to be)."""
import sys, os, json, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import check
p = dict(harness='../selftest/library.cpp', srcs=[]); bp = ThreadPoolExecutor(8); bc = check.build_sym(p, bp); nat = check.build_nat(p, bp)
names = re.findall(r'^E\((k_\w+)', open(V + '/selftest/library.cpp').read(), re.M); wd = tempfile.mkdtemp()
def one(n):
    o = '%s/%s.json' % (wd, n); r = subprocess.run([check.B + '/pse', bc, '--entry', n, '--out', o, '--time', '20', '--steps', '3000000', '--witness', '3', '--arg', '3', '--repo', '/repo/'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try: d = json.load(open(o))
    except Exception: return n, 'engine: ' + r.stderr.decode()[-200:]
    bad = [] if d['complete'] else [str({k: d.get(k) for k in ('timeout', 'pending', 'unsupported_msgs', 'step_limit', 'unknown') if d.get(k)})]
    bad += ['%s %s %s' % (v['kind'], v['msg'], v['where']) for v in d['violations']]
    for w in d['witnesses']:
        oc, so, e = check.native_run(nat, n, [3], w['inputs'], wd); got = [tuple(l.split(' ')[1:]) for l in so.split('\n') if l.startswith('OBS ')]; want = [(x[0], str(x[1])) for x in w['obs']]
        if oc != 'ok' or got != want: bad.append('differs: %s native %s encoding %s %s' % (oc, got[:5], want[:5], e[-200:]))
    return n, ' | '.join(bad)[:300]
with ThreadPoolExecutor(6) as ex:
    r = list(ex.map(one, names))
for n, b in r:
    if b: print(n, b)
print('%d of %d as in the real library' % (sum(1 for n, b in r if not b), len(r)))
import shutil; shutil.rmtree(wd)
