#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of the real code (see DESIGN.md).
usage: check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--keep]
Rebuilds engine, bitcode and native replay binary from the current trees, runs the property's jobs,
replays every counterexample natively, writes evidence/<id>.json.
exit 0: held on everything explored; exit 1 + VIOLATION line: reproduced violation."""
import sys, os, json, hashlib, subprocess, time, threading, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('PION_REPO', '/repo'); B = os.path.join(V, 'build')
CL = '/usr/lib/llvm-18/bin/clang++'; CC = '/usr/lib/llvm-18/bin/clang'; LINK = '/usr/bin/llvm-link-18'
sys.path.insert(0, V)
T0 = time.time()
COMMON = ['-w', '-DBOOST_DISABLE_PRAGMA_MESSAGE', '-DBOOST_NO_CXX11_EXPLICIT_CONVERSION_OPERATORS', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS', '-DDIRECTORY_MAX_SIZE=1000', '-DCHANGE_DIRECTORY=chdir', '-DGET_DIRECTORY=getcwd',
          '-include', 'boost/logic/tribool_io.hpp', '-DNDEBUG', '-I' + V + '/rt', '-I' + V + '/harness']
INC = ['-I' + V + '/shim/both', '-I' + REPO + '/include', '-I' + V + '/shim/conf', '-I' + REPO + '/services']
SYM = ['-std=c++11', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-gline-tables-only', '-emit-llvm', '-c', '-fno-pic', '-fno-pie', '-include', V + '/rt/pre.h', '-DPSE_SYM=1', '-DBOOST_LEXICAL_CAST_ASSUME_C_LOCALE'] + COMMON + ['-I' + V + '/shim/sym'] + INC
RT = ['-O1', '-emit-llvm', '-c', '-w', '-fno-pic', '-fno-pie', '-fno-builtin']
NAT = ['-std=c++11', '-O1', '-g1', '-c', '-fsanitize=address,bounds', '-fno-sanitize-recover=bounds', '-fno-omit-frame-pointer', '-DPSE_NATIVE=1'] + COMMON + INC
NATLIBS = ['-rdynamic', '-ldl', '-lpthread', '-lz', '-lcrypto', '-lboost_filesystem', '-lboost_system']
REPLAY_ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=64:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0')

class BuildError(Exception): pass
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **k)
_h = {}
def tree_hash(*roots):
    if roots in _h: return _h[roots]
    h = hashlib.sha256()
    for r in roots:
        fs = [r] if os.path.isfile(r) else sorted(os.path.join(d, f) for d, _, ff in os.walk(r) for f in ff)
        for f in fs:
            h.update(f.encode()); h.update(open(f, 'rb').read())
    _h[roots] = h.hexdigest(); return _h[roots]
def cached(key, ext, cmd_fn):
    os.makedirs(B + '/cache', exist_ok=True); out = '%s/cache/%s.%s' % (B, hashlib.sha256(key.encode()).hexdigest()[:32], ext)
    if not os.path.exists(out):
        tmp = out + '.%d.%d.tmp' % (os.getpid(), threading.get_ident()); r = sh(cmd_fn(tmp))
        if r.returncode: raise BuildError(' '.join(cmd_fn('OUT')) + '\n' + r.stderr.decode(errors='replace')[:6000])
        os.rename(tmp, out)
    return out
def hdrs(): return tree_hash(REPO + '/include', V + '/shim', V + '/rt/sys.inc', V + '/rt/pse.h', V + '/rt/pre.h') + tree_hash(*sorted(glob.glob(REPO + '/services/*.hpp')), REPO + '/src/process.cpp') + tree_hash(*sorted(glob.glob(V + '/harness/*.h')))
def obj(src, flags, ext, extra=()):
    fl = list(flags) + list(extra); return cached(tree_hash(src) + hdrs() + ' '.join(fl), ext, lambda o: [CL] + fl + [src, '-o', o])
def rtobj(src):
    if src.endswith('.c'): return cached(tree_hash(src, V + '/rt/sys.inc'), 'bc', lambda o: [CC] + RT + [src, '-o', o])
    return cached(tree_hash(src, V + '/rt/pre.h'), 'bc', lambda o: [CL] + RT + ['-std=c++11', '-include', V + '/rt/pre.h', '-D__NO_INLINE__', '-fno-access-control', src, '-o', o])
def engine():
    out = B + '/pse'; key = tree_hash(V + '/engine'); st = B + '/pse.key'
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == key: return out
    os.makedirs(B, exist_ok=True)
    import fcntl
    with open(B + '/engine.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.exists(st) and open(st).read() == key: return out
        r = sh(['make', '-j2', '-C', V + '/engine', 'OUT=' + B]);
        if r.returncode: raise BuildError(r.stderr.decode()[:4000])
        open(st, 'w').write(key)
    return out
def paths(srcs): return [s if s.startswith('/') else os.path.join(REPO, s) for s in srcs]

NM = '/usr/bin/llvm-nm-18'
def missing_syms(bc): return {l.split()[-1] for l in sh([NM, bc]).stdout.decode().split('\n') if ' U ' in l and '4pion' in l}
def build_sym(p, pool):
    """links the sources named; code that moved to another source file is found there"""
    bc = link_sym(p, pool); miss = missing_syms(bc)
    if not miss: return bc
    rest = [f for f in sorted(glob.glob(REPO + '/src/*.cpp')) if f not in paths(p['srcs'])]
    def tryobj(f):
        try: return f, obj(f, SYM, 'bc', p.get('flags', ()))
        except BuildError: return f, None
    defs = {f: {l.split()[-1] for l in sh([NM, o]).stdout.decode().split('\n') if len(l.split()) == 3 and l.split()[1] in 'TWDBRV'} for f, o in pool.map(tryobj, rest) if o}
    while miss:
        add = [f for f in rest if defs.get(f, set()) & miss]
        if not add: break
        p['srcs'] = list(p['srcs']) + add; rest = [f for f in rest if f not in add]; bc = link_sym(p, pool); miss = missing_syms(bc)
    return bc
def link_sym(p, pool):
    fs = [pool.submit(engine)] + [pool.submit(rtobj, V + '/rt/' + f) for f in ('rt.cpp', 'rt_ios.cpp', 'rtc.c')] + [pool.submit(obj, s, SYM, 'bc', p.get('flags', ())) for s in paths(p['srcs'])] + [pool.submit(obj, V + '/harness/' + p['harness'], SYM, 'bc', p.get('flags', ()))]
    fs += [pool.submit(obj, V + '/shim/symsrc/' + s, SYM, 'bc', p.get('flags', ())) for s in p.get('symsrc', ())]
    r = [f.result() for f in fs]
    return cached(' '.join(r[1:]), 'linked.bc', lambda o: [LINK] + r[1:] + ['-o', o])
def build_nat(p, pool, stand=False):
    """the real code as a native program; stand: with the stand-in libraries of the symbolic build"""
    fs = [pool.submit(obj, V + '/shim/symsrc/' + x, NAT, 'o', p.get('flags', ())) for x in (p.get('symsrc', ()) if stand else ())] + [pool.submit(obj, s, NAT, 'o', p.get('flags', ())) for s in paths(p['srcs'])] + [pool.submit(obj, V + '/harness/' + p['harness'], NAT, 'o', p.get('flags', ())), pool.submit(obj, V + '/rt/native.cpp', NAT, 'o')]
    fs += [pool.submit(obj, V + '/shim/natsrc/' + s, NAT, 'o', p.get('flags', ())) for s in p.get('natsrc', ())]
    r = [f.result() for f in fs]
    return cached(' '.join(r) + ' '.join(p.get('libs', ())), 'exe', lambda o: [CL, '-fsanitize=address,bounds', '-o', o] + r + NATLIBS + list(p.get('libs', ())))

TSAN = [x for x in NAT if not x.startswith(('-fsanitize', '-fno-sanitize'))]
def build_tsan(p, pool):
    """the native build once more, with ThreadSanitizer: reproduces data races"""
    fs = [pool.submit(obj, s, TSAN + ['-fsanitize=thread'], 'o', p.get('flags', ())) for s in paths(p['srcs'])] + [pool.submit(obj, V + '/harness/' + p['harness'], TSAN + ['-fsanitize=thread'], 'o', p.get('flags', ()))] + [pool.submit(obj, V + '/shim/symsrc/' + x, TSAN + ['-fsanitize=thread'], 'o', p.get('flags', ())) for x in p.get('symsrc', ())] + [pool.submit(obj, V + '/rt/native.cpp', TSAN + ['-DPSE_TSAN=1'], 'o')]
    r = [f.result() for f in fs]
    return cached(' '.join(r) + ' '.join(p.get('libs', ())) + 'tsan', 'exe', lambda o: [CL, '-fsanitize=thread', '-o', o] + r + NATLIBS + list(p.get('libs', ())))
def reproduce_race(exe, job, v, wd):
    fn = tempfile.mktemp(dir=wd, suffix='.in'); write_inputs(fn, v['inputs']); sites = [x.split(':')[1].split('<')[0] for x in v['trace'][:2] if ':' in x]
    try: r = subprocess.run([exe, job['entry'], fn] + [str(a) for a in job['args']], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, cwd=wd, env=dict(os.environ, TSAN_OPTIONS='exitcode=66:history_size=7:report_thread_leaks=0'))
    except subprocess.TimeoutExpired: return False, 'timeout', '', None
    e = r.stderr.decode(errors='replace')
    for b in e.split('=================='):
        if 'data race' in b and all(x in b for x in sites): return True, 'race', b[:2500], None
    return False, 'no race rc=%d' % r.returncode, r.stdout.decode(errors='replace')[-300:] + e[:1500], None

def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for i in inputs:
            if i[0].startswith('~'): continue
            f.write('%s %s\n' % (i[0], i[1]))
def native_run(exe, entry, args, inputs, wd, timeout=20, fill=None):
    fn = tempfile.mktemp(dir=wd, suffix='.in'); write_inputs(fn, inputs); env = dict(REPLAY_ENV)
    if fill is not None: env['ASAN_OPTIONS'] += ':max_malloc_fill_size=1048576:malloc_fill_byte=%d' % fill
    try: r = subprocess.run([exe, entry, fn] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=wd, env=env)
    except subprocess.TimeoutExpired: return 'timeout', '', ''
    o, e = r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')
    if r.returncode == 0: return 'ok', o, e
    if r.returncode == 77: return 'assert', o, e
    if r.returncode == 76: return 'exception', o, e
    if r.returncode == 78: return 'assume', o, e
    if r.returncode == 79: return 'diverged', o, e
    if r.returncode == 75: return 'deadlock', o, e
    if r.returncode in (99, 1) or r.returncode < 0 or 'AddressSanitizer' in e or 'runtime error' in e: return 'crash', o, e
    return 'rc%d' % r.returncode, o, e
BAD = {'assertion': ('assert',), 'memory': ('crash',), 'exception': ('exception', 'crash'), 'abort': ('crash',), 'nontermination': ('timeout', 'crash'), 'deadlock': ('deadlock', 'timeout'), 'lock': ('crash', 'deadlock', 'timeout', 'assert')}
def reproduce(exe, job, v, wd, tsan=None):
    """replays one counterexample; returns (bool, outcome, output)"""
    if v['kind'] == 'race': return reproduce_race(tsan, job, v, wd)
    uninit = any(i[0].startswith('~') for i in v['inputs']); fills = [None, 0, 255, 0x41, 0x80] if uninit or v['kind'] in ('memory', 'assertion') else [None]; last = ('', '', '')
    for f in fills:
        last = native_run(exe, job['entry'], job['args'], v['inputs'], wd, timeout=12, fill=f); 
        if last[0] in ('assert', 'crash', 'exception') or last[0] in BAD.get(v['kind'], ()): return True, last[0], last[1][-600:] + last[2][:1500], f
        if last[0] in ('diverged', 'assume') and not uninit: break
    return False, last[0], last[1][-600:] + last[2][:800], None

def setup():
    try:
        engine()
        for f in ('rt.cpp', 'rt_ios.cpp', 'rtc.c'): rtobj(V + '/rt/' + f)
    except BuildError as e: print('BUILD-ERROR', e); return 2
    return 0
def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--setup', action='store_true'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('--jobs', type=int, default=8); ap.add_argument('--verbose', action='store_true'); a = ap.parse_args()
    if a.setup: return setup()
    from props import PROPS
    p = PROPS[a.prop]; tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'; budget = p.get('budget', {}).get(tier, 240 if tier == 'quick' else 3600)
    jobs = []
    for j in p['jobs']:
        al = j.get(tier, j.get('quick'))
        if tier == 'thorough': al = list(j.get('quick', [])) + [x for x in j.get('thorough', []) if x not in j.get('quick', [])]
        for args in al: jobs.append(dict(entry=j['entry'], args=list(args), time=j.get('time', {}).get(tier, 60 if tier == 'quick' else 900) if isinstance(j.get('time', {}), dict) else j['time'], steps=j.get('steps', 3000000), opts=j.get('opts', []), weight=j.get('weight', 1)))
    if a.only: jobs = [j for j in jobs if j['entry'] == a.only]
    os.makedirs(B + '/replay', exist_ok=True); wd = tempfile.mkdtemp(prefix='pse-%s-' % a.prop)
    try: return run(a, p, tier, budget, jobs, wd)
    finally: shutil.rmtree(wd, ignore_errors=True)

def run(a, p, tier, budget, jobs, wd):
    bp = ThreadPoolExecutor(8)
    try:
        bc = build_sym(p, bp)
    except BuildError as e:
        print('BUILD-ERROR (symbolic)', e); return 2
    np_ = ThreadPoolExecutor(4); natf = ThreadPoolExecutor(1).submit(build_nat, p, np_)
    tb = time.time() - T0; deadline = T0 + budget
    def one(j):
        left = deadline - time.time()
        if left < 3: return dict(job=j, skipped=True)
        o = tempfile.mktemp(dir=wd, suffix='.json'); t = min(j['time'], left)
        cmd = [B + '/pse', bc, '--entry', j['entry'], '--out', o, '--time', '%d' % max(3, t), '--steps', str(j['steps']), '--witness', '3', '--repo', REPO + '/'] + j['opts']
        for x in j['args']: cmd += ['--arg', str(x)]
        try: r = sh(cmd, timeout=t + 60)
        except subprocess.TimeoutExpired: return dict(job=j, error='engine did not stop')
        if not os.path.exists(o): return dict(job=j, error='engine failed rc=%d %s' % (r.returncode, r.stderr.decode(errors='replace')[-400:]))
        d = json.load(open(o)); d['job'] = j; return d
    res = []; stop = False
    with ThreadPoolExecutor(a.jobs) as ex:
        fs = [ex.submit(one, j) for j in sorted(jobs, key=lambda j: -j['weight'])]
        for f in as_completed(fs): res.append(f.result())
    try: exe = natf.result()
    except BuildError as e:
        print('BUILD-ERROR (native replay)', e); return 2
    # --- counterexamples
    confirmed = []; unconfirmed = []; seen = set()
    tasks = []
    for d in res:
        for v in d.get('violations', []):
            k = (d['job']['entry'], v['kind'], v['msg'], v['where'])
            if sum(1 for t in tasks if t[0] == k) >= 4: continue
            tasks.append((k, d['job'], v))
    try: tsan = build_tsan(p, np_) if any(t[0][1] == 'race' for t in tasks) else None
    except BuildError as e:
        print('BUILD-ERROR (race replay)', e); return 2
    def replay(t):
        r = reproduce(exe, t[1], t[2], wd, tsan)
        return r + (exe,) if r[0] or not p.get('symsrc') or t[2]['kind'] == 'race' else reproduce(build_nat(p, np_, True), t[1], t[2], wd, tsan) + (build_nat(p, np_, True),)
    with ThreadPoolExecutor(8) as ex:
        for (k, j, v), (ok, outc, txt, fill, rexe) in zip(tasks, ex.map(replay, tasks)):
            v['exe'] = rexe; (confirmed if ok else unconfirmed).append((k, j, v, outc, txt, fill))
    # --- witnesses: the encoding's predicted observations against the real code
    wt = [(d['job'], w) for d in res for w in d.get('witnesses', [])]; okw = 0; mism = []
    wmax = 60 if tier == 'quick' else 400; wt = wt[::max(1, len(wt) // wmax)][:wmax]
    def wone(t):
        j, w = t; oc, o, e = native_run(exe, j['entry'], j['args'], w['inputs'], wd, timeout=20); got = [tuple(l.split(' ')[1:]) for l in o.split('\n') if l.startswith('OBS ')]
        want = [(x[0], str(x[1])) for x in w['obs']]
        return oc == 'ok' and len(got) == len(want) and all(g[0] == x[0] and x[1] in (g[1], '?') for g, x in zip(got, want)), oc, got, want, e
    with ThreadPoolExecutor(8) as ex:
        for (j, w), (ok, oc, got, want, e) in zip(wt, ex.map(wone, wt)):
            if ok: okw += 1
            else: mism.append(dict(entry=j['entry'], args=j['args'], outcome=oc, inputs=w['inputs'], native=got[:40], encoding=want[:40], err=e[:600]))
    # --- report
    from props import known_findings
    known = known_findings(a.prop); rc = 0; nrep = 0; kf = {}
    for k, j, v, outc, txt, fill in confirmed:
        m = next((f for f in known if f['status'] == 'known' and f.get('entry') == j['entry'] and f.get('kind', v['kind']) == v['kind'] and f.get('msg', v['msg']) == v['msg'] and f.get('args', j['args']) == j['args']), None)
        if m: kf[m['what']] = kf.get(m['what'], 0) + 1; continue
        if k in seen: continue
        seen.add(k); nrep += 1; rp = '%s/replay/%s-%d' % (B, a.prop, nrep); shutil.rmtree(rp, ignore_errors=True); os.makedirs(rp)
        write_inputs(rp + '/input.txt', v['inputs']); json.dump(dict(property=a.prop, entry=j['entry'], args=j['args'], kind=v['kind'], msg=v['msg'], where=v['where'], trace=v.get('trace'), inputs=v['inputs'], native_outcome=outc, native_output=txt, malloc_fill=fill), open(rp + '/violation.json', 'w'), indent=1)
        open(rp + '/replay.sh', 'w').write('#!/bin/sh\nASAN_OPTIONS=detect_leaks=0:max_allocation_size_mb=64%s exec %s %s %s/input.txt %s\n' % ('' if fill is None else ':max_malloc_fill_size=1048576:malloc_fill_byte=%d' % fill, tsan if v['kind'] == 'race' else v['exe'], j['entry'], rp, ' '.join(map(str, j['args']))))
        os.chmod(rp + '/replay.sh', 0o755)
        print('VIOLATION property=%s replay=%s' % (a.prop, rp)); print('  %s: %s at %s [%s %s] native: %s' % (v['kind'], v['msg'], v['where'], j['entry'], j['args'], outc)); rc = 1
    for w, n in sorted(kf.items()): print('KNOWN-FINDING: property=%s %s' % (a.prop, w))
    run_ = [d for d in res if 'complete' in d]; inc = [d for d in run_ if not d['complete']]; skipped = [d for d in res if d.get('skipped')]; err = [d for d in res if d.get('error')]
    fn = {}
    for d in run_:
        for n, f, c, t, h in d['functions']:
            x = fn.setdefault((n, f), [0, t, 0]); x[0] = max(x[0], c); x[2] += h
    reach = {}
    for d in run_:
        for k2, n in d['reach'].items(): reach[k2] = reach.get(k2, 0) + n
    vac = [d['job'] for d in run_ if d['complete'] and d['asserts'] == 0 and not d['violations']]
    missing = [r for r in p.get('must_reach', []) if not reach.get(r)]
    S = lambda k: sum(d[k] for d in run_)
    cov = dict(states=S('paths') + S('forks'), transitions=S('instructions'), traces_validated_against_impl=okw,
        samples=[dict(entry=d['job']['entry'], args=d['job']['args'], inputs=w['inputs'], observations=w['obs'][:20]) for d in run_ for w in d['witnesses'][:1]][:6],
        functions_encoded=[dict(function=n, file=f, blocks_covered=c, blocks=t) for (n, f), (c, t, h) in sorted(fn.items())], paths=S('paths'), jobs=len(jobs), jobs_complete=sum(1 for d in run_ if d['complete']),
        bounds=p['bounds'], assertions_checked=S('asserts'), assertion_queries=S('assert_queries'), memory_safety_checks=S('mem_checks'), solver_queries=S('queries'), queries_sat=S('sat'), queries_unsat=S('unsat'), queries_unknown=S('unknown'), solver_s=round(S('solver_s'), 3), engine_s=round(S('wall_s'), 2), build_s=round(tb, 2),
        per_job=[dict(entry=d['job']['entry'], args=d['job']['args'], complete=d['complete'], paths=d['paths'], queries=d['queries'], solver_s=round(d['solver_s'], 3), wall_s=round(d['wall_s'], 2)) for d in run_], reached=reach,
        incomplete=[dict(entry=d['job']['entry'], args=d['job']['args'], timeout=d['timeout'], pending=d['pending'], unsupported=d['unsupported_msgs'], step_limit=d['step_limit'], conc_limit=d['conc_limit'], unknown=d['unknown']) for d in inc] + [dict(entry=d['job']['entry'], args=d['job']['args'], reason='budget') for d in skipped] + [dict(entry=d['job']['entry'], args=d['job']['args'], reason=d['error']) for d in err],
        vacuous_jobs=vac, labels_not_reached=missing, witness_mismatches=mism[:10], counterexamples_not_reproduced=[dict(entry=j['entry'], args=j['args'], kind=v['kind'], msg=v['msg'], where=v['where'], outcome=o, inputs=v['inputs']) for k, j, v, o, t, f in unconfirmed][:20], known_findings=sorted(kf))
    ev = dict(property=a.prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='model_checking', coverage=cov, assumptions=p.get('assumptions', []) + COMMON_ASSUME, wall_s=round(time.time() - T0, 2), violations=nrep)
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open('%s/evidence/%s.json' % (V, a.prop), 'w'), indent=1)
    print('%s %s: %d jobs (%d complete), %d paths, %d assertions, %d queries, solver %.1fs, build %.1fs, wall %.1fs, witnesses %d/%d, violations %d, unreproduced %d%s%s' % (a.prop, tier, len(jobs), cov['jobs_complete'], cov['paths'], cov['assertions_checked'], cov['solver_queries'], cov['solver_s'], tb, time.time() - T0, okw, len(wt), nrep, len(unconfirmed), ', labels missing: %s' % missing if missing else '', ', vacuous: %s' % [(v['entry'], v['args']) for v in vac] if vac else ''))
    for d in inc + skipped + err: print('  incomplete: %s %s %s' % (d['job']['entry'], d['job']['args'], {k: d[k] for k in ('timeout', 'pending', 'unsupported_msgs', 'step_limit', 'conc_limit', 'unknown', 'skipped', 'error') if d.get(k)}))
    for k, j, v, o, t, f in unconfirmed[:6]: print('  unreproduced: %s %s %s %s -> %s %s' % (j['entry'], j['args'], v['kind'], v['msg'] + ' at ' + v['where'], o, v['inputs'] if a.verbose else ''))
    for m in mism[:5]: print('  witness mismatch: %s %s %s\n    native  %s\n    encoded %s\n %s' % (m['entry'], m['args'], m['outcome'], m['native'][:30], m['encoding'][:30], m['inputs'] if a.verbose else ''))
    return rc
COMMON_ASSUME = ['clang 18 -O1 LLVM IR of the current tree; engine and z3 4.8.12 trusted (counterexamples and sampled paths are replayed against a native ASan build)', 'C locale; allocations above 4 MB fail with bad_alloc, smaller ones succeed', 'Boost.Asio/Boost.Thread stand-ins (shim/both), std::unordered_map and Boost.Regex models (shim/sym) as described in DESIGN.md']
if __name__ == '__main__': sys.exit(main())
