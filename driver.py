#!/usr/bin/env python3
"""Runs the symbolic checks of one property against the current /repo tree.

  driver.py ID [--tier quick|thorough]      exit 0 held / 1 VIOLATION / 2 no answer
  driver.py --engine                        build the executor and its runtime only
  driver.py --replay ID JOB CFG FILE        re-run one counterexample natively
"""
import sys, os, json, subprocess, time, hashlib, shutil, threading, re, glob
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VP_REPO', '/repo')
B = os.path.join(V, 'build')
NCPU = int(os.environ.get('VP_JOBS', '8'))
CXX, CC = 'clang++-18', 'clang-18'
if not shutil.which(CXX): CXX, CC = 'clang++', 'clang'
COMMON = ['-std=gnu++17', '-w', '-include', f'{V}/rt/pre.h', '-include', 'filesystem', '-g1', f'-I{V}/rt', f'-I{V}/shim', f'-I{V}/harness']
BCFLAGS = ['-O1', '-DVP_BC=1', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize', '-fno-threadsafe-statics', '-gline-tables-only',
           '-fno-stack-protector', '-fno-pie', '-fno-unroll-loops', '-emit-llvm', '-c', '-Xclang', '-no-opaque-pointers'][:-2]
NATFLAGS = ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-exceptions', '-c']
NOTES = []

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

class NoAnswer(Exception): pass

def build_engine():
    src = [f'{V}/engine/{f}' for f in ('expr.h', 'expr.cc', 'symex.cc', 'build.sh')]
    rts = [f'{V}/rt/{f}' for f in ('vp.h', 'pre.h', 'rt_c.c', 'rt_cxx.cc')]
    out = f'{B}/engine'
    key = sha(src)
    stamp = f'{out}/stamp'
    if not (os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(f'{out}/symex')):
        os.makedirs(out, exist_ok=True)
        r = run(['bash', f'{V}/engine/build.sh', out])
        if r.returncode: raise NoAnswer('engine build failed:\n' + r.stderr[-3000:])
        open(stamp, 'w').write(key)
    key = sha(rts)
    stamp = f'{out}/rtstamp'
    if not (os.path.exists(stamp) and open(stamp).read() == key):
        a = run([CXX, '-std=gnu++17', '-w', '-include', f'{V}/rt/pre.h', f'-I{V}/rt'] + BCFLAGS + [f'{V}/rt/rt_cxx.cc', '-o', f'{out}/rt_cxx.bc'])
        b = run([CC, '-w', '-O1', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-emit-llvm', '-c', '-gline-tables-only', f'-I{V}/rt', f'{V}/rt/rt_c.c', '-o', f'{out}/rt_c.bc'])
        if a.returncode or b.returncode: raise NoAnswer('runtime build failed:\n' + a.stderr + b.stderr)
        open(stamp, 'w').write(key)

def link_tool():
    for t in ('llvm-link-18', '/usr/lib/llvm-18/bin/llvm-link', 'llvm-link'):
        if shutil.which(t) or os.path.exists(t): return t
    raise NoAnswer('llvm-link not found')

class Unit:
    """One linked program: a harness plus repository sources."""
    def __init__(self, harness, srcs, flags, natlibs):
        self.harness, self.srcs, self.flags, self.natlibs = harness, list(srcs), list(flags), list(natlibs)
        self.key = hashlib.sha256(repr((harness, self.srcs, self.flags)).encode()).hexdigest()[:10]
        self.name = os.path.splitext(os.path.basename(harness))[0] + '_' + self.key

def expand(flags, gen):
    return [f.replace('@REPO@', R).replace('@GEN@', gen).replace('@V@', V) for f in flags]

def build_unit(u, odir, pool):
    d = f'{odir}/{u.name}'
    os.makedirs(d, exist_ok=True)
    gen = f'{odir}/gen'
    files = [f'{V}/harness/{u.harness}'] + [s if s.startswith('/') else f'{V}/{s[1:]}' if s.startswith('@') else f'{R}/{s}' for s in u.srcs]
    inc = expand(u.flags, gen) + [f'-I{R}', f'-I{R}/util']
    def one(f, native):
        o = f'{d}/{hashlib.md5(f.encode()).hexdigest()[:6]}_{os.path.basename(f)}' + ('.o' if native else '.bc')
        c = f.endswith('.c')
        cmd = [CC if c else CXX] + [x for x in (COMMON if not c else [f'-I{V}/rt', '-w', '-g1'])] + ([] if f.endswith('/rt/native.cc') else inc) + (NATFLAGS if native else BCFLAGS) + [f, '-o', o]
        r = run(cmd)
        if r.returncode: raise NoAnswer(f'compiling {f} failed:\n' + r.stderr[-4000:])
        return o
    bcs = [pool.submit(one, f, False) for f in files]
    nat = [pool.submit(one, f, True) for f in files + [f'{V}/rt/native.cc']]
    def linkbc():
        objs = [b.result() for b in bcs]
        out = f'{d}/mod.bc'
        r = run([link_tool(), '-o', out] + objs + [f'--override={B}/engine/rt_cxx.bc', f'--override={B}/engine/rt_c.bc'])
        if r.returncode:
            r = run([link_tool(), '-o', out] + objs + [f'{B}/engine/rt_cxx.bc', f'{B}/engine/rt_c.bc'])
        if r.returncode: raise NoAnswer('llvm-link failed:\n' + r.stderr[-3000:])
        return out
    def linknat():
        objs = [b.result() for b in nat]
        out = f'{d}/replay'
        base = [CXX, '-fsanitize=address', '-rdynamic', '-Wl,--no-demangle', '-o', out] + objs + u.natlibs + ['-ldl', '-lpthread']
        r = run(base)
        if r.returncode:   # functions of units left out of the harness: calling one ends the replay
            und = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stderr)))
            if und: r = run(base + [f'-Wl,--defsym={x}=vp_unresolved' for x in und])
        if r.returncode: raise NoAnswer('native link failed:\n' + r.stderr[-3000:])
        return out
    return linkbc, linknat

def native(exe, f, entry, tier, cfg, env=None):
    e = dict(os.environ); e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=12:abort_on_error=0:handle_abort=0:allocator_may_return_null=0:detect_stack_use_after_return=1'
    if env: e['ASAN_OPTIONS'] += ':' + env
    try:
        return subprocess.run([exe, f, entry, tier, str(cfg)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=60, env=e)
    except subprocess.TimeoutExpired:
        class X: returncode = 14; stdout = ''; stderr = 'timeout'
        return X()

def native_failed(r):
    if r.returncode == 0 or r.returncode == 77: return None
    if r.returncode == 10: return [l for l in r.stdout.splitlines() if l.startswith('VP-ASSERT')][-1:] or ['assert']
    if r.returncode == 11: return [l for l in r.stdout.splitlines() if l.startswith('VP-FATAL')][-1:] or ['fatal']
    if r.returncode == 12: return [l for l in r.stderr.splitlines() if 'ERROR: AddressSanitizer' in l][:1] or ['asan']
    if r.returncode in (14, -14): return ['hang: no result within the replay time limit']
    if r.returncode in (98, 99): return None
    return [f'exit status {r.returncode}']

def main():
    import checks
    a = sys.argv[1:]
    if a and a[0] == '--engine':
        build_engine(); print('engine ok'); return 0
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    only = a[a.index('--job') + 1] if '--job' in a else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    trace = '--trace' in a
    t0 = time.time()
    P = checks.PROPS[pid]
    odir = f'{B}/{pid}'
    shutil.rmtree(odir, ignore_errors=True); os.makedirs(odir)
    budget = float(os.environ.get('VP_BUDGET', P.get('budget', {'quick': 240, 'thorough': 3000}[tier]) if tier == 'quick' else P.get('tbudget', 3000)))
    build_engine()
    pool = ThreadPoolExecutor(NCPU)
    if P.get('gen'):
        os.makedirs(f'{odir}/gen', exist_ok=True)
        for cmd in P['gen']:
            r = run(expand(cmd, f'{odir}/gen'))
            if r.returncode: raise NoAnswer('generator failed: ' + ' '.join(cmd) + r.stderr[-2000:])
    units, jobs = {}, []
    for j in P['jobs']:
        if only and j['name'] != only: continue
        u = Unit(j['harness'], j.get('srcs', []), j.get('flags', []), j.get('natlibs', []))
        units.setdefault(u.key, u)
        cf = j.get('cfgs', [0])
        if tier == 'thorough': cf = j.get('tcfgs', cf)
        for c in cf: jobs.append((j, u.key, c))
    builders = {k: build_unit(u, odir, pool) for k, u in units.items()}
    mods, exes = {}, {}
    for k, (lb, ln) in builders.items(): mods[k] = lb()
    tb = time.time() - t0
    left = max(20, budget - tb)
    total_w = sum(j.get('w', 1) for j, _, _ in jobs)
    def explore(j, uk, cfg):
        o = f'{odir}/run_{j["name"]}_{cfg}'
        os.makedirs(o, exist_ok=True)
        tl = j.get('time', {}).get(tier) if isinstance(j.get('time'), dict) else j.get('time')
        if not tl:
            tl = left * 0.9 if len(jobs) <= NCPU else max(15, left * 0.9 * NCPU * j.get('w', 1) / total_w)
        tl = min(tl, max(5, t0 + budget - time.time()))
        cmd = [f'{B}/engine/symex', mods[uk], f'--entry={j["entry"]}', f'--cfg={cfg}', f'--tier={tier}', f'--time={tl:.0f}', f'--mem={j.get("mem", 3300)}', f'--out={o}'] + j.get('opts', []) + (['--trace=1'] if trace else [])
        t = time.time()
        r = run(cmd) if not trace else subprocess.run(cmd, stdout=subprocess.PIPE, text=True)
        return j, uk, cfg, o, r, time.time() - t
    results = []
    ipool = ThreadPoolExecutor(NCPU)
    futs = [ipool.submit(explore, *x) for x in sorted(jobs, key=lambda x: -x[0].get('w', 1))]
    natf = {k: ipool.submit(ln) for k, (lb, ln) in builders.items()}
    for f in as_completed(futs): results.append(f.result())
    for k in natf: exes[k] = natf[k].result()
    results.sort(key=lambda r: (r[0]['name'], r[2]))
    tot = {}; funcs = set(); reach, must = {}, {}
    confirmed, unconfirmed, mism, validated, samples, jobrep, unsup = [], [], [], 0, [], [], set()
    broken = []
    replays = []
    for j, uk, cfg, o, r, el in results:
        sp = f'{o}/stats.json'
        if not os.path.exists(sp) or r.returncode:
            broken.append(f'{j["name"]}/{cfg}: executor ended with {r.returncode}: ' + (r.stderr or '')[-1500:]); continue
        st = json.load(open(sp))
        for k, v in st.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool): tot[k] = tot.get(k, 0) + v
        funcs.update(st['functions']); unsup.update(st['unsupported'])
        for k, v in st['reach'].items(): reach[(j['name'], k)] = reach.get((j['name'], k), 0) + v
        for k in st['must_reach']: must.setdefault((j['name'], k), True); must[(j['name'], k)] = must[(j['name'], k)] and st['complete']
        jobrep.append({'job': j['name'], 'cfg': cfg, 'complete': st['complete'], 'paths': st['paths'], 'queries': st['queries'], 'solver_s': st['solver_s'], 'wall_s': st['wall_s'], 'unexplored': st['unexplored_states']})
        exe = exes[uk]
        for line in open(f'{o}/errors.jsonl'):
            replays.append(('err', j, uk, cfg, json.loads(line)))
        if not j.get('nowit'):
            for i, line in enumerate(open(f'{o}/witness.jsonl')):
                if i >= 24: break
                replays.append(('wit', j, uk, cfg, json.loads(line)))
    def rep(x):
        kind, j, uk, cfg, d = x
        exe = exes[uk]
        if kind == 'err':
            fills = [None] + (['max_malloc_fill_size=1073741824:malloc_fill_byte=255', 'max_malloc_fill_size=1073741824:malloc_fill_byte=0', 'max_malloc_fill_size=1073741824:malloc_fill_byte=1'] if d['uninit'] else [])
            for e in fills:
                f = native_failed(native(exe, d['file'], j['entry'], tier, cfg, e))
                if f: return x, f[0]
            return x, None
        r = native(exe, d['file'], j['entry'], tier, cfg)
        obs = [tuple(l.split()[1:3]) for l in r.stdout.splitlines() if l.startswith('VP-OBS ')]
        want = [(t, str(v)) for t, v in d['obs']]
        end = [l.split()[1] for l in r.stdout.splitlines() if l.startswith('VP-END')]
        return x, (r.returncode == 0 and obs == want and end == [d['end']], r.returncode, end, [(a, b) for a, b in zip(obs, want) if a != b][:3])
    known = load_known(pid)
    knownhit = set()
    vdir = f'{V}/out'
    for x, res in ipool.map(rep, replays):
        kind, j, uk, cfg, d = x
        if kind == 'err':
            if not res: unconfirmed.append(f'{j["name"]}/{cfg}: {d["kind"]}: {d["msg"]} [{d["inputs"]}]'); continue
            k = match_known(known, j, d)
            if k is not None: knownhit.add(k); continue
            os.makedirs(vdir, exist_ok=True)
            n = len(confirmed)
            path = f'{vdir}/{pid}_{n}.bin'
            shutil.copy(d['file'], path)
            open(f'{vdir}/{pid}_{n}.txt', 'w').write(
                f'property {pid}\njob {j["name"]} cfg {cfg} tier {tier}\n{d["kind"]}: {d["msg"]}\nconfirmed natively: {res}\ninputs:{d["inputs"]}\nsymbolic backtrace:\n{d["bt"]}\n'
                f're-run: python3 /verif/driver.py --replay {pid} {j["name"]} {cfg} {path}\n')
            confirmed.append((path, j, cfg, d, res))
        else:
            ok, rc, end, diff = res
            if ok:
                validated += 1
                if len(samples) < 3: samples.append({'job': j['name'], 'cfg': cfg, 'input_hex': open(d['file'], 'rb').read()[:64].hex(), 'observed': d['obs'][:8], 'end': d['end']})
            else: mism.append(f'{j["name"]}/{cfg} {os.path.basename(d["file"])}: rc={rc} end={end} want={d["end"]} diff={diff}')
    if not samples: samples = [{'jobs': jobrep[:3]}]
    repo_funcs = sorted({f.split('|', 1)[1] for f in funcs if f.split('|')[0].startswith(os.path.realpath(R) + '/') or f.split('|')[0].startswith(R + '/')})
    complete = all(x['complete'] for x in jobrep) and not broken
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': int(tot.get('paths', 0) + tot.get('assume_killed', 0)), 'transitions': int(tot.get('instructions', 0)), 'traces_validated_against_impl': validated, 'samples': samples,
                       'complete_within_bounds': complete, 'bounds': P.get('bounds', ''), 'outside_bounds': P.get('outside', ''),
                       'queries': int(tot.get('queries', 0)), 'queries_sat': int(tot.get('sat', 0)), 'queries_unsat': int(tot.get('unsat', 0)), 'queries_unknown': int(tot.get('unknown', 0)), 'queries_decided_as_linear_integer_arithmetic_by_z3': int(tot.get('integer_queries', 0)), 'queries_decided_by_difference_logic': int(tot.get('order_queries', 0)), 'difference_logic_answers_crosschecked_with_z3': int(tot.get('order_crosschecked', 0)), 'queries_decided_by_z3': int(tot.get('queries', 0) - tot.get('order_queries', 0)),
                       'query_cache_hits': int(tot.get('cache_hits', 0)), 'solver_s': round(tot.get('solver_s', 0), 2), 'symbolic_branches': int(tot.get('symbolic_branches', 0)),
                       'assertions_evaluated': int(tot.get('asserts', 0)), 'assertions_decided_by_solver': int(tot.get('asserts_symbolic', 0)),
                       'paths_ended_ok': int(tot.get('ok_paths', 0)), 'paths_unexplored': int(tot.get('unexplored_states', 0)), 'paths_unsupported': int(tot.get('unsupported_paths', 0)),
                       'unsupported': sorted(unsup), 'functions_encoded': repo_funcs, 'functions_encoded_count': len(repo_funcs), 'jobs': jobrep,
                       'vacuity_tags_reached': {f'{k[0]}:{k[1]}': v for k, v in sorted(reach.items())}, 'trace_mismatches': mism, 'unconfirmed_counterexamples': unconfirmed,
                       'known_findings_seen': sorted(knownhit)},
          'assumptions': P.get('assume', []) + ['sources compiled by clang 18 at -O1 for x86-64; the C/C++ library pieces listed in DESIGN.md (rt/, shim/) stand in for the originals'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed)}
    os.makedirs(f'{V}/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    print(f'{pid} tier={tier} paths={int(tot.get("paths", 0))} instrs={int(tot.get("instructions", 0))} queries={int(tot.get("queries", 0))} solver={tot.get("solver_s", 0):.1f}s complete={complete} functions={len(repo_funcs)} traces={validated} build={tb:.1f}s wall={time.time() - t0:.1f}s')
    for x in jobrep:
        if not x['complete'] or trace: print('  job', x)
    for u in sorted(unsup): print('  unsupported:', u)
    for m in mism[:6]: print('  TRACE-MISMATCH', m)
    if mism: print(f'  ({len(mism)} trace mismatches)')
    for m in unconfirmed: print('  UNCONFIRMED', m)
    for k in sorted(knownhit): print(f'KNOWN-FINDING: property={pid} {k}')
    rc = 0
    vac = [k for k in must if not reach.get(k) and must[k]]
    for k in vac: print(f'  VACUOUS: job {k[0]} never reached "{k[1]}"')
    for b in broken: print('  BROKEN', b)
    if confirmed:
        for path, j, cfg, d, res in confirmed:
            print(f'VIOLATION property={pid} replay={path}')
            print(f'   {j["name"]}/{cfg} {d["kind"]}: {d["msg"]} | native: {res} | inputs:{d["inputs"][:300]}')
        return 1
    if broken or vac or unconfirmed or not jobrep: return 2
    if os.environ.get('VP_STRICT') and (mism or unsup): return 2
    if not trace and not os.environ.get('VP_KEEP'): shutil.rmtree(odir, ignore_errors=True)
    return rc

def load_known(pid):
    p = f'{V}/known_findings.txt'
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('{'): continue
            d = json.loads(l)
            if d.get('property') == pid and d.get('status') == 'known': out.append(d)
    return out

def match_known(known, j, d):
    for k in known:
        if k['job'] == j['name'] and k['kind'] == d['kind'] and k['msg'] == d['msg']: return k['what']
    return None

def replay():
    import checks
    pid, jn, cfg, f = sys.argv[2:6]
    P = checks.PROPS[pid]
    j = [x for x in P['jobs'] if x['name'] == jn][0]
    odir = f'{B}/replay_{pid}'; os.makedirs(odir, exist_ok=True)
    build_engine()
    if P.get('gen'):
        os.makedirs(f'{odir}/gen', exist_ok=True)
        for cmd in P['gen']: run(expand(cmd, f'{odir}/gen'))
    u = Unit(j['harness'], j.get('srcs', []), j.get('flags', []), j.get('natlibs', []))
    _, ln = build_unit(u, odir, ThreadPoolExecutor(NCPU))
    r = native(ln(), f, j['entry'], os.environ.get('VERIF_TIER', 'quick'), cfg)
    print(r.stdout); print(r.stderr[-3000:]); print('exit', r.returncode)
    return 1 if native_failed(r) else 0

if __name__ == '__main__':
    sys.path.insert(0, V)
    try:
        rc = replay() if len(sys.argv) > 1 and sys.argv[1] == '--replay' else main()
    except NoAnswer as e:
        print('NO-ANSWER:', e); rc = 2
    sys.stdout.flush()
    os._exit(rc)
