#!/usr/bin/env python3
"""Driver of the solver-based checks.

  check.py ID [quick|thorough]        decide property ID on /repo's working tree
  check.py --replay FILE              run a recorded counterexample against the real code
  check.py --setup                    build the engine

Every run compiles /repo's current sources to LLVM IR, executes the harnesses of the property symbolically on it
(engine/), and asks the solver about every assertion.  Counterexamples are replayed natively before they are reported.
"""
import sys, os, re, json, time, hashlib, subprocess, tempfile, shutil, glob, threading, signal
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
EVD = os.environ.get('SX_EVDIR') or HERE + '/evidence'
REPO = os.environ.get('SX_REPO', '/repo')
NCPU = os.cpu_count() or 8
sys.path.insert(0, HERE)

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, **kw)

# ---- engine -------------------------------------------------------------------------------------
def engine():
    src = sorted(glob.glob(HERE + '/engine/*'))
    h = hashlib.sha256()
    for f in src: h.update(os.path.basename(f).encode()); h.update(open(f, 'rb').read())
    key = h.hexdigest()[:16]
    for base in (HERE + '/.build', os.path.join(tempfile.gettempdir(), 'sx-engine')):
        d = f'{base}/engine-{key}'
        if os.path.exists(d + '/sx'): return d + '/sx'
        try: os.makedirs(d, exist_ok=True)
        except OSError: continue
        r = sh([HERE + '/engine/build.sh', d])
        if r.returncode == 0 and os.path.exists(d + '/sx'): return d + '/sx'
        sys.stderr.write(r.stderr)
    print('ERROR: the engine does not build'); sys.exit(2)

# ---- compilation of the code under test ----------------------------------------------------------
CXX = ['clang++-18', '-std=c++17', '-DNDEBUG', '-Wno-everything', f'-I{REPO}/lib/include', f'-I{REPO}/lib/src', f'-I{HERE}/harness', '-include', f'{HERE}/harness/nolog.hpp']
IR = ['-O1', '-Xclang', '-disable-llvm-passes', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-emit-llvm', '-c', '-gline-tables-only']
class BuildError(Exception): pass

class Build:
    def __init__(self, tmp): self.tmp = tmp; self.sx = engine(); self.libs = {}; self.nat = {}; self.lock = threading.Lock(); self.cc_s = 0.0
    def sources(self): return sorted(glob.glob(f'{REPO}/lib/src/*.cpp'))
    def run_all(self, cmds):
        t = time.time()
        with ThreadPoolExecutor(NCPU) as ex:
            for c, r in zip(cmds, ex.map(lambda c: sh(c), cmds)):
                if r.returncode: raise BuildError(' '.join(c) + '\n' + r.stderr[-3000:])
        self.cc_s += time.time() - t
    def link(self, specs):
        """specs: set of (harness, omp) -> dict to linked bitcode"""
        cmds, out = [], {}
        for omp in sorted({o for _, o in specs}):
            x = ['-fopenmp'] if omp else []
            for s in self.sources(): cmds.append(CXX + IR + x + [s, '-o', f'{self.tmp}/lib{omp}-{os.path.basename(s)}.bc'])
        cmds.append(CXX + IR + [f'{HERE}/engine/rt.cpp', '-o', f'{self.tmp}/rt.rbc'])
        for h, omp in sorted(specs): cmds.insert(0, CXX + IR + (['-fopenmp'] if omp else []) + [f'{HERE}/harness/{h}.cpp', '-o', f'{self.tmp}/{h}-{omp}.hb'])
        self.run_all(cmds)
        l = []
        for h, omp in sorted(specs):
            out[h, omp] = f'{self.tmp}/{h}-{omp}.lb'
            l.append([self.sx, 'link', out[h, omp], f'{self.tmp}/{h}-{omp}.hb', f'{self.tmp}/rt.rbc'] + [f'{self.tmp}/lib{omp}-{os.path.basename(s)}.bc' for s in self.sources()])
        self.run_all(l)
        return out
    def native(self, h, flavour):
        with self.lock:
            if (h, flavour) in self.nat: return self.nat[h, flavour]
            inc = CXX[1:]
            fl = {'plain': ['clang++-18', '-O1'], 'san': ['clang++-18', '-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,signed-integer-overflow,integer-divide-by-zero,bounds,shift,unreachable,return,vla-bound,float-cast-overflow', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
                  'tsan': ['clang++-18', '-O1', '-g', '-fsanitize=thread', '-fopenmp']}[flavour]
            d = f'{self.tmp}/nat-{flavour}'; os.makedirs(d, exist_ok=True)
            srcs = [s for s in self.sources()]
            cmds = [] if os.path.exists(d + '/done') else [fl + inc + ['-c', s, '-o', f'{d}/{os.path.basename(s)}.o'] for s in srcs + [HERE + '/harness/native.cpp'] + ([HERE + '/harness/omprt.cpp'] if flavour == 'tsan' else [])]
            cmds.insert(0, fl + inc + ['-c', f'{HERE}/harness/{h}.cpp', '-o', f'{d}/h-{h}.o'])
            self.run_all(cmds); open(d + '/done', 'w').close()
            exe = f'{d}/{h}'
            self.run_all([[x for x in fl if x != '-fopenmp'] + [f'{d}/h-{h}.o', f'{d}/native.cpp.o'] + ([f'{d}/omprt.cpp.o', '-pthread'] if flavour == 'tsan' else []) + [f'{d}/{os.path.basename(s)}.o' for s in srcs] + ['-o', exe]])
            self.nat[h, flavour] = exe
            return exe
    def replay(self, h, flavour, path, timeout=120):
        exe = self.native(h, flavour)
        try: r = sh([exe, path], timeout=timeout, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=1', OMP_WAIT_POLICY='passive'))
        except subprocess.TimeoutExpired: return 124, 'timeout'
        return r.returncode, r.stdout + r.stderr

def replay_text(prop, job, kind, ident, lines, note=''):
    t = [f'# property {prop}', f'# harness {job.h} omp {job.omp}', f'# kind {kind}', f'# id {ident}', f'# {note}']
    t += [f'param {k} {v}' for k, v in job.p.items()]
    return '\n'.join(t + lines) + '\n'

CRASH = lambda rc: rc not in (0, 10, 11, 12, 13, 124)
# ---- jobs -----------------------------------------------------------------------------------------
class Job:
    def __init__(self, h, omp=0, budget=None, engine=None, tier='quick', **p): self.h, self.omp, self.p, self.tier, self.budget, self.eng = h, omp, p, tier, budget, engine or {}
    def name(self): return self.h + ''.join(f' {k}={v}' for k, v in self.p.items())

def run_job(b, lb, job, out, budget, mem_gb):
    args = [b.sx, 'run', lb, out, f'budget={budget}'] + [f'{k}={v}' for k, v in {**job.eng, **job.p}.items()]
    t = time.time()
    pre = f'ulimit -s unlimited 2>/dev/null; ulimit -v {int(mem_gb * 1048576)}; exec "$@"'
    try: r = sh(['bash', '-c', pre, 'sx'] + args, timeout=budget + 60)
    except subprocess.TimeoutExpired: return job, None, 'time limit', time.time() - t
    if not os.path.exists(out): return job, None, f'engine exit {r.returncode}: {r.stderr[-300:]}', time.time() - t
    try: d = json.load(open(out))
    except ValueError as e: return job, None, f'engine output unreadable: {e}', time.time() - t
    d['stderr'] = r.stderr[-2000:]
    return job, d, None, time.time() - t

def known(prop):
    r = []
    try:
        for l in open(HERE + '/known-findings.txt'):
            m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)', l.strip())
            if m and m.group(1) == prop: r.append((re.compile(m.group(2)), m.group(3)))
    except OSError: pass
    return r

def check(prop, tier):
    global checks; import checks
    t0 = time.time(); spec = checks.CHECKS[prop]
    jobs = [j for j in spec['jobs'] if tier == 'thorough' or j.tier == 'quick']
    only = os.environ.get('SX_ONLY')
    if only: jobs = [j for j in jobs if re.search(only, j.name())]
    os.makedirs(EVD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='sxcheck-')
    try: return check_in(prop, tier, spec, jobs, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def check_in(prop, tier, spec, jobs, tmp, t0):
    b = Build(tmp)
    try: lbs = b.link({(j.h, j.omp) for j in jobs})
    except BuildError as e: print(f'ERROR: {prop}: {e}'); return 2
    wall = 240 if tier == 'quick' else 3600 # for the symbolic runs together
    tstop = time.time() + wall
    results, viol, notes, witnesses = [], [], [], []
    def one(i, j):
        left = tstop - time.time()
        if left < 5: return j, None, 'tier time limit', 0.0
        bud = min(left, j.budget or (120 if tier == 'quick' else 1800))
        return run_job(b, lbs[j.h, j.omp], j, f'{tmp}/out{i}.json', bud, 10)
    with ThreadPoolExecutor(NCPU) as ex:
        for f in as_completed([ex.submit(one, i, j) for i, j in enumerate(jobs)]):
            j, d, err, dt = f.result(); results.append((j, d, err, dt))
            if os.environ.get('SX_SLOW') and d: print(d['stderr'])
            if os.environ.get('SX_VERBOSE'): print(f'  {dt:7.1f}s {j.name()}: {err or d["fatal"] or ("viol" if d["violations"] else "") } inc={d and d["inconclusive"]} cuts={d and d["cuts"]} ', {k: v["n"] for k, v in d['covers'].items() if not v['n']} if d else '', flush=True)
    results.sort(key=lambda r: jobs.index(r[0]))
    # violations: replay against the real code
    kf = known(prop); nviol = 0; nknown = 0; seen = set(); tried = {}
    rdir = f'{EVD}/replays'; os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(f'{rdir}/{prop}-*'): os.remove(f)
    undecided = []; traces = 0; mismatches = []
    confirmed = []
    for j, d, err, dt in results:
        if d is None: undecided.append(f'{j.name()}: {err}'); continue
        if d['fatal']: undecided.append(f'{j.name()}: {d["fatal"]}')
        for k, n in d['inconclusive'].items(): undecided.append(f'{j.name()}: {k} x{n}')
        for a, v in d['asserts'].items():
            if v['unknown']: undecided.append(f'{j.name()}: assertion "{a}" undecided by the solver x{v["unknown"]}')
        for v in d['violations']:
            key = (v['kind'], v['id'], v['where'] if v['kind'] == 'crash' else '')
            if key in seen or tried.get(key, 0) >= 4: continue
            tried[key] = tried.get(key, 0) + 1
            path = f'{rdir}/{prop}-{len(tried)}-{tried[key]}.txt'
            open(path, 'w').write(replay_text(prop, j, v['kind'], v['id'], v['replay'], v['msg'] + ' @ ' + v['where']))
            ok, what = confirm(b, j, v, path)
            desc = f'{j.name()}: {v["kind"]} "{v["id"]}" {v["msg"]} at {v["where"]}'
            if not ok: undecided.append(f'{desc}: not reproduced natively ({what})'); continue
            seen.add(key)
            k = next((t for rx, t in kf if rx.search(desc)), None)
            if k: print(f'KNOWN-FINDING: property={prop} {k}'); nknown += 1; continue
            nviol += 1; confirmed.append(desc)
            print(f'VIOLATION property={prop} replay={path}\n  {desc}\n  native: {what}', flush=True)
    # reachability that the property demands: no assignment reaches it
    for j, d, err, dt in results:
        if d is None or d['fatal'] or d['inconclusive'] or d['violations']: continue
        for c, w in d['covers'].items():
            if not c.startswith('must: ') or w['n'] or ('reach', c) in seen: continue
            seen.add(('reach', c)); jp = Job(j.h, j.omp, **{**j.p, 'probe': 1})
            path = f'{rdir}/{prop}-reach{len(seen)}.txt'; open(path, 'w').write(replay_text(prop, jp, 'reach', c, [], 'no assignment reaches this'))
            desc = f'{j.name()}: no assignment reaches "{c[6:]}"'
            try: rc, out = b.replay(j.h, 'plain', path)
            except BuildError as e: rc, out = 0, str(e)
            if rc != 10: undecided.append(f'{desc}: not reproduced natively (exit {rc})'); continue
            nviol += 1; confirmed.append(desc); print(f'VIOLATION property={prop} replay={path}\n  {desc}', flush=True)
    # witnesses: reachability evidence, re-executed natively and compared value by value
    per = {}
    nW = 8 if tier == 'quick' else 40
    cand = []
    for j, d, err, dt in results:
        if d is None: continue
        for c, w in d['covers'].items():
            if w['n'] and w['full']: cand.append((j, c, w))
    step = max(1, len(cand) // nW); cand = cand[::step][:nW + 2]
    if spec.get('native', True):
        for i, (j, c, w) in enumerate(cand):
            path = f'{tmp}/w{i}.txt'; open(path, 'w').write(replay_text(prop, j, 'witness', c, w['replay']))
            try: rc, out = b.replay(j.h, 'plain', path)
            except BuildError as e: mismatches.append(str(e)[-300:]); break
            if rc == 0: traces += 1
            elif rc in (10, 14) or rc < 0:
                p2 = f'{rdir}/{prop}-w{i}.txt'; shutil.copy(path, p2)
                nviol += 1; confirmed.append(f'{j.name()}: witness fails natively'); print(f'VIOLATION property={prop} replay={p2}\n  {j.name()}: a solver-made witness for "{c}" fails in the real code: {out[-400:]}')
            else: mismatches.append(f'{j.name()} [{c}] rc={rc} {out[-200:]}')
    # evidence
    S = lambda k: sum(d['stats'][k] for _, d, _, _ in results if d)
    asserts = {}
    for _, d, _, _ in results:
        if d:
            for a, v in d['asserts'].items():
                x = asserts.setdefault(a, {'n': 0, 'proved': 0, 'failed': 0, 'unknown': 0})
                for k in x: x[k] += v[k]
    covers = {}
    for _, d, _, _ in results:
        if d:
            for c, w in d['covers'].items(): covers[c] = covers.get(c, 0) + w['n']
    cuts = {}
    for _, d, _, _ in results:
        if d:
            for c, n in d['cuts'].items(): cuts[c] = cuts.get(c, 0) + n
    fns = sorted({f for _, d, _, _ in results if d for f in d['functions']})
    decided = [j.name() for j, d, err, dt in results if d and not d['fatal'] and not d['inconclusive'] and not d['violations'] and all(v['unknown'] == 0 for v in d['asserts'].values())]
    samples = []
    for j, c, w in cand[:3]: samples.append({'run': j.name(), 'witness_for': c, 'values': w['replay'][:40]})
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': spec.get('level', 'model_checking'),
      'coverage': {
        'states': S('forks') + S('merges') + S('final_states'), 'transitions': S('instructions'), 'traces_validated_against_impl': traces, 'samples': samples,
        'explanation': spec['explain'], 'bounds': spec['bounds'], 'outside_the_claim': spec.get('outside', ''),
        'state_unit': 'symbolic states (forked, merged or final); a transition is one executed IR instruction',
        'runs': [{'run': j.name(), 'seconds': round(dt, 2), 'decided': j.name() in decided, 'asserts': {a: v['n'] for a, v in d['asserts'].items()} if d else {}} for j, d, err, dt in results],
        'runs_total': len(results), 'runs_decided': len(decided), 'assertions': asserts, 'assertion_instances': sum(v['n'] for v in asserts.values()), 'assertion_instances_proved': sum(v['proved'] for v in asserts.values()),
        'functions_encoded': fns, 'solver': {'name': 'z3 5.3.2 (bit-vectors + floating point)', 'queries': S('queries'), 'sat': S('sat'), 'unsat': S('unsat'), 'unknown': S('unknown'), 'answered_from_cache': S('cache_hits'), 'answered_by_known_model': S('model_hits'), 'seconds': round(S('solver_time'), 2)},
        'reachability_witnesses': covers, 'vacuous_witnesses': sorted(c for c, n in covers.items() if not n),
        'paths_cut_by_assumption': cuts, 'undecided': undecided, 'witness_mismatches': mismatches, 'over_approximated_maths_calls': S('math_overapprox'), 'generator_draw_stubs': S('rng_stubs'), 'known_findings': nknown, 'confirmed_violations': confirmed},
      'assumptions': spec.get('assumptions', []) + checks.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    json.dump(ev, open(f'{EVD}/{prop}.json', 'w'), indent=1)
    vac = ev['coverage']['vacuous_witnesses']
    for u in undecided[:20]: print('UNDECIDED', u)
    for m in mismatches[:5]: print('WITNESS-MISMATCH', m)
    if vac: print('UNREACHED', vac)
    print(f'{prop} {tier}: {len(decided)}/{len(results)} runs decided, {ev["coverage"]["assertion_instances_proved"]}/{ev["coverage"]["assertion_instances"]} assertion instances proved, {S("queries")} queries, solver {S("solver_time"):.1f}s, {traces} witnesses re-executed natively, wall {ev["wall_s"]}s')
    if nviol: return 1
    if not decided and not nknown: print(f'ERROR: {prop}: nothing could be decided'); return 2
    return 0

def confirm(b, j, v, path):
    """does the recorded counterexample fail in the real code?"""
    order = ['plain', 'san'] if v['kind'] == 'assert' else ['san', 'plain']
    if v['id'] == 'race': order = ['tsan']
    last = ''
    for fl in order:
        try: rc, out = b.replay(j.h, fl, path)
        except BuildError as e: last = f'{fl}: native build failed {str(e)[-300:]}'; continue
        tail = ' | '.join(l for l in out.splitlines() if re.search(r'ASSERT-FAILED|ERROR|runtime error|TERMINATE|EXCEPTION|WARNING: Thread|DESYNC|RESULT|Assertion', l))[:400]
        last = f'{fl} exit {rc} {tail}'
        if rc == 10 or CRASH(rc) or (fl == 'tsan' and 'WARNING: ThreadSanitizer: data race' in out): return True, last
    return False, last

def replay_file(path):
    h, omp, kind, ident, p = None, 0, '', '', {}
    for l in open(path):
        m = re.match(r'# harness (\S+) omp (\d)', l)
        if m: h, omp = m.group(1), int(m.group(2))
        m = re.match(r'# kind (\S+)', l)
        if m: kind = m.group(1)
        m = re.match(r'# id (.*)', l)
        if m: ident = m.group(1)
    tmp = tempfile.mkdtemp(prefix='sxreplay-')
    try:
        b = Build(tmp)
        for fl in ('tsan',) if ident == 'race' else ('plain', 'san'):
            rc, out = b.replay(h, fl, path); print(f'--- {fl}: exit {rc}\n{out}')
    finally: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['--setup']: print(engine()); sys.exit(0)
    if a[:1] == ['--replay']: replay_file(a[1]); sys.exit(0)
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(check(a[0], tier))
