"""Check runner: hv/run.py <property> [--task name] [-v]"""
import sys, os, time, json, importlib.util, multiprocessing as mp, multiprocessing.pool, re, traceback, subprocess, shutil, tempfile, signal
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
import z3
from hv import ir, spec as S
from hv.prove import Prover
from hv.exec import Budget
from hv.sym import *

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()

class PropCtx:
    """per-task context shared by the V objects of a task"""
    def __init__(self, budget):
        self.prover = Prover(timeout_ms=20000 if TIER == 'quick' else 60000, cvc5_s=30 if TIER == 'quick' else 120)
        self.under_contract = set()
        self.vacuous = []
        self.covers = []
        self.deadline = time.time() + budget
        self.vs = []
        self.bounded = None
        self.bounded_notes = []
    def deadline_fn(self):
        return self.deadline

def load_spec(pid):
    sp = importlib.util.spec_from_file_location('spec_' + pid, os.path.join(VERIF, 'specs', pid + '.py'))
    m = importlib.util.module_from_spec(sp)
    sys.path.insert(0, os.path.join(VERIF, 'specs'))
    sp.loader.exec_module(m)
    return m

def modelvals(ex, model):
    out = {}
    if model is None:
        return out
    for n, e in ex.inputs:
        try:
            v = model.eval(e, model_completion=True)
            if z3.is_bv_value(v):
                out[n] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                out[n] = 1 if z3.is_true(v) else 0
        except Exception:
            pass
    return out

def run_task(args):
    mod, tname, budget, bounded, mods = args
    res = {'task': tname, 'obls': [], 'failed': [], 'undecided': [], 'under': [], 'inlined': [], 'contracts': [], 'models': [], 'vacuous': [], 'covers': [], 'exits': 0, 'err': None}
    P = PropCtx(budget)
    P.bounded = bounded
    t0 = time.time()
    try:
        fn = dict(mod.TASKS)[tname]
        def mk(name, units=None):
            v = S.V(P, name, [mods[u] for u in (units or mod.UNITS)])
            v.ex.bounded_unroll = bounded
            P.vs.append(v)
            return v
        fn(mk)
    except Budget as e:
        res['err'] = 'budget: %s' % e
    except S.MissingFunction as e:
        res['err'] = 'function not found: %s' % e
    except Exception as e:
        tb = traceback.format_exc()
        res['err'] = 'verifier: %s\n%s' % (tb.strip().split('\n')[-1], tb[-1500:])
    for v in P.vs:
        for o in v.ex.obls:
            if o.status == 'proved':
                res['obls'].append((o.name, o.kind, o.where, 'proved', o.backend))
            else:
                m = o.model
                if o.status == 'failed' and o.st is not None:
                    # prefer a model of the whole path
                    m = P.prover.model(o.st.pc, NOT(o.cond) if o.cond is not None else None) or o.model
                res['obls'].append((o.name, o.kind, o.where, o.status, None))
                res['failed'].append({'name': o.name, 'kind': o.kind, 'where': o.where, 'status': o.status, 'abstract': o.abstract, 'function': v.name,
                                      'witness': modelvals(v.ex, m), 'model': str(m)[:4000] if m is not None else ''})
        res['undecided'] += [(v.name,) + u for u in v.ex.undecided]
        res['exits'] += v.exits
        res['inlined'] += [ir.demangle(n[1:]) for n in v.ex.visited]
        res['contracts'] += [ir.demangle(n[1:]) for n in v.ex.used_contracts]
        res['models'] += list(v.ex.used_models)
        if v.ex.unwound:
            res.setdefault('unwound', []).extend(v.ex.unwound)
    res['under'] = sorted(P.under_contract)
    res['vacuous'] = P.vacuous
    res['covers'] = P.covers
    res['stats'] = P.prover.stats
    res['wall'] = time.time() - t0
    return res

def build_native(pid, mod, work, log):
    """compile the replay harness against /repo's current sources"""
    h = getattr(mod, 'REPLAY', None)
    if not h:
        return None
    out = os.path.join(work, 'replay_' + pid)
    repo = ir.REPO
    flags = ['-std=c++11', '-g', '-O1', '-fno-access-control', '-I' + repo + '/include', '-I' + repo + '/_build', '-I' + repo, '-I' + repo + '/tools', '-I' + repo + '/src',
             '-I' + os.path.join(VERIF, 'replay'), '-w'] + h.get('flags', ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'])
    import glob
    rs = []
    for x in h.get('repo_srcs', ['src/*.cc']):
        rs += sorted(glob.glob(os.path.join(repo, x)))
    srcs = [os.path.join(VERIF, 'replay', x) for x in [h['src']] + h.get('more', [])] + rs
    procs = []
    objs = []
    for s in srcs:
        o = os.path.join(work, 'n_' + os.path.basename(s).replace('.', '_') + '.o')
        objs.append(o)
        procs.append((s, subprocess.Popen(['g++'] + ([f for f in flags if f != '-fno-access-control'] if s.startswith(repo) else flags) + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    ok = True
    for s, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            ok = False
            log.append('native build of %s failed: %s' % (s, o[-800:]))
    if not ok:
        return None
    r = subprocess.run(['g++'] + flags + objs + ['-o', out, '-lpthread', '-ldl', '-lrt'] + h.get('libs', []), capture_output=True, text=True)
    if r.returncode:
        log.append('native link failed: ' + r.stderr[-800:])
        return None
    return out

def run_native(exe, args, timeout, work):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1'
    env['TMPDIR'] = work
    p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=work, env=env, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
        hung = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
        out, _ = p.communicate()
        rc = -1
        hung = True
    return rc, out.decode('utf8', 'replace'), hung

def native_search(pid, mod, fails, work, log):
    """replay the verifier's witnesses on the real code, then look around them; -> (description, command, output) or None"""
    exe = build_native(pid, mod, work, log)
    if not exe:
        return None
    cases = []
    seen = set()
    for f in fails:
        if f.get('witness'):
            a = ['--witness'] + ['%s=%d' % kv for kv in sorted(f['witness'].items())][:60]
            if tuple(a) not in seen:
                seen.add(tuple(a))
                cases.append(a)
    cases = cases[:12] + [['--search', str(SEED)]]
    for a in cases:
        tmo = mod.REPLAY.get('timeout', 120)
        rc, out, hung = run_native(exe, a, tmo, work)
        bad = rc == 1 or rc == 99 or rc in (-6, -11, -8, -4, 134, 139) or (hung and mod.REPLAY.get('hang_is_failure', True)) or 'runtime error' in out
        log.append('native %s -> rc %s%s' % (' '.join(a)[:200], rc, ' (hung)' if hung else ''))
        if bad:
            return ('hang' if hung else 'rc=%d' % rc, 'replay_%s %s' % (pid, ' '.join(a)), out[-6000:])
    return None

def main():
    pid = sys.argv[1]
    verbose = '-v' in sys.argv
    only = sys.argv[sys.argv.index('--task') + 1] if '--task' in sys.argv else None
    work = tempfile.mkdtemp(prefix='hv_%s_' % pid)
    try:
        rc = check(pid, work, verbose, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) obligation=/(.*?)/ (.*)', l)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out

def check(pid, work, verbose, only):
    mod = load_spec(pid)
    log = []
    mods = {}
    total = 480 if TIER == 'quick' else 3000
    with mp.pool.ThreadPool(8) as tp:
        def comp(u):
            src, kw = mod.UNITS[u] if isinstance(mod.UNITS[u], tuple) else (mod.UNITS[u], {})
            src = src.replace('$REPO', ir.REPO).replace('$VERIF', VERIF)
            try:
                return u, ir.compile_tu(src, os.path.join(work, 'ir_' + u), **kw)
            except ir.CompileError as e:
                return u, e
        for u, m in tp.map(comp, list(mod.UNITS)):
            mods[u] = m
    bad = {u: m for u, m in mods.items() if isinstance(m, Exception)}
    names = [n for n, _ in mod.TASKS if only is None or n == only]
    if TIER == 'quick':
        names = [n for n in names if n not in getattr(mod, 'THOROUGH_ONLY', ())]
    results = []
    if bad:
        for u, e in bad.items():
            log.append('compile error in unit %s: %s' % (u, str(e)[-500:]))
        results = [{'task': 'compile', 'obls': [], 'failed': [], 'undecided': [('compile', 'unit %s does not compile' % u, '') for u in bad], 'under': [], 'inlined': [], 'contracts': [],
                    'models': [], 'vacuous': [], 'covers': [], 'exits': 0, 'err': 'compile', 'stats': {}, 'wall': 0}]
    else:
        results = run_tasks(mod, names, mods, total, None)
    fails = [f for r in results for f in r['failed']]
    kf = known_findings(pid)
    known = []
    def is_known(f):
        for rx, txt in kf:
            if rx.search('%s: %s' % (f['function'], f['name'])):
                if txt not in known:
                    known.append(txt)
                return True
        return False
    fails = [f for f in fails if not is_known(f)]
    undec = [u for r in results for u in r['undecided']] + [(r['task'], r['err'], '') for r in results if r['err']]
    vac = [v for r in results for v in r['vacuous']] + ['cover not reachable: ' + n for r in results for n, ok in r['covers'] if not ok]
    vac += ['task %s generated no obligation' % r['task'] for r in results if not r['err'] and not r['obls']]
    violation = None
    bounded = None
    if fails or undec or vac:
        hard = [f for f in fails if f['status'] == 'failed' and not f['abstract']]
        nat = native_search(pid, mod, fails, work, log)
        if nat:
            violation = (fails, nat)
        else:
            soft_tasks = set()
            if not hard or True:
                # obligations that failed only under a loop abstraction, or were not decided: bounded stand-in
                need = [r['task'] for r in results if any((f['abstract'] or f['status'] != 'failed') for f in r['failed']) or r['undecided'] or r['err'] or r['vacuous'] or any(not ok for _, ok in r['covers'])]
                if need and not bad and not hard:
                    left = max(60, total + 60 - (time.time() - T0))
                    b = run_tasks(mod, need, mods, min(left, 200), 3)
                    bounded = {'unroll': 3, 'tasks': need, 'obligations': sum(len(r['obls']) for r in b), 'failed': sum(len(r['failed']) for r in b), 'undecided': sum(len(r['undecided']) for r in b)}
                    hard = [f for r in b for f in r['failed'] if f['status'] == 'failed' and not f['abstract']]
            if hard:
                violation = (hard, None)
    # ---- report
    wall = time.time() - T0
    stats = {}
    for r in results:
        for k, x in (r.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + x
    nobl = sum(len(r['obls']) for r in results)
    ndis = sum(1 for r in results for o in r['obls'] if o[3] == 'proved')
    kinds = {}
    for r in results:
        for o in r['obls']:
            kinds[o[1]] = kinds.get(o[1], 0) + 1
    under = sorted(set(x for r in results for x in r['under']))
    inl = sorted(set(x for r in results for x in r['inlined']) - set(under))
    trusted = list(getattr(mod, 'TRUSTED', []))
    libs = sorted(set(x for r in results for x in r['models']))
    assumed = sorted(set(x for r in results for x in r['contracts']))
    replay_path = None
    if violation:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        replay_path = os.path.join(d, pid + '.txt')
        with open(replay_path, 'w') as f:
            f.write('property %s\n' % pid)
            for x in violation[0][:20]:
                f.write('\nfailed obligation: %s\n  function: %s\n  kind: %s  status: %s\n  at: %s\n  witness: %s\n' % (x['name'], x['function'], x['kind'], x['status'], x['where'], json.dumps(x.get('witness', {}))))
                f.write('  verifier output (counterexample):\n    %s\n' % x.get('model', '').replace('\n', '\n    '))
            if violation[1]:
                f.write('\nreplayed against the real code: %s\ncommand: %s\noutput:\n%s\n' % violation[1])
            for u in undec[:20]:
                f.write('undecided: %s\n' % (u,))
            f.write('\n'.join(log) + '\n')
    ev = {
        'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'proof',
        'coverage': {
            'obligations': nobl, 'discharged': ndis,
            'obligations_by_kind': kinds,
            'discharged_by': {'z3': stats.get('z3', 0), 'cvc5': stats.get('cvc5', 0), 'simplifier (trivial after constant folding)': stats.get('simplifier', 0)},
            'solver_seconds': round(stats.get('solver_s', 0), 2), 'feasibility_queries': stats.get('feas_queries', 0), 'feasibility_seconds': round(stats.get('feas_s', 0), 2),
            'functions_under_contract': under,
            'functions_executed_in_place': inl,
            'contracts_assumed_at_calls': assumed,
            'library_contracts_assumed': libs,
            'paths_verified': sum(r['exits'] for r in results),
            'reachability_covers': {'total': sum(len(r['covers']) for r in results), 'reached': sum(1 for r in results for _, ok in r['covers'] if ok)},
            'vacuity_alarms': vac,
            'undecided': ['%s: %s' % (u[0], u[1]) for u in undec][:40],
            'failed_obligations': ['%s: %s [%s]%s' % (f['function'], f['name'], f['where'], ' (under loop abstraction)' if f['abstract'] else '') for f in fails][:40],
            'known_findings': known,
            'bounded_stand_ins': (list(getattr(mod, 'BOUNDED', [])) + ([bounded] if bounded else [])),
            'checker_cmd': 'python3-vt /verif/hv/run.py ' + pid,
            'trusted_base': ['clang 18 front end and sroa (C++ to LLVM IR)', 'hv symbolic executor and contract checker (/verif/hv)', 'z3', 'cvc5'] + trusted,
            'tasks': [{'task': r['task'], 'obligations': len(r['obls']), 'paths': r['exits'], 'wall_s': round(r['wall'], 2), 'error': r['err']} for r in results],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(violation[0]) or 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if only is None and ir.REPO == '/repo':
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if verbose:
        for r in results:
            print('task %-40s obl %5d paths %4d wall %6.1fs %s' % (r['task'], len(r['obls']), r['exits'], r['wall'], (r['err'] or '').strip()[-500:]))
    for f in fails[:20 if not verbose else 400]:
        print('FAILED obligation: %s: %s [%s] %s%s %s' % (f['function'], f['name'], f['where'], f['status'], ' (under loop abstraction)' if f['abstract'] else '', json.dumps(f['witness'])[:500] if verbose else ''))
    for u in undec[:20]:
        print('UNDECIDED: %s' % (str(u)[-500:] if verbose else str(u)[:300]))
    for v in vac[:20]:
        print('VACUITY: ' + v)
    if verbose:
        print('\n'.join(log))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s: %d obligations, %d discharged (z3 %d, cvc5 %d, trivial %d), %d functions under contract, %.1fs' % (pid, nobl, ndis, stats.get('z3', 0), stats.get('cvc5', 0), stats.get('simplifier', 0), len(under), wall))
    if violation:
        print('VIOLATION property=%s replay=%s%s' % (pid, replay_path, '' if violation[1] else ' no-failing-input-found'))
        return 1
    if bounded:
        print('NOTE: some obligations were not discharged by proof on this tree; bounded stand-in (unroll 3) and native search found no violation')
    return 0

def run_tasks(mod, names, mods, total, bounded):
    budget = total
    q = mp.get_context('fork')
    out = {}
    jobs = list(names)
    running = {}
    results = []
    import queue
    NPROC = int(os.environ.get('HV_PROCS', '8'))
    def child(conn, n):
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        except Exception:
            pass
        try:
            r = run_task((mod, n, budget, bounded, mods))
        except BaseException as e:
            r = {'task': n, 'obls': [], 'failed': [], 'undecided': [], 'under': [], 'inlined': [], 'contracts': [], 'models': [], 'vacuous': [], 'covers': [], 'exits': 0,
                 'err': 'crash: ' + repr(e)[:500], 'stats': {}, 'wall': 0}
        conn.send(r)
        conn.close()
        os._exit(0)
    t0 = time.time()
    while jobs or running:
        while jobs and len(running) < NPROC:
            n = jobs.pop(0)
            a, b = q.Pipe(False)
            p = q.Process(target=child, args=(b, n))
            p.start()
            b.close()
            running[n] = (p, a)
        for n in list(running):
            p, a = running[n]
            if a.poll(0.02):
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append({'task': n, 'obls': [], 'failed': [], 'undecided': [], 'under': [], 'inlined': [], 'contracts': [], 'models': [], 'vacuous': [], 'covers': [], 'exits': 0,
                                    'err': 'verifier process died', 'stats': {}, 'wall': 0})
                p.join()
                del running[n]
            elif time.time() - t0 > total + 30:
                p.kill()
                results.append({'task': n, 'obls': [], 'failed': [], 'undecided': [], 'under': [], 'inlined': [], 'contracts': [], 'models': [], 'vacuous': [], 'covers': [], 'exits': 0,
                                'err': 'time limit', 'stats': {}, 'wall': total})
                p.join()
                del running[n]
    order = {n: i for i, n in enumerate(names)}
    results.sort(key=lambda r: order.get(r['task'], 999))
    return results

if __name__ == '__main__':
    main()
