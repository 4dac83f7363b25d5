#!/usr/bin/env python3-vt
"""check.py <PROPERTY> quick|thorough -- decide one property on /repo's current working tree.
1. extract: compile the harness that instantiates the functions under contract from /repo's headers to LLVM IR
2. verify: discharge every obligation of every unit (function under contract x build configuration) with z3
3. stand-ins: run the native drivers (real code, bounded) for glue that is not under contract, and to find a
   failing input when an obligation fails
Exit 0: every unit proved, or undecided by the verifier and no failing input found by the stand-ins (reported as such
in the evidence); exit 1 + VIOLATION otherwise."""
import sys, os, time, json, tempfile, subprocess, multiprocessing as mp, traceback, hashlib, shlex
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vcg')); sys.path.insert(0, HERE)
import build
from props import PROPS, TRUSTED

NCPU = min(8, os.cpu_count() or 4)

def unit_worker(spec, js, limit, out):
    r = dict(unit=spec['name'], config=spec['config'], status='error', obligations=0, discharged=0, failed=[], functions=[], contracts=[], models=[], loops={}, queries=0, solver_s=0.0, wall_s=0.0, error='')
    t0 = time.time()
    try:
        import importlib, resource
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
        from ir import Module
        from core import Unsupported, Budget
        import engine
        mod = Module(js)
        m = importlib.import_module(spec['module'])
        try:
            ex = engine.run_unit(m.UNITS[spec['unit']], mod, time.time() + limit)
            exs = ex if isinstance(ex, list) else [ex]
            r['obligations'] = sum(len(e.obls) for e in exs); r['discharged'] = sum(1 for e in exs for o in e.obls if o.ok)
            names = {}
            for e in exs:
                for o in e.obls:
                    k = o.name; names.setdefault(k, [0, 0]); names[k][0] += 1; names[k][1] += o.ok
            r['by_name'] = names
            bad = [o for e in exs for o in e.obls if not o.ok]
            for o in bad[:12]:
                md = ''
                if o.model is not None:
                    md = str(o.model)
                    if len(md) > 3000: md = md[:3000] + ' ...'
                r['failed'].append(dict(obligation=o.name, where=o.where, solver=o.status, model=md))
            r['functions'] = sorted(set().union(*[set(e.inlined) | {e.fn_name} for e in exs])); r['contracts'] = sorted(set().union(*[e.used_contracts for e in exs])); r['models'] = sorted(set().union(*[e.used_models for e in exs]))
            r['assumed'] = sorted(set().union(*[e.assumed for e in exs]))
            r['root'] = [e.fn_name for e in exs]
            r['loops'] = {k: v for e in exs for k, v in e.loops_cut.items()}
            r['queries'] = sum(e.sol.nq for e in exs); r['solver_s'] = round(sum(e.sol.t for e in exs), 2); r['paths'] = sum(e.npaths for e in exs)
            noterm = sorted(set(sum([e.noterm for e in exs], [])))
            r['no_measure'] = noterm
            if any(e.npaths == 0 for e in exs) or r['obligations'] == 0: r['status'] = 'vacuous'; r['error'] = 'no path reaches the postcondition'
            elif any(o.status in ('sat', 'no-measure') or (o.status == 'trivial') for o in bad): r['status'] = 'failed'
            elif bad: r['status'] = 'unknown'
            elif noterm and not getattr(m, 'TERM_OK', {}).get(spec['unit']): r['status'] = 'no-termination-proof'
            else: r['status'] = 'proved'
        except Budget as e: r['status'] = 'timeout'; r['error'] = str(e)
        except Unsupported as e: r['status'] = 'unsupported'; r['error'] = str(e)[:300]
        except KeyError as e: r['status'] = 'unsupported'; r['error'] = 'KeyError ' + str(e)[:300] + ' ' + traceback.format_exc()[-300:]
        except MemoryError as e: r['status'] = 'unsupported'; r['error'] = 'memory'
    except BaseException as e:
        r['error'] = traceback.format_exc()[-1500:]
    r['wall_s'] = round(time.time() - t0, 2)
    out.put((spec['id'], r))

def compile_native(d, var):
    """d: driver description; returns (exe or None, log)"""
    exe = os.path.join(build.work(), 'native', '%s.%s.%d' % (d['src'].replace('.cpp', ''), var[0], os.getpid()))
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    cmd = ['g++', '-std=' + d.get('std', 'c++17'), d.get('opt', '-O1'), '-w', '-I' + os.path.join(build.REPO, 'include'), '-I' + os.path.join(HERE, 'native'), os.path.join(HERE, 'native', d['src']), '-o', exe] + list(var[1])
    p = subprocess.run(cmd, capture_output=True, text=True)
    return (exe, '') if p.returncode == 0 else (None, p.stderr[-2000:])

def cpu_has(flag):
    try: return flag in open('/proc/cpuinfo').read()
    except Exception: return False

def run_native(job):
    d, var, exe, budget, seed = job
    t0 = time.time()
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=1')
    # output goes to files, not pipes: a pipe's write end would be inherited by prover workers forked meanwhile and keep the reader waiting for them
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        try:
            rc = subprocess.run([exe, str(budget), str(seed)] + list(d.get('args', [])), stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, timeout=budget * 4 + 150, env=env).returncode
        except subprocess.TimeoutExpired as e:
            rc = 124
        fo.seek(0); fe.seek(0); out = fo.read().decode('latin1'); err = fe.read().decode('latin1')
        if rc == 124: err = 'driver did not finish: code under test does not terminate'
    fl = [l for l in out.splitlines() if l.startswith('FAIL')]
    cases = 0
    for l in out.splitlines():
        if l.startswith('OK cases='): cases = int(l.split('=')[1].split()[0])
    known = [l for l in out.splitlines() if l.startswith('KNOWN ')]
    listed = [l.split(' ', 2)[2].strip() for l in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) if l.startswith('known: property=%s ' % d.get('pid', ''))]
    fl += ['FAIL ' + k[6:] for k in known if not any(k[6:].startswith(x.split(' ')[0]) for x in listed)]
    ok = rc == 0 and not fl
    return dict(driver=d['src'], variant=var[0], ok=ok, rc=rc, cases=cases, budget_s=budget, seed=seed, wall_s=round(time.time() - t0, 1), fail=(fl[0] if fl else ('' if ok else 'exit %d %s' % (rc, err[-1500:]))), known=known, cmd=[exe] + [str(budget), str(seed)])

def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    t0 = time.time()
    thorough = tier == 'thorough'
    total = 3000 if thorough else 600
    limit = 2400 if thorough else 520
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay_dir = os.path.join(build.work(), 'replay'); os.makedirs(replay_dir, exist_ok=True)
    build.irdump()
    # --- extraction + native builds in parallel ---
    need = []
    for u in P['units']:
        if thorough or not u.get('thorough_only'): need.append(u)
    keys = sorted(set((u['harness'], u['config'], tuple(u.get('flags', ()))) for u in need))
    pool = mp.pool.ThreadPool(NCPU)
    def comp(k):
        try: return k, build.compile_ir(os.path.join(HERE, 'harness', k[0]), k[1], extra=k[2]), ''
        except Exception as e: return k, None, str(e)[:3000]
    nat = []
    for d in P.get('native', []):
        d = dict(d, pid=pid)
        for v in d['variants']:
            if v[0].startswith('avx2') and not cpu_has('avx2'): continue
            if len(v) > 2 and v[2] == 'thorough' and not thorough: continue
            nat.append((d, v))
    a1 = pool.map_async(comp, keys, chunksize=1); a2 = pool.map_async(lambda x: (x,) + compile_native(*x), nat, chunksize=1)
    ir = {k: (js, err) for k, js, err in a1.get()}
    natb = a2.get()
    results = {}; undecided = []
    q = mp.Queue()
    pend = []
    for i, u in enumerate(need):
        js, err = ir[(u['harness'], u['config'], tuple(u.get('flags', ())))]
        u = dict(u, id=i)
        if js is None:
            results[i] = dict(unit=u['name'], config=u['config'], status='extract-failed', error=err, obligations=0, discharged=0, failed=[], functions=[], contracts=[], models=[], solver_s=0, queries=0, wall_s=0)
        else: pend.append((u, js))
    pend.sort(key=lambda x: -x[0].get('cost', 1))
    # --- run units (one process each) and natives, together on NCPU slots ---
    njobs = [(d, v, exe, d['t' if thorough else 'q'], seed) for ((d, v), exe, log) in natb if exe]
    nfail_build = [dict(driver=d['src'], variant=v[0], log=log) for ((d, v), exe, log) in natb if not exe]
    npool = mp.pool.ThreadPool(2)
    nasync = npool.map_async(run_native, njobs, chunksize=1)
    running = {}
    slots = NCPU if not njobs else NCPU - 1
    while pend or running:
        while pend and len(running) < slots:
            u, js = pend.pop(0)
            p = mp.Process(target=unit_worker, args=(u, js, min(limit, u.get('limit', limit)), q)); p.start(); running[u['id']] = (p, time.time(), u)
        try:
            while True:
                i, r = q.get(timeout=0.1); results[i] = r
                if i in running: running[i][0].join(5); running.pop(i)
        except Exception: pass
        for i, (p, ts, u) in list(running.items()):
            dead = not p.is_alive() and i not in results
            late = time.time() - ts > limit + 60 or time.time() - t0 > total
            if dead and q.empty() or late:
                if p.is_alive(): p.kill()
                results[i] = dict(unit=u['name'], config=u['config'], status='timeout' if late else 'error', error='killed' if late else 'worker died', obligations=0, discharged=0, failed=[], functions=[], contracts=[], models=[], solver_s=0, queries=0, wall_s=round(time.time() - ts, 1))
                running.pop(i)
        if time.time() - t0 > total:
            for u, js in pend: results[u['id']] = dict(unit=u['name'], config=u['config'], status='timeout', error='not started', obligations=0, discharged=0, failed=[], functions=[], contracts=[], models=[], solver_s=0, queries=0, wall_s=0)
            pend = []
    nres = nasync.get()
    units = [results[i] for i in sorted(results)]
    failed = [u for u in units if u['status'] == 'failed']
    undec = [u for u in units if u['status'] not in ('proved', 'failed')]
    nbad = [n for n in nres if not n['ok']]
    extra = []
    # --- an obligation failed or was not decided: search harder for a failing input on the real code ---
    if (failed or undec) and not nbad and njobs:
        left = max(20, min(120 if failed else 45, 780 - (time.time() - t0)))
        jobs = []
        for k, (d, v, exe, b, s) in enumerate(njobs):
            for z in range(1 + max(0, NCPU // max(1, len(njobs)) - 1)): jobs.append((d, v, exe, left if len(njobs) <= NCPU else left / 2, seed + 1000 + 17 * z + k))
        fp = mp.pool.ThreadPool(NCPU)
        extra = fp.map(run_native, jobs, chunksize=1)
        nbad = [n for n in extra if not n['ok']]
    violation = bool(failed or nbad)
    replay = os.path.join(replay_dir, pid + '.txt')
    if violation:
        with open(replay, 'w') as f:
            f.write('property %s: %s\n\n' % (pid, P['title']))
            for n in nbad:
                f.write('FAILING INPUT (real code, driver native/%s, build %s)\n%s\nrerun: g++ -std=c++17 -O1 -I/repo/include -I/verif/native %s /verif/native/%s -o /tmp/drv && /tmp/drv %s %s\n\n' % (n['driver'], n['variant'], n['fail'], ' '.join(next(v[1] for (d, v) in nat if v[0] == n['variant'] and d['src'] == n['driver'])), n['driver'], n['budget_s'], n['seed']))
            for u in failed:
                f.write('FAILED OBLIGATIONS in %s [%s]\n' % (u['unit'], u['config']))
                for o in u['failed']: f.write('  %s at %s: solver says %s\n    %s\n' % (o['obligation'], o['where'], o['solver'], o['model'].replace('\n', ' ')))
                f.write('\n')
    wall = time.time() - t0
    obls = sum(u['obligations'] for u in units); dis = sum(u['discharged'] for u in units)
    proved = [u for u in units if u['status'] == 'proved']
    fns = sorted(set(f for u in units for f in u['functions']))
    trusted = list(TRUSTED) + list(P.get('trusted', []))
    models = sorted(set(m for u in units for m in u['models']))
    if models: trusted.append('assumed models of library functions used in this run: ' + '; '.join(m[:100] for m in models[:60]))
    cov = dict(obligations=obls, discharged=dis, checker_cmd='python3-vt /verif/check.py %s %s (own VC generator over clang-18 LLVM IR; back end z3 %s)' % (pid, tier, __import__('z3').get_version_string()), trusted_base=trusted,
               units=len(units), units_proved=len(proved), units_undecided=['%s [%s]: %s %s' % (u['unit'], u['config'], u['status'], u['error'][:200]) for u in undec],
               functions_under_contract=sorted(set(u.get('root', [''])[0] for u in units if u.get('root'))), functions_inlined=fns, callee_contracts=sorted(set(c for u in units for c in u['contracts'])),
               solver_seconds=round(sum(u['solver_s'] for u in units), 1), solver_queries=sum(u['queries'] for u in units),
               per_unit=[dict(unit=u['unit'], config=u['config'], status=u['status'], obligations=u['obligations'], discharged=u['discharged'], solver_s=u['solver_s'], wall_s=u['wall_s'], loops_with_invariants=u.get('loops', {}), paths=u.get('paths', 0), by_obligation=u.get('by_name', {})) for u in units],
               unchecked_assumptions=P.get('assumptions', []) + sorted(set(a for u in units for a in u.get('assumed', []))),
               bounded_stand_ins=[dict(driver=n['driver'], variant=n['variant'], cases=n['cases'], seconds=n['wall_s'], result='ok' if n['ok'] else n['fail'][:500], bound=next(d['bound'] for (d, v) in nat if d['src'] == n['driver'])) for n in nres + extra],
               bounded_only=P.get('bounded_only', []), native_build_failures=nfail_build)
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'), coverage=cov, wall_s=round(wall, 1))
    if violation: ev['violation'] = dict(replay=replay, failing_input=bool(nbad))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for js, _ in ir.values():
        if js: subprocess.run(['rm', '-rf', os.path.dirname(js)])
    for (_, exe, _) in natb:
        if exe and os.path.exists(exe): os.unlink(exe)
    known_out = set()
    for n in nres:
        for k in n['known']: known_out.add('KNOWN-FINDING: property=%s %s' % (pid, k[6:]))
    for k in sorted(known_out): print(k)
    print('%s %s: units %d proved %d failed %d undecided %d; obligations %d discharged %d; stand-in cases %d; %.0f s' % (pid, tier, len(units), len(proved), len(failed), len(undec), obls, dis, sum(n['cases'] for n in nres + extra), wall))
    for u in undec: print('  undecided: %s [%s] %s: %s' % (u['unit'], u['config'], u['status'], u['error'].strip()[-200:]))
    for u in failed: print('  failed: %s [%s]: %s' % (u['unit'], u['config'], sorted(set((o['obligation'], o['where']) for o in u['failed']))[:4]))
    for n in nbad[:3]: print('  failing input: %s [%s]: %s' % (n['driver'], n['variant'], n['fail'][:600]))
    if violation:
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if nbad else ' no-failing-input-found'))
        sys.exit(1)
    if nfail_build and not proved:
        print('nothing could be built'); sys.exit(3)
    sys.exit(0)

if __name__ == '__main__':
    import multiprocessing.pool
    main()
