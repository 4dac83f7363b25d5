"""Apply every planted change to /repo in turn, run the check of its property, undo the change, record the outcome in tools/seed_results.json.
usage: run_seeds.py [ids...]   (development tool; no check reads the planted changes)"""
import subprocess, sys, json, os, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VP_REPO', '/repo')      # a scratch clone of /repo may be used
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
res_f = V + '/tools/seed_results.json'
res = json.load(open(res_f)) if os.path.exists(res_f) else {}
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace')
if sh('git -C %s status --porcelain' % R).stdout.strip(): sys.exit('repo not clean')
for i in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i))); P = m['property']
    a = sh('git -C %s apply %s/seeded/%s/patch.diff' % (R, V, i))
    if a.returncode: print(i, 'DOES NOT APPLY', a.stderr[:200]); continue
    t = time.time()
    try: r = sh('cd %s && python3-vt check.py %s quick' % (V, P))
    finally: sh('git -C %s checkout -- .' % R)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    how = 'missed'
    if r.returncode == 1 and v:
        e = json.load(open('%s/evidence/%s.json' % (V, P)))
        rp = v[0].split('replay=')[1].split()[0]; body = open(rp).read() if os.path.exists(rp) else ''
        ob = [l for l in body.splitlines() if 'obligation' in l.lower()][:1]
        how = 'caught by %s' % P + (' (failing obligation only)' if 'no-failing-input-found' in v[0] else ' (failing input%s)' % (' and failing obligation' if ob else ''))
    res[i] = how; print(i, P, how, r.returncode, '%.0fs' % (time.time() - t), v[:1], flush=True)
    json.dump(res, open(res_f, 'w'), indent=1, sort_keys=True)
