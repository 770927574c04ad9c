#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] : discharge every proof obligation of a property on /repo's current tree.
exit 0: all obligations discharged; exit 1: VIOLATION line (failing input found natively, or the failed obligation)."""
import sys, os, json, time, subprocess, tempfile, shutil, threading, queue, resource, re, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vcir'))
PY = 'python3-vt'
BUDGET = {'quick': 820, 'thorough': 3000}
NPROC = int(os.environ.get('VC_JOBS', '8'))

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    os.setsid()

def run_child(cmd, timeout, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits, env=env, cwd=HERE)
    try:
        o, e = p.communicate(timeout=max(timeout, 1)); return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate(); return None, '', 'timeout'

def main():
    import jobs as J
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in BUDGET: tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); end = t0 + BUDGET[tier]
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % prop)
    rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    jobs = [j for j in J.PROPS[prop]['jobs'] if tier == 'thorough' or not j.thorough]
    res = {}; skipped = []; first = [None]      # after the first real failure the remaining jobs are only run for a while
    known = load_known(prop)
    def failures_of(j):
        r = res[j]; o = r.get('obligations', [])
        f = [(j, x['label'], x['why']) for x in o if not x['ok']]
        if r.get('error'): f.append((j, 'obligations of %s' % j.title, r['error']))
        elif len(o) < j.min: f.append((j, 'obligations of %s' % j.title, 'only %d obligations were generated, %d expected' % (len(o), j.min)))
        return f
    def is_known(j, lab): return next((x for x in known if x['harness'] == j.title and x['obligation'] == lab), None)
    def run_jobs(js, expand):
        q = queue.Queue()
        for j in sorted(js, key=lambda j: -j.cost): q.put(j)
        def worker():
            while True:
                try: j = q.get_nowait()
                except queue.Empty: return
                out = os.path.join(tmp, '%s_%s.json' % (j.key, expand))
                left = min(end - time.time() - 40, 780)
                if first[0] is not None: left = min(left, first[0] + 200 - time.time())
                if left < 50 and first[0] is not None: skipped.append(j); continue
                rc, so, se = run_child([PY, os.path.join(HERE, 'vcir', 'job.py'), json.dumps(j.spec()), tmp, out, str(J.OBL_TIMEOUT)], left, dict(os.environ, VC_EXPAND=str(expand or j.expand)))
                try: r = json.load(open(out))
                except Exception: r = {'error': 'verifier produced no result (%s)' % ('time limit' if rc is None else (se.strip()[-300:] or 'exit %s' % rc)), 'obligations': []}
                # a second attempt replaces the first only when it discharges everything
                if j not in res or (not r.get('error') and r['obligations'] and all(x['ok'] for x in r['obligations']) and len(r['obligations']) >= len(res[j]['obligations'])): res[j] = r
                if first[0] is None and any(not is_known(j, x[1]) for x in failures_of(j)): first[0] = time.time()
        th = [threading.Thread(target=worker) for _ in range(NPROC)]
        [t.start() for t in th]; [t.join() for t in th]
    run_jobs(jobs, None)
    jobs = [j for j in jobs if j in res]
    nviol = 0; lines = []
    real = []
    for j in jobs:
        for x in failures_of(j):
            k = is_known(j, x[1])
            if k: lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
            else: real.append(x)
    if real:
        # look for a concrete failing input on the real code
        byjob = {}
        for j, lab, why in real: byjob.setdefault(j, []).append((lab, why))
        found = {}
        lock = threading.Lock(); qq = queue.Queue()
        def nat():
            while True:
                try: j = qq.get_nowait()
                except queue.Empty: return
                exe = os.path.join(tmp, j.key + '.exe')
                rc, so, se = run_child([PY, '-c', 'import sys; sys.path.insert(0,%r); import vc; vc.compile_native(%r, %r, %r)' % (os.path.join(HERE, 'vcir'), j.path(HERE), j.defs + (['-DVC_RACE'] if j.race else []), exe)], min(200, max(5, end - time.time() - 20)))
                if rc != 0: found[j] = ('nobuild', se[-1500:]); continue
                tl = max(3, min(25, end - time.time() - 15))
                rc, so, se = run_child([exe, j.fn, str(seed), '2000000', str(tl)], tl + 20)
                if rc == 1 and 'FAIL ' in so:
                    m = re.search(r'FAIL seed=\d+ obligation="(.*)" got', so)
                    if any(x['harness'] == j.title and m and x['obligation'] == m.group(1) for x in known): found[j] = ('none', 'only the recorded finding fails natively')
                    else: found[j] = ('fail', so[:6000])
                elif rc is not None and rc < 0 and rc != -9 and 'bad_alloc' not in se + so: found[j] = ('fail', 'the real code ended with signal %d on the harness inputs (seed %d)\n%s' % (-rc, seed, so[-1500:]))
                else: found[j] = ('none', so[-500:])
        def native(js):
            for j in js: qq.put(j)
            th = [threading.Thread(target=nat) for _ in range(min(NPROC, len(js)))]
            [t.start() for t in th]; [t.join() for t in th]
        native(list(byjob)[:16])
        if not any(f[0] == 'fail' for f in found.values()):      # the same property's other harnesses may exhibit it
            rest = [j for j in J.PROPS[prop]['jobs'] if j not in found and not j.thorough]
            if end - time.time() > 120: native(rest[:40])
            for j in rest:
                if j in found and found[j][0] == 'fail': byjob[j] = [('(not among the failed obligations: shown by the native run of this harness)', '')]
        hits = [j for j in byjob if found.get(j, ('none', ''))[0] == 'fail']
        if not hits:      # nothing fails on samples: another normal form may still find the proof
            first[0] = None
            if end - time.time() > 60: run_jobs(list(byjob), 3 if list(byjob)[0].expand != 3 else 600)
            for j in list(byjob):
                byjob[j] = [(lab, why) for _, lab, why in failures_of(j) if not is_known(j, lab)]
                if not byjob[j]: del byjob[j]
        show = hits or list(byjob)[:3]
        for j in show:
            nviol += 1
            path = os.path.join(rdir, '%s_%s.txt' % (prop, j.key))
            with open(path, 'w') as f:
                f.write('property %s\nharness %s   (%s, defines %s)\n' % (prop, j.title, j.path(HERE), ' '.join(j.defs)))
                for lab, why in byjob[j]: f.write('failed obligation: %s\n  verifier: %s\n' % (lab, why))
                f.write('native replay (python3-vt -c "import vc; vc.compile_native(...)"; ./exe %s %d N T): %s\n%s\n' % (j.fn, seed, found.get(j, ('none', ''))[0], found.get(j, ('none', ''))[1]))
            lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found.get(j, ('none', ''))[0] == 'fail' else ' no-failing-input-found'))
            print('  failed obligation [%s] %s: %s' % (j.title, byjob[j][0][0], str(byjob[j][0][1])[:300]))
    nobl = ndis = 0; backends = {}; functions = set(); assumed = set(); solver = {}; contracts = set(); dropped = set(); per = []
    for j in jobs:
        r = res[j]
        o = r.get('obligations', [])
        nobl += len(o); ok = sum(1 for x in o if x['ok']); ndis += ok
        per.append({'harness': j.title, 'obligations': len(o), 'discharged': ok, 'exec_s': r.get('exec_s'), 'prove_s': r.get('prove_s'), 'error': r.get('error')})
        for x in o:
            for b, n in (x.get('backends') or {}).items(): backends[b] = backends.get(b, 0) + n
        for f in r.get('functions', {}): functions.add(f)
        for c in (r.get('contracts') or []): contracts.add(c if isinstance(c, str) else json.dumps(c))
        for c in (r.get('assumed') or []): assumed.add(c if isinstance(c, str) else json.dumps(c))
        for c in (r.get('dropped') or []): dropped.add(c)
        for k, v in (r.get('solver') or {}).items():
            a = solver.setdefault(k, [0, 0.0]); a[0] += v[0]; a[1] = round(a[1] + v[1], 2)
    wall = round(time.time() - t0, 1)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': J.PROPS[prop].get('level', 'proof'), 'wall_s': wall, 'violations': nviol,
          'coverage': {'obligations': nobl, 'discharged': ndis, 'checker_cmd': 'python3-vt check.py %s' % prop, 'trusted_base': J.TRUSTED,
                       'functions_under_contract': sorted(f for f in functions if interesting(f)), 'contracts_assumed_at_calls': sorted(contracts), 'back_ends': backends, 'solver_calls_and_seconds': solver, 'harnesses': per,
                       'jobs_skipped_after_a_failure': [j.title for j in skipped], 'known_findings': [l for l in lines if l.startswith('KNOWN')]},
          'assumptions': J.ASSUME + J.PROPS[prop].get('assume', []) + ['trusted external function: ' + a for a in sorted(assumed)] + ['path dropped: ' + d for d in sorted(dropped)]}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    print('%s: %d obligations, %d discharged, %d harnesses, %.1f s' % (prop, nobl, ndis, len(jobs), wall))
    for l in lines: print(l)
    return 1 if nviol else 0

def interesting(f): return not re.match(r'^(std::|__gnu|operator|void std|_)', f) and 'vc_' not in f[:12]

def load_known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) harness=\[(.*?)\] obligation=\[(.*?)\] (.*)', l)
            if m and m.group(1) == prop: out.append({'harness': m.group(2), 'obligation': m.group(3), 'text': m.group(4)})
    return out

if __name__ == '__main__': sys.exit(main())
