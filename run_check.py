#!/usr/bin/env python3
"""Builds a simulator from /repo's working tree and searches schedules and faults for a violation of one property.

  run_check.py C07            the check of a property (VERIF_SEED, VERIF_TIER decide seed and depth)
  run_check.py --build-all    build every simulator (setup)
  run_check.py --replay FILE  run a replay file again (exit 1 if it still violates)
  run_check.py --twice C07 N  determinism: N runs, each twice in processes of its own
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import simspec
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
JOBS = os.cpu_count() or 8

def fail(msg):
    print('CHECK-ERROR: ' + msg, file=sys.stderr); sys.exit(3)

def sha(data): return hashlib.sha256(data).hexdigest()

_hash_cache = {}
def file_hash(p):
    if p not in _hash_cache:
        try: _hash_cache[p] = sha(open(p, 'rb').read())
        except OSError: _hash_cache[p] = 'missing'
    return _hash_cache[p]

def deps_of(dfile):
    txt = open(dfile).read().replace('\\\n', ' ')
    return [d for d in txt.split(':', 1)[1].split() if not d.startswith('/usr/')]

def compile_one(src, flags, obj):
    """An object is reused only if its source, every repository or harness header it read, and its command line are unchanged."""
    key = sha((' '.join(flags) + src).encode()); stamp, dep = obj + '.stamp', obj + '.d'
    def current():
        try: return sha((key + ''.join(d + file_hash(d) for d in sorted(deps_of(dep)))).encode())
        except (OSError, IndexError): return None
    if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == (current() or ''): return None
    r = subprocess.run(['g++'] + flags + ['-MD', '-MF', dep, '-c', src, '-o', obj], capture_output=True, text=True)
    if r.returncode: return src + '\n' + r.stderr[-3000:]
    open(stamp, 'w').write(current() or '')
    return None

def build(name):
    spec = simspec.BINARIES[name]; d = os.path.join(BUILD, name); od = os.path.join(BUILD, 'obj'); os.makedirs(d, exist_ok=True); os.makedirs(od, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _hash_cache.clear()
        jobs = []
        for src, flags in spec.sources(REPO, HERE):
            if not os.path.exists(src): fail('source %s is gone' % src)
            jobs.append((src, flags, os.path.join(od, sha((src + ' '.join(flags)).encode())[:12] + '_' + os.path.basename(src) + '.o')))
        order = [j[2] for j in jobs] # the repository's instances of templates win over the harness's
        heavy = ['main.cpp', 'trilateration.cpp', 'helpers.cpp', 'level_geometry.cpp', 'knn_utils.cpp', 'level_collector.cpp', 'geometry.cpp']
        jobs.sort(key=lambda j: heavy.index(os.path.basename(j[0])) if os.path.basename(j[0]) in heavy else 99)
        with ThreadPoolExecutor(JOBS) as ex: errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
        if errs: fail('does not compile:\n' + errs[0])
        exe = os.path.join(d, 'sim'); sig = sha(''.join(j[2] + open(j[2] + '.stamp').read() for j in jobs).encode() + ' '.join(spec.link).encode())
        if not (os.path.exists(exe) and os.path.exists(exe + '.stamp') and open(exe + '.stamp').read() == sig):
            r = subprocess.run(['g++'] + order + ['-o', exe + '.new'] + spec.link, capture_output=True, text=True)
            if r.returncode: fail('does not link:\n' + r.stderr[-3000:])
            os.rename(exe + '.new', exe); open(exe + '.stamp', 'w').write(sig)
    return exe

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=5', UBSAN_OPTIONS='halt_on_error=1:exitcode=98:print_stacktrace=0', LC_ALL='C')
ENV.pop('SIM_NOASLR', None)

def replay(exe, path):
    r = subprocess.run([exe, 'replay', path], capture_output=True, text=True, env=ENV, timeout=300)
    m = re.match(r'violation=(\d) class=(.*) op=(-?\d+) hash=(\d+)\n(.*)', r.stdout, re.S)
    if not m: return None
    return {'violation': m.group(1) == '1', 'cls': m.group(2), 'op': int(m.group(3)), 'hash': m.group(4), 'detail': m.group(5).strip()}
base = lambda c: c.split(':')[0]

def known_findings(pid):
    out = []
    try: lines = open(os.path.join(HERE, 'known_findings.txt')).read().splitlines()
    except OSError: return out
    for l in lines:
        m = re.match(r'known: property=(\S+) class=(\S+) match=/(.*?)/ (.*)', l)
        if m and m.group(1) == pid: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def check(pid):
    t0 = time.time(); tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); spec = simspec.CHECKS[pid]
    parts = []
    work = os.path.join(BUILD, 'work', pid); shutil.rmtree(work, ignore_errors=True); os.makedirs(work); os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    exes = {b: build(b) for b in {p['binary'] for p in spec['parts']}}
    tb = time.time() - t0; known = known_findings(pid); seen_known = set(); unrep = []
    violation = None
    for pi, part in enumerate(spec['parts']):
        exe = exes[part['binary']]; secs = part['quick_s'] if tier == 'quick' else part['thorough_s']
        if violation: break
        ps = time.time(); pend = ps + secs; res = []; nxt = [None] * JOBS; live = list(range(JOBS)); rnd = 0
        while live and time.time() < pend and not violation and rnd < 6:
            procs = []
            for w in live:
                out = os.path.join(work, 'p%d_w%d_r%d.json' % (pi, w, rnd)); a = ['--profile', part['profile'], '--seed', str(seed), '--worker', str(w), '--workers', str(JOBS), '--seconds', '%.1f' % max(1, pend - time.time()), '--out', out]
                if nxt[w] is not None: a += ['--from', str(nxt[w])]
                procs.append((w, out, subprocess.Popen([exe, 'run'] + a, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
            live = []; rs = []
            for w, out, p in procs:
                err = p.communicate()[1].decode(errors='replace')
                if p.returncode or not os.path.exists(out): fail('simulator of %s died: %s' % (pid, err[-500:]))
                r = json.load(open(out)); res.append(r); rs.append((w, out, r))
            for w, out, r in sorted(rs, key=lambda x: x[2]['violation']['index'] if x[2]['violation'] else 0):
                v = r['violation']
                if not v: continue
                txt = v['cls'] + ' ' + v['detail']; hit = [k for k in known if base(v['cls']).startswith(k[0]) and re.search(k[1], txt)]
                if hit:
                    for k in hit: seen_known.add(k)
                    nxt[w] = v['index'] - w + JOBS; live.append(w); continue
                # gate: the same trace twice, each in a fresh process, with the same outcome and the same history
                a, b = replay(exe, out + '.trace'), replay(exe, out + '.trace')
                if not a or not b or not a['violation'] or not b['violation'] or base(a['cls']) != base(v['cls']) or a['hash'] != b['hash']:
                    unrep.append(v); nxt[w] = v['index'] - w + JOBS; live.append(w); continue
                if not violation: violation = (part, v, out + '.trace')
            rnd += 1
        parts.append((part, res, time.time() - ps))
    path = None; vinfo = None
    if violation:
        part, v, tr = violation; exe = exes[part['binary']]
        os.makedirs(os.path.join(HERE, 'replays', pid), exist_ok=True); path = os.path.join(HERE, 'replays', pid, 'seed%d_index%d.trace' % (seed, v['index']))
        mini = tr + '.min'; subprocess.run([exe, 'minimise', tr, mini, '--seconds', '25' if tier == 'quick' else '90'], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
        q = replay(exe, mini) if os.path.exists(mini) else None
        src = mini if q and q['violation'] and base(q['cls']) == base(v['cls']) else tr
        if src == tr: q = replay(exe, tr)
        if not q or not q['violation']: fail('violation of %s does not replay' % pid)
        with open(path, 'w') as f:
            f.write('# property %s, simulator %s\n# replay: python3 %s --replay %s\n# %s\n' % (pid, part['binary'], os.path.join(HERE, 'run_check.py'), path, (q['cls'] + ' at step %d: ' % q['op'] + q['detail']).replace('\n', ' ')))
            f.write(''.join(l for l in open(src) if not l.startswith('# ' + q['cls'][:8])))
        vinfo = {'class': q['cls'], 'detail': q['detail'], 'seed': seed, 'index': v['index'], 'replay': path}
    evidence(pid, spec, tier, seed, parts, tb, time.time() - t0, vinfo, exes, unrep, seen_known, known)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    runs = sum(r['runs'] for _, res, _ in parts for r in res)
    if violation:
        print('%s at step %d: %s' % (q['cls'], q['op'], q['detail'][:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, path)); return 1
    if unrep: fail('%d run(s) failed but did not fail again: %s' % (len(unrep), unrep[0]['cls']))
    if not runs: fail('no run was made')
    print('%s held on %d simulated runs (build %.0f s, total %.0f s)' % (pid, runs, tb, time.time() - t0)); return 0

def evidence(pid, spec, tier, seed, parts, tb, wall, vinfo, exes, unrep, seen_known, known):
    def add(d, e):
        for k, v in e.items(): d[k] = d.get(k, 0) + v
    cov = {'evaluations': 0, 'distinct_nontrivial': 0}; faults, fruns, probes, pruns = {}, {}, {}, {}; sigs, states = set(), set(); sim = search = calls = msgs = amb = nontriv = 0; samples = []; hist = []
    for part, res, secs in parts:
        search += secs
        for r in res:
            cov['evaluations'] += r['runs']; nontriv += r['nontrivial']; amb += r['ambiguous']; calls += r['calls']; msgs += r['msgs']; sim += r['simMs']
            add(faults, r['faults']); add(fruns, r['faultRuns']); add(probes, r['probes']); add(pruns, r['probeRuns'])
            sigs.update((part['profile'], s) for s in r['sigs']); states.update((part['profile'], s) for s in r['states']); hist.append('%016x' % (r['hash'] & (2**64 - 1)))
        for idx in [r['samples'][0] for r in res if r['samples']][:2]:
            g = subprocess.run([exes[part['binary']], 'gen', '--profile', part['profile'], '--seed', str(seed), '--index', str(idx)], capture_output=True, text=True, env=ENV).stdout.splitlines()
            ops = [l for l in g if re.match(r'[A-Z] ', l)]; setts = [l[4:] for l in g if l.startswith('set ')]
            samples.append({'profile': part['profile'], 'seed': seed, 'index': idx, 'steps': len(ops), 'faults': [l[6:] for l in g if l.startswith('fault ')], 'clients': sum(l.startswith('client') for l in g), 'levels': sum(l.startswith('level ') for l in g), 'first_settings': setts[:12], 'first_steps': [o[:160] for o in ops[:8]]})
    cov['distinct_nontrivial'] = len(sigs)
    cov['rule'] = spec['rule']
    cov['samples'] = samples
    cov['nontrivial_runs'] = nontriv
    cov['runs_stopped_early_at_a_rounding_tie'] = amb
    cov['runs_per_hour'] = int(cov['evaluations'] / max(search, .001) * 3600)
    cov['seeds'] = {'VERIF_SEED': seed, 'run_indices': cov['evaluations'], 'seeds_per_hour': int(cov['evaluations'] / max(search, .001) * 3600), 'note': 'every run index is its own PRNG stream; (VERIF_SEED, profile, index) decides the whole run'}
    cov['simulated_hours'] = round(sim / 3.6e6, 3)
    cov['calls_into_real_code'] = calls; cov['messages_delivered'] = msgs
    cov['faults_injected'] = faults; cov['runs_with_fault'] = fruns
    cov['probes'] = probes; cov['runs_reaching_probe'] = pruns
    cov['distinct_states'] = len(states); cov['distinct_states_measure'] = spec['states']
    cov['distinct_runs_measure'] = spec.get('sig', 'hash of the sequence of discrete results (status, level, provider, step count ...) of a run')
    cov['real_code'] = spec['real']; cov['stubs'] = spec['stub']
    cov['history_hashes'] = hist[:8]; cov['search_s'] = round(search, 1); cov['build_s'] = round(tb, 1); cov['workers'] = JOBS
    if vinfo: cov['violation'] = vinfo
    if unrep: cov['unreproduced'] = unrep
    if known: cov['known_findings_seen'] = [k[2] for k in seen_known]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'assumptions': spec['assume'], 'wall_s': round(wall, 1), 'violations': 1 if vinfo else 0}
    tmp = os.path.join(HERE, 'evidence', pid + '.json.new'); json.dump(ev, open(tmp, 'w'), indent=1); os.rename(tmp, os.path.join(HERE, 'evidence', pid + '.json'))

def binary_of(path):
    m = re.search(r'^profile (\S+)', open(path).read(), re.M); prof = m.group(1) if m else ''
    m2 = re.search(r'^# property \S+, simulator (\S+)', open(path).read(), re.M)
    if m2: return m2.group(1)
    for c in simspec.CHECKS.values():
        for p in c['parts']:
            if p['profile'] == prof: return p['binary']
    fail('unknown profile ' + prof)

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['--build-all']:
        for b in simspec.BINARIES:
            t = time.time(); build(b); print('%s built in %.0f s' % (b, time.time() - t), flush=True)
        sys.exit(0)
    if a[:1] == ['--replay']:
        exe = build(binary_of(a[1])); r = replay(exe, os.path.abspath(a[1]))
        print(r); sys.exit(1 if r and r['violation'] else 0)
    if a[:1] == ['--twice']:
        rc = 0
        for part in simspec.CHECKS[a[1]]['parts']:
            exe = build(part['binary']); ps = [subprocess.Popen([exe, 'twice', '--profile', part['profile'], '--seed', str(s), '--max', a[2]], env=ENV) for s in range(1, JOBS + 1)]
            rc |= any([p.wait() for p in ps])
        sys.exit(int(rc))
    if len(a) != 1 or a[0] not in simspec.CHECKS: fail('usage: run_check.py <property>')
    sys.exit(check(a[0]))
