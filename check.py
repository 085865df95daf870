#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py <property> [quick|thorough]     explore; exit 0 held, 1 VIOLATION
  check.py replay <file>                   re-execute a replay file; exit 1 if it still fails
  check.py determinism <scenario> <n>      run n seeds twice and compare the event hashes
  check.py setup                           build once (compile check)
"""
import collections, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/sim')
import build as simbuild
from props import PROPS, STUBS, REAL

REPLAYS = os.environ.get('VERIF_REPLAYS', HERE + '/replays')
EVID = os.environ.get('VERIF_EVIDENCE', HERE + '/evidence')

WORKERS = int(os.environ.get('VERIF_WORKERS') or min(8, os.cpu_count() or 8))
RUN_TIMEOUT = 150


class HarnessError(Exception):
    pass


def env_for(scratch):
    e = {'PATH': '/usr/bin:/bin', 'HOME': '/root', 'TZ': 'UTC'}
    e.update(TDEX_NETWORK='regtest',
             TDEX_BASE_ASSET='5ac9f65c0efcc4775e0baec4ec03abdde22473cd3cf33c0419ca290e0751b225',
             TDEX_FEE_ACCOUNT_BALANCE_THRESHOLD='1000', TDEX_DATA_DIR_PATH=scratch + '/data',
             GODEBUG='asynctimerchan=0,asyncpreemptoff=1', GOMAXPROCS='1', GOGC='off')
    return e


class Sim:
    """Builds the simulator from the tree and executes plans with it."""

    def __init__(self, tree=os.environ.get('VERIF_TREE', '/repo')):
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix='verif.')
        self.scratch = tempfile.mkdtemp(prefix='verif.', dir=base)
        self.tree = tree
        self.bins = {}
        self.n = 0
        self.lock = threading.Lock()

    def build(self):
        t = time.time()
        self.bins['sim'] = simbuild.build(self.dir + '/b', self.tree)
        self.build_s = time.time() - t

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def run(self, plan, timeout=RUN_TIMEOUT):
        """one simulated run; returns the result, with 'panic' set if the process died in the code under test"""
        with self.lock:
            self.n += 1
            k = self.n
        d = '%s/%d' % (self.scratch, k)
        os.makedirs(d + '/data')
        try:
            pf, of = d + '/plan.json', d + '/out.json'
            with open(pf, 'w') as f:
                json.dump(plan, f)
            e = env_for(d)
            e.update(VERIF_PLAN=pf, VERIF_RESULT=of, VERIF_SCRATCH=d)
            if os.environ.get('VERIF_V'):
                e['VERIF_V'] = '1'
            try:
                p = subprocess.run([self.bins['sim'], '-test.run', '^TestSim$', '-test.timeout', '0'], env=e, cwd=d,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise HarnessError('run timed out: seed %s' % plan.get('seed'))
            out = p.stdout.decode(errors='replace')
            if os.environ.get('VERIF_V'):
                sys.stderr.write(out)
            if p.returncode == 0 and os.path.exists(of):
                return json.load(open(of))
            part = None
            if os.path.exists(of + '.plan'):
                # what the process told before it died
                part = {'plan': json.load(open(of + '.plan')), 'stats': {}, 'probes': {}, 'dev_kinds': {}, 'states': [], 'points': 0,
                        'sim_seconds': 0, 'trace': [], 'devs_known': True, 'deviations': open(of + '.devs').read().split('\n')[:-1]}
            return died(plan, p.returncode, out, part)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def died(plan, rc, out, part):
    """classifies a process that ended without a result"""
    if 'HARNESS:' in out:
        raise HarnessError('seed %s: %s' % (plan.get('seed'), out[out.index('HARNESS:'):][:1500]))
    m = re.search(r'^(panic: .*|fatal error: .*)$', out, re.M)
    if not m:
        raise HarnessError('seed %s: exit %s: %s' % (plan.get('seed'), rc, out[-1500:]))
    what = m.group(1)
    stack = out[m.start():]
    # the stack of the goroutine that panicked
    g = re.search(r'^goroutine \d+.*?(?=\n\n|\Z)', stack, re.M | re.S)
    frames = re.findall(r'^(\S+?)\(.*\n\t(\S+):(\d+)', g.group(0) if g else stack, re.M)
    site = None
    for fn, file, line in frames:
        if fn in ('panic', 'runtime.gopanic') or fn.startswith('runtime.') or fn.startswith('testing.') or fn.startswith('internal/'):
            continue
        if '/verifsim.' in fn or '/verifsimrt.' in fn:
            if site is None:
                raise HarnessError('seed %s: %s\n%s' % (plan.get('seed'), what, stack[:2500]))
            break
        if 'tdex-network/tdex-daemon' in fn or 'tdex-daemon' in file:
            site = fn.split('/')[-1]
            break
        if site is None:
            site = fn.split('/')[-1]
    if 'deadlock' in what and site is None:
        raise HarnessError('seed %s: %s\n%s' % (plan.get('seed'), what, stack[:2500]))
    sig = 'panic-' + re.sub(r'[^\w.()*-]', '', site or 'unknown')
    r = part or {'plan': plan, 'stats': {}, 'probes': {}, 'dev_kinds': {}, 'deviations': [], 'states': [], 'points': 0,
                 'sim_seconds': 0, 'hash': hashlib.sha256((what + sig).encode()).hexdigest()[:16], 'trace': []}
    r['violations'] = (r.get('violations') or []) + [
        {'prop': 'PANIC', 'sig': sig, 'msg': what + ' in ' + str(site), 'at': ''}]
    r['panic'] = stack[:4000]
    r['hash'] = hashlib.sha256((what.split('[')[0] + sig).encode()).hexdigest()[:16]
    return r


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256('/'.join(map(str, parts)).encode()).digest()[:6], 'big')


def relevant(prop, conf, r):
    """violations of the run that count for the property"""
    res = []
    for v in r.get('violations') or []:
        p = v['prop']
        if p == 'PANIC':
            p = prop if conf.get('panics') else 'C21'
        if p == prop or v['prop'] in conf.get('also', ()):
            res.append(v)
    return res


def known_findings(prop):
    kf, fixed = [], []
    f = HERE + '/known-findings.txt'
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) sig=(\S+) (.*)$', l)
            if m and m.group(1) == prop:
                kf.append((m.group(2), m.group(3)))
    return kf


def same(prop, conf, r, sig):
    return any(v['sig'] == sig for v in relevant(prop, conf, r))


def minimise(sim, prop, conf, res, v, budget, log):
    """shrinks operations, then deviations, of a failing run; every candidate
    is executed in a fresh process and must show the same violation"""
    t0 = time.time()
    sig = v['sig']

    def mk(ops, allow):
        p = dict(res['plan'])
        p.update(gen=False, ops=ops, allow=allow)
        return p

    def run(p):
        try:
            return sim.run(p)
        except HarnessError:
            return None

    ops, allow = list(res['plan'].get('ops') or []), list(dict.fromkeys(res.get('deviations') or []))
    tries = 0
    if res.get('panic') and not res.get('devs_known'):
        allow = None  # the process died before it could tell
    base = run(mk(ops, allow))
    if base is None or not same(prop, conf, base, sig):
        base = run(mk(ops, None))
        allow = None
        if base is None or not same(prop, conf, base, sig):
            return mk(ops, allow), res, 0, False
    best = base

    def ddmin(items, build):
        nonlocal best, tries
        n = 2
        with ThreadPoolExecutor(WORKERS) as ex:
            while len(items) >= 1 and time.time() - t0 < budget:
                size = max(1, (len(items) + n - 1) // n)
                chunks = [items[i:i + size] for i in range(0, len(items), size)]
                done = False
                for lo in range(0, len(chunks), WORKERS):
                    cands = []
                    for c in chunks[lo:lo + WORKERS]:
                        ids = set(map(id, c))
                        cands.append([x for x in items if id(x) not in ids])
                    rs = list(ex.map(lambda it: run(build(it)), cands))
                    tries += len(rs)
                    for it, r in zip(cands, rs):
                        if r is not None and same(prop, conf, r, sig):
                            items, best, done = it, r, True
                            n = max(2, n - 1)
                            break
                    if done or time.time() - t0 > budget:
                        break
                if not done:
                    if size <= 1:
                        break
                    n = min(len(items), 2 * n)
        return items

    ops = ddmin(ops, lambda it: mk(it, allow))
    if allow is not None:
        left = list(dict.fromkeys(best.get('deviations') or []))
        if not left and best.get('panic'):
            left = allow
        allow = [str(x) for x in left]
        # wrap: ddmin distinguishes items by identity
        boxed = [[x] for x in allow]
        boxed = ddmin(boxed, lambda it: mk(ops, [x[0] for x in it]))
        allow = [x[0] for x in boxed]
        ops = ddmin(ops, lambda it: mk(it, allow))
    plan = mk(ops, allow)
    final = run(plan)
    ok = final is not None and same(prop, conf, final, sig) and final['hash'] == best['hash'] or final is not None and same(prop, conf, final, sig)
    return plan, final if ok else best, tries, ok


def write_replay(prop, res, v, plan, final, tries, exact):
    os.makedirs(REPLAYS, exist_ok=True)
    path = '%s/%s-%s-%s.json' % (REPLAYS, prop, re.sub(r'[^\w-]', '_', v['sig'])[:40], res['plan']['seed'])
    fv = [x for x in (final.get('violations') or []) if x['sig'] == v['sig']]
    json.dump({'property': prop, 'violation': fv[0] if fv else v, 'seed': res['plan']['seed'], 'plan': plan,
               'hash': final.get('hash'), 'minimisation_runs': tries, 'reproduces': exact,
               'original': {'plan': res['plan'], 'deviations': len(res.get('deviations') or []), 'hash': res.get('hash')},
               'panic': final.get('panic'), 'trace': (final.get('trace') or [])[-400:]}, open(path, 'w'), indent=1)
    return path


def check(prop, tier):
    conf = PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    sim = Sim()
    code = 0
    try:
        try:
            sim.build()
        except simbuild.BuildError as e:
            print('the simulator does not build from this tree:\n%s' % e)
            return 2
        quick = tier == 'quick'
        runs = int(os.environ.get('VERIF_RUNS') or conf['runs'] if quick else conf.get('thorough_runs', 40000))
        cap = float(os.environ.get('VERIF_CAP') or (conf.get('cap', 150) if quick else conf.get('thorough_cap', 3000)))
        mixes = conf['mix']
        total = sum(m['w'] for m in mixes)
        sched = []
        for m in mixes:
            sched += [m] * m['w']
        agg = collections.Counter()
        stats, probes, kinds = collections.Counter(), collections.Counter(), collections.Counter()
        hashes, nontriv, states = set(), set(), set()
        per_sc = collections.Counter()
        inconcl = collections.Counter()
        herr = []
        other = collections.Counter()
        hits = []
        samples = []
        simsec = 0.0
        points = 0
        kf = known_findings(prop)
        stop = threading.Event()
        te = time.time()

        def one(i):
            if stop.is_set() or time.time() - te > cap:
                return i, None, None
            m = sched[i % total]
            plan = {'scenario': m['sc'], 'seed': seed_of(seed, prop, i), 'gen': True, 'force': m.get('force') or {}, 'allow': None}
            try:
                return i, plan, sim.run(plan)
            except HarnessError as e:
                return i, plan, e

        done = 0
        with ThreadPoolExecutor(WORKERS) as ex:
            futs = [ex.submit(one, i) for i in range(runs)]
            for f in futs:
                i, plan, r = f.result()
                if r is None:
                    continue
                if isinstance(r, HarnessError):
                    herr.append(str(r))
                    continue
                done += 1
                per_sc[plan['scenario']] += 1
                simsec += r['sim_seconds']
                points += r['points']
                stats.update(r['stats'] or {})
                probes.update(r['probes'] or {})
                kinds.update(r['dev_kinds'] or {})
                states.update(r.get('states') or [])
                if r.get('inconclusive'):
                    inconcl[r['inconclusive'][:80]] += 1
                h = r['hash']
                keys = conf.get('nontrivial') or []
                st = dict(r['stats'] or {})
                st.update(r['probes'] or {})
                if all(any(st.get(k, 0) > 0 for k in alt.split('|')) for alt in keys) and not r.get('inconclusive'):
                    nontriv.add(h)
                hashes.add(h)
                rel = relevant(prop, conf, r)
                ids = [v['sig'] for v in rel]
                for v in r.get('violations') or []:
                    if v not in rel:
                        other[v['prop'] + ' ' + v['sig']] += 1
                new = [v for v in rel if not any(re.fullmatch(s, v['sig']) for s, _ in kf)]
                if new:
                    hits.append((i, r, new[0]))
                    if len(hits) >= 3:
                        stop.set()
                if len(samples) < 3 and h in nontriv:
                    samples.append({'seed': plan['seed'], 'scenario': plan['scenario'], 'hash': h, 'cfg': r['plan'].get('cfg'),
                                    'ops': [dict(o) for o in (r['plan'].get('ops') or [])[:12]],
                                    'deviations': (r.get('deviations') or [])[:12], 'sim_seconds': round(r['sim_seconds'], 1)})
        explore_s = time.time() - te
        # the same seeds again: a run must be a function of its plan
        det_n, det_bad = 0, []
        if not hits:
            idx = [i for i in range(min(runs, done))][:: max(1, done // (6 if quick else 60))][: (6 if quick else 60)]
            for i in idx:
                m = sched[i % total]
                plan = {'scenario': m['sc'], 'seed': seed_of(seed, prop, i), 'gen': True, 'force': m.get('force') or {}, 'allow': None}
                try:
                    h = sim.run(plan)['hash']
                except HarnessError as e:
                    continue
                det_n += 1
                if h not in hashes:
                    det_bad.append(plan['seed'])
        nviol = 0
        for sig, what in kf:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
        if hits:
            seen = set()
            for i, r, v in hits:
                if v['sig'] in seen:
                    continue
                seen.add(v['sig'])
                plan, final, tries, exact = minimise(sim, prop, conf, r, v, 60 if quick else 300, print)
                path = write_replay(prop, r, v, plan, final, tries, exact)
                nviol += 1
                print('%s: %s' % (v['sig'], v['msg'][:600]))
                print('  seed %s, run %d; %d operations and %s deviations after %d minimisation runs' % (
                    r['plan']['seed'], i, len(plan['ops'] or []), 'all' if plan['allow'] is None else len(plan['allow']), tries))
                print('VIOLATION property=%s replay=%s' % (prop, path))
                sys.stdout.flush()
                break
            code = 1
        wall = time.time() - t0
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': done,
                'distinct_nontrivial': len(nontriv),
                'rule': 'One evaluation is one simulated run: seed -> generated configuration, operations, schedule and faults. '
                        'Runs are distinct if their event hashes (all scheduling deviations, requests, replies, faults, in order with '
                        'simulated times) differ; non-trivial if ' + conf.get('rule', 'the run was conclusive') + '.',
                'samples': samples,
                'distinct_executions': len(hashes),
                'distinct_abstract_states': len(states),
                'scheduling_points': points,
                'simulated_seconds': round(simsec, 1),
                'runs_per_hour': round(done / explore_s * 3600) if explore_s > 0 else 0,
                'simulated_hours_per_hour': round(simsec / explore_s, 1) if explore_s > 0 else 0,
                'scenarios': dict(per_sc),
                'faults_and_deviations_injected': dict(sorted(kinds.items())),
                'workload': dict(sorted(stats.items())),
                'probes': dict(sorted(probes.items())),
                'probes_at_zero': [k for k in conf.get('want', []) if not (stats.get(k) or probes.get(k) or kinds.get(k))],
                'inconclusive_runs': dict(inconcl),
                'harness_errors': len(herr),
                'determinism_rechecks': det_n, 'determinism_mismatches': det_bad,
                'violations_of_other_properties_seen': dict(other),
                'build_s': round(sim.build_s, 1), 'explore_s': round(explore_s, 1), 'workers': WORKERS,
                'components_real': conf.get('real', REAL), 'components_stubbed': conf.get('stubs', STUBS),
            },
            'assumptions': conf.get('assumptions', []),
            'wall_s': round(wall, 1),
            'violations': nviol,
        }
        os.makedirs(EVID, exist_ok=True)
        with open('%s/%s.json' % (EVID, prop), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d runs (%d distinct non-trivial), %.0f simulated s, %d scheduling points, build %.1f s, explore %.1f s, %d violation(s)%s' % (
            prop, tier, done, len(nontriv), simsec, points, sim.build_s, explore_s, nviol,
            ', %d inconclusive' % sum(inconcl.values()) if inconcl else ''))
        if code == 0:
            if det_bad:
                print('NON-DETERMINISTIC: seeds %s' % det_bad)
                if len(det_bad) * 3 > det_n:
                    code = 2
            if herr:
                print('%d harness errors, first: %s' % (len(herr), herr[0]))
                if len(herr) > max(2, runs // 50):
                    code = 2
            if done < min(runs, 20) or len(nontriv) * 10 < done:
                print('too few conclusive runs')
                code = 2
        return code
    finally:
        sim.close()


def replay(path):
    rp = json.load(open(path))
    sim = Sim()
    try:
        sim.build()
        r = sim.run(rp['plan'])
        prop = rp['property']
        hit = [v for v in relevant(prop, PROPS[prop], r) if v['sig'] == rp['violation']['sig']]
        for l in r.get('trace') or []:
            print(l)
        print('hash %s, recorded %s' % (r['hash'], rp['hash']))
        if hit:
            print(hit[0]['msg'])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        print('not reproduced on this tree')
        return 0
    finally:
        sim.close()


def determinism(sc, n):
    sim = Sim()
    try:
        sim.build()
        plans = [{'scenario': sc, 'seed': seed_of('det', sc, i), 'gen': True, 'force': {}, 'allow': None} for i in range(n)]
        hs = []
        for w in (WORKERS, max(1, WORKERS // 2)):
            with ThreadPoolExecutor(w) as ex:
                hs.append([r['hash'] for r in ex.map(sim.run, plans)])
        bad = [p['seed'] for p, a, b in zip(plans, *hs) if a != b]
        print('%d seeds twice, %d mismatches %s' % (n, len(bad), bad[:10]))
        return 2 if bad else 0
    finally:
        sim.close()


if __name__ == '__main__':
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == 'replay':
        sys.exit(replay(a[1]))
    if a[0] == 'determinism':
        sys.exit(determinism(a[1], int(a[2])))
    if a[0] == 'setup':
        s = Sim()
        try:
            s.build()
            print('built in %.1f s' % s.build_s)
        finally:
            s.close()
        sys.exit(0)
    sys.exit(check(a[0], (a[1] if len(a) > 1 else os.environ.get('VERIF_TIER') or 'quick')))
