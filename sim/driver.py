"""check <PROPERTY>: explore, report, replay.

  driver.py C01                      run the check (VERIF_SEED, VERIF_TIER)
  driver.py --replay FILE            re-execute a recorded violation exactly
  driver.py --determinism C01 N      run N seeds twice under different worker counts and hash seeds
"""
import collections, copy, hashlib, json, os, queue, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from sim import prep

PY = '/opt/venv/bin/python'
NPROC = int(os.environ.get('SIM_JOBS', '0')) or min(8, os.cpu_count() or 1)


class Worker:
    def __init__(self, lib, scratch, hashseed):
        env = dict(os.environ, MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
                   PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', MPLCONFIGDIR=os.path.join(prep.BUILD, 'mpl'),
                   LC_ALL='C.UTF-8', TZ='UTC')
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), '--lib', lib, '--scratch', scratch],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, start_new_session=True)

    def ready(self):
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError('worker did not start (does the library import?)')

    def call(self, task):
        self.p.stdin.write((json.dumps(task) + '\n').encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError('worker died on %s' % json.dumps(task)[:300])
        return json.loads(line)

    def close(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()


class HarnessError(Exception):
    pass


class Pool:
    def __init__(self, n=NPROC, hashseed=11, log=print):
        self.lib = prep.prepare(log)
        self.scratch = tempfile.mkdtemp(prefix='scratch-', dir=prep.BUILD)
        self.ws = [Worker(self.lib, self.scratch, hashseed + k) for k in range(n)]
        for w in self.ws:
            w.ready()

    def close(self):
        for w in self.ws:
            w.close()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def map(self, tasks, on_result, deadline=None, stop=lambda: False):
        """feed tasks to the workers; results are handed over in task order"""
        it = iter(enumerate(tasks))
        lock = threading.Lock()
        done = {}
        state = {'next': 0, 'err': None}

        def loop(w):
            while True:
                with lock:
                    if stop() or state['err'] or (deadline and time.monotonic() > deadline):
                        return
                    try:
                        k, t = next(it)
                    except StopIteration:
                        return
                try:
                    r = w.call(t)
                except Exception as e:
                    with lock:
                        state['err'] = e
                    return
                with lock:
                    try:
                        done[k] = r
                        while state['next'] in done:
                            on_result(done.pop(state['next']))
                            state['next'] += 1
                    except Exception as e:
                        state['err'] = e
                        return
        ts = [threading.Thread(target=loop, args=(w,)) for w in self.ws]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if state['err']:
            raise state['err']
        for k in sorted(done):
            on_result(done[k])


# ---- minimisation ---------------------------------------------------------------------------
def size(spec):
    return (sum(len(t) for t in spec['threads']), len(spec.get('faults', ())), len(spec.get('sched', ())), len(json.dumps(spec)))


def drop_op(spec, t, i):
    s = copy.deepcopy(spec)
    del s['threads'][t][i]
    s['faults'] = [dict(f, op=f['op'] - (f['op'] > i)) if f['t'] == t else f for f in s.get('faults', ()) if not (f['t'] == t and f['op'] == i)]
    s['sched'] = [([x[0], x[1] - (x[1] > i)] + x[2:]) if x[0] == t else x for x in s.get('sched', ()) if not (x[0] == t and x[1] == i)]
    return s


def candidates(spec):
    for t in range(len(spec['threads'])):
        for i in reversed(range(len(spec['threads'][t]))):
            if sum(map(len, spec['threads'])) > 1 and not spec.get('rigid'):
                yield drop_op(spec, t, i)
    fs = spec.get('faults', [])
    for i in range(len(fs)):
        s = copy.deepcopy(spec)
        del s['faults'][i]
        yield s
    sc = spec.get('sched', [])
    n = len(sc)
    step = n
    while step >= 1:
        for a in range(0, n, step):
            s = copy.deepcopy(spec)
            del s['sched'][a:a + step]
            yield s
        step //= 2
    if n <= 12:
        for a in range(n):
            if isinstance(sc[a][2], list) and sc[a][2][0] == 'span':
                _, lo, hi, st = sc[a][2]
                mid = lo + (hi - lo) // 2 // st * st
                for x, y in ((lo, mid), (mid, hi), (lo, hi - st), (lo + st, hi), (lo, mid + (hi - mid) // 2 // st * st), (lo + (mid - lo) // 2 // st * st, hi)):
                    if lo <= x < y <= hi and (x, y) != (lo, hi):
                        s = copy.deepcopy(spec)
                        s['sched'][a][2] = ['span', x, y, st] if y - x > st else x
                        yield s
    for k in ('ambient',):
        if spec.get(k):
            s = copy.deepcopy(spec)
            s[k] = {}
            yield s
    for t, ops in enumerate(spec['threads']):
        for i, o in enumerate(ops):
            if o.get('round'):
                s = copy.deepcopy(spec)
                del s['threads'][t][i]['round']
                yield s
            for k, v in o['a'].items():
                if isinstance(v, int) and not isinstance(v, bool) and v > 1 and k in ('maxiter', 'N'):
                    for w in (0, 1, v // 2):
                        s = copy.deepcopy(spec)
                        s['threads'][t][i]['a'][k] = w
                        yield s


def minimise(pool, spec, cls, budget=60, tries=250):
    best = spec
    end = time.monotonic() + budget
    progress = True
    n = 0
    while progress and time.monotonic() < end and n < tries:
        progress = False
        tasks = []
        for s in candidates(best):
            tasks.append({'prop': spec['prop'], 'spec': s, 'want': True})
        for a in range(0, len(tasks), len(pool.ws)):
            if time.monotonic() > end or n > tries:
                break
            res = []
            pool.map(tasks[a:a + len(pool.ws)], res.append)
            n += len(res)
            ok = [r for r in res if any(v['class'] == cls for v in r.get('viol', ()))]
            if ok:
                best = ok[0]['task']['spec']
                progress = True
                break
    # drop pool entries nobody uses: keep indices stable by blanking them
    s = copy.deepcopy(best)
    used = set()

    def walk(v):
        if isinstance(v, list):
            if len(v) == 2 and v[0] == '$':
                used.add(v[1])
            for x in v:
                walk(x)
        elif isinstance(v, dict):
            for x in v.values():
                walk(x)
    walk(s['threads'])
    walk(s.get('faults', []))
    s['pool'] = [p if k in used else None for k, p in enumerate(s['pool'])]
    res = []
    pool.map([{'prop': spec['prop'], 'spec': s, 'want': True}], res.append)
    if any(v['class'] == cls for v in res[0].get('viol', ())):
        best = s
    return best, n


# ---- known findings -------------------------------------------------------------------------
def known(pid):
    try:
        with open(os.path.join(ROOT, 'known_findings.json')) as f:
            k = json.load(f)
    except OSError:
        return []
    return [x for x in k.get('findings', []) if x['property'] == pid]


def is_known(v, kn):
    for x in kn:
        if all(s in (v['class'] + ' ' + v['what']) for s in x['match']):
            return x
    return None


# ---- the check ------------------------------------------------------------------------------
def check(pid, tier, seed):
    t0 = time.monotonic()
    from sim.propinfo import INFO
    info = INFO[pid]
    total = int(os.environ.get('SIM_RUNS', 0)) or info['runs'][tier]
    cap = float(os.environ.get('SIM_WALL', 0)) or (330 if tier == 'quick' else 3000)
    print('check %s tier=%s seed=%d runs=%d workers=%d' % (pid, tier, seed, total, NPROC), flush=True)
    A = collections.Counter()
    stats = collections.Counter()
    hashes, nthash = set(), set()
    samples, viols, incs = [], [], []
    kn = known(pid)
    knseen = {}

    def on(r):
        A['runs'] += 1
        A['children'] += r.get('children', 0) or 0
        A['refs'] += r.get('nref', 0) or 0
        if 'inconclusive' in r or 'harness' in r or 'timeout' in r or 'crash' in r:
            A['inconclusive'] += 1
            incs.append({'task': r['task'].get('i'), 'why': str(r.get('inconclusive') or r.get('harness') or r.get('timeout') or r.get('crash'))[-500:]})
        if 'h' in r:
            hashes.add(r['h'])
            A['steps'] += r['steps']
            A['switches'] += r['switches']
            A['faults'] += sum(r['fired'])
            stats.update(r['stats'])
            if r.get('nontrivial'):
                nthash.add(r['h'])
        for v in r.get('viol', ()):
            x = is_known(v, kn)
            if x:
                knseen[x['id']] = x
            else:
                viols.append((r, v))
        if r.get('spec') and 'h' in r and not r.get('viol') and len(samples) < 3:
            samples.append({'run': r['spec'].get('id'), 'spec': r['spec'], 'outcomes': r.get('outs'), 'history_hash': r['h']})

    def tasks():
        for i in range(total):
            yield {'prop': pid, 'seed': seed, 'i': i, 'want': i in (0, 1, total // 2)}

    pool = None
    try:
        pool = Pool(log=lambda *a: print(*a, flush=True))
        t1 = time.monotonic()
        pool.map(tasks(), on, deadline=t0 + cap, stop=lambda: bool(viols))
        t2 = time.monotonic()
        code = 0
        replay = None
        if viols:
            code, replay = report(pool, pid, seed, viols)
    except (HarnessError, prep.BuildError) as e:
        print('HARNESS-ERROR %s' % e, flush=True)
        return 2
    finally:
        if pool:
            pool.close()
    wall = time.monotonic() - t0
    for x in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, x['what']), flush=True)
    runs = A['runs']
    rate = runs / max(t2 - t1, 1e-9) * 3600
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs, 'distinct_nontrivial': len(nthash),
            'rule': info['rule'],
            'samples': samples or [{'note': 'stopped at the first violation'}],
            'runs_requested': total, 'simulated_runs_per_hour': round(rate), 'seeds_per_hour': round(rate),
            'simulated_executions': A['children'] + A['refs'],
            'reference_executions': A['refs'],
            'simulated_time': {'unit': 'scheduler points passed (source lines, seam calls)', 'total': A['steps'], 'mean_per_run': round(A['steps'] / max(runs, 1), 1)},
            'faults_fired': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
            'context_switches': stats.get('switch', 0),
            'other_events': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault:') and k != 'switch'},
            'distinct_interleavings': len(hashes),
            'distinct_measure': 'rolling hash over every executed library line, seam call, fault and context switch of a run, in order',
            'inconclusive_runs': A['inconclusive'], 'inconclusive_samples': incs[:5],
            'real_components': info['real'], 'stubbed_components': info['stub'],
        },
        'assumptions': info['assumptions'],
        'wall_s': round(wall, 1), 'violations': len(viols),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d runs (%d inconclusive), %d distinct histories, %d points, %d faults, %d switches, %.0f s'
          % (pid, runs, A['inconclusive'], len(hashes), A['steps'], A['faults'], A['switches'], wall), flush=True)
    if os.environ.get('SIM_DEBUG'):
        for x in incs[:20]:
            print(x)
    if code:
        return code
    if runs < 0.3 * total and tier == 'quick':
        print('HARNESS-ERROR only %d of %d runs finished in the wall-clock budget' % (runs, total))
        return 2
    if A['inconclusive'] > 0.1 * runs:
        print('HARNESS-ERROR %d of %d runs were inconclusive: %s' % (A['inconclusive'], runs, incs[:2]))
        return 2
    return 0


def report(pool, pid, seed, viols):
    """minimise, write the replay file, re-execute it in fresh processes, announce"""
    out = os.environ.get('SIM_REPLAYS', os.path.join(ROOT, 'replays'))
    os.makedirs(out, exist_ok=True)
    last = None
    for r, v in viols[:4]:
        spec = r['spec']
        print('candidate violation in run %s: %s' % (spec.get('id'), v['what'][:600]), flush=True)
        small, n = minimise(pool, spec, v['class'])
        res = []
        pool.map([{'prop': pid, 'spec': small, 'want': True, 'trace': True}] * 2, res.append)
        vs = [[x for x in q.get('viol', ()) if x['class'] == v['class']] for q in res]
        if not all(vs) or res[0].get('h') != res[1].get('h'):
            small = spec
            res = []
            pool.map([{'prop': pid, 'spec': small, 'want': True, 'trace': True}] * 2, res.append)
            vs = [[x for x in q.get('viol', ()) if x['class'] == v['class']] for q in res]
            if not all(vs):
                last = 'violation did not replay: %s' % v['what'][:300]
                print('HARNESS-ERROR ' + last, flush=True)
                continue
        name = '%s-%s.json' % (pid, hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(out, name)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'violation': vs[0][0], 'seed': spec.get('id'), 'history_hash': res[0]['h'],
                       'minimised_from': size(spec), 'minimised_to': size(small), 'executions_used': n,
                       'spec': small, 'outcomes': res[0].get('outs'), 'trace': res[0].get('events')}, f, indent=1)
        print('violated: %s' % vs[0][0]['what'][:1500])
        print('seed/run %s, minimised (ops, faults, switches, bytes) %s -> %s' % (spec.get('id'), size(spec), size(small)))
        print('replay with: %s %s --replay %s' % (PY, os.path.join('sim', 'driver.py'), path))
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        return 1, path
    return 2, None


def replay(path):
    with open(path) as f:
        d = json.load(f)
    with Pool(2, hashseed=77) as pool:
        res = []
        pool.map([{'prop': d['property'], 'spec': d['spec'], 'want': True, 'trace': True}], res.append)
    r = res[0]
    vs = [v for v in r.get('viol', ()) if v['class'] == d['violation']['class']]
    print(json.dumps({'outcomes': r.get('outs'), 'history_hash': r.get('h'), 'same_history': r.get('h') == d['history_hash'],
                      'inconclusive': r.get('inconclusive')}, indent=1))
    for e in r.get('events') or ():
        print('  ', e)
    if vs:
        print('violated: %s' % vs[0]['what'])
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('not reproduced on this tree')
    return 0


def determinism(pids, n, seed=5):
    bad = 0
    got = []
    for jobs, hs in ((NPROC, 11), (max(1, NPROC // 3), 901)):
        rows = {}
        with Pool(jobs, hashseed=hs) as pool:
            for pid in pids:
                pool.map(({'prop': pid, 'seed': seed, 'i': i, 'want': True} for i in range(n)),
                         lambda r: rows.__setitem__((r['task']['prop'], r['task']['i']), (r.get('h'), r.get('steps'), json.dumps(r.get('outs'), sort_keys=True),
                                                    json.dumps(r.get('spec'), sort_keys=True), json.dumps(r.get('viol')), 'inconclusive' in r)))
        got.append(rows)
    for k in sorted(got[0]):
        a, b = got[0][k], got[1].get(k)
        if a != b and not (a[5] or (b and b[5])):
            bad += 1
            print('DIVERGED', k, [i for i in range(6) if a[i] != b[i]])
            if bad < 4:
                for i in (2, 3):
                    if a[i] != b[i]:
                        print('  ', a[i][:1500], '\n  ', b[i][:1500])
    print('determinism: %d runs twice (%d vs %d workers, different PYTHONHASHSEED), %d diverged' % (len(got[0]), NPROC, max(1, NPROC // 3), bad))
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a[0] == '--replay':
        return replay(a[1])
    if a[0] == '--determinism':
        from sim.propinfo import INFO
        pids = sorted(INFO) if a[1] == 'all' else a[1].split(',')
        return determinism(pids, int(a[2]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    return check(a[0], tier, int(os.environ.get('VERIF_SEED', '1')))


if __name__ == '__main__':
    try:
        sys.exit(main())
    except KeyboardInterrupt:
        sys.exit(130)
