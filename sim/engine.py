"""Parent of a check: seeds, workers, minimisation, replay files, evidence.

usage: engine.py CHECK [--tier quick|thorough] [--seed N] [--workers N] [--runs N]
       engine.py CHECK --replay FILE
"""
import argparse
import collections
import importlib
import json
import os
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class StartupError(Exception):
    pass


class Worker:
    seq = 0

    def __init__(self, check, tmp, env, session=True):
        Worker.seq += 1
        self.n = Worker.seq
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.errf = os.path.join(tmp, 'worker%d.err' % self.n)
        # same length whatever the number: path lengths must not vary
        sc = os.path.join(tmp, 'w%04d' % self.n)
        os.makedirs(os.path.join(sc, 'tmp'))
        e = dict(env)
        e['TMPDIR'] = os.path.join(sc, 'tmp')
        with open(self.errf, 'wb') as ef:
            self.p = subprocess.Popen([PY, '-B', os.path.join(HERE, 'worker.py'), check, sc, str(r1), str(w2)],
                                      env=e, pass_fds=(r1, w2), stdin=subprocess.DEVNULL,
                                      stdout=subprocess.DEVNULL, stderr=ef, cwd=sc,
                                      start_new_session=session)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.buf = b''
        self.busy = None
        self.ready = False
        self.session = session

    def send(self, obj):
        data = (json.dumps(obj) + '\n').encode()
        while data:
            data = data[os.write(self.w, data):]

    def feed(self):
        b = os.read(self.r, 1 << 20)
        if not b:
            err = open(self.errf, errors='replace').read()[-3000:]
            raise StartupError('worker ended: rc=%s\n%s' % (self.p.poll(), err))
        self.buf += b
        out = []
        while b'\n' in self.buf:
            l, self.buf = self.buf.split(b'\n', 1)
            out.append(json.loads(l))
        return out

    def call(self, obj, timeout=600):
        """Synchronous request (used for replay)."""
        sel = selectors.DefaultSelector()
        sel.register(self.r, selectors.EVENT_READ)
        self.wait_ready(sel)
        self.send(obj)
        end = time.monotonic() + timeout
        while time.monotonic() < end:
            if sel.select(end - time.monotonic()):
                for m in self.feed():
                    return m
        raise RuntimeError('worker does not answer')

    def wait_ready(self, sel):
        while not self.ready:
            if not sel.select(120):
                raise RuntimeError('worker does not start')
            for m in self.feed():
                self.ready = True

    def stop(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            if self.session:
                os.killpg(self.p.pid, signal.SIGKILL)
            else:
                self.p.kill()
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()


class Engine:
    def __init__(self, check_id, tier, seed, workers, hashseed='0'):
        self.id = check_id
        self.chk = importlib.import_module('checks.' + check_id.lower())
        self.tier, self.seed = tier, seed
        self.nworkers = workers
        self.tmp = tempfile.mkdtemp(prefix='wcxfsim.')
        self.workers = []
        self.env = {
            'PATH': '/opt/venv/bin:/usr/bin:/bin', 'HOME': self.tmp, 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
            'PYTHONHASHSEED': hashseed, 'PYTHONNOUSERSITE': '1', 'PYTHONUNBUFFERED': '',
            'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': os.path.join(self.tmp, 'pyc'),
            'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore',
            'LD_PRELOAD': os.path.join(self.tmp, 'shim.so'), 'TZ': 'UTC',
        }
        for k in ('SIM_CHILD_TIMEOUT',):
            if k in os.environ:
                self.env[k] = os.environ[k]

    def build(self):
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', os.path.join(self.tmp, 'shim.so'),
                        os.path.join(HERE, 'shim.c'), '-ldl'], check=True)
        # byte-code of the current tree, into a private directory
        e = dict(self.env)
        e.pop('LD_PRELOAD')
        e.pop('PYTHONDONTWRITEBYTECODE')
        subprocess.run([PY, '-W', 'ignore', '-m', 'compileall', '-q', '/repo/wcxf', HERE, os.path.join(VERIF, 'checks')],
                       env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def start(self, n=None):
        for _ in range(n or self.nworkers):
            self.workers.append(Worker(self.id, self.tmp, self.env))

    def close(self):
        for w in self.workers:
            w.stop()
        shutil.rmtree(self.tmp, ignore_errors=True)

    # -- work distribution ----------------------------------------------
    def map(self, reqs, on_result, stop=lambda: False, deadline=None):
        """Send requests (iterator) to free workers; call on_result(req, answer)."""
        sel = selectors.DefaultSelector()
        for w in self.workers:
            sel.register(w.r, selectors.EVENT_READ, w)
        reqs = iter(reqs)
        exhausted = False
        pending = 0
        last = time.monotonic()
        for w in self.workers:
            w.busy = None

        def give(w):
            nonlocal exhausted, pending
            if exhausted or stop() or (deadline and time.monotonic() > deadline):
                exhausted = True
                return
            try:
                q = next(reqs)
            except StopIteration:
                exhausted = True
                return
            w.busy = q
            pending += 1
            w.send(q)
        for w in self.workers:
            if w.ready:
                give(w)
        waiting = [w for w in self.workers if not w.ready]
        while pending or (waiting and not exhausted):
            ev = sel.select(60)
            if not ev:
                if time.monotonic() - last > 400:
                    raise RuntimeError('no worker answered for 400 s')
                continue
            last = time.monotonic()
            for key, _ in ev:
                w = key.data
                for m in w.feed():
                    if not w.ready:
                        w.ready = True
                        waiting.remove(w)
                        give(w)
                        continue
                    q, w.busy = w.busy, None
                    pending -= 1
                    on_result(q, m)
                    give(w)


def classes(res):
    return sorted({v['cls'] for v in res.get('viol', ())})


def known_findings(cid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: property=%s ' % cid):
                # finding: property=<id> class=<violation class> <what fails>
                rest = l.split(None, 2)[2]
                cls, text = rest.split(None, 1)
                out.append((cls.split('=', 1)[1], text))
    return out


def candidates(chk, spec):
    try:
        yield from chk.shrink(spec)
    except Exception:
        # the violation is reported with the trace as far as it got
        traceback.print_exc()


def minimise(eng, spec, cls, budget):
    """Greedy parallel shrinking: take the first candidate (in order) that
    still shows a violation of the same class."""
    end = time.monotonic() + budget
    tried = 0
    cur = spec
    while time.monotonic() < end:
        cands = []
        seen = {json.dumps(cur, sort_keys=True)}
        for c in candidates(eng.chk, cur):
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                cands.append(c)
            if len(cands) >= 400:
                break
        best = [None]
        got = {}

        def on(q, m):
            nonlocal tried
            tried += 1
            if 'res' in m and cls in classes(m['res']):
                got[q['k']] = True
                if best[0] is None or q['k'] < best[0]:
                    best[0] = q['k']
        eng.map(({'cmd': 'spec', 'spec': c, 'k': k} for k, c in enumerate(cands)), on,
                stop=lambda: best[0] is not None, deadline=end)
        if best[0] is None:
            break
        cur = cands[best[0]]
    return cur, tried


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--workers', type=int, default=int(os.environ.get('SIM_WORKERS', '0')) or min(8, os.cpu_count() or 2))
    ap.add_argument('--runs', type=int, default=0)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--hashseed', default='0')
    ap.add_argument('--dump-logs', help='write run index, result signature per line (determinism diffs)')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.monotonic()

    def bye(*_):
        sys.exit(2)
    signal.signal(signal.SIGTERM, bye)
    eng = Engine(a.check.upper(), a.tier, a.seed, a.workers, a.hashseed)
    try:
        return (replay if a.replay else explore)(eng, a, t0)
    except StartupError as e:
        return startup_violation(eng, a, str(e))
    finally:
        eng.close()


def startup_violation(eng, a, msg):
    """The package cannot even be loaded without any fault: nothing the
    property promises is available.  Only if the traceback is in /repo."""
    sys.stderr.write(msg + '\n')
    if '/repo/wcxf' not in msg:
        return 2
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, '%s-startup.json' % eng.id)
    with open(p, 'w') as f:
        json.dump({'check': eng.id, 'startup': True, 'message': msg[-2000:]}, f, indent=1)
    print('the package cannot be imported in the simulator without any fault')
    print('VIOLATION property=%s replay=%s' % (eng.id, p))
    return 1


def replay(eng, a, t0):
    rp = json.load(open(a.replay))
    eng.build()
    eng.start(1)
    if rp.get('startup'):
        eng.workers[0].call({'cmd': 'spec', 'spec': {}})
        print('imported: not reproduced')
        return 0
    m = eng.workers[0].call({'cmd': 'spec', 'spec': rp['spec']})
    if 'error' in m:
        sys.stderr.write(m['error'])
        return 2
    res = m['res']
    print(json.dumps({'expected': rp['violation'], 'got': res.get('viol'), 'log': res.get('sig')}, indent=1))
    if rp['cls'] in classes(res):
        same = res.get('sig') == rp.get('sig')
        print('reproduced%s' % ('' if same else ' (event log differs)'))
        print('VIOLATION property=%s replay=%s' % (eng.id, a.replay))
        return 1
    print('not reproduced')
    return 0


def explore(eng, a, t0):
    chk = eng.chk
    nruns, cap = chk.BUDGET[a.tier]
    if a.runs:
        nruns = a.runs
    eng.build()
    eng.start()
    known = dict(known_findings(eng.id))
    stats = collections.Counter()
    sigs, states = set(), set()
    viols, errors, samples = [], [], []
    knownseen = collections.Counter()
    logs = {}
    done = 0
    nontriv = 0

    def on(q, m):
        nonlocal done, nontriv
        if 'error' in m:
            errors.append((q['i'], m['error'], m.get('spec')))
            return
        if m.get('skip'):
            stats['skipped'] += 1
            return
        r = m['res']
        done += 1
        for k, v in r.get('stats', {}).items():
            stats[k] += v
        if r.get('nontrivial', True):
            nontriv += 1
            sigs.add(r.get('sig'))
        for s in r.get('states', ()):
            states.add(s)
        logs[q['i']] = (r.get('sig'), classes(r))
        if len(samples) < 4 and r.get('nontrivial', True) and q['i'] >= 3 * len(samples):
            samples.append({'run': q['i'], 'spec': trim(m['spec']), 'observed': r.get('sample')})
        new = [v for v in r.get('viol', ()) if v['cls'] not in known]
        for v in r.get('viol', ()):
            if v['cls'] in known:
                knownseen[v['cls']] += 1
        if new:
            viols.append((q['i'], m['spec'], new))
    deadline = t0 + cap
    eng.map(({'cmd': 'index', 'seed': a.seed, 'tier': a.tier, 'i': i} for i in range(a.first, a.first + nruns)), on,
            stop=lambda: bool(viols) and not a.keep_going, deadline=deadline)
    t_explore = time.monotonic() - t0
    if a.keep_going:
        c = collections.Counter(v['cls'] for _, _, vs in viols for v in vs)
        for k, n in c.most_common():
            print('found', n, k)
        for i, spec, vs in sorted(viols, key=lambda x: x[0])[:4]:
            print(' run', i, json.dumps(vs)[:400], json.dumps(spec)[:300])
    # determinism probe: some runs again, in whatever worker comes first
    det = {'checked': 0, 'differ': 0}
    if not viols and not a.dump_logs:
        again = sorted(logs)[:: max(1, len(logs) // 16)][:16]

        def on2(q, m):
            if 'res' in m:
                det['checked'] += 1
                if (m['res'].get('sig'), classes(m['res'])) != logs[q['i']]:
                    det['differ'] += 1
        eng.map(({'cmd': 'index', 'seed': a.seed, 'tier': a.tier, 'i': i} for i in reversed(again)), on2, deadline=deadline + 60)
    if a.dump_logs:
        with open(a.dump_logs, 'w') as f:
            for i in sorted(logs):
                f.write('%d %s %s\n' % (i, logs[i][0], logs[i][1]))
    rc = 0
    reported = []
    unconfirmed = []
    if viols:
        viols.sort(key=lambda x: x[0])
        i, spec, vs = viols[0]
        rc, reported, unconfirmed = report(eng, a, viols)
    for cls, n in sorted(knownseen.items()):
        print('KNOWN-FINDING: property=%s %s' % (eng.id, known[cls]))
    if errors and rc == 0:
        sys.stderr.write('%d harness errors; first (run %s):\n%s\n' % (len(errors), errors[0][0], errors[0][1]))
        rc = 2
    if unconfirmed and rc == 0:
        sys.stderr.write('a suspected violation did not reproduce: %r\n' % (unconfirmed[:1],))
        rc = 2
    if done == 0 and rc == 0:
        sys.stderr.write('no run completed\n')
        rc = 2
    fair = [p for p in getattr(chk, 'PROBES', ()) if not stats.get(p)]
    wall = time.monotonic() - t0
    if not a.no_evidence:
        ev = {
            'property': eng.id, 'tier': a.tier, 'seed': int(a.seed) if str(a.seed).lstrip('-').isdigit() else 0,
            'level': 'exploration',
            'coverage': {
                'evaluations': done, 'distinct_nontrivial': len(sigs), 'rule': chk.RULE,
                'samples': samples or [{'run': None}],
                'simulated_runs': done, 'runs_requested': nruns, 'nontrivial_runs': nontriv,
                'runs_per_hour': int(done / max(t_explore, 1e-3) * 3600),
                'simulated_time': 'no code under test reads a clock; extent is counted in steps: %d scheduler steps, %d library/system-call steps'
                                  % (stats.get('sched_steps', 0), stats.get('os_steps', 0)),
                'faults_fired': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
                'probes': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('probe:')},
                'probes_never_hit': fair,
                'other_counts': {k: v for k, v in sorted(stats.items()) if not k.startswith(('fault:', 'probe:'))},
                'distinct_states': len(states),
                'determinism': det,
                'real_components': chk.REAL, 'stubbed_components': chk.STUB,
                'workers': eng.nworkers,
                'stopped_by': 'violation' if viols else 'wall-clock cap' if done + len(errors) + stats.get('skipped', 0) < nruns else 'run budget',
            },
            'wall_s': round(wall, 2), 'violations': len(reported),
            'assumptions': chk.ASSUMPTIONS,
        }
        if reported:
            ev['coverage']['violation'] = reported
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, eng.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d runs, %d distinct, %d faults fired, %.1f s, exit %d' % (
        eng.id, a.tier, done, len(sigs), sum(v for k, v in stats.items() if k.startswith('fault:')), wall, rc))
    return rc


def report(eng, a, viols):
    unconfirmed = []
    tried = set()
    for i, spec, vs in viols[:12]:
        cls = vs[0]['cls']
        if cls in tried and len(tried) > 3:
            continue
        tried.add(cls)
        # confirm in a fresh worker before anything else
        ok = False
        for _ in range(3):
            w = Worker(eng.id, eng.tmp, eng.env)
            try:
                m = w.call({'cmd': 'spec', 'spec': spec})
            finally:
                w.stop()
            if 'res' in m and cls in classes(m['res']):
                ok = True
                break
        if not ok:
            unconfirmed.append((i, cls, vs))
            continue
        small, n = minimise(eng, spec, cls, 40 if a.tier == 'quick' else 120)
        final = None
        for cand in (small, spec):
            w = Worker(eng.id, eng.tmp, eng.env)
            try:
                m = w.call({'cmd': 'spec', 'spec': cand})
            finally:
                w.stop()
            if 'res' in m and cls in classes(m['res']):
                final = (cand, m['res'])
                break
        if final is None:
            unconfirmed.append((i, cls, vs))
            continue
        cand, res = final
        v = [x for x in res['viol'] if x['cls'] == cls][0]
        os.makedirs(REPLAYS, exist_ok=True)
        p = os.path.join(REPLAYS, '%s-seed%s-run%d.json' % (eng.id, a.seed, i))
        with open(p, 'w') as f:
            json.dump({'check': eng.id, 'seed': a.seed, 'tier': a.tier, 'run': i, 'cls': cls, 'violation': v,
                       'sig': res.get('sig'), 'spec': cand, 'trace': res.get('trace'),
                       'shrink_runs': n, 'original_spec': spec}, f, indent=1)
        print('violation class %s: %s' % (cls, v['msg'][:1500]))
        print('replay with: /verif/run.sh %s --replay %s' % (eng.id, p))
        print('VIOLATION property=%s replay=%s' % (eng.id, p))
        return 1, [{'class': cls, 'message': v['msg'][:1500], 'replay': p, 'run': i}], unconfirmed
    return 0, [], unconfirmed


def trim(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
