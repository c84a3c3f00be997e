"""C10: running couplings and masses depend only on the arguments."""
import json
import simlib
import tsched
from checks.common import viol, drop_each, with_

ID = 'C10'
MODE = 'nobases'
BUDGET = {'quick': (5500, 300), 'thorough': (40000, 3000)}
RULE = 'distinct (sequence of calls, interleaving, exceptions injected, results)'
REAL = ['wcxf.util.qcd (alpha_s, m_b, m_c, m_s and their caches)', 'rundec']
STUB = ['thread scheduler', 'asynchronous exceptions']
ASSUMPTIONS = ['rundec calls are atomic', 'the reference for each call is the same call alone in a pristine process (relative tolerance 1e-12)',
               'default arguments of the public functions are what their signatures say at the pinned commit']
PROBES = ['probe:eviction', 'probe:types', 'probe:interrupt', 'probe:threads', 'probe:preempted', 'probe:error_call', 'probe:keyword', 'probe:get_parameters']
FN = {'alpha_s': ([91.1876, 4.8, 5, 2.0, 160.0, 1.3, 4.18, 80, 3.0, 10, 1000.0, 2.5, 91.0, 200, 4.2, 1.5], [3, 4, 5, 6]),
      'm_b': ([4.18, 4.2, 4.3, 4], [91.1876, 4.8, 5, 2.0, 160.0, 4.2, 4.18, 80, 3.0, 1000, 4], [3, 4, 5, 6]),
      'm_c': ([1.27, 1.3, 1.5, 1], [91.1876, 4.8, 5, 2.0, 4.2, 3.0, 2, 1.27, 1.3], [3, 4, 5]),
      'm_s': ([0.095, 0.1, 0.09], [91.1876, 4.8, 5, 2.0, 2, 4.2, 160.0, 3.0], [3, 4, 5])}
ALPHAS = [0.1185, 0.117, 0.12]


def setup():
    pass


def rand_call(rng):
    if rng.random() < 0.12:
        f = rng.choice([3, 4, 5])
        return ['get_parameters', [rng.choice([4.8, 91.1876, 2.0, 160.0, 5])], {'f': f} if rng.random() < 0.7 else {}, 'p',
                {} if rng.random() < 0.4 else {k: v for k, v in (('m_b', 4.3), ('m_s', 0.1), ('alpha_s', 0.117), ('Vus', 0.22)) if rng.random() < 0.5}]
    n = rng.choice(sorted(FN))
    args = [rng.choice(x) for x in FN[n]]
    x = rng.random()
    if x < 0.06:
        args[-1] = rng.choice([2, 7, 5.0, 6, 'x', 0])
    elif x < 0.1:
        args[-2] = rng.choice([-1.0, 0, '5', 0.0])
    kw = {}
    y = rng.random()
    if y < 0.25:
        kw['alphasMZ'] = rng.choice(ALPHAS)
    elif y < 0.45:
        args.append(rng.choice(ALPHAS))
    how = 'p'
    z = rng.random()
    if z < 0.1:
        how = 'k'               # all by keyword
    elif z < 0.2:
        how = 'f'               # whole numbers as floats
    elif z < 0.26:
        how = 'n'               # numpy scalars
    elif z < 0.3:
        how = 'i'               # scale truncated to a whole number
    return [n, args, kw, how, None]


def gen(rng, i, tier):
    pool = [rand_call(rng) for _ in range(rng.choice([3, 6, 15, 60]))]
    # the same numbers in other guises
    for c in list(pool):
        if c[0] != 'get_parameters' and rng.random() < 0.5:
            d = json.loads(json.dumps(c))
            d[3] = rng.choice('pkfni')
            pool.append(d)
        if c[0] != 'get_parameters' and rng.random() < 0.4:
            d = json.loads(json.dumps(c))
            d[2] = {'alphasMZ': rng.choice(ALPHAS)}
            d[1] = d[1][:len(FN[c[0]])]
            pool.append(d)
        if c[0] != 'get_parameters' and rng.random() < 0.35:
            # close by, but not the same
            d = json.loads(json.dumps(c))
            k = rng.choice([k for k in range(len(d[1])) if isinstance(d[1][k], float)] or [None])
            if k is not None:
                d[1][k] *= 1 + rng.choice([1e-3, -1e-3, 1e-5, 1e-7, 1e-9])
                pool.append(d)
    n = rng.choice([4, 10, 30, 120])
    seq = [rng.randrange(len(pool)) for _ in range(n)]
    spec = {'pool': pool, 'seq': seq, 'threads': [], 'switches': [], 'first': 0, 'raises': [], 'opcode': rng.random() < 0.5}
    x = rng.random()
    if x < 0.35:
        nt = rng.choice([2, 2, 3])
        spec['seq'] = seq[:4]
        spec['threads'] = [[rng.randrange(len(pool)) for _ in range(rng.choice([1, 2, 3, 5]))] for _ in range(nt)]
        if rng.random() < 0.5:
            # the same calls at the same time
            spec['threads'][1] = list(spec['threads'][0])
        spec['first'] = rng.randrange(nt)
        o = execute(spec)
        if o.result and o.result['steps']:
            n = o.result['steps']
            sw = {}
            for _ in range(rng.randint(1, 5)):
                s = rng.randint(1, n)
                sw[s] = rng.randrange(nt)
                if rng.random() < 0.5:
                    sw[s + rng.choice([1, 2, 3, 8, 20])] = rng.randrange(nt)
            spec['switches'] = sorted([a, b] for a, b in sw.items())
    elif x < 0.6:
        spec['seq'] = seq[:12]
        o = execute(spec, count=True)
        if o.result and o.result['counts']:
            k = rng.randrange(len(spec['seq']))
            c = o.result['counts'][k]
            if c:
                spec['raises'] = [[k, rng.randint(1, c), rng.choice(['KeyboardInterrupt', 'MemoryError'])]]
    return spec


def materialise(c):
    import numpy as np
    n, args, kw, how = c[:4]
    if how == 'f':
        args = [float(a) if isinstance(a, int) and k < len(args) and k != (1 if n == 'alpha_s' else 2) else a for k, a in enumerate(args)]
    elif how == 'n':
        args = [np.float64(a) if isinstance(a, float) else a for a in args]
    elif how == 'i':
        j = 0 if n == 'alpha_s' else 1
        if isinstance(args[j], float) and args[j] >= 1:
            args = list(args)
            args[j] = int(args[j])
    kw = dict(kw)
    if how == 'k':
        names = ['scale', 'f', 'alphasMZ'] if n == 'alpha_s' else [{'m_b': 'mbmb', 'm_c': 'mcmc', 'm_s': 'ms2'}[n], 'scale', 'f', 'alphasMZ']
        kw.update(zip(names, args))
        args = []
    return args, kw


def call(c):
    import wcxf.util.qcd
    import wcxf.translators.wet
    try:
        if c[0] == 'get_parameters':
            p = dict(c[4])
            r = wcxf.translators.wet.get_parameters(*c[1], **dict(c[2], **({'input_parameters': p} if p else {})))
            return {k: float(x) if isinstance(x, (int, float)) else repr(x) for k, x in sorted(r.items())}
        a, k = materialise(c)
        r = getattr(wcxf.util.qcd, c[0])(*a, **k)
        return float(r)
    except Exception as e:
        return 'error ' + type(e).__name__


_ref = {}


def reference(c):
    k = json.dumps(c, sort_keys=True)
    if k not in _ref:
        o = simlib.run_child(lambda: [call(c)], arm=False)
        if o.result is None:
            raise simlib.HarnessError('reference process ended: %s %s' % (o.exc, o.stderr))
        _ref[k] = o.result[0]
    return _ref[k]


def execute(spec, count=False):
    def body():
        out, counts, viols = [], [], []
        fired = 0
        for k, j in enumerate(spec['seq']):
            ra = [[s, e] for kk, s, e in spec['raises'] if kk == k]
            if ra or count:
                s, val, exc = tsched.run_single(lambda: call(spec['pool'][j]), raises=ra, opcode_files=['util/qcd.py'] if spec['opcode'] else [])
                counts.append(s.step)
                fired += len(s.raised)
                if s.raised:
                    continue
                if exc is not None:
                    raise exc
                out.append([j, val])
            else:
                out.append([j, call(spec['pool'][j])])
        taken, steps = [], 0
        if spec['threads']:
            s = tsched.Sched(spec['switches'], opcode_files=['util/qcd.py'] if spec['opcode'] else [])

            def thread(t):
                def f(s):
                    for j in spec['threads'][t]:
                        out.append([j, call(spec['pool'][j])])
                return f
            s.run([thread(t) for t in range(len(spec['threads']))], first=spec['first'])
            if s.deadlock:
                viols.append(['deadlock', 'threads blocked'])
            taken, steps = s.taken, s.step
            for j in spec['seq'][:3]:
                out.append([j, call(spec['pool'][j])])
        if spec['raises']:
            # once more, undisturbed
            for j in sorted(set(spec['seq'])):
                out.append([j, call(spec['pool'][j])])
        return {'out': out, 'counts': counts, 'taken': taken, 'steps': steps, 'fired': fired, 'viols': viols}
    return simlib.run_child(body, arm=False)


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-13 * max(abs(a), abs(b)) or (a != a and b != b)
    return a == b


def run(spec):
    o = execute(spec)
    if o.hang:
        return {'viol': [viol('hang', 'no progress')], 'stats': {}, 'sig': 'hang'}
    r = o.result
    if r is None:
        if simlib.harness_fault(o):
            raise simlib.HarnessError('%s %s' % (o.exc, o.stderr))
        return {'viol': [viol('died', '%s %s %s' % (o.status, o.exc, o.stderr))], 'stats': {}, 'sig': 'died'}
    v = [viol(*x) for x in r['viols']]
    for n, (j, got) in enumerate(r['out']):
        ref = reference(spec['pool'][j])
        if not same(got, ref):
            v.append(viol('concurrent' if spec['threads'] else 'after-interrupt' if r['fired'] else 'history',
                          'call %d %s gives %r, alone in a fresh process %r' % (n, spec['pool'][j], got, ref)))
    st = {'sched_steps': r['steps'] + sum(r['counts']), 'fault:preemption': len(r['taken']), 'fault:async_exception': r['fired'], 'calls': len(r['out'])}
    used = [spec['pool'][j] for j, _ in r['out']]
    if len({json.dumps(c) for c in used if c[0] == 'alpha_s'}) > 32 or len({json.dumps(c) for c in used}) > 32:
        st['probe:eviction'] = 1
    if any(c[3] in 'fni' for c in used):
        st['probe:types'] = 1
    if any(c[3] == 'k' or c[2] for c in used):
        st['probe:keyword'] = 1
    if any(c[0] == 'get_parameters' for c in used):
        st['probe:get_parameters'] = 1
    if any(isinstance(x, str) for _, x in r['out']):
        st['probe:error_call'] = 1
    if r['fired']:
        st['probe:interrupt'] = 1
    if spec['threads']:
        st['probe:threads'] = 1
    if r['taken']:
        st['probe:preempted'] = 1
    return {'viol': v[:4], 'stats': st, 'nontrivial': len(r['out']) > 1,
            'sig': simlib.h([spec['pool'], spec['seq'], spec['threads'], spec['raises'], r['taken'], [x[1] for x in r['out']]]),
            'sample': {'calls': used[:6], 'results': [x[1] for x in r['out'][:6]], 'switches': r['taken'], 'raises': spec['raises']},
            'trace': {'switches': r['taken']}}


def shrink(spec):
    if not spec['raises']:
        for s in drop_each(spec['seq']):
            yield with_(spec, seq=s)
    elif len(spec['seq']) > 1:
        k = spec['raises'][0][0]
        if k + 1 < len(spec['seq']):
            yield with_(spec, seq=spec['seq'][:k + 1])
        if k > 0:
            yield with_(spec, seq=spec['seq'][1:], raises=[[kk - 1, s, e] for kk, s, e in spec['raises']])
    for k in range(len(spec['threads'])):
        if len(spec['threads'][k]) > 1:
            for t in drop_each(spec['threads'][k]):
                yield with_(spec, threads=spec['threads'][:k] + [t] + spec['threads'][k + 1:])
    for s in drop_each(spec['switches']):
        yield with_(spec, switches=s)
