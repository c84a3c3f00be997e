"""C09: a translation or matching result depends only on its own arguments."""
import copy
import json
import simlib
import tsched
from checks import cli, hist
from checks.common import viol, drop_each, with_, pick_switches

ID = 'C09'
MODE = 'bases'
BUDGET = {'quick': (1800, 300), 'thorough': (20000, 3000)}
RULE = 'distinct (history of calls and interferences, interleaving, results)'
REAL = ['all translators and matchers, WC, default parameters, running couplings and masses', 'numpy, ckmutil, rundec']
STUB = ['contents of wcxf/bases', 'thread scheduler']
ASSUMPTIONS = ['threads switch between lines (or bytecodes, in some runs) of the package; numpy and rundec calls are atomic',
               'the reference for each call is the same call alone in a pristine process (relative tolerance 1e-9)']
PROBES = ['probe:threads', 'probe:preempted', 'probe:poke_result', 'probe:poke_params', 'probe:shared_input', 'probe:params', 'probe:match',
          'probe:repeat', 'probe:noise']


def setup():
    cli.bases()


def gen(rng, i, tier):
    calls = hist.rand_calls(rng, rng.choice([2, 3, 4, 6]), slow=rng.random() < 0.1)
    ops = []
    threads = []
    if rng.random() < 0.3:
        nt = rng.choice([2, 2, 3])
        threads = [[['call', rng.randrange(len(calls)), rng.random() < 0.5] for _ in range(rng.choice([1, 1, 2]))] for _ in range(nt)]
        if rng.random() < 0.3:
            ops = [['call', rng.randrange(len(calls)), True]]
        tail = [['call', rng.randrange(len(calls)), rng.random() < 0.5]]
        if rng.random() < 0.3:
            # the same route with different values in every thread
            calls = calls[:1]
            for t in range(1, nt):
                calls.append(dict(copy.deepcopy(calls[0]), src=dict(hist.rand_src(rng, calls[0]['route']), scale=calls[0]['src']['scale'])))
            threads = [[['call', t, False]] for t in range(nt)]
            ops, tail = [], [['call', 0, True]]
    else:
        tail = []
        for _ in range(rng.choice([2, 4, 6, 9])):
            x = rng.random()
            if x < 0.65 or not ops:
                ops.append(['call', rng.randrange(len(calls)), rng.random() < 0.5])
            elif x < 0.75:
                ops.append(['poke', rng.randrange(9), rng.choice(['set', 'clear', 'dict', 'del', 'inner'])])
            elif x < 0.83:
                k = rng.choice(sorted(hist.PARAMS))
                ops.append(['param', k, rng.choice(hist.PARAMS[k])])
            elif x < 0.9:
                ops.append(['pcall', rng.randrange(len(calls))])
            else:
                ops.append(['noise', rng.choice(['notrans', 'validate', 'dump', 'str', 'badvalue', 'basis', 'running', 'badparam'])])
    spec = {'calls': calls, 'ops': ops, 'threads': threads, 'tail': tail, 'switches': [], 'first': 0, 'opcode': False}
    if threads:
        spec['opcode'] = rng.random() < 0.15
        spec['first'] = rng.randrange(len(threads))
        o = execute(spec, record=True)
        if o.result and o.result.get('locs'):
            spec['switches'] = pick(rng, o.result['rare'] if o.result['rare'] and rng.random() < 0.4 else o.result['locs'], o.result['steps'], len(threads))
    return spec


def pick(rng, locs, n, nt):
    """Switch points: by place in the code (each place equally likely) or by time."""
    out = {}
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        if locs and rng.random() < 0.6:
            s = rng.choice(rng.choice(locs))
        else:
            s = rng.randint(1, n)
        out[s] = rng.randrange(nt)
        if rng.random() < 0.5:
            out[s + rng.choice([1, 2, 5, 20, 200, 2000])] = rng.randrange(nt)
    return sorted([s, t] for s, t in out.items())


def execute(spec, record=False):
    def body():
        import wcxf
        v = []
        p0 = hist.defaults()
        objs = {}
        results = []        # [call, object, plain]
        shared_params = {}
        probes = set()

        def wc_of(k, shared):
            if not shared:
                return hist.make(spec['calls'][k]['src'])
            key = json.dumps(spec['calls'][k]['src'], sort_keys=True)
            if key not in objs:
                objs[key] = hist.make(spec['calls'][k]['src'])
            else:
                probes.add('shared_input')
            return objs[key]

        def do(op):
            if op[0] == 'call':
                c = spec['calls'][op[1]]
                o, r = hist.do_call(c, wc_of(op[1], op[2]))
                results.append([c, o, r])
                if c['params']:
                    probes.add('params')
                if c['route'][0] == 'match':
                    probes.add('match')
                if o is None:
                    probes.add('failed_call')
            elif op[0] == 'pcall':
                c = dict(spec['calls'][op[1]], params=copy.deepcopy(shared_params))
                before = copy.deepcopy(shared_params)
                o, r = hist.do_call(c, None, params=shared_params)
                if shared_params != before:
                    v.append(['caller-params-changed', 'the parameters given by the caller were modified'])
                results.append([c, o, r])
            elif op[0] == 'param':
                shared_params[op[1]] = op[2]
                probes.add('poke_params')
            elif op[0] == 'poke':
                have = [x for x in results if x[1] is not None]
                if have:
                    x = have[op[1] % len(have)]
                    o = x[1]
                    probes.add('poke_result')
                    ks = sorted(o.values)
                    if op[2] == 'clear':
                        o.values.clear()
                    elif op[2] == 'dict':
                        d = o.dict
                        for k in d:
                            d[k] = 77.0
                    elif op[2] == 'inner':
                        for k in ks:
                            if isinstance(o.values[k], dict):
                                o.values[k]['Re'] = 55.0
                    elif op[2] == 'del' and ks:
                        del o.values[ks[0]]
                    elif ks:
                        o.values[ks[0]] = 99.0
                        o.scale = 1.0
                    x[1] = None           # the caller owns it now
            elif op[0] == 'noise':
                noise(op[1])

        def noise(what):
            probes.add('noise')
            c = spec['calls'][0]
            try:
                if what == 'notrans':
                    hist.make(c['src']).translate('no such basis')
                elif what == 'validate':
                    hist.make(c['src']).validate()
                elif what == 'dump':
                    wcxf.WC.load(hist.make(c['src']).dump(fmt='yaml'))
                elif what == 'str':
                    str(hist.make(c['src']))
                elif what == 'badvalue':
                    s = copy.deepcopy(c['src'])
                    s['values'][sorted(s['values'])[0]] = 'not a number'
                    hist.do_call(dict(c, src=s))
                elif what == 'badparam':
                    hist.do_call(dict(c, params={'Vus': 'x', 'm_b': 'y', 'alpha_s': None, 'GF': 'z'}))
                elif what == 'basis':
                    wcxf.Basis('WET', 'unrelated', {'sb': {'x1': None}})
                elif what == 'running':
                    wcxf.util.qcd.m_b(4.2, 100., 5)
                    wcxf.util.qcd.alpha_s(4.8, 5, 0.12)
            except (ValueError, AssertionError, KeyError, TypeError):
                pass

        def safe(op):
            try:
                do(op)
            except Exception as e:
                import traceback
                v.append(['error', '%s raised %s: %s %s' % (op[0], type(e).__name__, e, traceback.format_exc()[-300:])])
        for op in spec['ops']:
            safe(op)
        taken, steps, locs, rare = [], 0, None, None
        if spec['threads']:
            probes.add('threads')
            s = tsched.Sched(spec['switches'], opcode_files=['*'] if spec['opcode'] else [], record=record, cap=20000000)

            def thread(k):
                def f(s):
                    for op in spec['threads'][k]:
                        safe(op)
                return f
            s.run([thread(k) for k in range(len(spec['threads']))], first=spec['first'])
            if s.deadlock:
                v.append(['deadlock', 'threads blocked'])
            taken, steps = s.taken, s.step
            if taken:
                probes.add('preempted')
            if record:
                by = {}
                for k, t in enumerate(s.trace):
                    by.setdefault(t[1:], []).append(k + 1)
                rare = [x for t, x in sorted(by.items()) if t[0].endswith('classes.py') and len(x) < 50]
                locs = [x if len(x) <= 8 else [x[0], x[1], x[-1], x[len(x) // 2], x[len(x) // 3], x[2 * len(x) // 3]] for _, x in sorted(by.items())]
        for op in spec['tail']:
            safe(op)
        # nothing the caller owns was changed
        for key, o in objs.items():
            src = json.loads(key)
            if json.loads(json.dumps(o.values)) != src['values'] or o.eft != src['eft'] or o.basis != src['basis'] or o.scale != float(src['scale']):
                v.append(['input-changed', 'the Wilson coefficients given as input were modified'])
            d = {k: (x.get('Re', 0) + 1j * x.get('Im', 0)) if isinstance(x, dict) else float(x) for k, x in src['values'].items()}
            if dict(o.dict) != d:
                v.append(['input-changed', 'the dictionary of the input coefficients was modified: %s' % sorted(k for k in set(d) | set(o.dict) if d.get(k) != o.dict.get(k))[:4]])
        if hist.defaults() != p0:
            v.append(['defaults-changed', 'the default parameters were modified: %s' % [k for k in p0 if hist.defaults().get(k) != p0[k]]])
        # results handed out earlier are still what they were
        for c, o, r in results:
            if o is not None and not hist.same(hist.plain(o), r):
                v.append(['result-changed', 'a result handed out earlier was modified by later calls'])
        return {'viols': v, 'results': [[c, r] for c, o, r in results], 'taken': taken, 'steps': steps, 'locs': locs, 'rare': rare, 'probes': sorted(probes)}
    return simlib.run_child(body, arm=False, timeout=120)


def run(spec):
    o = execute(spec)
    if o.hang:
        return {'viol': [viol('hang', 'no progress')], 'stats': {}, 'sig': 'hang'}
    r = o.result
    if r is None:
        if simlib.harness_fault(o):
            raise simlib.HarnessError('%s %s' % (o.exc, o.stderr))
        return {'viol': [viol('died', '%s %s %s' % (o.status, o.exc, o.stderr))], 'stats': {}, 'sig': 'died'}
    v = [viol(*x) for x in r['viols'][:4]]
    seen = set()
    for n, (c, got) in enumerate(r['results']):
        ref = hist.reference(c)
        k = simlib.h(c)
        if k in seen:
            r['probes'].append('repeat')
        seen.add(k)
        if not hist.same(got, ref):
            v.append(viol('history' if not spec['threads'] else 'concurrent', 'call %d (%s) gives another result than alone in a fresh process: %s' %
                          (n, ' -> '.join(c['route'][1:]), hist.differences(got, ref))))
    st = {'sched_steps': r['steps'], 'fault:preemption': len(r['taken']), 'calls': len(r['results'])}
    st['failed_calls'] = sum(isinstance(x[1], list) for x in r['results'])
    st['coefficients'] = sum(len(x[1]['values']) for x in r['results'] if isinstance(x[1], dict))
    for p in r['probes']:
        st['probe:' + p] = 1
    for op in spec['ops']:
        if op[0] in ('poke', 'param', 'noise'):
            st['fault:interference_' + op[0]] = st.get('fault:interference_' + op[0], 0) + 1
    return {'viol': v[:5], 'stats': st, 'nontrivial': len(r['results']) > 1,
            'sig': simlib.h([spec['calls'], spec['ops'], spec['threads'], spec['tail'], r['taken'], [simlib.h(json.dumps(x[1])) for x in r['results']]]),
            'sample': {'calls': [x[0]['route'] for x in r['results']], 'switches': r['taken'], 'ops': spec['ops'] or spec['threads']},
            'trace': {'switches': r['taken']}}


def shrink(spec):
    for k in range(len(spec['threads'])):
        if len(spec['threads'][k]) > 1:
            for t in drop_each(spec['threads'][k]):
                yield with_(spec, threads=spec['threads'][:k] + [t] + spec['threads'][k + 1:])
    for s in drop_each(spec['switches']):
        yield with_(spec, switches=s)
    for p in drop_each(spec['ops']):
        yield with_(spec, ops=p)
    for p in drop_each(spec['tail']):
        yield with_(spec, tail=p)
    used = {op[1] for l in [spec['ops'], spec['tail']] + spec['threads'] for op in l if op[0] in ('call', 'pcall')} | {0}
    for k in sorted(used):
        for c in hist.shrink_call(spec['calls'][k]):
            yield with_(spec, calls=spec['calls'][:k] + [c] + spec['calls'][k + 1:])
    if spec['opcode']:
        yield with_(spec, opcode=False)
