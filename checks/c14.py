"""C14: an operation cut short by an interrupt leaves no trace behind."""
import copy
import errno
import json
import os
import tempfile
import threading
import simlib
import tsched
from checks import cli, hist, c10
from checks import registry as R
from checks.common import viol, drop_each, with_

ID = 'C14'
MODE = 'bases'
BUDGET = {'quick': (1800, 300), 'thorough': (25000, 3000)}
RULE = 'distinct (operations, place of the interruption, exception, results afterwards)'
REAL = ['translators, matchers, running quantities, WC, EFT, Basis, EOS conversion, load and dump']
STUB = ['asynchronous exceptions (KeyboardInterrupt, MemoryError) at a chosen line or bytecode', 'contents of wcxf/bases']
ASSUMPTIONS = ['the exception arrives between lines or bytecodes of the package, not inside C functions',
               'the reference for each operation is the same operation alone in a pristine process']
PROBES = ['probe:fired', 'probe:file_error', 'probe:in_translate', 'probe:in_match', 'probe:in_dict', 'probe:in_wcs', 'probe:in_running', 'probe:in_load', 'probe:in_dump',
          'probe:in_eos', 'probe:in_eosdir', 'probe:in_loads', 'probe:in_loadwc', 'probe:in_validate', 'probe:in_vbasis', 'probe:keyboard', 'probe:memory']


def setup():
    cli.bases()


def gen_op(rng, calls):
    x = rng.random()
    k = rng.randrange(len(calls))
    if x < 0.4:
        return ['call', k]
    if x < 0.5:
        return ['dict', k]
    if x < 0.58:
        return ['wcs'] + list(rng.choice(sorted(cli.bases())))
    if x < 0.62:
        return ['validate', k]
    if x < 0.66:
        s = sorted(cli.efts()['SMEFT']['sectors'])
        return ['vbasis', {'eft': 'SMEFT', 'basis': 'N3', 'sectors': {rng.choice(s): {'x%d' % j: rng.choice([None, {'tex': 'x'}]) for j in range(3)}, rng.choice(s): {'y': {'tex': 'y'}}}}]
    if x < 0.7:
        return ['dump', k, rng.choice(['json', 'yaml'])]
    if x < 0.77:
        return ['load', R.mkdef(rng, rng.randrange(1000), efts=('WET', 'E9'), bases=('N1', 'N2'), parent=rng.choice([None, None, 'JMS']))]
    if x < 0.87:
        return ['running', c10.rand_call(rng)]
    if x < 0.91:
        return ['eos', rng.randrange(1 << 20)]
    if x < 0.94:
        return ['eosdir', {f: cli.render(d, 'yaml', 0) for f, d in cli.eos_params(rng).items()}]
    if x < 0.96:
        rec = R.mkdef(rng, rng.randrange(1000), efts=('WET', 'E9'), bases=('N1', 'N2'), parent=rng.choice([None, 'JMS']))
        return ['loads', rec, rng.choice(['json', 'yaml'])]
    if x < 0.975:
        return ['loadwc', k, rng.choice(['json', 'yaml'])]
    return ['str', k]


def gen(rng, i, tier):
    calls = hist.rand_calls(rng, rng.choice([1, 2, 3]), slow=rng.random() < 0.05)
    ops = [gen_op(rng, calls) for _ in range(rng.choice([1, 1, 2, 3]))]
    k = rng.randrange(len(ops))
    # the same operation again, and others that may share state with it
    ops = ops[:k + 1] + [copy.deepcopy(ops[k])] + ops[k + 1:] + [gen_op(rng, calls)]
    spec = {'calls': calls, 'ops': ops, 'at': k, 'raises': [], 'opcode': rng.random() < 0.35, 'twice': False, 'acts': []}
    if rng.random() < 0.06:
        # no memory in the kernel, while the operation reads files
        for c in calls:
            a, b = rng.choice([('FlavorKit', 'JMS'), ('JMS', 'FlavorKit')])
            c['route'] = ['translate', 'WET', a, b]
            c['src'] = hist.rand_src(rng, c['route'])
        o = execute(spec)
        steps = [l for l in o.result['log'] if l[1] in ('openr', 'read', 'opendir')] if o.result else []
        if steps:
            l = rng.choice(steps)
            spec['acts'] = [[l[0], simlib.ERR, rng.choice([errno.ENOMEM, errno.ENOMEM, errno.EIO])]]
            return spec
    o = execute(spec, record=True)
    if o.result and o.result.get('locs'):
        locs, n = o.result['locs'], o.result['steps']
        s = rng.choice(rng.choice(locs)) if rng.random() < 0.65 else rng.randint(1, n)
        spec['raises'] = [[s, rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])]]
        if rng.random() < 0.15:
            spec['raises2'] = [[rng.choice(rng.choice(locs)), 'KeyboardInterrupt']]
            spec['twice'] = True
    return spec


class Env:
    def __init__(self, spec):
        self.spec = spec
        self.objs = {}

    def wc(self, k):
        key = json.dumps(self.spec['calls'][k]['src'], sort_keys=True)
        if key not in self.objs:
            self.objs[key] = hist.make(self.spec['calls'][k]['src'])
        return self.objs[key]

    def do(self, op):
        import wcxf
        calls = self.spec['calls']
        try:
            if op[0] == 'call':
                return hist.do_call(calls[op[1]], self.wc(op[1]))[1]
            if op[0] == 'dict':
                return {k: [v.real, v.imag] for k, v in self.wc(op[1]).dict.items()}
            if op[0] == 'wcs':
                return sorted(wcxf.Basis[op[1], op[2]].all_wcs)
            if op[0] == 'validate':
                self.wc(op[1]).validate()
                return 'valid'
            if op[0] == 'vbasis':
                wcxf.Basis(**copy.deepcopy(op[1])).validate()
                return 'valid'
            if op[0] == 'dump':
                return cli.parse(self.wc(op[1]).dump(fmt=op[2]).encode())
            if op[0] == 'str':
                return len(str(self.wc(op[1])))
            if op[0] == 'load':
                C = R.cls_of(op[1]['kind'])
                o = C(**copy.deepcopy(op[1]['def']))
                return R.describe(o, op[1]['kind'])
            if op[0] == 'loads':
                C = R.cls_of(op[1]['kind'])
                return R.describe(C.load(cli.render(op[1]['def'], op[2], 0)), op[1]['kind'])
            if op[0] == 'loadwc':
                o = wcxf.WC.load(cli.render(calls[op[1]]['src'], op[2], 0))
                return [hist.plain(o), {k: [v.real, v.imag] for k, v in o.dict.items()}]
            if op[0] == 'eosdir':
                from wcxf.converters.eos import get_sm_wcs
                d = os.path.join('eos', simlib.h(op[1])[:8])
                if not os.path.isdir(d):
                    os.makedirs(d)
                    for f, t in op[1].items():
                        simlib.write_file(os.path.join(d, f), t.encode())
                return {k: dict(v) for k, v in get_sm_wcs(d).items()}
            if op[0] == 'running':
                return c10.call(op[1])
            if op[0] == 'eos':
                from wcxf.converters.eos import wcxf2eos
                import random
                r = random.Random(op[1])
                key = 'eos%d' % op[1]
                if key not in self.objs:
                    self.objs[key] = wcxf.WC('WET', 'EOS', 4.2, {'b->s::c7': 0.25, 'b->smumu::c9': {'Re': -1.0, 'Im': 0.5}, 'b->s::c1': r.uniform(0, 1)})
                    self.objs[key + 'sm'] = {k: {'central': r.uniform(-1, 1)} for k in cli.EOS_KEYS}
                return {k: dict(v) for k, v in wcxf2eos(self.objs[key], self.objs[key + 'sm']).items()}
        except Exception as e:
            if isinstance(e, MemoryError) and str(e) == 'simulated':
                raise
            return 'error %s' % type(e).__name__


def registered():
    """Names of everything reachable through the public listings."""
    import wcxf
    out = []
    for e in sorted(cli.efts()):
        try:
            t = wcxf.EFT[e]
            out.append([e, sorted(t.known_bases), sorted(map(list, t.known_translators))])
        except KeyError:
            out.append([e, None])
    for m in cli.MATCH:
        try:
            wcxf.Matcher[m]
            out.append(list(m))
        except KeyError:
            out.append(['missing'] + list(m))
    return out


def process_state():
    """What an operation may change for the whole process and has to restore."""
    import gc
    import locale
    import logging
    import signal
    import sys
    import threading
    import numpy
    import decimal
    import inspect
    import resource
    import tempfile
    import warnings
    import yaml
    um = os.umask(0)
    os.umask(um)
    return {'working directory': os.getcwd(), 'environment': dict(os.environ), 'recursion limit': sys.getrecursionlimit(),
            'floating point errors': numpy.geterr(), 'logging level': [logging.root.level, logging.root.manager.disable],
            'signal handlers': [signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
            'decimal context': repr(decimal.getcontext()),
            'warnings': [str(x) for x in warnings.filters], 'module path': list(sys.path),
            'number format': repr(numpy.get_printoptions()),
            'yaml': [sorted((str(t), id(f)) for t, f in getattr(c, n).items()) for c, n in ((yaml.Loader, 'yaml_constructors'), (yaml.FullLoader, 'yaml_constructors'), (yaml.Dumper, 'yaml_representers'))],
            'umask': um, 'standard streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)], 'garbage collector': gc.isenabled(),
            'temporary directory': tempfile.gettempdir(), 'hooks': [id(sys.excepthook), id(threading.excepthook), id(sys.displayhook)],
            'yaml classes': [[(n, id(inspect.getattr_static(c, n))) for n in dir(c) if n[:2] != '__' and not n.startswith('yaml_')] for c in (yaml.Loader, yaml.FullLoader, yaml.Dumper)],
            'serialisers': [id(json.dumps), id(json.loads), id(json.dump), id(yaml.dump), id(yaml.load), id(json._default_encoder), id(open)],
            'resource limits': [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE, resource.RLIMIT_STACK)],
            'threads': threading.active_count(), 'locale': locale.setlocale(locale.LC_ALL), 'int digits': sys.get_int_max_str_digits(),
            'switch interval': sys.getswitchinterval(), 'alarm': signal.getitimer(signal.ITIMER_REAL)[0] > 0}


def execute(spec, record=False):
    def body():
        v = []
        env = Env(spec)
        p0 = hist.defaults()
        out = []
        steps, raised, locs, swallowed, log, fired = 0, [], None, False, [], []
        loads = [op for op in spec['ops'] if op[0] in ('load', 'loads', 'vbasis')]
        tempfile.tempdir = os.path.join(simlib.scratch, 'tmp')
        os.makedirs(tempfile.tempdir, exist_ok=True)
        ps0 = process_state()
        reg0 = registered()
        for k, op in enumerate(spec['ops']):
            if k != spec['at']:
                out.append([k, env.do(op)])
                continue
            simlib.apply_plan({'acts': spec['acts'], 'knobs': {'package_data': 1}})
            simlib.lib.sim_arm()
            for ra in [spec['raises']] + ([spec['raises2']] if spec['twice'] else []):
                opf = ['*'] if spec['opcode'] else []
                s, val, exc = tsched.run_single(lambda: env.do(op), raises=ra, record=record, opcode_files=opf, cap=20000000)
                simlib.lib.sim_disarm()
                steps += s.step
                raised += s.raised
                log = simlib.get_log()
                fired = [l for l in log if l[4]]
                if record:
                    by = {}
                    for j, t in enumerate(s.trace):
                        by.setdefault(t[1:], []).append(j + 1)
                    locs = [x if len(x) <= 6 else [x[0], x[1], x[-1], x[len(x) // 2]] for _, x in sorted(by.items())]
                if not s.raised and not fired:
                    if exc is not None:
                        raise exc
                    out.append([k, val])
                elif exc is None and not (isinstance(val, str) and val.startswith('error')) and not (isinstance(val, list) and val[:1] == ['error']):
                    swallowed = True
                    out.append([k, val])
                ps1 = process_state()
                if ps1 != ps0:
                    v.append(['process-changed', 'the interrupted %s left the process changed: %s' % (op[0], ', '.join(k for k in ps0 if ps0[k] != ps1[k]))])
                if not loads and registered() != reg0:
                    v.append(['registry-changed', 'the registered definitions changed after interrupting ' + op[0]])
        if hist.defaults() != p0:
            v.append(['defaults-changed', 'the default parameters changed: %s' % [k for k in p0 if hist.defaults().get(k) != p0[k]]])
        ps1 = process_state()
        if ps1 != ps0:
            v.append(['process-changed', 'the interrupted operation left the process changed: ' + ', '.join(k for k in ps0 if ps0[k] != ps1[k])])
        for key, o in env.objs.items():
            if key.startswith('{'):
                src = json.loads(key)
                if json.loads(json.dumps(o.values)) != src['values']:
                    v.append(['input-changed', 'the input coefficients were modified'])
        return {'viols': v, 'out': out, 'steps': steps, 'raised': raised, 'locs': locs, 'swallowed': swallowed, 'log': log, 'fired': fired}
    return simlib.run_child(body, arm=False, timeout=120, cwd=simlib.fresh_dir('work'))


_ref = {}


def reference(spec, op):
    k = simlib.h([op, spec['calls'][op[1]] if op[0] in ('call', 'dict', 'validate', 'dump', 'str', 'loadwc') else None])
    if k not in _ref:
        o = simlib.run_child(lambda: [Env(spec).do(op)], arm=False, cwd=simlib.fresh_dir('ref'))
        if o.result is None:
            raise simlib.HarnessError('reference process ended: %s %s' % (o.exc, o.stderr))
        if len(_ref) > 300:
            _ref.clear()
        _ref[k] = json.dumps(o.result[0])
    return json.loads(_ref[k])


def run(spec):
    o = execute(spec)
    if o.hang:
        return {'viol': [viol('hang', 'no progress')], 'stats': {}, 'sig': 'hang'}
    r = o.result
    if r is None:
        if simlib.harness_fault(o):
            raise simlib.HarnessError('%s %s' % (o.exc, o.stderr))
        return {'viol': [viol('died', '%s %s %s' % (o.status, o.exc, o.stderr))], 'stats': {}, 'sig': 'died'}
    v = [viol(*x) for x in r['viols'][:3]]
    where = ', '.join(['%s at step %d in %s' % (e, s, q) for s, e, q in r['raised']] + ['%s of %s fails %s' % (l[1], l[2], l[4]) for l in r['fired']])
    for k, got in r['out']:
        op = spec['ops'][k]
        ref = reference(spec, op)
        if not cli.close(got, ref, 1e-9):
            what = hist.differences(got, ref) if op[0] == 'call' else '%.150r instead of %.150r' % (got, ref)
            v.append(viol('after-interrupt' if r['raised'] or r['fired'] else 'history', '%s number %d gives another result than in a fresh process (%s): %s' %
                          (op[0], k, where, what)))
    st = {'sched_steps': r['steps'], 'fault:async_exception': len(r['raised'])}
    if r['fired']:
        st['fault:file_error'] = st['probe:file_error'] = 1
    if r['raised']:
        op = spec['ops'][spec['at']]
        n = {'call': spec['calls'][op[1]]['route'][0] if op[0] == 'call' else ''}.get(op[0], op[0])
        st['probe:fired'] = 1
        st['probe:in_' + n] = 1
        st['probe:keyboard' if r['raised'][0][1] == 'KeyboardInterrupt' else 'probe:memory'] = 1
    return {'viol': v[:4], 'stats': st, 'nontrivial': bool(r['raised'] or r['fired']),
            'sig': simlib.h([spec['ops'], spec['calls'], r['raised'], simlib.log_sig(r['log']), [simlib.h(json.dumps(x)) for x in r['out']]]),
            'sample': {'ops': [x[0] for x in spec['ops']], 'interrupted': spec['at'], 'raised': r['raised']},
            'trace': {'raised': r['raised'], 'log': r['log'][:50]}}


def shrink(spec):
    if spec['twice']:
        yield with_(spec, twice=False)
    for k in range(len(spec['ops'])):
        if k != spec['at'] and len(spec['ops']) > 2:
            s = with_(spec)
            del s['ops'][k]
            if k < spec['at']:
                s['at'] -= 1
            yield s
    if not spec['opcode']:
        for k in range(len(spec['calls'])):
            for c in hist.shrink_call(spec['calls'][k]):
                yield with_(spec, calls=spec['calls'][:k] + [c] + spec['calls'][k + 1:])
