"""C01: concurrent use of the registries is linearizable."""
import io
import itertools
import json
import simlib
import tsched
from lin import linearizable
from checks.common import viol, drop_each, with_, pick_switches

ID = 'C01'
MODE = 'nobases'
LIBRARY = True
BUDGET = {'quick': (14000, 300), 'thorough': (60000, 3000)}
RULE = ('distinct (order of thread switches actually taken, operation results) over runs in which at least '
        'one preemption took place inside the code under test')
REAL = ['wcxf registries, constructors, decorators, lookups, listings, WC.translate/match', 'json, yaml', 'Python threads (parked)']
STUB = ['thread scheduler (baton passing at traced steps)', 'threading.Lock/RLock (scheduler-aware)']
ASSUMPTIONS = ['a thread switch can happen between any two bytecodes of the package, not inside one C function (GIL build of CPython 3.12)',
               'histories of at most 3 threads and 5 operations each']
PROBES = ['probe:preempted_in_constructor', 'probe:preempted_in_listing', 'probe:clear_all_concurrent', 'probe:first_registration_race']

CLASSES = ['EFT', 'Basis', 'Translator', 'Matcher']
NAMES = {'EFT': [['E1'], ['E2'], ['e1'], ['']],
         'Basis': [['E1', 'B1'], ['E1', 'B2'], ['E2', 'B1'], ['E1', 'b1'], ['E1', '']],
         'Translator': [['E1', 'B1', 'B2'], ['E1', 'B2', 'B1'], ['E2', 'B1', 'B3'], ['E1', 'B1', 'B1']],
         'Matcher': [['E1', 'B1', 'E2', 'B1'], ['E2', 'B1', 'E1', 'B1']]}


def setup():
    pass


def _key(cls, name):
    return name[0] if cls == 'EFT' else tuple(name)


class Machine:
    """Executes operations against the real package, in the child."""

    def __init__(self):
        import wcxf
        self.w = wcxf
        self.tokens = itertools.count(1)
        self.objs = []          # (uid, object): kept alive, so identities stay unique
        self.hist = []

    def make(self, cls, name, uid, how):
        w = self.w
        if cls == 'EFT':
            d = {'eft': name[0], 'sectors': {'s%d' % uid: {}}, 'metadata': {'uid': uid}}
            return [lambda: w.EFT(**d), lambda: w.EFT.load(json.dumps(d)),
                    lambda: w.EFT.load(io.StringIO(json.dumps(d)))][how % 3]()
        if cls == 'Basis':
            d = {'eft': name[0], 'basis': name[1], 'sectors': {'s': {'c%d' % uid: None}}, 'metadata': {'uid': uid}}
            return [lambda: w.Basis(**d), lambda: w.Basis.load(json.dumps(d)),
                    lambda: w.Basis.load(io.StringIO(json.dumps(d)))][how % 3]()

        def f(C, scale, parameters):
            return {'u': float(uid), 'w': C['w']}
        f.uid = uid
        if cls == 'Translator':
            if how % 2:
                w.translator(*name)(f)
                return f
            return w.Translator(*name, f)
        if how % 2:
            w.matcher(*name)(f)
            return f
        return w.Matcher(*name, f)

    def do(self, op):
        w = self.w
        kind, cls = op[0], op[1]
        if kind == 'reg':
            o = self.make(cls, op[2], op[3], op[4])
            self.objs.append((op[3], o))
            return ['ok']
        C = getattr(w, cls)
        if kind == 'get':
            try:
                o = C[_key(cls, op[2])] if op[3] % 2 else C.get_instance(_key(cls, op[2]))
            except (KeyError, AttributeError):
                return ['absent']
            return ['obj', o]
        if kind == 'use':
            # the lookup as users make it; the result is the one for the own input
            token = float(next(self.tokens))
            if cls == 'Translator':
                e, a, b = op[2]
                call = lambda: w.WC(e, a, 91.0, {'w': token}).translate(b)
            else:
                e, a, e2, b = op[2]
                call = lambda: w.WC(e, a, 91.0, {'w': token}).match(e2, b)
            try:
                r = call()
            except ValueError:
                return ['absent']
            if r.dict['w'] != token:
                return ['result for another input', r.dict['w']]
            return ['uid', int(r.dict['u'])]
        if kind == 'del':
            try:
                if op[3] % 2:
                    del C[_key(cls, op[2])]
                else:
                    C.del_instance(_key(cls, op[2]))
            except (KeyError, AttributeError):
                return ['absent']
            return ['ok']
        if kind == 'clear':
            C.clear_all()
            return ['ok']
        if kind == 'list':
            v = op[2]
            if cls == 'Basis':
                return ['list', sorted([v, b] for b in self.view[v].known_bases)]
            if op[3] == 'eft':
                return ['list', sorted(list(t) for t in self.view[v].known_translators)]
            kt = self.bview[v].known_translators
            if op[3] == 'both':
                return ['list', sorted([k] + list(t) for k in ('from', 'to') for t in kt[k])]
            return ['list', sorted(list(t) for t in kt[op[3]])]
        raise simlib.HarnessError(op)

    def prepare(self, spec):
        # objects through which listings are made; not in the registries
        self.view, self.bview = {}, {}
        lists = [op for t in [spec['pre']] + spec['threads'] for op in t if op[0] == 'list']
        # only the ones needed, so that the other registries have never been used
        if any(op[1] == 'Basis' or op[3] == 'eft' for op in lists):
            for e in ('E1', 'E2'):
                self.view[e] = self.w.EFT(e, {})
                self.w.EFT.del_instance(e)
        if any(op[1] == 'Translator' and op[3] != 'eft' for op in lists):
            for e in ('E1', 'E2'):
                self.bview[e] = self.w.Basis(e, 'B1', {})
                self.w.Basis.del_instance((e, 'B1'))

    def step(self, sched, tid, op):
        t0 = sched.tick()
        rec = [t0, None, op, None]
        self.hist.append(rec)
        try:
            r = self.do(op)
        except simlib.HarnessError:
            raise
        except Exception as e:
            r = ['error', '%s: %s' % (type(e).__name__, e)]
        rec[3] = r
        rec[1] = sched.tick()


def execute(spec, record=False):
    def body():
        m = Machine()
        m.prepare(spec)
        s0 = tsched.Sched(spec['switches'], opcode_files=['classes.py'] if spec['opcode'] else [], record=record)
        for op in spec['pre']:
            m.step(s0, -1, op)

        def thread(i):
            def f(s):
                for op in spec['threads'][i]:
                    m.step(s, i, op)
            return f
        s0.run([thread(i) for i in range(len(spec['threads']))], first=spec['first'])
        for cls in CLASSES:
            for nm in NAMES[cls]:
                m.step(s0, -1, ['get', cls, nm, 1])
        ident = {id(o): u for u, o in m.objs}
        hist = []
        for a, b, op, r in m.hist:
            if r and r[0] == 'obj':
                o = r[1]
                u = ident.get(id(o))
                if u is None:
                    u = getattr(getattr(o, 'function', None), 'uid', None)
                if u is None:
                    u = (getattr(o, 'metadata', None) or {}).get('uid')
                r = ['uid', u]
            hist.append([a, b, op, r])
        return {'hist': hist, 'taken': s0.taken, 'steps': s0.step, 'deadlock': s0.deadlock, 'capped': s0.capped,
                'trace': s0.trace if record else None,
                'errors': [repr(e) for e in s0.errors if e is not None]}
    return simlib.run_child(body, arm=False)


def apply(state, op, r):
    """Sequential model: state is a frozenset of (name, uid)."""
    kind = op[0]
    d = dict(state)
    if kind == 'clear':
        return frozenset() if r == ['ok'] else None
    if kind == 'list':
        cls = op[1]
        v = op[2]
        keys = [k for k in d if k[0] == v]
        if cls == 'Translator' and op[3] == 'both':
            both = [['from'] + list(k) for k in keys if k[1] == 'B1'] + [['to'] + list(k) for k in keys if k[2] == 'B1']
            return state if r == ['list', sorted(both)] else None
        if cls == 'Translator' and op[3] == 'from':
            keys = [k for k in keys if k[1] == 'B1']
        if cls == 'Translator' and op[3] == 'to':
            keys = [k for k in keys if k[2] == 'B1']
        return state if r == ['list', sorted(list(k) for k in keys)] else None
    name = tuple(op[2])
    if kind == 'reg':
        if r != ['ok']:
            return None
        d[name] = op[3]
        return frozenset(d.items())
    if kind in ('get', 'use'):
        return state if r == (['uid', d[name]] if name in d else ['absent']) else None
    if kind == 'del':
        if name not in d:
            return state if r == ['absent'] else None
        if r != ['ok']:
            return None
        del d[name]
        return frozenset(d.items())


def gen(rng, i, tier):
    uid = [0]

    def mk(cls):
        name = rng.choice(NAMES[cls][:1] if rng.random() < hot else NAMES[cls])
        x = rng.random()
        if x < 0.42:
            uid[0] += 1
            return ['reg', cls, name, uid[0], rng.randrange(6)]
        if x < 0.62:
            if cls in ('Translator', 'Matcher') and rng.random() < 0.5:
                return ['use', cls, name]
            return ['get', cls, name, rng.randrange(2)]
        if x < 0.74:
            return ['del', cls, name, rng.randrange(2)]
        if x < 0.80:
            return ['clear', cls]
        if cls == 'Basis':
            return ['list', 'Basis', rng.choice(['E1', 'E1', 'E2'])]
        if cls == 'Translator':
            return ['list', 'Translator', rng.choice(['E1', 'E1', 'E2']), rng.choice(['eft', 'from', 'to', 'both'])]
        return ['get', cls, name, rng.randrange(2)]
    hot = rng.choice([0.3, 0.7, 0.95])
    main = rng.choice(CLASSES)
    single = rng.random() < 0.7

    def cls():
        return main if single or rng.random() < 0.5 else rng.choice(CLASSES)
    nt = rng.choice([2, 2, 2, 3])
    spec = {'pre': [] if rng.random() < 0.4 else [mk(cls()) for _ in range(rng.randint(1, 4))],
            'threads': [[mk(cls()) for _ in range(rng.randint(1, 5 if nt == 2 else 3))] for _ in range(nt)],
            'switches': [], 'first': rng.randrange(nt), 'opcode': rng.random() < 0.75}
    if rng.random() < 0.08:
        # the same translator or matcher used by all
        main = rng.choice(['Translator', 'Matcher'])
        single = True
        name = NAMES[main][0]
        uid[0] += 1
        spec['pre'] = [['reg', main, name, uid[0], rng.randrange(6)]]
        spec['threads'] = [[['use', main, name] for _ in range(rng.randint(1, 2))] for _ in range(nt)]
    elif rng.random() < 0.15:
        # a listing with several changes of the registry in the middle
        main = rng.choice(['Basis', 'Translator', 'Translator'])
        single = True
        lst = ['list', main, 'E1'] + ([rng.choice(['eft', 'both', 'both'])] if main == 'Translator' else [])

        def change():
            uid[0] += 1
            name = rng.choice(NAMES[main][:2])
            return ['del', main, name, 0] if rng.random() < 0.35 else ['reg', main, name, uid[0], rng.randrange(6)]
        spec['pre'] = [change() for _ in range(rng.randint(0, 3))]
        spec['threads'] = [[lst]] + [[change() for _ in range(rng.randint(2, 4))] for _ in range(nt - 1)]
        spec['first'] = 0
    if rng.random() < 0.12:
        # every thread changes or reads the very same entry, with little else
        c = rng.choice(CLASSES)
        name = rng.choice(NAMES[c])

        def same(first):
            x = rng.random()
            if x < (0.65 if first else 0.4):
                return ['del', c, name, rng.randrange(2)]
            if x < 0.8:
                return ['get', c, name, rng.randrange(2)]
            if x < 0.9:
                return ['clear', c]
            uid[0] += 1
            return ['reg', c, name, uid[0], rng.randrange(6)]
        uid[0] += 1
        spec['pre'] = [['reg', c, name, uid[0], rng.randrange(6)]]
        spec['threads'] = [[same(j == 0) for j in range(rng.randint(1, 2))] for _ in range(nt)]
        spec['opcode'] = rng.random() < 0.9
    o = execute(spec, record=True)
    if o.result is None:
        return spec
    spec['switches'] = pick_switches(rng, o.result['trace'], nt, kmax=5)
    return spec


def run(spec):
    o = execute(spec)
    v = []
    st = {}
    if o.hang:
        return {'viol': [viol('hang', 'threads make no progress')], 'stats': {'probe:hang': 1}, 'sig': 'hang'}
    if o.result is None:
        if simlib.harness_fault(o):
            raise simlib.HarnessError('%s %s' % (o.exc, o.stderr))
        return {'viol': [viol('died', 'simulated process ended: %s %s' % (o.status, o.exc))], 'stats': {}, 'sig': 'died'}
    r = o.result
    if r['deadlock']:
        v.append(viol('deadlock', 'all threads are blocked'))
    if r['capped']:
        v.append(viol('livelock', 'step cap exceeded'))
    hist = r['hist']
    for a, b, op, res in hist:
        if res and res[0] == 'error':
            v.append(viol('error:%s:%s' % (op[0], res[1].split(':')[0]), '%s on %s raised %s' % (op[0], op[1], res[1])))
    if r['errors']:
        v.append(viol('thread-error', r['errors'][0]))
    if not v:
        for cls in CLASSES:
            sub = []
            for a, b, op, res in hist:
                if op[1] == cls:
                    sub.append((a, b, op, res))
            ok = linearizable(sub, frozenset(), apply)
            if ok is False:
                v.append(viol('not-linearizable:' + cls, 'no order of the operations explains their results: ' +
                              json.dumps([[a, b, op, x] for a, b, op, x in sub])))
    st['sched_steps'] = r['steps']
    st['fault:preemption'] = len(r['taken'])
    if not spec['pre'] and sum(op[0] == 'reg' for t in spec['threads'] for op in t) > 1 and r['taken']:
        st['probe:first_registration_race'] = 1
    if r['taken']:
        ops = [op[0] for t in spec['threads'] for op in t]
        if 'clear' in ops:
            st['probe:clear_all_concurrent'] = 1
        if 'list' in ops:
            st['probe:preempted_in_listing'] = 1
        if 'reg' in ops:
            st['probe:preempted_in_constructor'] = 1
    return {'viol': v, 'stats': st, 'sig': simlib.h([r['taken'], hist]), 'nontrivial': bool(r['taken']),
            'states': [simlib.h([op, res]) for a, b, op, res in hist],
            'sample': {'switches': r['taken'], 'history': hist[:12]}, 'trace': {'switches': r['taken'], 'history': hist}}


def shrink(spec):
    for k in range(len(spec['threads'])):
        for t in drop_each(spec['threads'][k]):
            yield with_(spec, threads=spec['threads'][:k] + [t] + spec['threads'][k + 1:])
    for p in drop_each(spec['pre']):
        yield with_(spec, pre=p)
    for s in drop_each(spec['switches']):
        yield with_(spec, switches=s)
    if spec['opcode']:
        yield with_(spec, opcode=False)
    for j, (s, t) in enumerate(spec['switches']):
        if s > 1:
            for s2 in (s // 2, s - 1):
                yield with_(spec, switches=spec['switches'][:j] + [[s2, t]] + spec['switches'][j + 1:])
