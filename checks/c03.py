"""C03: definitions do not contaminate each other."""
import copy
import itertools
import json
import os
import simlib
import tsched
from checks import registry as R
from checks.common import viol, drop_each, with_, pick_switches

ID = 'C03'
MODE = 'nobases'
LIBRARY = True
BUDGET = {'quick': (13000, 300), 'thorough': (50000, 3000)}
RULE = 'distinct (operation sequence, thread switches taken); every run loads at least two definitions'
REAL = ['wcxf.EFT/Basis load, inheritance, coefficient list cache, dump, WC.validate', 'json, yaml parsers', 'Python threads (parked)']
STUB = ['thread scheduler', 'threading.Lock/RLock (scheduler-aware)']
ASSUMPTIONS = ['the caller does not itself modify the objects it is handed',
               'a child basis is defined by its parent as registered at the time the child is loaded']
PROBES = ['probe:child', 'probe:grandchild', 'probe:siblings', 'probe:reload_parent', 'probe:threads', 'probe:cache_before_child', 'probe:delete']


def setup():
    pass


def gen(rng, i, tier):
    uid = [0]
    threaded = rng.random() < 0.35
    names = ['B1', 'B2', 'B3', 'B4']

    def new(**k):
        uid[0] += 1
        r = R.mkdef(rng, uid[0], nulls=0 if threaded else 0.12, **k)
        r['src'] = rng.choice(['str', 'stringio', 'bytesio', 'ctor', 'shared'])
        r['fmt'] = rng.choice(['json', 'json', 'yaml'])
        r['style'] = rng.randrange(6)
        return r

    def ops(n, base):
        out = []
        known = list(base)
        for _ in range(n):
            x = rng.random()
            if x < 0.5:
                par = rng.choice(known) if known and rng.random() < 0.65 else None
                r = new(kind='Basis', efts=('E1',) if par else ('E1', 'E1', 'E2'), bases=names, parent=par)
                if par and rng.random() < 0.85 and r['def']['basis'] == par:
                    r['def']['basis'] = rng.choice([b for b in names if b != par])
                out.append(['load', r])
                if r['def']['eft'] == 'E1':
                    known.append(r['def']['basis'])
            elif x < 0.56:
                out.append(['load', new(kind='EFT')])
            elif x < 0.7 and known:
                out.append(['wcs', ['Basis', 'E1', rng.choice(known)]])
            elif x < 0.78 and known:
                out.append(['dump', ['Basis', 'E1', rng.choice(known)], rng.choice(['json', 'yaml'])])
            elif x < 0.86 and known:
                out.append(['del', ['Basis', 'E1', rng.choice(known)]])
            elif x < 0.9:
                out.append(['clear', rng.choice(['Basis', 'EFT'])])
            elif known:
                out.append([rng.choice(['validate', 'bvalidate']), ['Basis', 'E1', rng.choice(known)]])
        return out
    pre = [['load', new(kind='Basis', efts=('E1',), bases=('B1',))]]
    if rng.random() < 0.5:
        # an EFT for which the bases are valid
        r = new(kind='EFT', efts=('E1',))
        r['def']['sectors'] = {s: {} for s in R.SECTORS}
        pre.insert(0, ['load', r])
    if rng.random() < 0.5:
        pre.append(['load', new(kind='Basis', efts=('E1',), bases=('B2',), parent=rng.choice([None, 'B1']))])
    base = ['B1'] + (['B2'] if any(op[1]['def'].get('basis') == 'B2' for op in pre) else [])
    if threaded:
        nt = 2
        spec = {'pre': pre, 'threads': [ops(rng.randint(1, 4), base) for _ in range(nt)], 'switches': [],
                'first': rng.randrange(nt), 'opcode': rng.random() < 0.7, 'each': False}
        o = execute(spec, record=True)
        if o.result and o.result.get('trace'):
            spec['switches'] = pick_switches(rng, o.result['trace'], nt, kmax=4)
    else:
        spec = {'pre': pre + ops(rng.randint(2, 8), base), 'threads': [], 'switches': [], 'first': 0, 'opcode': False, 'each': rng.random() < 0.6}
    return spec


def execute(spec, record=False):
    tmpd = simlib.fresh_dir('tmpd')

    def body():
        import tempfile
        import wcxf
        os.environ['PATH'] = os.path.join(simlib.scratch, 'nobin')      # no latex
        os.environ['TMPDIR'] = tmpd
        tempfile.tempdir = None
        live = []            # every instance ever made: [object, kind, set of allowed contents]
        ever = {}            # name -> list of allowed sectors (json) of every version
        model = {}           # sequential model: name -> (object index)
        v = []
        shared = {}
        seq = not spec['threads']
        done = {}

        def allowed(rec):
            d = rec['def']
            if 'parent' not in d:
                return [R.expected(d, rec['kind'])]
            pk = json.dumps(['Basis', d['eft'], d['parent']])
            if seq:
                if pk not in model:
                    return None
                return [R.expected(d, 'Basis', c['sectors']) for c in live[model[pk]][2]]
            cands = [R.expected(d, 'Basis', c['sectors']) for j in ever.get(pk, []) for c in live[j][2]]
            return cands

        def do(op):
            if op[0] == 'load':
                rec = op[1]
                C = R.cls_of(rec['kind'])
                nm = json.dumps(R.ckey(rec))
                al = allowed(rec) if seq else None
                given = copy.deepcopy(rec['def'])
                try:
                    if rec['src'] in ('ctor', 'shared'):
                        o = C(**given)
                        src = [given, copy.deepcopy(rec['def'])]
                    else:
                        o = C.load(R.open_source(R.render(rec['def'], rec['fmt'], rec['style']), rec['src']))
                        src = None
                except ValueError as e:
                    if seq and al is not None:
                        v.append(['valid-rejected', 'definition %s rejected: %s' % (nm, e)])
                    return 'rejected'
                if seq and al is None:
                    v.append(['no-parent-accepted', 'a child without parent was accepted: ' + nm])
                    return 'accepted'
                idx = len(live)
                live.append([o, rec['kind'], al, nm, src, rec])
                ever.setdefault(nm, []).append(idx)
                model[nm] = idx
                return 'loaded'
            if op[0] == 'del':
                nm = json.dumps(op[1])
                try:
                    del R.cls_of(op[1][0])[tuple(op[1][1:]) if op[1][0] == 'Basis' else op[1][1]]
                    model.pop(nm, None)
                except KeyError:
                    pass
                return 'del'
            if op[0] == 'clear':
                R.cls_of(op[1]).clear_all()
                for k in [k for k in model if json.loads(k)[0] == op[1]]:
                    del model[k]
                return 'clear'
            o = R.lookup(op[1])
            if o is None:
                return 'absent'
            if op[0] != 'dump' and None in o.sectors.values():
                return 'null sector'
            if op[0] == 'bvalidate':
                try:
                    o.validate()
                except ValueError:
                    return 'invalid'
                return 'valid'
            if op[0] == 'wcs':
                return len(o.all_wcs)
            if op[0] == 'dump':
                return len(o.dump(fmt=op[2]))
            if op[0] == 'validate':
                w = o.all_wcs
                if not w:
                    return 'empty'
                if R.lookup(['EFT', op[1][1]]) is None:
                    return 'noeft'
                wcxf.WC(op[1][1], op[1][2], 100, {w[0]: 1.0}).validate()
                return 'valid'

        def settle():
            """Concurrent part over: which contents are possible for each instance."""
            for _ in range(len(live) + 1):
                for L in live:
                    if L[2] is None:
                        d = L[5]['def']
                        if 'parent' not in d:
                            L[2] = [R.expected(d, L[1])]
                        else:
                            pk = json.dumps(['Basis', d['eft'], d['parent']])
                            ps = [live[j] for j in ever.get(pk, [])]
                            if all(p[2] is not None for p in ps if p is not L):
                                L[2] = [R.expected(d, 'Basis', c['sectors']) for p in ps if p is not L for c in p[2]]

            for L in live:
                if L[2] is None:       # parent chain refers back to itself through reloads: no claim
                    L[2] = []

        def verify(when):
            for L in live:
                if L[2] == [] and not seq:
                    continue
                try:
                    c = R.describe(L[0], L[1])
                except Exception as e:
                    v.append(['unreadable', '%s cannot be read %s: %s' % (L[3], when, e)])
                    continue
                if c not in L[2]:
                    v.append(['contaminated', '%s changed or is wrong %s: has %s, allowed %s' % (
                        L[3], when, json.dumps(c.get('sectors'))[:300], json.dumps([x.get('sectors') for x in L[2]])[:300])])
                if L[4] is not None and L[4][0] != L[4][1]:
                    v.append(['caller-data-changed', 'the dictionary given by the caller for %s was modified %s' % (L[3], when)])
            for k, idx in model.items():
                if seq:
                    o = R.lookup(json.loads(k))
                    if o is not live[idx][0]:
                        v.append(['wrong-entry', '%s is not the instance last loaded' % k])

        res = []
        taken, steps, tr = [], 0, None
        for op in spec['pre']:
            if v:
                break
            try:
                res.append(do(op))
            except Exception as e:
                v.append(['error:%s' % op[0], '%s raised %s: %s' % (op[0], type(e).__name__, e)])
            if seq and spec['each']:
                verify('after ' + op[0])
        if seq and not spec['each'] and not v:
            verify('at the end')
        if spec['threads'] and not v:
            s = tsched.Sched(spec['switches'], opcode_files=['classes.py'] if spec['opcode'] else [], record=record)

            def thread(i):
                def f(s):
                    for op in spec['threads'][i]:
                        try:
                            res.append(do(op))
                        except Exception as e:
                            if op[0] == 'validate' and isinstance(e, (ValueError, AssertionError)):
                                res.append('removed')      # the entry may have been removed or replaced meanwhile
                                continue
                            v.append(['error:%s' % op[0], '%s raised %s: %s' % (op[0], type(e).__name__, e)])
                return f
            s.run([thread(i) for i in range(len(spec['threads']))], first=spec['first'])
            if s.deadlock:
                v.append(['deadlock', 'threads blocked'])
            taken, steps, tr = s.taken, s.step, s.trace
            settle()
            verify('after concurrent loading')
        return {'viols': v, 'res': res, 'taken': taken, 'steps': steps, 'trace': tr if record else None,
                'n': len(live)}
    return simlib.run_child(body, arm=False)


def run(spec):
    o = execute(spec)
    if o.hang:
        return {'viol': [viol('hang', 'no progress')], 'stats': {}, 'sig': 'hang'}
    r = o.result
    if r is None:
        if simlib.harness_fault(o):
            raise simlib.HarnessError('%s %s' % (o.exc, o.stderr))
        return {'viol': [viol('died', '%s %s %s' % (o.status, o.exc, o.stderr))], 'stats': {}, 'sig': 'died'}
    st = {'sched_steps': r['steps'], 'fault:preemption': len(r['taken']), 'definitions': r['n']}
    allops = spec['pre'] + [op for t in spec['threads'] for op in t]
    loads = [op[1]['def'] for op in allops if op[0] == 'load' and op[1]['kind'] == 'Basis']
    par = [d.get('parent') for d in loads if d.get('parent')]
    ch = {d['basis'] for d in loads if d.get('parent')}
    if par:
        st['probe:child'] = 1
    if any(p in ch for p in par):
        st['probe:grandchild'] = 1
    if len(par) != len(set(par)):
        st['probe:siblings'] = 1
    seen = set()
    for d in loads:
        if d['basis'] in seen and d['basis'] in par:
            st['probe:reload_parent'] = 1
        seen.add(d['basis'])
    if spec['threads']:
        st['probe:threads'] = 1
    wc = False
    for op in allops:
        if op[0] == 'wcs':
            wc = True
        if wc and op[0] == 'load' and op[1]['def'].get('parent'):
            st['probe:cache_before_child'] = 1
        if op[0] in ('del', 'clear'):
            st['probe:delete'] = 1
    return {'viol': [viol(*x) for x in r['viols'][:5]], 'stats': st, 'nontrivial': r['n'] > 1,
            'sig': simlib.h([allops, r['taken'], r['res']]), 'sample': {'results': r['res'], 'switches': r['taken']},
            'trace': {'results': r['res'], 'switches': r['taken']}}


def shrink(spec):
    for k in range(len(spec['threads'])):
        for t in drop_each(spec['threads'][k]):
            yield with_(spec, threads=spec['threads'][:k] + [t] + spec['threads'][k + 1:])
    for p in drop_each(spec['pre']):
        yield with_(spec, pre=p)
    for s in drop_each(spec['switches']):
        yield with_(spec, switches=s)
    if spec['opcode']:
        yield with_(spec, opcode=False)
    for k, op in enumerate(spec['pre']):
        if op[0] == 'load' and op[1]['src'] != 'ctor':
            s = copy.deepcopy(spec)
            s['pre'][k][1]['src'] = 'ctor'
            yield s
