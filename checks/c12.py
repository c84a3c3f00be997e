"""C12: validation succeeds exactly for valid, completely read files, judged by
the definitions registered at that time."""
import copy
import errno
import itertools
import json
import os
import simlib
import tsched
from checks import cli
from checks import registry as R
from checks.common import viol, drop_each, with_

ID = 'C12'
MODE = 'bases'
BUDGET = {'quick': (9000, 300), 'thorough': (50000, 3000)}
RULE = 'distinct (files or histories of definitions and validations, delivery faults, interruptions and interleavings that took effect, verdicts)'
REAL = ['wcxf validate from argument parsing to interpreter exit', 'EFT, Basis and WC load and validate, the registries', 'json and yaml parsers']
STUB = ['kernel read behaviour (libc seam), truncated deliveries', 'contents of wcxf/bases', 'latex is absent', 'thread scheduler, asynchronous exceptions']
ASSUMPTIONS = ['the values of coefficients are not part of the verdict', 'files whose parts have unexpected types are only required not to crash the harness']
PROBES = ['probe:cli_valid', 'probe:cli_invalid', 'probe:torn', 'probe:torn_invalid', 'probe:read_error', 'probe:hist_valid', 'probe:hist_invalid',
          'probe:redefined', 'probe:kept_object', 'probe:interrupted', 'probe:threads', 'probe:wc', 'probe:basis', 'probe:eft']
SECT = ['sA', 'sB', 'sC']


def setup():
    cli.bases()


# -- the model ---------------------------------------------------------------
def model_wc(d, efts, bases):
    """-> True, False, or None (not decided here)"""
    if not isinstance(d, dict):
        return False
    if any(k not in d for k in ('eft', 'basis', 'scale', 'values')):
        return False
    if not isinstance(d['eft'], str) or not isinstance(d['basis'], str) or not isinstance(d['values'], dict):
        return None
    if isinstance(d['scale'], bool) or not isinstance(d['scale'], (int, float)):
        return None
    if d['eft'] not in efts or (d['eft'], d['basis']) not in bases:
        return False
    return all(k in bases[d['eft'], d['basis']] for k in d['values'])


def model_basis(d, efts, bases_sectors):
    if not isinstance(d, dict):
        return False
    if any(k not in d for k in ('eft', 'basis', 'sectors')):
        return False
    s = d['sectors']
    if not isinstance(d['eft'], str) or not isinstance(d['basis'], str) or not isinstance(s, dict):
        return None
    if 'parent' in d:
        p = bases_sectors.get((d['eft'], d['parent'])) if isinstance(d['parent'], str) else None
        if p is None:
            return False
        s = dict(p, **s)
    if any(not isinstance(x, dict) or any(y is not None and (not isinstance(y, dict) or not isinstance(y.get('tex', ''), str)) for y in x.values()) for x in s.values()):
        return None
    if d['eft'] not in efts:
        return False
    if not set(s) <= set(efts[d['eft']]):
        return False
    names = [k for x in s.values() for k in x]
    return len(names) == len(set(names))


def model_eft(d):
    if not isinstance(d, dict) or 'eft' not in d or 'sectors' not in d:
        return False
    return True if isinstance(d['eft'], str) and isinstance(d['sectors'], dict) else None


def shipped():
    e = {k: list(v['sectors']) for k, v in cli.efts().items()}
    b = {k: {c for s in v['_all'].values() for c in s} for k, v in cli.bases().items()}
    s = {k: v['_all'] for k, v in cli.bases().items()}
    return e, b, s


def model_text(typ, data):
    """Verdict on the bytes that were delivered."""
    try:
        d = R.ref_parse(data.decode('utf-8'))
    except Exception:
        return False
    if isinstance(d, dict) and any(not isinstance(k, str) for k in d):
        return None
    e, b, s = shipped()
    return {'wc': lambda: model_wc(d, e, b), 'basis': lambda: model_basis(d, e, s), 'eft': lambda: model_eft(d)}[typ]()


def near(rng, n):
    """A name that is not n but looks like it."""
    if rng.random() < 0.3:
        return n + rng.choice('@*#:;,?!/%&|~^+=-_\'"()[]{}$') + rng.choice(['', 'x', '0', n])
    return rng.choice([n + ' ', ' ' + n, n + '\n', n.upper() if n != n.upper() else n.lower(), n.swapcase(), n.title() + '_', n[:-1], n + n[-1], n.replace('e', 'E') + '.', '\t' + n, n + '\u00a0', n + '.basis'])


# -- generation ----------------------------------------------------------------
def gen_file(rng):
    typ = rng.choice(['wc', 'wc', 'wc', 'basis', 'basis', 'eft'])
    if typ == 'wc':
        b = rng.choice(sorted(cli.bases()))
        d = cli.rand_wc(rng, *b)
        x = rng.random()
        if x < 0.5:
            how = rng.choice(['alien', 'alien', 'eft', 'basis', 'miss', 'case', 'space', 'space', 'space', 'other', 'empty'])
            if how == 'alien':
                # a name of another basis
                o = sorted(cli.wcs_of(*rng.choice(sorted(cli.bases()))))
                d['values'][rng.choice(o)] = 0.5
            elif how == 'eft':
                d['eft'] = rng.choice(sorted(cli.efts()) + ['nonsense', near(rng, d['eft'])])
            elif how == 'basis':
                d['basis'] = rng.choice(sorted({k[1] for k in cli.bases()}) + ['nonsense']) if rng.random() < 0.5 else near(rng, d['basis'])
            elif how == 'miss':
                d.pop(rng.choice(['eft', 'basis', 'scale', 'values']))
            elif how in ('case', 'space'):
                k = rng.choice(sorted(d['values']))
                d['values'][k.swapcase() if how == 'case' else near(rng, k)] = d['values'].pop(k)
            elif how == 'other':
                d['values']['no_such_coefficient'] = 0
            else:
                d['values'] = {}
            items = list(d['values'].items()) if 'values' in d else []
            if items:
                rng.shuffle(items)
                d['values'] = dict(items)
    elif typ == 'basis':
        e = rng.choice(sorted(cli.efts()))
        secs = sorted(cli.efts()[e]['sectors'])
        d = {'eft': e, 'basis': rng.choice(['mine', 'mine', 'flavio', 'JMS']), 'sectors': {}}
        for s in rng.sample(secs, min(len(secs), rng.randint(0, 4))):
            d['sectors'][s] = {'c_%s_%d' % (s, j): rng.choice([None, {'tex': 'C_{%d}' % j}, {'tex': r'\phi', 'real': True}, {'real': True}]) for j in range(rng.randint(0, 5))}
        ps = [k[1] for k in sorted(cli.bases()) if k[0] == e]
        if ps and rng.random() < 0.3:
            d['parent'] = rng.choice(ps + ['nonsense', near(rng, rng.choice(ps))])
        x = rng.random()
        if x < 0.5 and d['sectors']:
            how = rng.choice(['dup', 'dup', 'sector', 'eft', 'miss', 'dupchild'])
            if how == 'dup' and len(d['sectors']) > 1:
                a, b = rng.sample(sorted(d['sectors']), 2)
                d['sectors'][a]['twin'] = None
                d['sectors'][b]['twin'] = {'tex': 't'}
            elif how == 'dupchild' and 'parent' in d and (e, d['parent']) in cli.bases():
                ks = sorted(cli.wcs_of(e, d['parent']))
                d['sectors'][rng.choice(sorted(d['sectors']))][rng.choice(ks)] = {'tex': 'x'}
            elif how == 'sector':
                n = rng.choice(secs)
                d['sectors'][rng.choice(['no such sector', 'SB', 'sb ', n.upper(), n.swapcase(), n.title(), n + ' ', ' ' + n, n[:-1], n + n])] = {'q': {'tex': 'q'}}
            elif how == 'eft':
                d['eft'] = rng.choice(['nonsense', 'wet', near(rng, e)])
            else:
                d.pop(rng.choice(['eft', 'basis', 'sectors']))
    else:
        d = copy.deepcopy(cli.efts()[rng.choice(sorted(cli.efts()))])
        if rng.random() < 0.4:
            d.pop(rng.choice(['eft', 'sectors']))
    t = rng.choice(['eft', 'wc', 'basis']) if rng.random() < 0.04 else typ
    return t, d


def gen_cli(rng):
    typ, d = gen_file(rng)
    text = R.render(d, rng.choice(['json', 'yaml']), rng.randrange(6))
    if rng.random() < 0.05:
        # more than one document is not a file of these
        text += rng.choice(['\n---\n', '\n...\n---\n']) + rng.choice([text, '{}\n', 'a: 1\n', '\n', R.render(gen_file(rng)[1], 'yaml', 0)])
    spec = {'mode': 'cli', 'typ': typ, 'text': text, 'cut': None, 'pipe': rng.random() < 0.5, 'stdin': rng.random() < 0.5,
            'genuine': rng.random() < 0.05, 'plan': {'acts': [], 'knobs': {}}}
    x = rng.random()
    if x < 0.3:
        n = len(text.encode())
        spec['cut'] = rng.choice([0, rng.randint(0, n), rng.randint(0, n), max(0, n - rng.randint(1, 12))])
    if rng.random() < 0.3:
        spec['plan']['knobs']['read_chunk'] = rng.choice([3, 50, 700]) if len(text) < 3000 else rng.choice([300, 4000])
    if rng.random() < 0.35:
        o = execute_cli(spec)
        ops = [l for l in o.log if l[1] in ('read', 'openr') and '/bases' not in l[2]]
        if ops:
            l = rng.choice(ops)
            if l[1] == 'read' and rng.random() < 0.3:
                a = [simlib.ERR, errno.EINTR]
            else:
                a = [simlib.ERR, rng.choice([errno.EIO, errno.ENOMEM] if l[1] == 'read' else [errno.EACCES, errno.EMFILE, errno.ENOENT])]
            spec['plan']['acts'].append([l[0]] + a)
    return spec


def rdef(rng, uid, bases=None):
    """A definition in the small world E1, E2 / B1, B2, B3."""
    if rng.random() < 0.25:
        return ['eft', rng.choice(['E1', 'E2']), rng.sample(SECT, rng.randint(1, 3))]
    d = {'eft': rng.choice(['E1', 'E1', 'E2']), 'basis': rng.choice(['B1', 'B2', 'B3']), 'sectors': {}}
    for s in rng.sample(SECT, rng.randint(1, 3)):
        d['sectors'][s] = {k: None for k in rng.sample(['c0', 'c1', 'c2', 'c3', 'c4', 'c5', 'c6', 'c7'], rng.randint(0, 3))}
    if rng.random() < 0.25:
        d['parent'] = rng.choice(['B1', 'B2'])
    return ['basis', d]


def rwc(rng):
    e, b = rng.choice(['E1', 'E1', 'E1', 'E2', 'E3']), rng.choice(['B1', 'B1', 'B2', 'B3', 'B4'])
    if rng.random() < 0.06:
        e, b = rng.choice([(near(rng, e), b), (e, near(rng, b))])
    return {'eft': e, 'basis': b, 'scale': 5.0,
            'values': {k: 0.5 for k in rng.sample(['c0', 'c1', 'c2', 'c3', 'c4', 'c5', 'c6', 'c7'], rng.choice([0, 1, 1, 2, 3]))}}


def gen_hist(rng):
    ops = [['eft', 'E1', rng.sample(SECT, rng.randint(2, 3))]]
    for u in range(rng.randint(1, 3)):
        ops.append(rdef(rng, u))
    nwc = 0
    for _ in range(rng.randint(3, 10)):
        x = rng.random()
        if x < 0.3:
            ops.append(rdef(rng, 9))
        elif x < 0.4:
            ops.append(['del', rng.choice(['eft', 'basis']), rng.choice(['E1', 'E2']), rng.choice(['B1', 'B2', 'B3'])])
        elif x < 0.65 or not nwc:
            ops.append(['newwc', rwc(rng)])
            nwc += 1
        elif x < 0.72:
            ops.append(['setvals', rng.randrange(nwc), rwc(rng)['values']])
        elif x < 0.9:
            ops.append(['again', rng.randrange(nwc)])
        else:
            ops.append(['vbasis', rng.choice(['E1', 'E1', 'E2']), rng.choice(['B1', 'B2', 'B3'])])
    if rng.random() < 0.3:
        # the definitions behind a verdict are replaced between two validations
        e, b = rng.choice(['E1', 'E2']), rng.choice(['B1', 'B2'])
        mk = lambda: ['basis', {'eft': e, 'basis': b, 'sectors': {s: {'c%d' % rng.randrange(6): None} for s in rng.sample(SECT, rng.randint(1, 3))}}]
        me = lambda: ['eft', e, rng.sample(SECT, rng.randint(1, 3))]
        ops = [me(), mk()]
        nwc = 0
        for _ in range(rng.randint(3, 8)):
            ops.append(rng.choice([me, mk, mk])())
            x = rng.random()
            if x < 0.5:
                ops.append(['vbasis', e, b])
            elif x < 0.75 or not nwc:
                ops.append(['newwc', {'eft': e, 'basis': b, 'scale': 5.0, 'values': {'c%d' % rng.randrange(6): 0.5}}])
                nwc += 1
            else:
                ops.append(['again', rng.randrange(nwc)])
    spec = {'mode': 'hist', 'ops': ops, 'raise': None, 'opcode': rng.random() < 0.3}
    vs = [k for k, o in enumerate(ops) if o[0] in ('newwc', 'again', 'vbasis')]
    if vs and rng.random() < 0.4:
        k = rng.choice(vs)
        spec['raise'] = [k, rng.randint(1, 9 if not spec['opcode'] else 90), rng.choice(['KeyboardInterrupt', 'MemoryError'])]
    return spec


def gen_threads(rng):
    pre = [['eft', 'E1', SECT], ['eft', 'E2', SECT[:1]]]
    for u in range(3):
        pre.append(rdef(rng, u))
    spec = {'mode': 'threads', 'pre': pre, 'threads': [], 'switches': [], 'first': 0, 'opcode': rng.random() < 0.4}
    for t in range(rng.choice([2, 2, 3])):
        if t == 0 or rng.random() < 0.5:
            spec['threads'].append([['newwc', rwc(rng)] if rng.random() < 0.75 else ['vbasis', 'E1', rng.choice(['B1', 'B2'])] for _ in range(rng.randint(1, 2))])
        else:
            spec['threads'].append([x for x in [rdef(rng, 5) for _ in range(rng.randint(1, 3))] if 'parent' not in (x[1] if isinstance(x[1], dict) else {})])
    o = execute_threads(spec)
    if o.result:
        n = o.result['steps']
        spec['first'] = rng.randrange(len(spec['threads']))
        spec['switches'] = sorted([s, rng.randrange(3)] for s in {rng.randint(1, max(1, n)) for _ in range(rng.randint(1, 6))})
    return spec


def gen(rng, i, tier):
    x = rng.random()
    if x < 0.5:
        return gen_cli(rng)
    if x < 0.8:
        return gen_hist(rng)
    return gen_threads(rng)


# -- execution -----------------------------------------------------------------
def execute_cli(spec):
    d = simlib.fresh_dir('work')
    data = spec['text'].encode()
    if spec['cut'] is not None:
        data = data[:spec['cut']]
    argv = ['wcxf', 'validate', spec['typ']]
    if not spec['stdin']:
        simlib.write_file(os.path.join(d, 'f.dat'), data)
        argv.append('f.dat')
    return simlib.run_cli(argv, d, stdin=data if spec['stdin'] else b'', stdin_kind='pipe' if spec['pipe'] else 'file', plan=spec['plan'],
                          env={'PATH': os.path.join(simlib.scratch, 'nobin'), 'TMPDIR': simlib.fresh_dir('tmpd')}, genuine=spec['genuine'])


def define(op):
    import wcxf
    if op[0] == 'eft':
        wcxf.EFT(op[1], {s: {} for s in op[2]})
    else:
        wcxf.Basis(**copy.deepcopy(op[1]))


def verdict(fn):
    try:
        fn()
        return True
    except (KeyboardInterrupt, MemoryError):
        return 'interrupted'
    except Exception:
        return False


def execute_hist(spec):
    def body():
        import wcxf
        os.environ['PATH'] = os.path.join(simlib.scratch, 'nobin')
        out = []
        objs = []
        steps = fired = 0
        for k, op in enumerate(spec['ops']):
            if op[0] in ('eft', 'basis'):
                try:
                    define(op)
                    out.append('defined')
                except ValueError:
                    out.append('refused')
                continue
            if op[0] == 'del':
                try:
                    if op[1] == 'eft':
                        del wcxf.EFT[op[2]]
                    else:
                        del wcxf.Basis[op[2], op[3]]
                except KeyError:
                    pass
                out.append('deleted')
                continue
            if op[0] == 'setvals':
                objs[op[1]].values = dict(op[2])
                out.append('set')
                continue
            if op[0] == 'newwc':
                w = wcxf.WC(**copy.deepcopy(op[1]))
                objs.append(w)
                fn = w.validate
            elif op[0] == 'again':
                fn = objs[op[1]].validate
            else:
                try:
                    fn = wcxf.Basis[op[1], op[2]].validate
                except KeyError:
                    out.append('absent')
                    continue
            if spec['raise'] and spec['raise'][0] == k:
                s, val, exc = tsched.run_single(lambda: verdict(fn), raises=[spec['raise'][1:]], opcode_files=['*'] if spec['opcode'] else [])
                steps += s.step
                fired += len(s.raised)
                # the interruption may be turned into a failure, never into a success
                out.append(['int', val if exc is None else 'interrupted'] if s.raised else val)
            else:
                out.append(verdict(fn))
        return {'out': out, 'steps': steps, 'fired': fired}
    return simlib.run_child(body, arm=False)


def execute_threads(spec):
    def body():
        import wcxf
        os.environ['PATH'] = os.path.join(simlib.scratch, 'nobin')
        for op in spec['pre']:
            try:
                define(op)
            except ValueError:
                pass
        out = []

        def one(t):
            for op in spec['threads'][t]:
                if op[0] in ('eft', 'basis'):
                    define(op)
                elif op[0] == 'newwc':
                    out.append([t, op, verdict(wcxf.WC(**copy.deepcopy(op[1])).validate)])
                else:
                    try:
                        b = wcxf.Basis[op[1], op[2]]
                    except KeyError:
                        continue
                    out.append([t, [op[0], op[1], op[2], copy.deepcopy(b.sectors)], verdict(b.validate)])
        s = tsched.Sched(spec['switches'], opcode_files=['*'] if spec['opcode'] else [])
        s.run([(lambda t: lambda s: one(t))(t) for t in range(len(spec['threads']))], first=spec['first'])
        return {'out': out, 'steps': s.step, 'taken': s.taken, 'deadlock': s.deadlock,
                'errors': [repr(e) for e in s.errors if e is not None]}
    return simlib.run_child(body, arm=False)


# -- judging -------------------------------------------------------------------
def run_cli(spec):
    o = execute_cli(spec)
    st = {'os_steps': o.nops, 'probe:' + spec['typ']: 1}
    if o.hang or o.crashed:
        return {'viol': [viol('hang', 'no progress')], 'stats': st, 'sig': 'hang'}
    data = spec['text'].encode()
    if spec['cut'] is not None:
        data = data[:spec['cut']]
    m = model_text(spec['typ'], data)
    fired = [l for l in o.log if l[4]]
    hard = [l for l in fired if l[4] != '!%d:%d' % (simlib.ERR, errno.EINTR)]
    v = []
    if o.status == 0 and m is False:
        v.append(viol('invalid-accepted', 'exit 0 for an invalid %s file (cut at %s of %d bytes, faults %s)' % (spec['typ'], spec['cut'], len(spec['text'].encode()), fired)))
    if o.status != 0 and m is True and not hard:
        v.append(viol('valid-rejected', 'exit %d for a valid %s file (chunks %s, faults %s): %s' % (o.status, spec['typ'], spec['plan']['knobs'], fired, o.stderr[-300:])))
    if o.status != 0 and b'successful' in (o.stdout or b''):
        v.append(viol('success-printed', 'prints success but ends with %d' % o.status))
    for l in fired:
        n = 'read_error' if l in hard else 'eintr'
        st['fault:' + n] = st.get('fault:' + n, 0) + 1
        st['probe:' + n] = 1
    if spec['cut'] is not None and spec['cut'] < len(spec['text'].encode()):
        st['fault:torn_input'] = 1
        st['probe:torn'] = 1
        if m is False:
            st['probe:torn_invalid'] = 1
    if spec['plan']['knobs']:
        st['fault:chunked_input'] = 1
    if m is not None:
        st['probe:cli_valid' if m else 'probe:cli_invalid'] = 1
    return {'viol': v, 'stats': st, 'nontrivial': True,
            'sig': simlib.h([spec['typ'], simlib.h(data), spec['stdin'], o.status, simlib.log_sig([l for l in o.log if 'tmpd' not in l[2]])]),
            'sample': {'type': spec['typ'], 'cut': spec['cut'], 'status': o.status, 'model': m, 'fired': fired},
            'trace': {'log': o.log[:100], 'status': o.status, 'stderr': o.stderr[-400:]}}


def run_hist(spec):
    o = execute_hist(spec)
    r = o.result
    if o.hang:
        return {'viol': [viol('hang', 'no progress')], 'stats': {}, 'sig': 'hang'}
    if r is None:
        if simlib.harness_fault(o):
            raise simlib.HarnessError('%s %s' % (o.exc, o.stderr))
        return {'viol': [viol('died', '%s %s %s' % (o.status, o.exc, o.stderr))], 'stats': {}, 'sig': 'died'}
    e, _, s = shipped()
    names = lambda x: {c for y in x.values() for c in y}
    v = []
    st = {'sched_steps': r['steps'], 'fault:async_exception': r['fired']}
    objs = []
    for k, op in enumerate(spec['ops']):
        got = r['out'][k]
        m = None
        if op[0] == 'eft':
            if op[1] in e:
                st['probe:redefined'] = 1
            e[op[1]] = op[2]
        elif op[0] == 'basis':
            d = op[1]
            if (d['eft'], d['basis']) in s:
                st['probe:redefined'] = 1
            if 'parent' in d and (d['eft'], d['parent']) not in s:
                continue
            s[d['eft'], d['basis']] = dict(s[d['eft'], d['parent']], **d['sectors']) if 'parent' in d else d['sectors']
        elif op[0] == 'del':
            (e if op[1] == 'eft' else s).pop(op[2] if op[1] == 'eft' else (op[2], op[3]), None)
        elif op[0] == 'setvals':
            objs[op[1]] = dict(objs[op[1]], values=op[2])
        elif op[0] in ('newwc', 'again'):
            if op[0] == 'newwc':
                objs.append(op[1])
            else:
                st['probe:kept_object'] = 1
            w = objs[-1] if op[0] == 'newwc' else objs[op[1]]
            m = model_wc(w, e, {x: names(y) for x, y in s.items()})
        elif op[0] == 'vbasis' and (op[1], op[2]) in s and got != 'absent':
            m = model_basis({'eft': op[1], 'basis': op[2], 'sectors': s[op[1], op[2]]}, e, s)
        if m is None:
            continue
        if isinstance(got, list):
            st['probe:interrupted'] = 1
            got = got[1]
            if got is True and m is False:
                v.append(viol('interrupted-success', 'validation %d interrupted, yet reported as successful for an invalid file' % k))
            continue
        st['probe:hist_valid' if m else 'probe:hist_invalid'] = 1
        if got is True and m is False:
            v.append(viol('stale-accept', 'operation %d %s: accepted although not valid for the definitions registered now' % (k, op)))
        if got is not True and m is True:
            v.append(viol('stale-reject', 'operation %d %s: rejected although valid for the definitions registered now' % (k, op)))
    return {'viol': v[:3], 'stats': st, 'nontrivial': True, 'sig': simlib.h([spec['ops'], r['out'], spec['raise']]),
            'sample': {'ops': len(spec['ops']), 'verdicts': r['out'], 'raise': spec['raise']}, 'trace': {'out': r['out']}}


def run_threads(spec):
    o = execute_threads(spec)
    r = o.result
    if o.hang:
        return {'viol': [viol('hang', 'no progress')], 'stats': {}, 'sig': 'hang'}
    if r is None:
        if simlib.harness_fault(o):
            raise simlib.HarnessError('%s %s' % (o.exc, o.stderr))
        return {'viol': [viol('died', '%s %s %s' % (o.status, o.exc, o.stderr))], 'stats': {}, 'sig': 'died'}
    v = []
    if r['deadlock']:
        v.append(viol('deadlock', 'threads blocked'))
    if r['errors']:
        v.append(viol('thread-error', '%s' % r['errors'][:2]))
    e0, _, s0 = shipped()
    pre_e, pre_s = dict(e0), dict(s0)
    for op in spec['pre']:
        if op[0] == 'eft':
            pre_e[op[1]] = op[2]
        else:
            d = op[1]
            if 'parent' in d:
                if (d['eft'], d['parent']) not in pre_s:
                    continue
                pre_s[d['eft'], d['basis']] = dict(pre_s[d['eft'], d['parent']], **d['sectors'])
            else:
                pre_s[d['eft'], d['basis']] = d['sectors']
    # every definition an entry may have had during the run
    ev = {k: [x] for k, x in pre_e.items()}
    sv = {k: [x] for k, x in pre_s.items()}
    for t in spec['threads']:
        for op in t:
            if op[0] == 'eft':
                ev.setdefault(op[1], [None]).append(op[2])
            elif op[0] == 'basis':
                sv.setdefault((op[1]['eft'], op[1]['basis']), [None]).append(op[1]['sectors'])
    names = lambda x: {c for y in x.values() for c in y}
    st = {'sched_steps': r['steps'], 'fault:preemption': len(r['taken']), 'probe:threads': 1}
    for t, op, got in r['out']:
        if op[0] == 'newwc':
            w = op[1]
            can = {model_wc(w, {w['eft']: ee} if ee is not None else {}, {(w['eft'], w['basis']): names(ss)} if ss is not None else {})
                   for ee, ss in itertools.product(ev.get(w['eft'], [None]), sv.get((w['eft'], w['basis']), [None]))}
        else:
            can = {model_basis({'eft': op[1], 'basis': op[2], 'sectors': op[3]}, {op[1]: ee} if ee is not None else {}, {}) for ee in ev.get(op[1], [None])}
        if got is True and True not in can:
            v.append(viol('race-accept', '%s accepted under no combination of the definitions' % (op,)))
        if got is not True and False not in can:
            v.append(viol('race-reject', '%s rejected (%s) although valid under all definitions' % (op, got)))
    return {'viol': v[:3], 'stats': st, 'nontrivial': bool(r['taken']), 'sig': simlib.h([spec['pre'], spec['threads'], r['taken'], r['out']]),
            'sample': {'threads': len(spec['threads']), 'preemptions': r['taken'], 'verdicts': [x[2] for x in r['out']]}, 'trace': {'taken': r['taken']}}


def run(spec):
    return {'cli': run_cli, 'hist': run_hist, 'threads': run_threads}[spec['mode']](spec)


def shrink(spec):
    if spec['mode'] == 'cli':
        for a in drop_each(spec['plan']['acts']):
            s = with_(spec)
            s['plan']['acts'] = a
            yield s
        for k in sorted(spec['plan']['knobs']):
            s = with_(spec)
            del s['plan']['knobs'][k]
            yield s
        if spec['cut'] is None:
            try:
                d = R.ref_parse(spec['text'])
            except Exception:
                d = None
            for key in ('values', 'sectors'):
                if isinstance(d, dict) and isinstance(d.get(key), dict) and len(d[key]) > 1:
                    items = list(d[key].items())
                    for p in drop_each(items) if len(items) < 12 else (items[:len(items) // 2], items[len(items) // 2:]):
                        yield with_(spec, text=json.dumps(dict(d, **{key: dict(p)})))
        if spec['stdin']:
            yield with_(spec, stdin=False)
    elif spec['mode'] == 'hist':
        if spec['raise']:
            yield with_(spec, **{'raise': None})
        for k in range(len(spec['ops'])):
            op = spec['ops'][k]
            if op[0] == 'newwc' and any(x[0] in ('again', 'setvals') for x in spec['ops'][k + 1:]):
                continue
            s = with_(spec)
            del s['ops'][k]
            if s['raise']:
                if s['raise'][0] == k:
                    s['raise'] = None
                elif s['raise'][0] > k:
                    s['raise'][0] -= 1
            yield s
    else:
        for s in drop_each(spec['switches']):
            yield with_(spec, switches=s)
        for p in drop_each(spec['pre']):
            yield with_(spec, pre=p)
        for t in range(len(spec['threads'])):
            for ops in drop_each(spec['threads'][t]):
                s = with_(spec)
                s['threads'][t] = ops
                yield s
