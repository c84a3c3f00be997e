"""C08: dumping is complete or reported, and never disturbs the object."""
import errno
import io
import json
import os
import simlib
import tsched
from checks import cli
from checks import registry as R
from checks.common import viol, drop_each, with_, pick_switches

ID = 'C08'
MODE = 'bases'
LIBRARY = True
BUDGET = {'quick': (12000, 300), 'thorough': (60000, 3000)}
RULE = 'distinct (object, preceding operations, format, stream, fault and place, interleaving, outcome)'
REAL = ['WCxf.dump and load of WC, EFT and Basis', 'json and yaml serialisers', 'Python file objects']
STUB = ['failing stream objects', 'kernel write/close/open (libc seam)', 'thread scheduler']
ASSUMPTIONS = ['text streams accept a write completely or raise', 'file contents are judged after the file is closed']
PROBES = ['probe:stream_error', 'probe:os_error', 'probe:interrupt', 'probe:retry', 'probe:roundtrip', 'probe:threads', 'probe:yaml', 'probe:json', 'probe:child_basis', 'probe:modified', 'probe:refused']
EXC = {'OSError': lambda: OSError(errno.ENOSPC, 'simulated'), 'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'BrokenPipeError': lambda: BrokenPipeError(errno.EPIPE, 'simulated'),
       'ValueError': lambda: ValueError('I/O operation on closed file'), 'UnicodeEncodeError': lambda: UnicodeEncodeError('ascii', 'x', 0, 1, 'simulated')}


INF = float('inf')
# what cannot be written as JSON
ODD = {'complex': lambda: 1 + 2j, 'set': lambda: {1.5}, 'bytes': lambda: b'x', 'object': object, 'function': lambda: len}


def setup():
    cli.bases()


def gen(rng, i, tier):
    t = rng.choice(['WC', 'WC', 'WC', 'EFT', 'Basis', 'Child'])
    if t == 'WC':
        e, b = rng.choice(sorted(cli.bases()))
        data = cli.rand_wc(rng, e, b, n=rng.choice([1, 2, 5, 20, 80]))
        if rng.random() < 0.3:
            data[rng.choice(['note', 'history', 'uncertainties'])] = rng.choice([None, [1, 2.5, None], {'a': {'b': 1}}, 'text', True, {'Re': 1}, {}, [], '', 0, False, '1', 'yes', ' x ', 'a\nb\n',
                                                                                 {'_private': 1, 'x_': {'_y': []}}, {'1': 'true', 'null': '~', '2.5': '0x1'}, '1e5', [[], {}], 1e300, -1e-300, 123456789012345678901])
    else:
        rec = R.mkdef(rng, i, kind='EFT' if t == 'EFT' else 'Basis')
        data = rec['def']
        if t == 'Child':
            data['parent'] = 'P'
    pre = [rng.choice(['dict', 'str', 'dump_json', 'dump_yaml', 'validate', 'wcs', 'repr', 'reload', 'translate', 'known']) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    fmt = rng.choice(['json', 'yaml', 'json', 'YAML', 'Json'])
    kw = {}
    if fmt.lower() == 'json':
        kw = rng.choice([{}, {}, {'indent': None}, {'indent': 4}, {'sort_keys': True}, {'ensure_ascii': False}])
    else:
        kw = rng.choice([{}, {}, {'default_flow_style': True}, {'allow_unicode': True}, {'width': 40}])
    if rng.random() < 0.15:
        data['metadata'] = rng.choice([{}, {'_id': 'x', 'version': ''}, {'_a': {'_b': 1}}, {'author': None}, {'tags': []}])
    spec = {'t': t, 'data': data, 'pre': pre, 'later': rng.choice([None, None, 'scale', 'value', 'replace', 'field', 'del', 'copy', 'other']), 'fmt': fmt, 'kw': kw, 'mode': rng.choice(['py', 'py', 'py', 'os', 'os', 'none', 'threads']), 'odd': rng.choice(sorted(ODD)) if rng.random() < 0.06 else None,
            'fail': None, 'plan': {'acts': [], 'knobs': {}}, 'threads': [], 'switches': [], 'first': 0, 'opcode': False, 'src': rng.choice(['ctor', 'load', 'load', 'yaml'])}
    if t == 'WC' and rng.random() < 0.05:
        data['values'][rng.choice(sorted(data['values']))] = rng.choice([INF, -INF, 1e308, 5e-324, -0.0])
    if spec['mode'] == 'py':
        spec['fail'] = [rng.choice([0, 1, 2, 5, rng.randrange(40)]), rng.choice(sorted(EXC) + ['OSError'])]
    elif spec['mode'] == 'os':
        o = execute(spec)
        w = [l for l in o.log if l[1] in ('openw', 'openc', 'write', 'closew') and l[2].endswith('dump.out')]
        h = rng.choice(['acts', 'acts', 'quota', 'sticky', 'benign'])
        if h == 'quota':
            spec['plan']['knobs']['quota'] = rng.choice([0, 1, 10, 100, 1000])
        elif w and h == 'sticky':
            spec['plan']['knobs'].update(sticky_from=rng.choice(w)[0], sticky_errno=errno.EIO)
        elif h == 'benign':
            spec['plan']['knobs']['write_chunk'] = rng.choice([1, 10, 1000])
            for l in w:
                if l[1] == 'write' and rng.random() < 0.5:
                    spec['plan']['acts'].append([l[0], simlib.ERR, errno.EINTR])
        elif w:
            l = rng.choice(w)
            spec['plan']['acts'].append([l[0], simlib.ERR, rng.choice([errno.EIO, errno.ENOSPC])])
    elif spec['mode'] == 'threads':
        nt = rng.choice([2, 2, 3])
        spec['threads'] = [[rng.choice([['dump', rng.choice(['json', 'yaml'])], ['dump', rng.choice(['json', 'yaml'])], ['dict'], ['str'], ['translate'], ['wcs']])
                            for _ in range(rng.randint(1, 2))] for _ in range(nt)]
        spec['threads'][0][0] = ['dump', rng.choice(['json', 'yaml'])]
        spec['opcode'] = rng.random() < 0.5
        spec['first'] = rng.randrange(nt)
        o = execute(spec, record=True)
        if o.result and o.result.get('trace'):
            spec['switches'] = pick_switches(rng, o.result['trace'], nt, kmax=5)
    return spec


class Sink(io.TextIOBase):
    """Text stream whose write number `fail[0]` raises."""

    def writable(self):
        return True

    def __init__(self, fail=None, sched=None):
        self.parts, self.n, self.fail, self.sched = [], 0, fail, sched
        self.failed = False

    def write(self, t):
        if self.sched:
            self.sched.point('write')
        self.n += 1
        if self.fail and self.n > self.fail[0]:
            self.failed = True
            raise EXC[self.fail[1]]()
        self.parts.append(t)
        return len(t)

    def flush(self):
        pass

    def text(self):
        return ''.join(self.parts)


def execute(spec, record=False):
    d = simlib.fresh_dir('work')
    path = os.path.join(d, 'dump.out')

    def body():
        import copy
        import wcxf
        v = []
        res = {'probes': []}
        simlib.lib.sim_disarm()
        t = spec['t']
        C = getattr(wcxf, 'Basis' if t == 'Child' else t)
        want = copy.deepcopy(spec['data'])
        if t == 'Child':
            wcxf.Basis(spec['data']['eft'], 'P', {'s1': {'p1': None, 'p2': {'tex': 'y'}}, 's9': {'p3': {'real': True}}})
            want['sectors'] = {'s1': {'p1': None, 'p2': {'tex': 'y'}}, 's9': {'p3': {'real': True}}}
            want['sectors'].update(spec['data']['sectors'])
        if t == 'WC':
            want['scale'] = float(want['scale'])
        obj = C(**copy.deepcopy(spec['data'])) if spec['src'] == 'ctor' else C.load(json.dumps(spec['data']) if spec['src'] == 'load' else cli.render(spec['data'], 'yaml', 0))

        def look(o):
            """public content"""
            return json.loads(json.dumps({k: getattr(o, k, 'MISSING') for k in want}, default=repr))

        def do(op):
            if op == 'dict' and t == 'WC':
                return obj.dict
            if op == 'str':
                try:
                    str(obj)
                except TypeError:
                    pass          # coefficients defined as null: not part of this
            if op == 'repr':
                repr(obj)
            if op in ('dump_json', 'dump_yaml'):
                obj.dump(fmt=op[5:])
            if op == 'validate':
                try:
                    obj.validate()
                except (ValueError, AssertionError, AttributeError):
                    pass
            if op == 'wcs' and t in ('Basis', 'Child'):
                obj.all_wcs
            if op == 'known' and t in ('Basis', 'Child', 'EFT'):
                obj.known_translators
            if op == 'translate' and t == 'WC':
                for (e, a, b) in cli.TRANS:
                    if (e, a) == (spec['data']['eft'], spec['data']['basis']):
                        try:
                            obj.translate(b)
                        except Exception:
                            pass
                        break
        want = json.loads(json.dumps(want))
        if look(obj) != want:
            v.append(['loaded-differs', 'object differs from its definition before any dump'])
        for op in spec['pre']:
            if op == 'reload':
                obj = C.load(obj.dump())
            else:
                do(op)
        ref = obj.dump(fmt=spec['fmt'], **spec['kw'])
        if not isinstance(ref, str):
            v.append(['no-string', 'dump without a stream returned %r' % type(ref)])
            ref = ''

        def check(o, when):
            got = look(o)
            if got != want:
                v.append(['object-changed', 'object has other content %s: %s' % (when, [k for k in want if got[k] != want[k]])])

        def parsed(text, what):
            try:
                p = cli.parse(text.encode())
            except Exception as e:
                v.append(['unparsable', '%s cannot be parsed: %s' % (what, e)])
                return
            if p != want:
                v.append(['dump-differs', '%s does not contain the object: differs in %s' % (what, sorted(k for k in set(p) | set(want) if p.get(k, 0) != want.get(k, 0)) if isinstance(p, dict) else type(p))])
        check(obj, 'after %s' % spec['pre'])
        parsed(ref, 'dump(fmt=%r)' % spec['fmt'])
        exc = None
        taken, steps, tr = [], 0, None
        if v:
            return {'viols': v, 'probes': []}
        if spec['mode'] in ('py', 'none'):
            s = Sink(spec['fail'])
            try:
                obj.dump(s, fmt=spec['fmt'], **spec['kw'])
            except BaseException as e:
                exc = type(e).__name__
            if s.failed:
                res['probes'].append('stream_error')
                if spec['fail'][1] == 'KeyboardInterrupt':
                    res['probes'].append('interrupt')
            if s.failed and exc is None and s.text() != ref:
                v.append(['error-swallowed', 'writing failed with %s after %d characters but dump returned normally' % (spec['fail'][1], len(s.text()))])
            if not s.failed and exc is not None:
                v.append(['spurious-error', 'dump to a working stream raised ' + exc])
            if not s.failed and exc is None:
                parsed(s.text(), 'text written by dump')
            if s.failed and not ref.startswith(s.text()):
                v.append(['not-a-prefix', 'what was written before the failure is not the beginning of the document'])
        elif spec['mode'] == 'os':
            simlib.lib.sim_arm()
            try:
                with open(path, 'w', encoding='utf-8') as f:
                    obj.dump(f, fmt=spec['fmt'], **spec['kw'])
            except BaseException as e:
                exc = type(e).__name__
            simlib.lib.sim_disarm()
            data = simlib.read_file(path)
            if exc is None:
                if data is None:
                    v.append(['error-swallowed', 'nothing was written but dump and close returned normally'])
                else:
                    try:
                        parsed(data.decode('utf-8'), 'file written by dump')
                    except UnicodeDecodeError:
                        v.append(['unparsable', 'file is not UTF-8'])
            elif data and not ref.encode().startswith(data):
                v.append(['not-a-prefix', 'what was written before the failure is not the beginning of the document'])
        else:
            s = tsched.Sched(spec['switches'], opcode_files=['classes.py'] if spec['opcode'] else [], record=record)
            sinks = []

            def thread(k):
                def f(s):
                    for op in spec['threads'][k]:
                        try:
                            if op[0] == 'dump':
                                sk = Sink(None, s)
                                obj.dump(sk, fmt=op[1])
                                sinks.append((sk, op[1]))
                            else:
                                do(op[0])
                        except Exception as e:
                            v.append(['error-concurrent', '%s raised %s: %s while other threads use the object' % (op, type(e).__name__, e)])
                return f
            s.run([thread(k) for k in range(len(spec['threads']))], first=spec['first'])
            if s.deadlock:
                v.append(['deadlock', 'threads blocked'])
            taken, steps, tr = s.taken, s.step, s.trace
            for sk, fmt in sinks:
                parsed(sk.text(), 'text dumped while other threads use the object')
            res['probes'].append('threads')
        # afterwards, faults gone
        check(obj, 'after the dump (%s)' % (exc or 'ok'))
        if t != 'WC' and C[obj.eft if t == 'EFT' else (obj.eft, obj.basis)] is not obj:
            v.append(['registry-changed', 'the registered instance is another one after the dump'])
        s = Sink()
        try:
            obj.dump(s, fmt=spec['fmt'], **spec['kw'])
            res['probes'].append('retry')
            if s.text() != ref:
                parsed(s.text(), 'second dump')
            again = C.load(s.text())
            check(again, 'after dump and load')
            res['probes'].append('roundtrip')
        except Exception as e:
            v.append(['retry-failed', 'dumping and loading again without faults raised %s: %s' % (type(e).__name__, e)])
        # the object is modified by its owner: the next dump shows it
        if spec['later'] and not v:
            o2 = obj
            if spec['later'] == 'copy':
                o2 = copy.deepcopy(obj)
            elif spec['later'] == 'other':
                o2 = C(**copy.deepcopy(spec['data']))
            part = 'values' if t == 'WC' else 'sectors'
            want = copy.deepcopy(want)
            if spec['later'] == 'scale' and t == 'WC':
                o2.scale = want['scale'] = 17.25
            elif spec['later'] == 'field':
                o2.remark = want['remark'] = 'changed'
            elif spec['later'] == 'replace':
                n = {'new': 1.5} if t == 'WC' else {'news': {'new': {'tex': 'n'}}}
                setattr(o2, part, copy.deepcopy(n))
                want[part] = n
            elif spec['later'] == 'del' and want[part]:
                k = sorted(want[part])[0]
                del getattr(o2, part)[k]
                del want[part][k]
            else:
                getattr(o2, part)['added'] = 2.5 if t == 'WC' else {'c': None}
                want[part]['added'] = 2.5 if t == 'WC' else {'c': None}
            for f in (spec['fmt'], 'json', 'yaml'):
                parsed(o2.dump(fmt=f), 'dump(fmt=%r) after the object was modified (%s)' % (f, spec['later']))
            res['probes'].append('modified')
        if spec['odd'] and not v:
            # content that has no JSON form: refused, or it comes back as it was
            bad = ODD[spec['odd']]()
            part = 'values' if t == 'WC' else 'sectors'
            o3 = copy.deepcopy(obj)
            getattr(o3, part)['odd'] = bad
            for how in ('string', 'stream'):
                s = Sink()
                try:
                    text = o3.dump() if how == 'string' else (o3.dump(s), s.text())[1]
                except Exception:
                    res['probes'].append('refused')
                else:
                    back = json.loads(text).get(part, {}).get('odd')
                    if back != bad:
                        v.append(['lossy', 'dump to a %s of a value of type %s succeeded but the text contains %r' % (how, spec['odd'], back)])
                if getattr(o3, part).get('odd') != bad:
                    v.append(['object-changed', 'a value was changed by the dump'])
        res['probes'].append(spec['fmt'].lower())
        if t == 'Child':
            res['probes'].append('child_basis')
        res.update(viols=v, exc=exc, taken=taken, steps=steps, trace=tr if record else None)
        return res
    return simlib.run_child(body, plan=spec['plan'])


def run(spec):
    o = execute(spec)
    if o.hang:
        return {'viol': [viol('hang', 'no progress')], 'stats': {}, 'sig': 'hang'}
    r = o.result
    if r is None:
        if simlib.harness_fault(o):
            raise simlib.HarnessError('%s %s' % (o.exc, o.stderr))
        return {'viol': [viol('died', '%s %s %s' % (o.status, o.exc, o.stderr))], 'stats': {}, 'sig': 'died'}
    st = {'os_steps': o.nops, 'sched_steps': r.get('steps', 0), 'fault:preemption': len(r.get('taken') or ())}
    v = [viol(*x) for x in r['viols'][:5]]
    fired = [l for l in o.log if l[4]]
    hard = o.fired - len([l for l in fired if l[4] == '!1:4'])
    if spec['mode'] == 'os':
        if r.get('exc') and not hard and 'quota' not in spec['plan']['knobs']:
            v.append(viol('spurious-error', 'dump to a file raised %s although nothing failed' % r['exc']))
        if hard or r.get('exc'):
            st['probe:os_error'] = 1
            st['fault:os_error'] = max(hard, 1)
    if 'write_chunk' in spec['plan']['knobs']:
        st['fault:chunked_output'] = 1
    for p in r['probes']:
        st['probe:' + p] = 1
    if 'stream_error' in r['probes']:
        st['fault:stream_' + spec['fail'][1]] = 1
    return {'viol': v, 'stats': st, 'nontrivial': spec['mode'] != 'none' or bool(spec['pre']),
            'sig': simlib.h([spec['t'], spec['data'], spec['pre'], spec['fmt'], spec['kw'], spec['fail'], r.get('exc'), r.get('taken'), simlib.log_sig(o.log)]),
            'sample': {'type': spec['t'], 'fmt': spec['fmt'], 'mode': spec['mode'], 'fail': spec['fail'], 'outcome': r.get('exc') or 'ok', 'fired': fired},
            'trace': {'exc': r.get('exc'), 'log': o.log[:100], 'switches': r.get('taken')}}


def shrink(spec):
    for p in drop_each(spec['pre']):
        yield with_(spec, pre=p)
    for a in drop_each(spec['plan']['acts']):
        s = with_(spec)
        s['plan']['acts'] = a
        yield s
    for k in sorted(spec['plan']['knobs']):
        s = with_(spec)
        del s['plan']['knobs'][k]
        yield s
    for s in drop_each(spec['switches']):
        yield with_(spec, switches=s)
    for k in range(len(spec['threads'])):
        if len(spec['threads'][k]) > 1:
            for t in drop_each(spec['threads'][k]):
                yield with_(spec, threads=spec['threads'][:k] + [t] + spec['threads'][k + 1:])
    if spec['later']:
        yield with_(spec, later=None)
    if spec['kw']:
        yield with_(spec, kw={})
    if spec['t'] == 'WC' and len(spec['data']['values']) > 1:
        vals = list(spec['data']['values'].items())
        for p in (vals[:len(vals) // 2], vals[len(vals) // 2:]):
            s = with_(spec)
            s['data']['values'] = dict(p)
            yield s
    if 'metadata' in spec['data']:
        s = with_(spec)
        del s['data']['metadata']
        yield s
