"""C15: the same request on the same data gives the same coefficients in every process."""
import copy
import os
import random
import sys
import simlib
from checks import cli, hist, c10, c12, c15sub
from checks import registry as R
from checks.common import viol, with_

ID = 'C15'
MODE = 'bases'
BUDGET = {'quick': (4000, 300), 'thorough': (30000, 3000)}
RULE = 'distinct (command or calls, data, configurations compared, result)'
REAL = ['command line tools and library in several interpreter processes', 'json and yaml']
STUB = ['hash randomisation (chosen seed per process)', 'optimisation level of the interpreter', 'order in which directories are listed at import and for EOS', 'order of the coefficients in the file', 'contents of wcxf/bases']
ASSUMPTIONS = ['numbers agree within rounding (1e-7 relative, 1e-11 of the largest coefficient)', 'order and layout of the output are not compared']
PROBES = ['probe:cli', 'probe:calls', 'probe:listing', 'probe:key_order', 'probe:format', 'probe:translate', 'probe:match', 'probe:convert', 'probe:eos', 'probe:smeftsim', 'probe:validate', 'probe:optimised', 'probe:verdict', 'probe:qcd']
# (hash seed, listing order at import, optimisation level of the interpreter)
CONFIGS = [('1', 11, 0), ('424242', 5, 1), ('2718281', 77, 0), ('7', 3, 2), ('99', 1234, 0), ('31337', 8, 0)]
_subs = {}


def setup():
    cli.bases()


def sub(k):
    import engine
    if k not in _subs:
        if len(_subs) >= 3:
            _subs.pop(sorted(_subs)[0]).stop()
        env = dict(os.environ)
        env['PYTHONHASHSEED'], env['SIM_DIRSEED'] = CONFIGS[k][0], str(CONFIGS[k][1])
        env.pop('PYTHONOPTIMIZE', None)
        if CONFIGS[k][2]:
            env['PYTHONOPTIMIZE'] = str(CONFIGS[k][2])
        env.update([{'TZ': 'Asia/Tokyo', 'COLUMNS': '40'}, {'HOME': '/nonexistent', 'LOGNAME': 'x', 'LINES': '3'}, {'TZ': 'UTC', 'USER': 'root', 'LC_NUMERIC': 'de_DE.UTF-8'}, {}][k % 4])
        d = os.path.join(simlib.scratch, 'sub')
        os.makedirs(d, exist_ok=True)
        _subs[k] = engine.Worker('C15SUB', d, env, session=False)
    return _subs[k]


def ask(k, spec):
    m = sub(k).call({'cmd': 'spec', 'spec': spec}, 300)
    if 'error' in m:
        raise simlib.HarnessError(m['error'])
    return m['res']


def gen(rng, i, tier):
    x = rng.random()
    # few configurations per worker at a time: they are whole processes
    k = (i // 100) % (4 if tier == 'quick' else len(CONFIGS))
    spec = {'k': k, 'dirseed': rng.randrange(1, 1 << 20), 'order': rng.choice([0, rng.randrange(1, 1 << 20)]), 'refmt': rng.random() < 0.3}
    if x < 0.55:
        spec['mode'] = 'cli'
        spec['c'] = cli.gen_cmd(rng, slow=0.05, invalid=0.1)
        spec['c']['genuine'] = False
    elif x < 0.63:
        spec['mode'] = 'verdict'
        spec['data'] = [c12.gen_file(rng) for _ in range(4)]
        spec['styles'] = [[rng.choice(['json', 'yaml']), rng.randrange(6)] for _ in range(4)]
        spec['files'] = [[t, R.render(d, *st)] for (t, d), st in zip(spec['data'], spec['styles'])]
    elif x < 0.7:
        spec['mode'] = 'qcd'
        spec['calls'] = [c10.rand_call(rng) for _ in range(12)]
    elif x < 0.97:
        spec['mode'] = 'calls'
        spec['calls'] = hist.rand_calls(rng, rng.choice([1, 1, 2]), slow=rng.random() < 0.1)
    else:
        spec['mode'] = 'listing'
    return spec


def shuffled(d, seed):
    r = random.Random(seed)
    items = list(d.items())
    r.shuffle(items)
    return dict(items)


def variant(spec):
    """The same request with the entries in another order, in the other format."""
    s = {'mode': spec['mode'], 'dirseed': spec['dirseed'] + 1}
    if spec['mode'] == 'cli':
        c = copy.deepcopy(spec['c'])
        if spec['order'] and isinstance(c['data'].get('values'), dict) and c.get('raw') is None:
            c['data']['values'] = shuffled(c['data']['values'], spec['order'])
            c['data'] = shuffled(c['data'], spec['order'])
        if spec['refmt'] and c['kind'] not in ('convert', 'smeftsim') and c.get('raw') is None:
            c['fmt'] = {'json': 'yaml', 'yaml': 'json'}[c['fmt']]
            c['style'] = (c['style'] + 1) % 6
        s['c'] = c
    elif spec['mode'] == 'verdict':
        s['files'] = []
        for (t, d), (f, n) in zip(spec['data'], spec['styles']):
            d = copy.deepcopy(d)
            if spec['order']:
                for k in ('values', 'sectors'):
                    if isinstance(d.get(k), dict):
                        d[k] = shuffled(d[k], spec['order'])
                d = shuffled(d, spec['order'])
            if spec['refmt']:
                f = {'json': 'yaml', 'yaml': 'json'}[f]
            s['files'].append([t, R.render(d, f, n)])
    elif spec['mode'] == 'qcd':
        s['calls'] = spec['calls']
    elif spec['mode'] == 'calls':
        s['calls'] = copy.deepcopy(spec['calls'])
        if spec['order']:
            for c in s['calls']:
                c['src']['values'] = shuffled(c['src']['values'], spec['order'])
                if c['params']:
                    c['params'] = shuffled(c['params'], spec['order'])
    return s


def cnum(v):
    return complex(v.get('Re', 0), v.get('Im', 0)) if isinstance(v, dict) else complex(v)


def differ(a, b):
    """Difference of two {name: value}, or None."""
    try:
        a, b = {k: cnum(v) for k, v in a.items()}, {k: cnum(v) for k, v in b.items()}
    except (TypeError, ValueError, AttributeError):
        return None if cli.close(a, b, 1e-7) else '%.100r != %.100r' % (a, b)
    big = max([abs(x) for x in list(a.values()) + list(b.values())] or [0])
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k, 0), b.get(k, 0)
        if not abs(x - y) <= 1e-7 * max(abs(x), abs(y)) + 1e-11 * big and not (x != x and y != y):
            return '%s: %r and %r' % (k, a.get(k), b.get(k))
    return None


def compare(kind, a, b):
    if not isinstance(a, dict) or not isinstance(b, dict):
        return None if cli.close(a, b, 1e-7) else '%.100r != %.100r' % (a, b)
    if kind in ('translate', 'match') and isinstance(a.get('values'), dict) and isinstance(b.get('values'), dict):
        for k in ('eft', 'basis', 'scale'):
            if a.get(k) != b.get(k):
                return '%s: %r and %r' % (k, a.get(k), b.get(k))
        return differ(a['values'], b['values'])
    if kind == 'eos':
        return differ({k: v['central'] for k, v in a.items()}, {k: v['central'] for k, v in b.items()})
    return None if cli.close(a, b, 1e-7) else 'different content'


def card(text):
    """Numbers of a param_card by block and index."""
    out, block = {}, ''
    for l in text.splitlines():
        l = l.split('#')[0].split()
        if not l:
            continue
        if l[0].lower() == 'block':
            block = ' '.join(l[1:2]).upper()
        else:
            out.setdefault(block, []).append(l)
    return {b: sorted(x) for b, x in out.items()}


def run(spec):
    st = {'probe:' + spec['mode']: 1, 'fault:other_hash_seed': 1, 'fault:other_listing_order': 1}
    if CONFIGS[spec['k']][2]:
        st['fault:optimised_interpreter'] = st['probe:optimised'] = 1
    v = []
    if spec['mode'] == 'listing':
        a = c15sub.run(spec)
        b = ask(spec['k'], spec)
        if a['result'] is None or a['result'] != b['result']:
            v.append(viol('listing', 'registered definitions differ between processes (hash seed %s): %s %s' % (CONFIGS[spec['k']], a.get('exc'), b.get('exc'))))
        return {'viol': v, 'stats': st, 'nontrivial': True, 'sig': simlib.h([spec, a['result']]), 'sample': {'mode': 'listing'}}
    var = variant(spec)
    a = c15sub.run(spec)
    b = ask(spec['k'], var)
    if a['hang'] or b['hang']:
        return {'viol': [viol('hang', 'no progress')], 'stats': st, 'sig': 'hang'}
    if spec['order']:
        st['probe:key_order'] = 1
        st['fault:other_key_order'] = 1
    what = 'hash seed %s, listing order %s, optimisation level %s%s' % (CONFIGS[spec['k']] + (', entries reordered' if spec['order'] else '',))
    if spec['mode'] in ('verdict', 'qcd'):
        if a['result'] is None or b['result'] is None:
            raise simlib.HarnessError('%s %s %s %s' % (a['exc'], a['tb'], b['exc'], b['tb']))
        for k, (x, y) in enumerate(zip(a['result'], b['result'])):
            if isinstance(x, str) and isinstance(y, str) and x.startswith('error') and y.startswith('error'):
                continue
            if x != y and not (isinstance(x, (dict, float)) and cli.close(x, y, 1e-12)):
                v.append(viol(spec['mode'], '%s gives %s and %s (%s)' % (spec['files'][k] if spec['mode'] == 'verdict' else spec['calls'][k][:3], x, y, what)))
        sig = [spec.get('files') or spec['calls'], spec['k'], spec['order'], a['result']]
        sample = {'mode': spec['mode'], 'results': a['result'], 'config': CONFIGS[spec['k']]}
    elif spec['mode'] == 'cli':
        c = spec['c']
        st['probe:' + c['kind']] = 1
        if var['c']['fmt'] != c['fmt']:
            st['probe:format'] = 1
        if (a['status'] == 0) != (b['status'] == 0):
            v.append(viol('status', '%s: exit status %s and %s (%s): %s' % (c['argv'], a['status'], b['status'], what, (a['err'] + b['err'])[-300:])))
        elif a['status'] == 0:
            if c['kind'] == 'validate':
                d = None if a['out'] == b['out'] else 'different verdicts'
            elif c['kind'] == 'smeftsim':
                ca, cb = card(a['out'] or ''), card(b['out'] or '')
                d = None
                if ca.keys() != cb.keys():
                    d = 'blocks differ'
                else:
                    for k in ca:
                        if len(ca[k]) != len(cb[k]) or any(not same_line(x, y) for x, y in zip(ca[k], cb[k])):
                            d = 'block %s differs' % k
                            break
            else:
                try:
                    d = compare(c['kind'], cli.parse((a['out'] or '').encode()), cli.parse((b['out'] or '').encode()))
                except Exception as e:
                    d = 'unreadable output: %s' % type(e).__name__
            if d:
                v.append(viol('result', '%s gives different results (%s): %s' % (c['argv'], what, d)))
        sig = [c['argv'], a['status'], simlib.h(a['out'] or ''), spec['k'], spec['order'], simlib.h(cli.text_of(c))]
        sample = {'argv': c['argv'], 'status': a['status'], 'config': CONFIGS[spec['k']]}
    else:
        if a['result'] is None or b['result'] is None:
            raise simlib.HarnessError('%s %s %s %s' % (a['exc'], a['tb'], b['exc'], b['tb']))
        for c, x, y in zip(spec['calls'], a['result'], b['result']):
            st['probe:' + c['route'][0]] = 1
            d = compare(c['route'][0], x, y)
            if d:
                v.append(viol('result', '%s gives different results (%s): %s' % (c['route'], what, d)))
        sig = [spec['calls'], spec['k'], spec['order'], simlib.h(a['result'])]
        sample = {'routes': [c['route'] for c in spec['calls']], 'config': CONFIGS[spec['k']]}
    return {'viol': v[:3], 'stats': st, 'nontrivial': True, 'sig': simlib.h(sig), 'sample': sample, 'trace': {'a': str(a)[:500], 'b': str(b)[:500]}}


def same_line(x, y):
    if len(x) != len(y):
        return False
    for s, t in zip(x, y):
        if s != t:
            try:
                if not cli.close(float(s), float(t), 1e-6):
                    return False
            except ValueError:
                return False
    return True


def shrink(spec):
    if spec['order']:
        yield with_(spec, order=0)
    if spec['refmt']:
        yield with_(spec, refmt=False)
    if spec['mode'] == 'verdict':
        for k in range(len(spec['data'])):
            if len(spec['data']) > 1:
                yield with_(spec, **{x: spec[x][:k] + spec[x][k + 1:] for x in ('data', 'styles', 'files')})
    elif spec['mode'] == 'qcd':
        for k in range(len(spec['calls'])):
            if len(spec['calls']) > 1:
                yield with_(spec, calls=spec['calls'][:k] + spec['calls'][k + 1:])
    elif spec['mode'] == 'cli':
        for c in cli.shrink_cmd(spec['c']):
            yield with_(spec, c=c)
    elif spec['mode'] == 'calls':
        for k in range(len(spec['calls'])):
            if len(spec['calls']) > 1:
                yield with_(spec, calls=spec['calls'][:k] + spec['calls'][k + 1:])
            for c in hist.shrink_call(spec['calls'][k]):
                yield with_(spec, calls=spec['calls'][:k] + [c] + spec['calls'][k + 1:])
