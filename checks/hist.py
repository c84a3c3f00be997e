"""Histories of translation and matching calls, and the reference for each
call: the same call as the only one in a pristine process."""
import copy
import json
import simlib
from checks import cli

PARAMS = {'Vus': [0.2243, 0.225, 0.22], 'Vub': [3.62e-3, 4e-3], 'Vcb': [4.221e-2, 0.039], 'gamma': [1.27, 1.1], 'm_b': [4.18, 4.3], 'm_s': [0.095, 0.1],
          'alpha_e': [1 / 127.9, 1 / 137.], 'alpha_s': [0.1185, 0.117], 'GF': [1.1663787e-5, 1.17e-5], 'm_W': [80.385, 80.5], 'm_e': [0.0005109989461, 0.0006],
          'm_mu': [0.1056583745, 0.11], 'm_tau': [1.77686, 1.8], 'm_Z': [91.1876, 91.0]}


def rand_params(rng):
    ks = rng.sample(sorted(PARAMS), rng.choice([1, 2, 5]))
    return {k: rng.choice(PARAMS[k]) for k in ks}


def routes(slow):
    r = [['translate', e, a, b] for e, a, b in cli.TRANS] + [['match'] + list(m) for m in cli.MATCH]
    if not slow:
        r = [x for x in r if tuple(x[1:]) not in cli.SLOW]
    return r


def rand_src(rng, route, n=None):
    eft, basis = route[1], route[2]
    smeft = eft == 'SMEFT'
    d = cli.rand_wc(rng, eft, basis, n=n or rng.choice([2, 5, 12] if smeft else [2, 6, 20, 60]), meta=1)
    if rng.random() < 0.12:
        # all of them small
        f = 10.0 ** -rng.choice([4, 8, 15, 22, 29])
        d['values'] = {k: {q: y * f for q, y in x.items()} if isinstance(x, dict) else x * f for k, x in d['values'].items()}
    if rng.random() < 0.15:
        # some of them zero
        for k in sorted(d['values']):
            if rng.random() < 0.4:
                d['values'][k] = rng.choice([{'Re': 0.0, 'Im': 0.0}, {'Re': 0, 'Im': 0}] if isinstance(d['values'][k], dict) else [0, 0.0, -0.0])
    if smeft and route[0] == 'match':
        for k in cli.SCALARS:
            d['values'].setdefault(k, rng.uniform(-1e-9, 1e-9))
    return d


def rand_calls(rng, n, slow=False):
    """Calls that share some of their ingredients: what a wrongly kept piece of
    state would confuse.  A call: {'route', 'src', 'params'}"""
    base = rng.choice(routes(False))
    if slow or rng.random() < 0.25:
        base = ['match'] + list(rng.choice(sorted(cli.SLOW)))
    focus = rng.choice(sorted(PARAMS)) if rng.random() < 0.3 else None
    calls = [{'route': base, 'src': rand_src(rng, base), 'params': rand_params(rng) if rng.random() < 0.3 else None}]
    while len(calls) < n:
        c = copy.deepcopy(rng.choice(calls))
        how = rng.choice(['scale', 'values', 'value1', 'params', 'params', 'route', 'subset', 'other', 'swap', 'sametarget', 'near'])
        if how == 'near':
            # close by, but not the same
            f = 1 + rng.choice([1e-2, 1e-3, -1e-3, 1e-4, 1e-5])
            what = rng.choice(['scale', 'values', 'params'])
            if what == 'scale':
                c['src']['scale'] *= f
            elif what == 'params' and c['params']:
                k = rng.choice(sorted(c['params']))
                c['params'][k] *= f
            else:
                ks = sorted(k for k in c['src']['values'] if isinstance(c['src']['values'][k], float))
                for k in ks[:rng.choice([1, 1, 99])]:
                    c['src']['values'][k] *= f
        elif how == 'scale':
            c['src']['scale'] = rng.choice([91.1876, 4.8, 2.0, 160.0, 4.2, 80.385, 5.0])
        elif how == 'values':
            c['src'] = dict(rand_src(rng, c['route']), scale=c['src']['scale'])
        elif how == 'value1':
            k = rng.choice(sorted(c['src']['values']))
            c['src']['values'][k] = rng.uniform(-1, 1)
        elif how == 'params':
            if focus:
                c['params'] = None if c['params'] else {focus: PARAMS[focus][-1]}
            else:
                c['params'] = None if c['params'] and rng.random() < 0.5 else rand_params(rng)
        elif how == 'subset' and len(c['src']['values']) > 2:
            ks = sorted(k for k in c['src']['values'] if k not in cli.SCALARS)
            for k in rng.sample(ks, len(ks) // 2):
                del c['src']['values'][k]
            if not c['src']['values']:
                continue
        elif how == 'swap':
            ks = sorted(k for k in c['src']['values'] if isinstance(c['src']['values'][k], float))
            if len(ks) >= 2:
                a, b = rng.sample(ks, 2)
                v = c['src']['values']
                v[a], v[b] = v[b], v[a]
        elif how == 'sametarget':
            # another source with the same target basis
            cand = [x for x in routes(rng.random() < 0.3) if x[-1] == c['route'][-1] and x != c['route']]
            if not cand:
                continue
            c['route'] = rng.choice(cand)
            c['src'] = rand_src(rng, c['route'])
        else:
            cand = routes(rng.random() < 0.3)
            if how == 'route':
                cand = [x for x in cand if x[1:3] == c['route'][1:3]] or cand
            r = rng.choice(cand)
            if r[1:3] != c['route'][1:3]:
                c['src'] = rand_src(rng, r)
            elif r[0] == 'match' and r[1] == 'SMEFT':
                for k in cli.SCALARS:
                    c['src']['values'].setdefault(k, 1e-9)
            c['route'] = r
        calls.append(c)
    return calls


def make(src):
    import wcxf
    d = copy.deepcopy(src)
    return wcxf.WC(d['eft'], d['basis'], d['scale'], d['values'])


def do_call(c, wc=None, params='own'):
    """-> (object or None, plain result)"""
    if wc is None:
        wc = make(c['src'])
    p = copy.deepcopy(c['params']) if params == 'own' else params
    r = c['route']
    try:
        if r[0] == 'translate':
            o = wc.translate(r[3], parameters=p) if p is not None else wc.translate(r[3])
        else:
            o = wc.match(r[3], r[4], parameters=p) if p is not None else wc.match(r[3], r[4])
    except Exception as e:
        if isinstance(e, MemoryError) and str(e) == 'simulated':
            raise
        return None, ['error', type(e).__name__]
    return o, plain(o)


def plain(o):
    return {'eft': o.eft, 'basis': o.basis, 'scale': o.scale, 'values': {k: num(v) for k, v in o.values.items()}}


def num(v):
    if isinstance(v, dict):
        return {k: float(x) for k, x in v.items()}
    return float(v)


_ref = {}


def reference(c):
    """The call alone in a pristine process (kept: it is a pure function of c)."""
    k = simlib.h(c)
    if k not in _ref:
        def body():
            return do_call(c)[1]
        o = simlib.run_child(body, arm=False)
        if o.result is None:
            raise simlib.HarnessError('reference process ended: %s %s' % (o.exc, o.stderr))
        if len(_ref) > 300:
            _ref.clear()
        _ref[k] = json.dumps(o.result)
    return json.loads(_ref[k])


def same(a, b, rel=1e-9):
    return cli.close(a, b, rel)


def differences(a, b):
    if not isinstance(a, dict) or not isinstance(b, dict):
        return '%.100r != %.100r' % (a, b)
    out = []
    for k in ('eft', 'basis', 'scale'):
        if a.get(k) != b.get(k):
            out.append('%s %r != %r' % (k, a.get(k), b.get(k)))
    ks = [k for k in sorted(set(a['values']) | set(b['values'])) if not cli.close(a['values'].get(k), b['values'].get(k))]
    out += ['%s: %.60r instead of %.60r' % (k, a['values'].get(k), b['values'].get(k)) for k in ks[:2]]
    if len(ks) > 2:
        out.append('%d coefficients in all' % len(ks))
    return '; '.join(out)


def defaults():
    import wcxf.parameters
    return json.loads(json.dumps(wcxf.parameters.p))


def shrink_call(c):
    vals = [k for k in c['src']['values'] if k not in cli.SCALARS]
    if len(vals) > 1:
        for part in (vals[:len(vals) // 2], vals[len(vals) // 2:]):
            n = copy.deepcopy(c)
            for k in part:
                del n['src']['values'][k]
            yield n
    if c['params'] and len(c['params']) > 1:
        for k in sorted(c['params']):
            n = copy.deepcopy(c)
            del n['params'][k]
            yield n
