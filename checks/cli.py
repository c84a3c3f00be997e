"""Command lines, input files and expected results for the command line checks."""
import copy
import errno
import json
import math
import os
import re
import simlib

FIX = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'fixtures', 'bases')
TRANS = [('SMEFT', 'Warsaw', 'Warsaw mass'), ('SMEFT', 'Warsaw', 'Warsaw up'), ('SMEFT', 'Warsaw up', 'Warsaw'),
         ('WET', 'JMS', 'flavio'), ('WET-4', 'JMS', 'flavio'), ('WET-3', 'JMS', 'flavio'), ('WET', 'Bern', 'flavio'),
         ('WET', 'flavio', 'Bern'), ('WET-4', 'Bern', 'flavio'), ('WET-4', 'flavio', 'Bern'), ('WET-3', 'Bern', 'flavio'),
         ('WET-3', 'flavio', 'Bern'), ('WET', 'JMS', 'EOS'), ('WET', 'JMS', 'Bern'), ('WET-4', 'JMS', 'Bern'),
         ('WET-3', 'JMS', 'Bern'), ('WET', 'JMS', 'formflavor'), ('WET', 'FlavorKit', 'JMS'), ('WET', 'JMS', 'FlavorKit'),
         ('WET', 'FlavorKit', 'flavio')]
MATCH = [('SMEFT', 'Warsaw up', 'WET', 'JMS'), ('SMEFT', 'Warsaw', 'WET', 'JMS'), ('SMEFT', 'Warsaw', 'WET', 'flavio'),
         ('SMEFT', 'Warsaw', 'WET', 'EOS'), ('SMEFT', 'Warsaw', 'WET', 'Bern'), ('WET', 'flavio', 'WET-4', 'flavio'),
         ('WET-4', 'flavio', 'WET-3', 'flavio'), ('WET', 'Bern', 'WET-4', 'Bern'), ('WET-4', 'Bern', 'WET-3', 'Bern'),
         ('WET', 'JMS', 'WET-4', 'JMS'), ('WET-4', 'JMS', 'WET-3', 'JMS'), ('WET-3', 'JMS', 'WET-2', 'JMS')]
SLOW = {('SMEFT', 'Warsaw', 'WET', x) for x in ('JMS', 'flavio', 'EOS', 'Bern')} | {('SMEFT', 'Warsaw up', 'WET', 'JMS')}
_bases = {}
_efts = {}


def _load():
    if _bases:
        return
    for d in (FIX, os.path.join(FIX, 'child')):
        for f in sorted(os.listdir(d)):
            if f.endswith('.json'):
                c = json.load(open(os.path.join(d, f)))
                if 'basis' in c:
                    _bases[c['eft'], c['basis']] = c
                else:
                    _efts[c['eft']] = c
    for k, c in _bases.items():
        if 'parent' in c:
            s = dict(_bases[c['eft'], c['parent']]['sectors'])
            s.update(c['sectors'])
            c['_all'] = s
        else:
            c['_all'] = c['sectors']


def bases():
    _load()
    return _bases


def efts():
    _load()
    return _efts


def wcs_of(eft, basis):
    return {k: v for s in bases()[eft, basis]['_all'].values() for k, v in s.items()}


SCALARS = ['G', 'Gtilde', 'W', 'Wtilde', 'phi', 'phiBox', 'phiD', 'phiG', 'phiB', 'phiW', 'phiWB', 'phiGtilde', 'phiBtilde', 'phiWtilde', 'phiWtildeB']
SPECIAL = {'WET': {'flavio': ['C7_bs', 'C9_bsmumu', 'C10_bsmumu', 'CVLL_bsbs', 'C8_bs']}}


def rand_value(rng, real):
    x = rng.choice([rng.uniform(-1, 1), rng.uniform(-1e-6, 1e-6), rng.choice([1.0, -0.5, 2, 1e-8, 3])])
    if rng.random() < 0.06:
        return rng.choice([{'Re': x, 'Im': 0}, {'Re': x, 'Im': 0.0}, {'Re': x}, 0, 0.0, {'Re': 0.0, 'Im': 0.0}])
    if real or rng.random() < 0.5:
        return x
    if rng.random() < 0.05:
        return {'Im': x}
    return {'Re': x, 'Im': rng.uniform(-1, 1)}


def rand_wc(rng, eft, basis, n=None, scale=None, meta=None):
    names = sorted(wcs_of(eft, basis))
    defs = wcs_of(eft, basis)
    n = n or rng.choice([1, 2, 3, 5, 8, 20, 60])
    # bias towards related names: neighbours in the sorted list
    picked = set(rng.sample(names, min(n, len(names))))
    if rng.random() < 0.5:
        k = rng.randrange(len(names))
        picked |= set(names[k:k + n])
    picked = sorted(picked)[:max(n, 1)]
    rng.shuffle(picked)
    d = {'eft': eft, 'basis': basis,
         'scale': scale if scale is not None else rng.choice([91.1876, 4.8, 160, 1000, 4.2, 2.0, 80.385] if eft == 'SMEFT' else [4.8, 4.2, 5, 91.1876, 2.0]),
         'values': {k: rand_value(rng, bool((defs[k] or {}).get('real'))) for k in picked}}
    m = rng.random() if meta is None else meta
    if m < 0.4:
        d['metadata'] = {'generator': 'sim', 'description': rng.choice(['plain', 'ümlaut – 1π', 'x' * 300, 'a: b # c', "it's \"q\"", 'first line\nsecond  line\n', 'a\tb', ' blank at both ends ', 'two\n\nparagraphs', ''])}
    if m < 0.1:
        d['metadata']['note'] = 'π' * 5000
    return d


def render(d, fmt, style):
    import yaml
    if fmt == 'json':
        t = json.dumps(d, indent=[None, 1, 4][style % 3], ensure_ascii=bool(style % 2))
        if style >= 6:
            t = ['', '\n\n '][style % 2] + t.replace('\n', '\n\n').replace('\n ', '\n\t ') + ['\n', '\n\n', ''][style % 3]
        return t
    t = yaml.safe_dump(d, default_flow_style=[False, None, True][style % 3], allow_unicode=bool(style % 2), width=[80, 1000][style % 2])
    if style >= 6:
        if style % 3 == 0:
            t = re.sub(r'(?m)^(?=[^\s#-])', '\n# –\n', t)
        t = ['---\n', '# comment\n\n', '%YAML 1.1\n---\n'][style % 3] + t + ['\n', '...\n'][style % 2]
        if style == 6:
            t = t.rstrip('\n')
    return t


EOS_KEYS = ['b->s::Re{c7}', 'b->s::Im{c7}', 'b->smumu::Re{c9}', 'b->smumu::Im{c9}', 'b->s::c1', 'b->s::c2', 'b->ulnu::Re{cVL}',
            'b->ulnu::Im{cVL}', 'b->s::c5', 'b->see::Re{c10}', "b->smumu::Re{c10'}"]


def eos_params(rng, nfiles=None, dup=0.4):
    """{file name: mapping} for share/eos/parameters"""
    out = {}
    used = []
    for i in range(nfiles or rng.randint(1, 4)):
        d = {'@metadata@': {'description': 'file %d' % i}}
        x = rng.random()
        if x < 0.75:
            d['@metadata@']['wcxf-relevant'] = True
        elif x < 0.85:
            d['@metadata@']['wcxf-relevant'] = False
        ks = rng.sample(EOS_KEYS, rng.randint(1, 6))
        if used and rng.random() < dup:
            ks.append(rng.choice(used))
        for k in ks:
            c = 0.0 if rng.random() < 0.1 else round(rng.uniform(-1, 1), 6)
            d[k] = {'central': c, 'min': c - 0.1, 'max': c + 0.1}
        used += ks
        out['%s%d.yaml' % (rng.choice(['z-', 'a-', 'wilson-', 'B']), i)] = d
    return out


def gen_cmd(rng, which=None, slow=0.05, invalid=0.0):
    """A command: {'argv', 'files', 'stdin', 'stdin_kind', 'out', 'in', 'kind', 'valid'}.
    'valid' False: the command cannot succeed."""
    kind = which or rng.choice(['convert', 'convert', 'translate', 'translate', 'match', 'validate', 'eos', 'smeftsim'])
    style = rng.randrange(12)
    fmt = rng.choice(['json', 'json', 'yaml'])
    c = {'kind': kind, 'files': {}, 'stdin_kind': rng.choice(['file', 'pipe']), 'out': None, 'valid': True, 'argv': None}
    bad = rng.random() < invalid
    data = None
    if kind == 'convert':
        to = rng.choice(['json', 'yaml'])
        if to == 'yaml':
            fmt = 'json'
        x = rng.random()
        if x < 0.5:
            b = rng.choice(sorted(bases()))
            data = rand_wc(rng, *b, n=rng.choice([2, 10, 40, 120]))
        elif x < 0.7:
            data = {'eft': 'WET', 'sectors': {'sb': {'dB': 1}}, 'list': [1, 2.5, None, True, 'x', -1e-7], 'n': {'a': {'b': {'c': []}}}}
        elif x < 0.75:
            data = rng.choice([{}, {}, {'a': {}}, {'a': []}, {'b': [[], {}]}, {'': None}, {'values': {}}, {'x': 0}, {'y': ''}, {'z': False}])
        elif x < 0.85:
            data = copy.deepcopy(efts()[rng.choice(sorted(efts()))])
        else:
            b = bases()['WET-4', 'Bern']
            data = {'eft': 'WET', 'basis': 'My – basis', 'sectors': {s: copy.deepcopy(v) for s, v in list(b['_all'].items())[:2]}}
        argv = ['wcxf', 'convert', rng.choice([to, to.upper()])]
        if to == 'json':
            # JSON exponents like 1e-08 are not YAML 1.1 floats
            fmt = 'yaml'
        if bad:
            x = rng.choice(['format', 'syntax', 'bytes'])
            c['valid'] = False
            if x == 'format':
                argv[2] = rng.choice(['xml', 'yml', 'toml', '', 'jso', 'jsonl', 'yamljson', ' json', 'y', 'j', 'yaml2', 'json,yaml'])
        else:
            x = None
    elif kind == 'translate':
        e, a, b = rng.choice(TRANS)
        data = rand_wc(rng, e, a)
        if rng.random() < 0.05:
            # nothing in the result
            data['values'] = {k: 0 for k in data['values']} if rng.random() < 0.5 else {}
        argv = ['wcxf', 'translate', b]
        x = None
        if bad:
            x = rng.choice(['basis', 'syntax', 'format', 'field', 'bytes'])
            c['valid'] = False
            if x == 'basis':
                argv[2] = rng.choice(['nonsense', 'Warsaw ', a, 'jms', b + ' ', b.swapcase(), b[:-1], b + 'x', ''])
                if (e, a, argv[2]) in TRANS:
                    argv[2] = 'nonsense'
    elif kind == 'match':
        m = rng.choice(MATCH)
        if m in SLOW and rng.random() > slow * 4:
            m = rng.choice([y for y in MATCH if y not in SLOW])
        data = rand_wc(rng, m[0], m[1])
        if m[0] == 'SMEFT':
            for k in SCALARS:
                data['values'].setdefault(k, rng.uniform(-1e-9, 1e-9))
        argv = ['wcxf', 'match', m[2], m[3]]
        x = None
        if bad:
            x = rng.choice(['basis', 'eft', 'syntax', 'format', 'field'])
            c['valid'] = False
            if x == 'basis':
                argv[3] = rng.choice(['nonsense', m[3] + ' ', m[3].swapcase(), m[3][:-1], m[3] + 'x', ''])
            if x == 'eft':
                argv[2] = rng.choice(['nonsense', m[2] + ' ', m[2].lower(), m[2] + '-', m[2] + '-5', ''])
    elif kind == 'validate':
        t = rng.choice(['eft', 'wc', 'wc', 'basis'])
        x = None
        if t == 'eft':
            data = copy.deepcopy(efts()[rng.choice(sorted(efts()))])
        elif t == 'wc':
            b = rng.choice(sorted(bases()))
            data = rand_wc(rng, *b)
        else:
            data = {'eft': 'WET', 'basis': 'test', 'sectors': {s: {'c%s%d' % (s, j): {'tex': 'C_%d' % j} for j in range(3)}
                                                              for s in list(efts()['WET']['sectors'])[:2]}}
        argv = ['wcxf', 'validate', t]
        if bad:
            c['valid'] = False
            x = rng.choice(['type', 'syntax', 'field', 'content'])
            if x == 'type':
                argv[2] = rng.choice(['efts', 'WC', 'json', '', 'wcs', 'wc ', 'w', 'bases', 'basis1', 'bas', 'Basis', 'e', 'EFT', t + 'x', 'x' + t, t[:-1]])
            if x == 'content':
                if t == 'wc':
                    how = rng.choice(['value', 'value', 'near', 'eft', 'basis'])
                    if how == 'value':
                        data['values']['no_such_coefficient'] = 1.0
                    elif how == 'near':
                        n = rng.choice(sorted(data['values']))
                        data['values'][rng.choice([n + ' ', n + '1', n.swapcase() + '_', n[:-1] + '?', '_' + n])] = data['values'].pop(n)
                    else:
                        data[how] = 'nonsense'
                elif t == 'basis':
                    how = rng.choice(['eft', 'sector', 'dup'])
                    if how == 'eft':
                        data['eft'] = 'nonsense'
                    elif how == 'dup':
                        for y in sorted(data['sectors'])[:2]:
                            data['sectors'][y]['twin'] = {'tex': 't'}
                    else:
                        data['sectors']['no such sector'] = {'x': {'tex': 'y'}}
                else:
                    x = 'syntax'
    elif kind == 'eos':
        data = rand_wc(rng, 'WET', 'EOS', n=rng.choice([1, 3, 6]))
        # charged-current coefficients must be lepton flavour universal
        data['values'] = {k: v for k, v in data['values'].items() if 'enue' not in k and 'munumu' not in k} or {'b->s::c7': 0.25}
        argv = ['wcxf2eos']
        x = None
        for f, d in eos_params(rng).items():
            c['files']['prefix/share/eos/parameters/' + f] = render(d, 'yaml', 0)
        if bad:
            c['valid'] = False
            x = rng.choice(['syntax', 'field', 'content', 'noprefix', 'both', 'nohome'])
            if x == 'content':
                data['values']['no_such_coefficient'] = 1.0
    else:
        # this converter wants every coefficient: see text_of
        data = rand_wc(rng, 'SMEFT', 'Warsaw mass', n=rng.choice([1, 3, 10, 40]))
        fmt = 'json'
        c['fill'] = rng.randrange(1 << 20)
        argv = ['wcxf2smeftsim']
        x = None
        if bad:
            c['valid'] = False
            x = rng.choice(['syntax', 'field', 'content'])
            if x == 'content':
                data['values']['no_such_coefficient'] = 1.0
    c['raw'] = None
    if x == 'syntax':
        how = rng.choice(['cut', 'junk', 'empty', 'scalar', 'docs']) if kind != 'convert' else rng.choice(['cut', 'junk', 'docs'])
        if how == 'cut':
            c['raw'] = render(data, 'json', 0)[:-rng.randint(1, 5)] or '{'
        elif how == 'junk':
            c['raw'] = '{"a": [}' + render(data, fmt, style)
        elif how == 'docs':
            c['raw'] = render(data, fmt, style) + '\n---\n' + rng.choice(['{}\n', render(data, 'yaml', 0), 'a: 1\n'])
        elif how == 'empty':
            c['raw'] = ''
        else:
            c['raw'] = '42'
    if x == 'bytes':
        # not text
        c['raw'] = render(data, 'json', 1)[:-1] + ', "comment": "a\udcff\udcfeb"}'
    if x == 'field':
        data.pop(rng.choice(['eft', 'basis', 'values', 'scale']) if kind != 'validate' else 'eft')
    c['why'] = x
    c['data'] = data
    c['fmt'], c['style'] = fmt, style
    # input
    if kind != 'smeftsim' and x != 'bytes' and rng.random() < 0.4:
        if rng.random() < 0.5:
            argv.append('-')
        c['in'] = '-'
    elif kind != 'smeftsim' and x != 'bytes' and rng.random() < 0.08:
        # named like a file, but a pipe or whatever standard input is
        argv.append('/dev/stdin')
        c['in'] = '-'
    else:
        name = rng.choice(['in.json', 'wc file.yml', 'sub/wet.data'])
        argv.append(name)
        c['in'] = name
    # output
    if kind in ('convert', 'translate', 'match'):
        if rng.random() < 0.65:
            c['out'] = rng.choice(['out.json', 'outdir/res ult.yml'])
            argv += ['--output', c['out']]
        if kind != 'convert' and (rng.random() < 0.4 or x == 'format'):
            argv += ['--format', rng.choice(['yaml', 'json', 'YAML']) if x != 'format' else rng.choice(['xml', 'yml', 'jsn'])]
    elif kind == 'eos':
        if x != 'noprefix':
            argv += ['--eosprefix', 'prefix']
        else:
            argv += ['--eosprefix', 'no/such/prefix']
        y = rng.random()
        if x == 'both':
            c['out'] = 'out.json'
            argv += ['--output', c['out'], '--eoshome', 'eoshome']
            c['files']['eoshome/parameters/wcxf.yaml'] = 'old: 1\n'
        elif x == 'nohome':
            c['files']['eoshome/wcxf.yaml' if rng.random() < 0.5 else 'eoshome2/parameters/wcxf.yaml'] = 'a: 1\n'
            argv += ['--eoshome', 'eoshome']
        elif y < 0.35:
            c['out'] = 'out.json'
            argv += ['--output', c['out']]
        elif y < 0.7:
            c['out'] = 'eoshome/parameters/wcxf.yaml'
            c['files']['eoshome/parameters/other.yaml'] = 'a: 1\n'
            argv += ['--eoshome', 'eoshome']
    elif kind == 'smeftsim':
        c['out'] = 'wcxf2smeftsim_param_card.dat'
        if rng.random() < 0.5:
            c['out'] = 'card.dat'
            argv += ['--output', 'card.dat']
        if rng.random() < 0.3:
            argv += ['--input-scheme', rng.choice(['alpha', 'mw'])]
        if rng.random() < 0.3:
            argv += ['--cutoff-scale', '2000']
        if rng.random() < 0.3:
            argv += ['--model-set', rng.choice(['A', 'B'])]
    c['argv'] = argv
    if c['raw'] is None and fmt == 'json' and kind in ('convert', 'translate', 'match', 'eos') and isinstance(data, dict) and rng.random() < 0.04:
        data['metadata'] = {'note': ['%030d' % j for j in range(rng.choice([2500, 5000, 9000]))]}
    c['genuine'] = rng.random() < 0.08      # complete interpreter shutdown
    return c


def data_of(c):
    d = dict(c['data'])
    if c.get('fill') is not None and 'values' in d:
        import random
        r = random.Random(c['fill'])
        defs = wcs_of('SMEFT', 'Warsaw mass')
        v = {}
        for k in sorted(defs):
            x = r.uniform(-1e-8, 1e-8)
            v[k] = x if (defs[k] or {}).get('real') else {'Re': x, 'Im': r.uniform(-1e-8, 1e-8)}
        v.update(d['values'])
        d['values'] = v
    return d


def text_of(c):
    """The input of the command."""
    if c.get('raw') is not None:
        return c['raw']
    t = render(data_of(c), c['fmt'], c['style'])
    return t.replace('\n', '\r\n') if c.get('crlf') else t


def with_source(c, rng):
    """The same command with its input coming from elsewhere."""
    n = copy.deepcopy(c)
    a = n['argv']
    new = rng.choice(['-', '', '/dev/stdin', 'other name.txt'])
    if c['in'] != '-':
        i = a.index(c['in'])
    elif '-' in a:
        i = a.index('-')
    elif '/dev/stdin' in a:
        i = a.index('/dev/stdin')
    else:
        i = {'convert': 3, 'translate': 3, 'match': 4, 'validate': 3, 'eos': 1}[c['kind']]
        a.insert(i, '')
    a[i] = new
    if not new:
        del a[i]
        if c['kind'] == 'smeftsim':
            a.insert(i, '-')
    n['in'] = new if new.endswith('.txt') else '-'
    n['stdin_kind'] = rng.choice(['file', 'pipe'])
    return n


def prepare(c, old=None, name='work'):
    """Fresh working directory with the command's files; `old`: previous
    content of the output file (None: absent)."""
    d = simlib.fresh_dir(name)
    os.makedirs(os.path.join(d, 'outdir'))
    for f, t in c['files'].items():
        simlib.write_file(os.path.join(d, f), t.encode('utf-8', 'surrogateescape'))
    if c['in'] != '-':
        simlib.write_file(os.path.join(d, c['in']), text_of(c).encode('utf-8', 'surrogateescape'))
    if old is not None and c['out']:
        simlib.write_file(os.path.join(d, c['out']), old.encode())
    return d


def stdin_of(c):
    return text_of(c).encode('utf-8', 'surrogateescape') if c['in'] == '-' else c.get('stdin', '').encode()


def invoke(c, plan=None, old=None, name='work', env=None, timeout=None):
    d = prepare(c, old, name)
    e = {'PATH': os.path.join(simlib.scratch, 'nobin')}
    e.update(env or {})
    o = simlib.run_cli(c['argv'], d, stdin=stdin_of(c), stdin_kind=c['stdin_kind'], plan=plan,
                       env=e, timeout=timeout, genuine=c.get('genuine', False))
    return o, d


def delivered(c, o, d):
    """Bytes delivered to where the output was asked for."""
    if c['kind'] == 'validate' or not c['out']:
        return o.stdout
    return simlib.read_file(os.path.join(d, c['out']))


def parse(data):
    import yaml
    t = data.decode('utf-8')
    try:
        return json.loads(t)
    except ValueError:
        return yaml.safe_load(t)


def close(a, b, rel=1e-9):
    """Structural equality with a tolerance for floating point numbers."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], rel) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, rel) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return a == b or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-300)
    return a == b


def api_result(c):
    """What the library itself gives for this command (in a pristine process),
    as parsed data; None where there is no such notion."""
    a = c['argv']
    text = text_of(c)

    def body():
        import wcxf
        if c['kind'] == 'translate':
            w = wcxf.WC.load(text).translate(a[2])
        else:
            w = wcxf.WC.load(text).match(a[2], a[3])
        return {'eft': w.eft, 'basis': w.basis, 'scale': w.scale, 'values': w.values}
    if c['kind'] == 'convert':
        return c['data']
    if c['kind'] in ('translate', 'match'):
        o = simlib.run_child(body, arm=False)
        return o.result
    return None


def in_ops(c, log):
    """Steps that read the command's input."""
    if c['in'] == '-':
        return [l for l in log if l[2] == '<stdin>' and l[1] == 'read']
    return [l for l in log if l[1] in ('openr', 'read', 'closer') and (l[2] == c['in'] or l[2].endswith('/work/' + c['in']))]


def out_ops(c, log):
    """Steps that write the command's output."""
    if not c['out'] or c['kind'] == 'validate':
        return [l for l in log if l[2] == '<stdout>']
    return [l for l in log if l[1] in ('openw', 'openc', 'write', 'closew', 'fsync', 'rename', 'truncate', 'unlink', 'mkdir')
            and l[2] != '<stdout>']


def shrink_cmd(c):
    """Simpler variants of a command."""
    if c.get('raw') is None and isinstance(c['data'].get('values'), dict) and len(c['data']['values']) > 1:
        vals = list(c['data']['values'].items())
        for part in (vals[:len(vals) // 2], vals[len(vals) // 2:]):
            n = copy.deepcopy(c)
            n['data']['values'] = dict(part)
            yield n
    if c.get('raw') is None and 'metadata' in c['data'] and c['kind'] != 'convert':
        n = copy.deepcopy(c)
        del n['data']['metadata']
        yield n
    if c['style'] and c.get('raw') is None:
        n = copy.deepcopy(c)
        n['style'] = 0
        yield n
    if c['in'] == '-' and c['stdin_kind'] == 'pipe':
        n = copy.deepcopy(c)
        n['stdin_kind'] = 'file'
        yield n
