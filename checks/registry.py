"""Definitions of EFTs and bases, loaded into the real package, and the
reference model of what they should contain."""
import copy
import io
import json
import os
import simlib

SECTORS = ['s1', 's2', 's3', 'dcmu']


def mkdef(rng, uid, kind=None, efts=('E1', 'E2'), bases=('B1', 'B2', 'B3'), parent=None, nulls=0.0):
    kind = kind or rng.choice(['EFT', 'Basis', 'Basis', 'Basis'])
    d = {'eft': rng.choice(efts)}
    if rng.random() < 0.7:
        d['metadata'] = {'uid': uid, 'description': rng.choice(['plain', 'ümlaut – dash', 'x' * 200])}
    if rng.random() < 0.2:
        d['extra'] = [1, 2.5, None, {'a': uid}]
    if rng.random() < 0.15:
        d[rng.choice(['version', 'note', 'Parent', 'name', 'instances_of'])] = rng.choice([0, '', None, {}, [], False, 'x', 3])
    if kind == 'EFT':
        d['sectors'] = {s: {'dB': rng.randrange(3)} for s in rng.sample(SECTORS, rng.randint(0, 4))}
        return {'kind': 'EFT', 'uid': uid, 'def': d}
    d['basis'] = rng.choice(bases)
    if parent:
        d['parent'] = parent
    d['sectors'] = {}
    for s in rng.sample(SECTORS, rng.randint(0, 3)):
        d['sectors'][s] = {'c%d_%s_%d' % (uid, s, j): rng.choice([None, {'tex': r'\phi_%d' % j}, {'tex': 'C', 'real': True}, {'real': True}, {}])
                           for j in range(rng.randint(0, 4))}
    if d['sectors'] and nulls and rng.random() < nulls:
        d['sectors'][rng.choice(sorted(d['sectors']))] = None       # a sector without anything
    return {'kind': 'Basis', 'uid': uid, 'def': d}


def key(rec):
    d = rec['def']
    return d['eft'] if rec['kind'] == 'EFT' else (d['eft'], d['basis'])


def ckey(rec):
    """JSON-able name of the entry."""
    d = rec['def']
    return ['EFT', d.get('eft')] if rec['kind'] == 'EFT' else ['Basis', d.get('eft'), d.get('basis')]


def expected(d, kind, parent_sectors=None):
    """What an instance made from definition d must show."""
    e = copy.deepcopy(d)
    if kind == 'Basis' and 'parent' in d:
        s = copy.deepcopy(parent_sectors)
        s.update(copy.deepcopy(d['sectors']))
        e['sectors'] = s
    return e


def render(d, fmt, style=0):
    import yaml
    if fmt == 'json':
        return json.dumps(d, indent=[None, 1, 4][style % 3], ensure_ascii=bool(style % 2))
    return yaml.safe_dump(d, default_flow_style=[False, None, True][style % 3], allow_unicode=bool(style % 2))


def ref_parse(text):
    import yaml
    try:
        return json.loads(text)
    except ValueError:
        return yaml.safe_load(text)


class FailingStream(io.TextIOBase):
    """File-like object: gives some text, then fails."""

    def readable(self):
        return True

    def __init__(self, text, mode):
        self.mode = mode
        self.rest = text[:len(text) // 2]      # what can be had by reading in pieces

    def fail(self):
        if self.mode == 'oserror':
            raise OSError(5, 'Input/output error')
        if self.mode == 'unicode':
            raise UnicodeDecodeError('utf-8', b'\xc3', 0, 1, 'unexpected end of data')
        raise KeyboardInterrupt

    def read(self, n=-1):
        if n is None or n < 0 or not self.rest:
            self.fail()
        t, self.rest = self.rest[:n], self.rest[n:]
        return t

    def readline(self, n=-1):
        if not self.rest:
            self.fail()
        t = self.rest.splitlines(True)[0]
        self.rest = self.rest[len(t):]
        return t


def open_source(text, src, path=None):
    if src == 'str':
        return text
    if src == 'stringio':
        return io.StringIO(text)
    if src == 'bytesio':
        return io.TextIOWrapper(io.BytesIO(text.encode('utf-8')), encoding='utf-8')
    if src == 'file':
        simlib.lib.sim_disarm()
        with open(path, 'w', encoding='utf-8') as f:
            f.write(text)
        simlib.lib.sim_arm()
        return open(path, 'r', encoding='utf-8')
    if src.startswith('fail:'):
        return FailingStream(text, src[5:])
    raise simlib.HarnessError(src)


def cls_of(kind):
    import wcxf
    return getattr(wcxf, kind)


def lookup(name):
    """name as given by ckey(); returns object or None"""
    c = cls_of(name[0])
    k = name[1] if name[0] == 'EFT' else tuple(name[1:])
    try:
        return c[k]
    except (KeyError, AttributeError):
        return None


def describe(obj, kind):
    """The observable content of an instance, through its public surface."""
    d = json.loads(obj.dump())
    s = json.loads(json.dumps(obj.sectors))
    assert d['sectors'] == s, 'sectors attribute and dump differ'
    assert obj.eft == d['eft']
    if kind == 'Basis':
        assert obj.basis == d['basis']
        if isinstance(s, dict) and all(isinstance(x, (dict, list)) for x in s.values()):
            a = list(obj.all_wcs)
            b = [wc for x in s.values() for wc in x]
            assert sorted(a) == sorted(b), 'list of coefficients does not match the sectors: %r %r' % (a[:8], b[:8])
    return d


def snap(names, prev=None):
    """{name: [identity token, content]} for the names that are registered."""
    out = {}
    for n in names:
        o = lookup(n)
        if o is not None:
            try:
                c = describe(o, n[0])
            except Exception as e:
                c = 'INCOMPLETE %s: %s' % (type(e).__name__, e)
            out[json.dumps(n)] = (o, c)
    return out
