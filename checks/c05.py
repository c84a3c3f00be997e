"""C05: the result does not depend on how the input is delivered."""
import errno
import io
import json
import os
import simlib
from checks import cli
from checks.common import viol, drop_each, with_

ID = 'C05'
MODE = 'bases'
BUDGET = {'quick': (5500, 300), 'thorough': (40000, 3000)}
RULE = 'distinct (command, content, delivery: source kind, chunking, interruptions and errors that fired, outcome)'
REAL = ['command line tools wcxf and wcxf2eos with argument parsing, load, translate, match, validate, convert', 'WC/EFT/Basis load from streams',
        'json and yaml parsers, Python text I/O']
STUB = ['kernel read behaviour (libc seam: short reads, EINTR, errors)', 'Python stream objects with short or failing reads', 'contents of wcxf/bases']
ASSUMPTIONS = ['inputs are UTF-8', 'wcxf-bases content replaced by definitions with the coefficient names the package uses']
PROBES = ['probe:stdin_pipe', 'probe:short_reads', 'probe:eintr', 'probe:read_error_reported', 'probe:split_utf8', 'probe:api_stream', 'probe:large_input', 'probe:dev_stdin',
          'probe:other_source', 'probe:crlf', 'probe:real_pipe', 'probe:smeftsim']


def setup():
    cli.bases()


def gen_api(rng):
    t = rng.choice(['WC', 'WC', 'WC', 'EFT', 'Basis'])
    if t == 'WC':
        data = cli.rand_wc(rng, *rng.choice(sorted(cli.bases())), n=rng.choice([1, 5, 30, 150]), meta=rng.choice([0.05, 0.2, 0.9]))
    elif t == 'EFT':
        data = {'eft': 'X', 'sectors': {'s%d' % i: {'dB': 0, 'd': 'Größe' * rng.randint(0, 3)} for i in range(rng.choice([1, 5, 200]))}}
    else:
        data = {'eft': 'X', 'basis': 'B', 'sectors': {'s%d' % i: {'c%d_%d' % (i, j): {'tex': 'µ_{%d}' % j, 'real': True} for j in range(3)}
                                                     for i in range(rng.choice([1, 5, 60]))}}
    big = rng.random() < 0.02
    if big:
        data['note'] = ['%030d' % j for j in range(rng.choice([3000, 20000, 42000]))]
    return {'mode': 'api', 'cls': t, 'data': data, 'fmt': 'json' if big else rng.choice(['json', 'yaml']), 'style': rng.randrange(12),
            'src': rng.choice(['file', 'file', 'pipe', 'stringio', 'pystream', 'pystream', 'wrapped', 'str', 'fdopen']),
            'pychunk': rng.choice([1, 3, 17, 1000]) if not big else 50000, 'fail_at': rng.choice([None, None, None, 0, 1, 2]),
            'plan': {'acts': [], 'knobs': {}}}


def gen(rng, i, tier):
    if rng.random() < 0.35:
        spec = gen_api(rng)
        log = None
        kernel = spec['src'] in ('file', 'pipe', 'fdopen')
        size = len(cli.render(spec['data'], spec['fmt'], spec['style']).encode('utf-8', 'surrogateescape'))
    else:
        c = cli.gen_cmd(rng, rng.choice(['convert', 'convert', 'translate', 'translate', 'match', 'validate', 'eos', 'smeftsim' if rng.random() < 0.4 else 'validate']),
                        slow=0.03 if tier == 'quick' else 0.1, invalid=0.08)
        if c['raw'] is None and c['fmt'] == 'json' and c['kind'] in ('translate', 'eos', 'validate') and c['valid'] and rng.random() < 0.04:
            # more than 1 MiB
            c['data']['metadata'] = {'note': ['%030d' % j for j in range(rng.choice([20000, 42000]))]}
        if rng.random() < 0.06 and '\n' not in json.dumps(c['data'], ensure_ascii=False):
            c['crlf'] = True
        spec = {'mode': 'cli', 'c': c, 'base': cli.with_source(c, rng) if c['why'] != 'bytes' and rng.random() < 0.6 else None, 'plan': {'acts': [], 'knobs': {}}}
        kernel = True
        size = len(cli.text_of(c).encode('utf-8', 'surrogateescape'))
    if not kernel:
        return spec
    if rng.random() < 0.15:
        spec['plan']['knobs']['notready'] = rng.choice([1, 2, 5])
    how = rng.choice(['chunks', 'chunks', 'chunks', 'shorts', 'eintr', 'eintr', 'error', 'error', 'mixed'])
    if how in ('chunks', 'mixed'):
        spec['plan']['knobs']['read_chunk'] = rng.choice([1, 2, 3, 7, 100, 1000, 4096, 9000] if size < 5000 else [100, 1000, 4096, 9000] if size < 400000 else [4096, 9000, 70000])
    if how == 'chunks':
        return spec
    ops = reads(spec, *execute(spec)[:1])
    if not ops:
        return spec
    for _ in range(rng.choice([1, 1, 2, 3])):
        l = rng.choice(ops)
        k = rng.choice(['shorts', 'eintr', 'error']) if how == 'mixed' else how
        if k == 'shorts' and l[1] == 'read':
            spec['plan']['acts'].append([l[0], simlib.SHORT, rng.choice([1, 2, 5, size // 2 + 1, max(1, size - 1)])])
        elif k == 'eintr' and l[1] == 'read':
            spec['plan']['acts'].append([l[0], simlib.ERR, errno.EINTR])
        elif k == 'error':
            spec['plan']['acts'].append([l[0], simlib.ERR, rng.choice([errno.EIO, errno.EIO, errno.ENOMEM] if l[1] == 'read' else [errno.EACCES, errno.EMFILE, errno.ENOENT])])
    return spec


def reads(spec, o):
    if spec['mode'] == 'cli':
        return [l for l in cli.in_ops(spec['c'], o.log) if l[1] in ('read', 'openr')]
    return [l for l in o.log if l[1] == 'read' or (l[1] == 'openr' and l[2].endswith('in.dat'))]


class PyStream(io.TextIOBase):
    """A text stream that hands out few characters per read(n)."""

    def __init__(self, text, chunk, fail_at):
        self.t, self.c, self.n, self.fail = text, chunk, 0, fail_at

    def readable(self):
        return True

    def read(self, n=-1):
        self.n += 1
        if self.fail is not None and self.n > self.fail:
            raise OSError(errno.EIO, 'simulated')
        if n is None or n < 0:
            r, self.t = self.t, ''
        else:
            k = min(n, self.c)
            r, self.t = self.t[:k], self.t[k:]
        return r

    def readline(self, n=-1):
        r = ''
        while not r.endswith('\n'):
            c = self.read(1)
            if not c:
                break
            r += c
        return r


class PyRaw(io.RawIOBase):
    """The bytes below a text stream: few per read, then perhaps an error."""

    def __init__(self, data, chunk, fail_at):
        self.t, self.c, self.n, self.fail = data, chunk, 0, fail_at

    def readable(self):
        return True

    def readinto(self, b):
        self.n += 1
        if self.fail is not None and self.n > self.fail:
            raise OSError(errno.EIO, 'simulated')
        k = min(len(b), self.c)
        r, self.t = self.t[:k], self.t[k:]
        b[:len(r)] = r
        return len(r)


def api_body(spec, text, path):
    import wcxf
    C = getattr(wcxf, spec['cls'])
    src = spec['src']
    res = {'failed_read': False}
    try:
        if src == 'str':
            o = C.load(text)
        elif src == 'stringio':
            o = C.load(io.StringIO(text))
        elif src == 'pystream':
            s = PyStream(text, spec['pychunk'], spec['fail_at'])
            try:
                o = C.load(s)
            finally:
                res['failed_read'] = s.fail is not None and s.n > s.fail
        elif src == 'wrapped':
            s = PyRaw(text.encode('utf-8'), spec['pychunk'], spec['fail_at'])
            try:
                o = C.load(io.TextIOWrapper(io.BufferedReader(s, spec.get('pybuf', 1)), encoding='utf-8'))
            finally:
                res['failed_read'] = s.fail is not None and s.n > s.fail
        elif src == 'file':
            with open(path, encoding='utf-8') as f:
                o = C.load(f)
        elif src == 'fdopen':
            with os.fdopen(os.open(path, os.O_RDONLY), encoding='utf-8') as f:
                o = C.load(f)
        else:
            # descriptor 0 is tracked by the seam
            if len(text) < 15000:
                r, w = os.pipe()
                os.write(w, text.encode('utf-8'))
                os.close(w)
                os.dup2(r, 0)
                res['pipe'] = True
            else:
                os.dup2(os.open(path, os.O_RDONLY), 0)
            with open(0, encoding='utf-8', closefd=False) as f:
                o = C.load(f)
    except (MemoryError, OSError, ValueError, TypeError, KeyError) as e:
        res['exc'] = '%s: %s' % (type(e).__name__, str(e)[:200])
        return res
    except Exception as e:
        res['exc'] = '%s: %s' % (type(e).__name__, str(e)[:200])
        return res
    simlib.lib.sim_disarm()
    got = {'eft': o.eft}
    for k in spec['data']:
        got[k] = getattr(o, k, 'MISSING')
    res['got'] = got
    return res


def execute(spec, plan=True):
    """-> (outcome, result)"""
    if spec['mode'] == 'cli':
        c = spec['c'] if plan else spec.get('base') or spec['c']
        o, d = cli.invoke(c, spec['plan'] if plan else None)
        out = cli.delivered(c, o, d)
        return o, out
    d = simlib.fresh_dir('work')
    text = cli.render(spec['data'], spec['fmt'], spec['style'])
    path = os.path.join(d, 'in.dat')
    simlib.write_file(path, text.encode('utf-8', 'surrogateescape'))
    o = simlib.run_child(lambda: api_body(spec, text, path), plan=spec['plan'] if plan else None)
    return o, o.result


def norm(c, out):
    if out is None:
        return None
    if c['kind'] in ('validate', 'smeftsim'):
        return out.decode('utf-8', 'replace')
    try:
        return cli.parse(out)
    except Exception:
        return 'UNPARSABLE ' + repr(out[:200])


def run(spec):
    v = []
    o, out = execute(spec)
    st = {'os_steps': o.nops}
    if o.hang or o.crashed:
        return {'viol': [viol('hang', 'no progress')], 'stats': st, 'sig': 'hang'}
    fired = [l for l in o.log if l[4]]
    hard = []
    for l in fired:
        kind, arg = (int(x) for x in l[4][1:].split(':'))
        if kind == simlib.SHORT:
            st['fault:short_read'] = st.get('fault:short_read', 0) + 1
        elif arg == errno.EINTR:
            st['fault:eintr'] = st.get('fault:eintr', 0) + 1
            st['probe:eintr'] = 1
        else:
            hard.append(l)
            st['fault:read_error'] = st.get('fault:read_error', 0) + 1
    rc = spec['plan']['knobs'].get('read_chunk')
    if rc:
        st['fault:chunked_input'] = 1
        st['probe:short_reads'] = 1
        if rc < 10:
            st['probe:split_utf8'] = 1
    if spec['mode'] == 'api':
        st['probe:api_stream'] = 1
        r = o.result
        if r is None:
            raise simlib.HarnessError('%s %s' % (o.exc, o.stderr))
        if r.get('pipe'):
            st['probe:real_pipe'] = 1
        want = dict(spec['data'])
        if 'scale' in want:
            want['scale'] = float(want['scale'])
        if r['failed_read']:
            st['fault:stream_error'] = 1
            hard.append('stream')
        if 'exc' in r:
            if not hard:
                v.append(viol('load-failed', 'loading the complete input failed: %s (source %s)' % (r['exc'], spec['src'])))
            else:
                st['probe:read_error_reported'] = 1
        elif not cli.close(r['got'], want, 1e-14):
            bad = [k for k in want if not cli.close(r['got'].get(k), want[k], 1e-14)]
            v.append(viol('load-differs', 'loaded object differs from the input in %s (source %s, faults %s)' % (bad, spec['src'], fired)))
        sig = [spec['cls'], spec['src'], spec['pychunk'], r.get('exc', '').split(':')[0], simlib.h(r.get('got')), simlib.log_sig(o.log)]
        sample = {'source': spec['src'], 'outcome': r.get('exc', 'ok'), 'fired': fired}
    else:
        c = spec['c']
        if c['in'] == '-' and c['stdin_kind'] == 'pipe':
            st['probe:stdin_pipe'] = 1
        if '/dev/stdin' in c['argv']:
            st['probe:dev_stdin'] = 1
        if spec.get('base'):
            st['probe:other_source'] = 1
        if c.get('crlf'):
            st['probe:crlf'] = 1
        b, bout = execute(spec, plan=False)
        if len(cli.text_of(c)) > 8192:
            st['probe:large_input'] = 1
        got = norm(c, out)
        if c['valid'] and b.status != 0:
            v.append(viol('valid-rejected', 'command %s with complete input fails without any fault: %s' % (c['argv'], b.stderr[-400:])))
        elif not hard and (o.status == 0) != (b.status == 0):
            v.append(viol('status-differs', 'exit status %d instead of %d with the same bytes delivered as %s %s: %s' %
                          (o.status, b.status, rc, fired, o.stderr[-300:])))
        if o.status == 0 and not v:
            if b.status != 0:
                v.append(viol('status-differs', 'succeeds only when the input cannot be read: %s' % (fired,)))
            elif not cli.close(got, norm(c, bout), 1e-12):
                v.append(viol('result-differs', 'output differs with the delivery (chunk %s, faults %s): %s' % (rc, fired, diff(got, norm(c, bout)))))
            elif c['valid']:
                ref = cli.api_result(c)
                if ref is not None:
                    g = got if c['kind'] == 'convert' else {k: got.get(k) for k in ('eft', 'basis', 'scale', 'values')} if isinstance(got, dict) else got
                    if not cli.close(g, ref, 1e-9):
                        v.append(viol('result-wrong', 'output of %s is not the result for its input: %s' % (c['argv'], diff(g, ref))))
        if hard and o.status != 0:
            st['probe:read_error_reported'] = 1
        if c['kind'] == 'smeftsim':
            st['probe:smeftsim'] = 1
        sig = [c['argv'], c['in'], c['stdin_kind'], o.status, simlib.log_sig(o.log), simlib.h(cli.text_of(c))]
        sample = {'argv': c['argv'], 'status': o.status, 'fired': fired, 'chunk': rc}
    return {'viol': v, 'stats': st, 'sig': simlib.h(sig), 'nontrivial': bool(fired or rc or spec['mode'] == 'api'), 'sample': sample,
            'trace': {'log': o.log[:200], 'status': o.status}}


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        ks = [k for k in sorted(set(a) | set(b), key=str) if k not in a or k not in b or not cli.close(a[k], b[k], 1e-9)]
        return {k: diff(a.get(k), b.get(k)) for k in ks[:3]}
    return '%.80r != %.80r' % (a, b)


def shrink(spec):
    for a in drop_each(spec['plan']['acts']):
        s = with_(spec)
        s['plan']['acts'] = a
        yield s
    k = spec['plan']['knobs'].get('read_chunk')
    if k:
        s = with_(spec)
        del s['plan']['knobs']['read_chunk']
        yield s
    if spec['mode'] == 'cli':
        if spec.get('base'):
            yield with_(spec, base=None)
            for (c, b) in zip(cli.shrink_cmd(spec['c']), cli.shrink_cmd(spec['base'])):
                if c['data'] == b['data'] and c['style'] == b['style']:
                    yield with_(spec, c=c, base=b)
        else:
            for c in cli.shrink_cmd(spec['c']):
                yield with_(spec, c=c)
        if spec['c'].get('crlf'):
            s = with_(spec)
            s['c']['crlf'] = False
            if s['base']:
                s['base']['crlf'] = False
            yield s
    else:
        if len(spec['data'].get('values', ())) > 1:
            vals = list(spec['data']['values'].items())
            for p in (vals[:len(vals) // 2], vals[len(vals) // 2:]):
                s = with_(spec)
                s['data']['values'] = dict(p)
                yield s
        if 'metadata' in spec['data']:
            s = with_(spec)
            del s['data']['metadata']
            yield s
