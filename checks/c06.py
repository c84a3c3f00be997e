"""C06: a command that reports success has delivered its complete result."""
import errno
import simlib
from checks import cli
from checks.common import viol, drop_each, with_

ID = 'C06'
MODE = 'bases'
BUDGET = {'quick': (3600, 300), 'thorough': (50000, 3000)}
RULE = 'distinct (command, content, output faults that fired and where, exit status)'
REAL = ['command line tools wcxf, wcxf2eos, wcxf2smeftsim from argument parsing to interpreter exit', 'Python buffered text output', 'json, yaml, pylha writers']
STUB = ['kernel write/close/open behaviour (libc seam: errors, full disk, short writes, EINTR, data lost at close)', 'contents of wcxf/bases', 'EOS installation']
ASSUMPTIONS = ['an error at close means the last half of the data is lost', '92% of the runs shut the interpreter down by tearing down only the modules of the package']
PROBES = ['probe:to_stdout', 'probe:to_file', 'probe:disk_full', 'probe:close_error', 'probe:open_error', 'probe:broken_pipe', 'probe:short_writes',
          'probe:failure_reported', 'probe:invalid_request', 'probe:package_data', 'probe:eos', 'probe:smeftsim']


def setup():
    cli.bases()


def gen(rng, i, tier):
    c = cli.gen_cmd(rng, rng.choice(['convert', 'convert', 'translate', 'translate', 'match', 'eos', 'eos', 'smeftsim', 'validate']),
                    slow=0.03 if tier == 'quick' else 0.1, invalid=0.15)
    spec = {'c': c, 'old': rng.choice([None, 'old content\n', 'x' * 100000]), 'plan': {'acts': [], 'knobs': {}}}
    if c['valid'] and c['kind'] == 'translate' and rng.random() < 0.25:
        # tables shipped with the package that cannot be read
        a, b = rng.choice([('FlavorKit', 'JMS'), ('JMS', 'FlavorKit')])
        c['data'] = cli.rand_wc(rng, 'WET', a)
        c['argv'][2] = b
        spec['plan']['knobs']['package_data'] = 1
        o, d = cli.invoke(c, spec['plan'], spec['old'])
        ops = [l for l in o.log if '/wcxf/data/' in l[2] and l[1] in ('openr', 'read')]
        if ops:
            l = rng.choice(ops)
            a = [simlib.ERR, rng.choice([errno.EIO, errno.ENOMEM, errno.EACCES if l[1] == 'openr' else errno.EIO])]
            if rng.random() < 0.3:
                a = [simlib.ERR, errno.EINTR] if l[1] == 'openr' or rng.random() < 0.5 else [simlib.SHORT, rng.choice([1, 100, 1000])]
            spec['plan']['acts'].append([l[0]] + a)
        return spec
    if not c['valid'] and rng.random() < 0.7:
        return spec
    k = spec['plan']['knobs']
    how = rng.choice(['error', 'error', 'error', 'quota', 'quota', 'sticky', 'chunks', 'eintr', 'shorts', 'mixed', 'py', 'py'])
    if how == 'chunks' or rng.random() < 0.2:
        k['write_chunk'] = rng.choice([1, 10, 1000, 5000]) if c['kind'] != 'smeftsim' else rng.choice([1000, 9000])
    if how == 'chunks':
        return spec
    if how == 'py':
        o, d = cli.invoke(dict(c, genuine=False), dict(spec['plan'], pyrec=1), spec['old'])
        if o.places:
            spec['plan']['py'] = [rng.choice(rng.choice(o.places)[1]), rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])]
        return spec
    o, d = cli.invoke(c, spec['plan'], spec['old'])
    ops = cli.out_ops(c, o.log)
    if not ops:
        return spec
    if how == 'quota':
        out = cli.delivered(c, o, d) or b''
        k['quota'] = rng.choice([0, 1, rng.randint(0, max(1, len(out))), max(0, len(out) - 1), 4096, 8192])
        return spec
    if how == 'sticky':
        w = [l for l in ops if l[1] == 'write']
        if w:
            k['sticky_from'] = rng.choice(w)[0]
            k['sticky_errno'] = rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT])
        return spec
    kinds = sorted({l[1] for l in ops})
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        l = rng.choice([x for x in ops if x[1] == rng.choice(kinds)] or ops)
        h = rng.choice(['error', 'eintr', 'shorts']) if how == 'mixed' else how
        if l[1] == 'write':
            if h == 'eintr':
                a = [simlib.ERR, errno.EINTR]
            elif h == 'shorts':
                a = [simlib.SHORT, rng.choice([1, 7, max(1, l[3] // 2), max(1, l[3] - 1)])]
            else:
                a = [simlib.ERR, rng.choice([errno.EIO, errno.ENOSPC, errno.EPIPE if l[2] == '<stdout>' else errno.EDQUOT])]
        elif h != 'error':
            continue
        elif l[1] in ('openw', 'openc'):
            a = [simlib.ERR, rng.choice([errno.EACCES, errno.EROFS, errno.ENOSPC, errno.EMFILE])]
        else:
            a = [simlib.ERR, rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT])]
        spec['plan']['acts'].append([l[0]] + a)
    return spec


def result_of(c, o, d):
    return cli.delivered(c, o, d)


def same(c, a, b):
    if a == b:
        return True
    if a is None or b is None or c['kind'] == 'smeftsim':
        return False
    try:
        return cli.close(cli.parse(a), cli.parse(b), 1e-12)
    except Exception:
        return False


def run(spec):
    c = spec['c']
    v = []
    o, d = cli.invoke(c, spec['plan'], spec['old'])
    got = result_of(c, o, d)
    k = spec['plan']['knobs']
    st = {'os_steps': o.nops, 'probe:' + ('to_file' if c['out'] else 'to_stdout'): 1}
    if c['kind'] in ('eos', 'smeftsim'):
        st['probe:' + c['kind']] = 1
    if o.hang or o.crashed:
        return {'viol': [viol('hang', 'no progress: %s' % (o.log[-3:],))], 'stats': st, 'sig': 'hang'}
    fired = [l for l in o.log if l[4]]
    hard = 0
    for l in fired:
        kind, arg = (int(x) for x in l[4][1:].split(':'))
        if kind == simlib.SHORT:
            n = 'short_write'
            st['probe:short_writes'] = 1
        elif arg == errno.EINTR:
            n = 'eintr'
        else:
            hard += 1
            if '/wcxf/data/' in l[2]:
                st['probe:package_data'] = 1
            n = {'write': 'write_error', 'openw': 'open_error', 'openc': 'open_error', 'closew': 'close_error'}.get(l[1], l[1] + '_error')
            if n in ('open_error', 'close_error'):
                st['probe:' + n] = 1
            if arg == errno.EPIPE:
                st['probe:broken_pipe'] = 1
        st['fault:' + n] = st.get('fault:' + n, 0) + 1
    if o.pyfired:
        hard += 1
        st['fault:' + spec['plan']['py'][1]] = 1
        st['probe:interrupted'] = 1
    if k.get('write_chunk'):
        st['fault:chunked_output'] = 1
        st['probe:short_writes'] = 1
    extra = o.fired - len(fired)
    if extra > 0:           # quota or persistent error took effect
        hard += extra
        n = 'disk_full' if 'quota' in k else 'persistent_error'
        st['fault:' + n] = extra
        if n == 'disk_full':
            st['probe:disk_full'] = 1
    quota_hit = 'quota' in k and (c['out'] or c['kind'] == 'validate')
    if not c['valid']:
        st['probe:invalid_request'] = 1
        if o.status == 0:
            v.append(viol('invalid-accepted', '%s exits with 0 although it cannot be carried out (%s)' % (c['argv'], c['why'])))
    else:
        b, bd = cli.invoke(c, None, spec['old'])
        bgot = result_of(c, b, bd)
        if b.status != 0:
            v.append(viol('valid-rejected', '%s fails without any fault: %s' % (c['argv'], b.stderr[-400:])))
        elif not bgot:
            v.append(viol('nothing-delivered', '%s exits with 0 but delivers nothing' % (c['argv'],)))
        elif o.status == 0:
            if not same(c, got, bgot):
                v.append(viol('success-incomplete', '%s exits with 0 but delivered %s of %s bytes (faults %s, %s)' %
                              (c['argv'], len(got or b''), len(bgot), fired, k)))
        elif not hard and not quota_hit:
            v.append(viol('spurious-failure', '%s fails with %d although nothing but partial transfers happened (%s): %s' %
                          (c['argv'], o.status, fired, o.stderr[-300:])))
        if not v and b.status == 0:
            ref = cli.api_result(c)
            if ref is not None:
                try:
                    g = cli.parse(bgot)
                except Exception:
                    g = None
                if c['kind'] != 'convert' and isinstance(g, dict):
                    g = {x: g.get(x) for x in ref}
                if not cli.close(g, ref, 1e-9):
                    v.append(viol('delivered-wrong', '%s delivers something else than the result for its input' % (c['argv'],)))
    if o.status != 0 and hard:
        st['probe:failure_reported'] = 1
    return {'viol': v, 'stats': st, 'sig': simlib.h([c['argv'], o.status, k, o.pyfired, simlib.log_sig(o.log), simlib.h(cli.text_of(c))]),
            'nontrivial': bool(fired or k or not c['valid']),
            'sample': {'argv': c['argv'], 'status': o.status, 'fired': fired, 'knobs': k},
            'trace': {'log': o.log[:200], 'status': o.status, 'stderr': o.stderr[-500:]}}


def shrink(spec):
    if 'py' in spec['plan']:
        s = with_(spec)
        del s['plan']['py']
        yield s
    for a in drop_each(spec['plan']['acts']):
        s = with_(spec)
        s['plan']['acts'] = a
        yield s
    for k in sorted(spec['plan']['knobs']):
        s = with_(spec)
        del s['plan']['knobs'][k]
        yield s
    if spec['old'] is not None:
        yield with_(spec, old=None)
    for c in cli.shrink_cmd(spec['c']):
        yield with_(spec, c=c)
