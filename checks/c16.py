"""C16: commands running at the same time, or after one was killed, do not
disturb each other."""
import copy
import errno
import json
import os
import simlib
from checks import cli, c11
from checks.common import viol, drop_each, with_

ID = 'C16'
MODE = 'bases'
BUDGET = {'quick': (1800, 300), 'thorough': (25000, 3000)}
RULE = 'distinct (commands, data, order in which the processes took their steps, faults fired, outcomes)'
REAL = ['command line tools in several simultaneous processes', 'file system of a common working and temporary directory', 'subprocess, tempfile, shutil']
STUB = ['process scheduler (one process runs between two file-system steps)', 'kill, interrupt and I/O errors (libc seam)', 'temporary file names (seeded; equal in all processes to provoke collisions)',
        'latex (script)', 'contents of wcxf/bases', 'EOS installation']
ASSUMPTIONS = ['the commands name different output files', 'a killed process may leave temporary files of its own behind']
PROBES = ['probe:same_name', 'probe:related_names', 'probe:same_command', 'probe:interleaved', 'probe:killed', 'probe:rerun_after_kill', 'probe:sigint', 'probe:io_error', 'probe:shared_input', 'probe:latex', 'probe:shared_prefix', 'probe:three']


def setup():
    c11.setup()


# names of the output files of simultaneous processes: always different
STYLES = ['%d-out.dat', '%d-out.dat', '%d-dir/card.dat', '%d-dir/card.dat', 'out.%d', 'o%d/../%d-x.json']
RELATED = [['out.dat', 'out.dat.tmp', 'out'], ['card.dat', 'card.dat~', '.card.dat.swp'], ['out.json', 'out.json.new', 'out.json.bak'], ['res', 'res.lock', 'tmp_res']]


def outname(style, k):
    if isinstance(style, list):
        return style[k]
    return style % ((k,) * style.count('%d'))


def rename(c, k, share, style='%d-out.dat'):
    """Private names for process k."""
    a = c['argv']
    if c['in'] != '-':
        n = '%d-%s' % (k, c['in'].replace('/', '-'))
        a[a.index(c['in'])] = n
        c['in'] = n
    if '--output' in a:
        n = outname(style, k)
        a[a.index('--output') + 1] = n
        c['out'] = n
    elif c['kind'] == 'smeftsim':
        c['out'] = outname(style, k)
        a += ['--output', c['out']]
    if '--eosprefix' in a and not share:
        a[a.index('--eosprefix') + 1] = '%d-%s' % (k, a[a.index('--eosprefix') + 1])
        c['files'] = {('%d-' % k + f if f.startswith('prefix/') else f): t for f, t in c['files'].items()}
    if '--eoshome' in a:
        a[a.index('--eoshome') + 1] = '%d-eoshome' % k
        c['files'] = {('%d-' % k + f if f.startswith('eoshome/') else f): t for f, t in c['files'].items()}
        if c['out'] and c['out'].startswith('eoshome/'):
            c['out'] = '%d-' % k + c['out']
    return c


def gen(rng, i, tier):
    n = rng.choice([2, 2, 3])
    jobs = []
    sharep = rng.random() < 0.4
    pfiles = None
    style = rng.choice(STYLES) if rng.random() < 0.75 else rng.choice(RELATED)
    same = rng.choice([None, None, None, 'smeftsim', 'smeftsim', 'eos', 'translate', 'convert'])
    for k in range(n):
        kind = same or rng.choice(['convert', 'translate', 'translate', 'match', 'validate', 'tex', 'tex', 'eos', 'eos', 'smeftsim'])
        if kind == 'tex':
            c = cli.gen_cmd(rng, 'validate')
            c['data'] = c11.mkbasis(rng, k, rng.choice(['ok', 'ok', 'undef', 'oklitter', 'litter', 'sigkill']))
            c['argv'] = ['wcxf', 'validate', 'basis'] + c['argv'][3:]
        else:
            c = cli.gen_cmd(rng, kind, slow=0.02, invalid=0.08)
        c['genuine'] = False
        if c['kind'] == 'eos' and sharep and c['valid']:
            pf = {f: t for f, t in c['files'].items() if f.startswith('prefix/')}
            pfiles = pfiles or pf
            c['files'] = dict({f: t for f, t in c['files'].items() if not f.startswith('prefix/')}, **pfiles)
        jobs.append(rename(c, k, sharep and c['valid'], style))
    shared = False
    if rng.random() < 0.35 and jobs[0]['in'] != '-' and not jobs[0].get('fill'):
        # two processes read the same file
        j = rng.randrange(1, n)
        out, ki = jobs[j]['out'], jobs[j]
        c = copy.deepcopy(jobs[0])
        if c['kind'] in ('translate', 'match', 'convert'):
            nm = outname(style, j)
            if '--output' in c['argv']:
                c['argv'][c['argv'].index('--output') + 1] = nm
            else:
                c['argv'] += ['--output', nm]
            c['out'] = nm
            jobs[j] = c
            shared = True
        elif c['kind'] == 'validate':
            jobs[j] = c
            shared = True
    spec = {'jobs': jobs, 'schedule': [], 'plan': {'acts': [], 'knobs': {'dirseed': rng.randrange(1, 1 << 20)}}, 'shared': shared, 'sharep': sharep, 'rerun': False}
    g = group(spec)
    steps = len(g[2])
    if steps:
        sw = {rng.randint(0, steps): rng.randrange(n) for _ in range(rng.choice([1, 3, 6, 12, 40]))}
        if rng.random() < 0.3:
            sw = {s: rng.randrange(n) for s in range(steps)}
        spec['schedule'] = sorted([s, p] for s, p in sw.items())
        if rng.random() < 0.5:
            g = group(spec)
            l = rng.choice(g[1]) if g[1] else None
            if l:
                what = rng.choice(['kill', 'kill', 'kill', 'sigint', 'error'])
                if what == 'kill':
                    a = [rng.choice([simlib.CRASH_BEFORE, simlib.CRASH_AFTER]), 0]
                    if l[1] == 'write' and l[3] > 1 and rng.random() < 0.6:
                        a = [simlib.TORN, rng.randint(1, l[3] - 1)]
                    spec['rerun'] = True
                elif what == 'sigint':
                    a = [simlib.SIGINT, 0]
                    spec['rerun'] = True
                else:
                    a = [simlib.ERR, rng.choice([errno.EIO, errno.ENOSPC, errno.EMFILE])]
                spec['plan']['acts'].append([l[0]] + a)
    return spec


def env():
    return {'PATH': os.path.join(simlib.scratch, 'texbin') + ':/usr/bin:/bin', 'TMPDIR': os.path.join(simlib.scratch, 'tmpd')}


def place(jobs):
    d = simlib.fresh_dir('work')
    simlib.fresh_dir('tmpd')
    for c in jobs:
        if c['out']:
            for x in [os.path.dirname(c['out'])] + ([c['out'].split('/..')[0]] if '/..' in c['out'] else []):
                os.makedirs(os.path.join(d, x), exist_ok=True)
        for f, t in c['files'].items():
            simlib.write_file(os.path.join(d, f), t.encode('utf-8', 'surrogateescape'))
        if c['in'] != '-':
            simlib.write_file(os.path.join(d, c['in']), cli.text_of(c).encode('utf-8', 'surrogateescape'))
    return d


def job(c, d):
    return {'argv': c['argv'], 'cwd': d, 'stdin': cli.stdin_of(c), 'stdin_kind': c['stdin_kind'], 'env': env()}


def group(spec):
    d = place(spec['jobs'])
    outs, log, order = simlib.run_cli_group([job(c, d) for c in spec['jobs']], spec['schedule'], spec['plan'])
    return outs, log, order, d


def alone(c, d=None):
    d = d or place([c])
    o = simlib.run_cli(c['argv'], d, stdin=cli.stdin_of(c), stdin_kind=c['stdin_kind'], env=env())
    return o, cli.delivered(c, o, d)


def same(c, a, b):
    if a == b:
        return True
    if a is None or b is None or c['kind'] in ('smeftsim', 'validate'):
        return False
    try:
        return cli.close(cli.parse(a), cli.parse(b), 1e-9)
    except Exception:
        return False


def run(spec):
    outs, log, order, d = group(spec)
    n = len(spec['jobs'])
    st = {'os_steps': len(order), 'sched_steps': len(order)}
    if any(o.hang for o in outs):
        return {'viol': [viol('hang', 'no progress of the group after %d steps' % len(order))], 'stats': st, 'sig': 'hang'}
    v = []
    fired = [l for l in log if l[4]]
    victims = {order[l[0]] for l in fired if l[0] < len(order)}
    for l in fired:
        k = int(l[4][1:].split(':')[0])
        nm = {simlib.ERR: 'io_error', simlib.SIGINT: 'sigint'}.get(k, 'killed')
        st['fault:' + nm] = st.get('fault:' + nm, 0) + 1
        st['probe:' + nm] = 1
    switches = sum(1 for a, b in zip(order, order[1:]) if a != b)
    st['fault:process_switch'] = switches
    if switches > n:
        st['probe:interleaved'] = 1
    if spec['shared']:
        st['probe:shared_input'] = 1
    if spec['sharep'] and sum(c['kind'] == 'eos' for c in spec['jobs']) > 1:
        st['probe:shared_prefix'] = 1
    if n == 3:
        st['probe:three'] = 1
    outn = [c['out'] for c in spec['jobs'] if c['out']]
    if len({os.path.basename(x) for x in outn}) < len(outn):
        st['probe:same_name'] = 1
    if any(x != y and y.startswith(x) for x in outn for y in outn):
        st['probe:related_names'] = 1
    if len({c['kind'] for c in spec['jobs']}) == 1:
        st['probe:same_command'] = 1
    after = simlib.snapshot(d)
    got = [cli.delivered(c, o, d) for c, o in zip(spec['jobs'], outs)]
    left = sorted(simlib.snapshot(os.path.join(simlib.scratch, 'tmpd')))
    rerun = {}
    if spec['rerun'] and victims:
        # restart what was killed, with everything it left behind still there
        for k in sorted(victims):
            c = spec['jobs'][k]
            o, r = alone(c, d)
            rerun[k] = (o, r)
            st['probe:rerun_after_kill'] = 1
    refs = [alone(c) for c in spec['jobs']]
    for k, c in enumerate(spec['jobs']):
        if any(x['tex'].startswith('STUB') for s in (c['data'].get('sectors') or {}).values() if isinstance(s, dict) for x in s.values() if isinstance(x, dict) and 'tex' in x) and c['kind'] == 'validate':
            st['probe:latex'] = 1
        ro, rr = refs[k]
        for label, o, r in ([('beside other processes', outs[k], got[k])] if k not in victims else []) + ([('again after having been stopped', rerun[k][0], rerun[k][1])] if k in rerun else []):
            if o.hang:
                v.append(viol('hang', '%s does not end %s' % (c['argv'], label)))
            elif o.status != ro.status:
                v.append(viol('status', '%s ends with %d %s, with %d alone: %s' % (c['argv'], o.status, label, ro.status, (o.stderr or '')[-300:])))
            elif ro.status == 0 and not same(c, r, rr):
                v.append(viol('result', '%s delivers something else %s than alone: %s bytes, %s alone (faults %s)' % (c['argv'], label, len(r or b''), len(rr or b''), fired)))
    # nothing but the outputs has changed
    before = simlib.snapshot(place(spec['jobs']))
    mine = {os.path.normpath(c['out']) for c in spec['jobs'] if c['out']}
    odd = sorted(f for f in set(before) | set(after) if f not in mine and before.get(f, 0) != after.get(f, 0))
    if not victims:
        if odd:
            v.append(viol('other-files', 'other files changed: %s' % odd[:4]))
        if left:
            v.append(viol('left-behind', 'left in the temporary directory: %s' % left[:4]))
    else:
        lost = [f for f in odd if f in before]
        if lost:
            v.append(viol('other-files', 'files that are not outputs changed: %s' % lost[:4]))
    return {'viol': v[:3], 'stats': st, 'nontrivial': switches > 0 or bool(fired),
            'sig': simlib.h([[c['argv'] for c in spec['jobs']], [simlib.h(cli.text_of(c)) for c in spec['jobs']], order, [o.status for o in outs], [l[1:] for l in fired]]),
            'sample': {'argv': [c['argv'] for c in spec['jobs']], 'steps': len(order), 'switches': switches, 'status': [o.status for o in outs], 'fired': fired},
            'trace': {'order': order[:300], 'log': log[:200]}}


def shrink(spec):
    for a in drop_each(spec['plan']['acts']):
        s = with_(spec)
        s['plan']['acts'] = a
        yield s
    if len(spec['jobs']) > 2:
        for k in range(len(spec['jobs'])):
            s = with_(spec)
            del s['jobs'][k]
            s['schedule'] = [[x, p if p < k else p - 1] for x, p in s['schedule'] if p != k]
            yield s
    for x in drop_each(spec['schedule']):
        yield with_(spec, schedule=x)
    for k in range(len(spec['jobs'])):
        for c in cli.shrink_cmd(spec['jobs'][k]):
            yield with_(spec, jobs=spec['jobs'][:k] + [c] + spec['jobs'][k + 1:])
