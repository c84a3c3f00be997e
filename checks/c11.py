"""C11: the LaTeX check is clean and honest whatever latex does."""
import errno
import json
import os
import simlib
import tsched
from checks import cli
from checks.common import viol, drop_each, with_

ID = 'C11'
MODE = 'bases'
BUDGET = {'quick': (7000, 300), 'thorough': (25000, 3000)}
RULE = 'distinct (basis, behaviour of latex, faults fired and where, interleaving, verdict)'
REAL = ['Basis.validate and the LaTeX check, wcxf validate basis', 'subprocess, tempfile, shutil', 'file system of the temporary directory']
STUB = ['latex (script with scripted behaviours; not installed here)', 'kernel errors and signals (libc seam)', 'thread scheduler']
ASSUMPTIONS = ['no fault is injected while the temporary directory is being created by mkdtemp or removed by rmtree', 'no interrupt arrives inside the call that starts latex',
               'a missing latex executable counts as "cannot check": accepted']
PROBES = ['probe:accepted', 'probe:rejected', 'probe:missing', 'probe:killed', 'probe:no_log', 'probe:bad_log', 'probe:litter', 'probe:sigint', 'probe:disk_full',
          'probe:threads', 'probe:cli', 'probe:os_error', 'probe:slow', 'probe:changing']
BEHAVE = {'ok': 0, 'okundef': 0, 'oklitter': 0, 'oknolog': 0, 'okbin': 0, 'undef': 1, 'nolog': 1, 'binlog': 1, 'sigkill': 1, 'segv': 1, 'litter': 1,
          'emptylog': 1, 'logdir': 1, 'exit2': 1, 'exit255': 1, 'lateundef': 1, 'term': 1, 'okdvi': 0, 'dvi': 1, 'oknoisy': 0, 'noisy': 1}

SCRIPT = r'''#!/bin/sh
prev=
for a; do
  [ "$prev" = -output-directory ] && D=$a
  prev=$a
done
T=$prev
[ -n "$SIM_RECORD" ] && { cat "$T"; printf '\n=====\n'; } >> "$SIM_RECORD"
[ -n "$SIM_SLOW" ] && sleep $SIM_SLOW
b=$SIM_BEHAVE
[ -n "$b" ] || b=$(sed -n 's/.*STUB\([a-z0-9]*\).*/\1/p' "$T" | head -n 1)
L=$D/textest.log
case $b in
  ok) echo "Output written" > "$L"; exit 0;;
  okundef) printf 'Undefined control sequence in comment\n\n' > "$L"; exit 0;;
  oknolog) exit 0;;
  okbin) printf '\377\376\200 fine\n' > "$L"; exit 0;;
  oklitter) echo ok > "$L"; mkdir -p "$D/a/b"; echo x > "$D/a/b/c"; ln -s /nonexistent "$D/link"; echo x > "$D/.hidden"; exit 0;;
  undef) printf 'This is TeX\n! Undefined control sequence.\nl.4 \\foo\n\nmore\n' > "$L"; exit 1;;
  lateundef) printf 'x\n! Emergency stop.\nno blank line after' > "$L"; exit 1;;
  nolog) exit 1;;
  binlog) printf '\377\376\200\n! Undefined control sequence \377\n\n' > "$L"; exit 1;;
  sigkill) echo part > "$L"; kill -9 $$;;
  segv) kill -11 $$;;
  term) kill -15 $$;;
  litter) mkdir -p "$D/a/b"; echo x > "$D/a/b/c"; echo "! Emergency stop" > "$L"; ln -s /nonexistent "$D/link"; exit 1;;
  emptylog) : > "$L"; exit 1;;
  logdir) mkdir "$L"; exit 1;;
  okdvi) echo dvi > "$D/textest.dvi"; echo "Output written on textest.dvi" > "$L"; : > "$D/textest.aux"; exit 0;;
  dvi) echo part > "$D/textest.dvi"; : > "$D/textest.aux"; printf 'This is TeX\n! Missing $ inserted.\n\nOutput written on textest.dvi (1 page).\n' > "$L"; exit 1;;
  oknoisy) head -c 300000 /dev/zero | tr '\0' x; head -c 100000 /dev/zero | tr '\0' x >&2; echo ok > "$L"; exit 0;;
  noisy) head -c 300000 /dev/zero | tr '\0' x; head -c 100000 /dev/zero | tr '\0' x >&2; echo ok > "$L"; exit 1;;
  exit2) exit 2;;
  exit255) exit 255;;
  *) echo "no behaviour" > "$L"; exit 0;;
esac
exit 99
'''


def setup():
    cli.bases()
    b = os.path.join(simlib.scratch, 'texbin')
    os.makedirs(b)
    # sh, sed etc. are found through the directories of the system, but no latex is
    with open(os.path.join(b, 'latex'), 'w') as f:
        f.write(SCRIPT)
    os.chmod(os.path.join(b, 'latex'), 0o755)
    b = os.path.join(simlib.scratch, 'noexec')
    os.makedirs(b)
    with open(os.path.join(b, 'latex'), 'w') as f:
        f.write(SCRIPT)
    os.chmod(os.path.join(b, 'latex'), 0o644)
    os.makedirs(os.path.join(simlib.scratch, 'nobin'), exist_ok=True)


def mkbasis(rng, k, behave):
    secs = rng.sample(sorted(cli.efts()['WET']['sectors']), rng.randint(1, 3))
    d = {'eft': 'WET', 'basis': 'texbasis%d' % k if rng.random() < 0.6 else 'texbasis', 'sectors': {}}
    n = 0
    for s in secs:
        d['sectors'][s] = {}
        for j in range(rng.randint(1, 4)):
            d['sectors'][s]['c%d_%d' % (k, n)] = rng.choice([{'tex': 'C_{%d%d}' % (k, n)}, {'tex': r'\phi_{%d%d}' % (k, n), 'real': True}, {'tex': 'µ_{%d%d}' % (k, n)}])
            n += 1
    s = rng.choice(secs)
    d['sectors'][s]['b%d' % k] = {'tex': 'STUB' + behave}
    if rng.random() < 0.1:
        for j in range(rng.choice([300, 300, 2000])):
            d['sectors'][s]['big%d' % j] = {'tex': 'x_{%d}^{long name}' % j}
    return d


def gen(rng, i, tier):
    which = rng.choice(['present'] * 8 + ['missing', 'noexec'])
    mode = rng.choice(['api', 'api', 'cli', 'threads', 'seq'])
    n = 1 if mode in ('api', 'cli') else rng.choice([2, 3])
    spec = {'mode': mode, 'which': which, 'bases': [mkbasis(rng, k, rng.choice(sorted(BEHAVE) + ['ok', 'undef'])) for k in range(n)],
            'plan': {'acts': [], 'knobs': {}}, 'switches': [], 'first': 0, 'genuine': rng.random() < 0.1}
    if n > 1 and rng.random() < 0.25:
        # the same object checked by all
        spec['same'] = True
        spec['bases'] = [spec['bases'][0]] * n
    if mode == 'seq' and rng.random() < 0.5:
        # latex is another one, or not there, when the check is repeated
        spec['bases'] = [rng.choice(spec['bases'])] * n
        spec['per'] = [[rng.choice(['present'] * 4 + ['missing', 'noexec']), rng.choice(sorted(BEHAVE) + ['ok', 'undef', 'ok', 'undef'])] for _ in range(n)]
    if mode in ('api', 'seq') and which == 'present' and 'per' not in spec and rng.random() < 0.08:
        # latex takes very long (the clock runs fast): whatever is done about it, the verdict is honest
        spec['slow'] = True
        return spec
    x = rng.random()
    if mode == 'threads':
        o, _ = execute(spec)
        if o.result and o.result['steps']:
            m = o.result['steps']
            spec['first'] = rng.randrange(n)
            spec['switches'] = sorted([s, rng.randrange(n)] for s in {rng.randint(1, m) for _ in range(rng.randint(1, 6))})
        return spec
    if x < 0.45:
        o, _ = execute(spec)
        lo = [l[0] for l in o.log if l[1] in ('openw', 'openc') and '.tex' in l[2]]
        ops = []
        if lo:
            for l in o.log:
                # between the creation of the document and the clean-up
                if l[0] >= lo[0] and l[1] in ('openw', 'openc', 'write', 'closew', 'wait', 'openr', 'read', 'fork', 'pipe') and '<std' not in l[2] and l[2] != 'bin' and '/bases' not in l[2]:
                    if l[1] in ('openr', 'read') and (not l[2].endswith('.log') or 'logdir' in json.dumps([spec['bases'], spec.get('per')])):
                        # a log file that is a directory is opened by the clean-up
                        continue
                    ops.append(l)
        if ops:
            kinds = sorted({l[1] for l in ops})
            k = rng.choice(kinds)
            l = rng.choice([y for y in ops if y[1] == k])
            # (an interrupt while Popen starts latex leaves it running: nothing the package can wait for)
            if rng.random() < 0.4 and l[1] != 'fork' or l[1] == 'wait':
                spec['plan']['acts'].append([l[0], simlib.SIGINT, rng.randrange(2) if l[1] != 'closew' else 0])
            elif rng.random() < 0.25 and l[1] in ('write', 'read'):
                spec['plan']['acts'].append([l[0], simlib.SHORT, rng.choice([1, 5, 30])])
            else:
                spec['plan']['acts'].append([l[0], simlib.ERR, rng.choice({'write': [errno.ENOSPC, errno.EIO], 'closew': [errno.EIO, errno.ENOSPC], 'openr': [errno.EIO, errno.EACCES, errno.EMFILE],
                                                                          'read': [errno.EIO], 'fork': [errno.EAGAIN, errno.ENOMEM], 'pipe': [errno.EMFILE, errno.ENFILE]}.get(l[1], [errno.ENOSPC, errno.EMFILE]))])
    elif x < 0.55:
        spec['plan']['knobs']['quota'] = rng.choice([0, 1, 40, 120, 100000])
    elif x < 0.65:
        spec['plan']['knobs']['write_chunk'] = rng.choice([1, 7, 50])
        spec['plan']['knobs']['read_chunk'] = rng.choice([1, 7, 50])
    return spec


def execute(spec):
    """-> (outcome, info)"""
    tmp = simlib.fresh_dir('tmpd')
    d = simlib.fresh_dir('work')
    rec = os.path.join(simlib.scratch, 'latex.record')
    if os.path.exists(rec):
        os.unlink(rec)
    paths = {'present': os.path.join(simlib.scratch, 'texbin') + ':/usr/bin:/bin', 'missing': os.path.join(simlib.scratch, 'nobin'),
            'noexec': os.path.join(simlib.scratch, 'noexec')}
    env = {'PATH': paths[spec['which']], 'TMPDIR': tmp, 'SIM_RECORD': rec}
    if spec['mode'] == 'cli':
        simlib.write_file(os.path.join(d, 'b.json'), json.dumps(spec['bases'][0]))
        o = simlib.run_cli(['wcxf', 'validate', 'basis', 'b.json'], d, plan=spec['plan'], env=env, genuine=spec['genuine'])
        os.unlink(os.path.join(d, 'b.json'))
        verdicts = [[0, o.status == 0, o.stderr[-200:]]]
    else:
        def body():
            import wcxf
            simlib.lib.sim_disarm()
            os.environ.update(env)
            objs = [wcxf.Basis(**json.loads(json.dumps(b))) for b in spec['bases']]
            if spec.get('same'):
                objs = [objs[0]] * len(objs)
            out = []
            st = {'steps': 0, 'taken': [], 'deadlock': False}

            def one(k):
                if spec.get('per'):
                    os.environ.update(PATH=paths[spec['per'][k][0]], SIM_BEHAVE=spec['per'][k][1])
                try:
                    objs[k].validate()
                    out.append([k, True, ''])
                except BaseException as e:
                    out.append([k, False, '%s: %s' % (type(e).__name__, str(e)[:200])])
            if spec.get('slow'):
                import subprocess
                import time
                clock = [0.0]

                def fast():
                    clock[0] += 86400.0
                    return clock[0]
                subprocess._time = fast
                time.monotonic = time.time = time.perf_counter = fast
                os.environ['SIM_SLOW'] = '0.05'
            simlib.lib.sim_arm()
            if spec['mode'] == 'threads':
                s = tsched.Sched(spec['switches'])
                s.run([(lambda k: lambda s: one(k))(k) for k in range(len(objs))], first=spec['first'])
                st = {'steps': s.step, 'taken': s.taken, 'deadlock': s.deadlock}
            else:
                for k in range(len(objs)):
                    one(k)
            simlib.lib.sim_disarm()
            return dict(st, verdicts=out)
        o = simlib.run_child(body, plan=spec['plan'], cwd=d)
        verdicts = o.result['verdicts'] if o.result else []
    left = sorted(simlib.snapshot(tmp)) + ['cwd:' + x for x in sorted(simlib.snapshot(d))]
    docs = (simlib.read_file(rec) or b'').decode('utf-8', 'replace').split('\n=====\n')[:-1]
    return o, {'verdicts': verdicts, 'left': left, 'docs': docs}


def run(spec):
    o, info = execute(spec)
    if o.hang or o.crashed:
        return {'viol': [viol('hang', 'no progress')], 'stats': {}, 'sig': 'hang'}
    if spec['mode'] != 'cli' and o.result is None:
        if simlib.harness_fault(o):
            raise simlib.HarnessError('%s %s' % (o.exc, o.stderr))
        return {'viol': [viol('died', '%s %s %s' % (o.status, o.exc, o.stderr))], 'stats': {}, 'sig': 'died'}
    v = []
    fired = [l for l in o.log if l[4]]
    k = spec['plan']['knobs']
    faulty = [l for l in fired if not l[4].startswith('!%d' % simlib.SHORT)]
    disturbed = bool(faulty) or 'quota' in k or spec.get('slow')
    st = {'os_steps': o.nops, 'sched_steps': 0}
    if o.result:
        st['sched_steps'] = o.result['steps']
        st['fault:preemption'] = len(o.result['taken'])
        if o.result['deadlock']:
            v.append(viol('deadlock', 'threads blocked'))
    if info['left']:
        v.append(viol('left-behind', 'left in the temporary directory: %s (latex %s, faults %s)' % (info['left'][:5], [behave(b) for b in spec['bases']], fired)))
    for idx, ok, msg in info['verdicts']:
        b = behave(spec['bases'][idx])
        which = spec['which']
        if spec.get('per'):
            which, b = spec['per'][idx]
            st['probe:changing'] = 1
        bad = which == 'present' and BEHAVE[b]
        if ok and bad:
            v.append(viol('false-accept', 'accepted although latex failed (%s; faults %s)' % (b, fired)))
        elif ok and which == 'present':
            st['probe:accepted'] = 1
            # the whole document was compiled
            want = [x['tex'] for s in spec['bases'][idx]['sectors'].values() for x in s.values()]
            docs = [t for t in info['docs'] if '\\end{document}' in t and all(w in t for w in want)]
            if not docs:
                v.append(viol('unchecked', 'accepted but latex never saw the complete document (faults %s)' % (fired,)))
        elif not ok and not bad and which != 'noexec' and not disturbed:
            v.append(viol('false-reject', 'rejected although latex succeeded (%s): %s' % (b if which == 'present' else which, msg)))
        if not ok:
            st['probe:rejected'] = 1
        if which == 'missing':
            st['probe:missing'] = 1
        for p, bs in (('killed', ('sigkill', 'segv', 'term')), ('no_log', ('nolog', 'exit2', 'exit255', 'oknolog')), ('bad_log', ('binlog', 'okbin', 'emptylog', 'logdir')), ('litter', ('litter', 'oklitter'))):
            if b in bs and which == 'present':
                st['probe:' + p] = 1
                st['fault:latex_' + p] = 1
    if len(info['verdicts']) != len(spec['bases']) and not faulty:
        v.append(viol('no-verdict', 'a validation gave no verdict'))
    for l in fired:
        kind = int(l[4][1:].split(':')[0])
        n = {simlib.ERR: 'os_error', simlib.SIGINT: 'sigint', simlib.SHORT: 'short_transfer'}[kind]
        st['fault:' + n] = st.get('fault:' + n, 0) + 1
        if n != 'short_transfer':
            st['probe:' + n] = 1
    if k.get('write_chunk'):
        st['fault:chunked_io'] = 1
    if 'quota' in k and o.fired > len(fired):
        st['fault:disk_full'] = 1
        st['probe:disk_full'] = 1
    if spec.get('slow'):
        st['fault:latex_slow'] = st['probe:slow'] = 1
    for w in [x[0] for x in spec.get('per', ())] or [spec['which']]:
        if w != 'present':
            st['fault:latex_' + w] = 1
    if spec['mode'] in ('threads', 'cli'):
        st['probe:' + spec['mode']] = 1
    return {'viol': v[:4], 'stats': st, 'nontrivial': True,
            'sig': simlib.h([spec['mode'], spec['which'], spec.get('per'), spec['bases'], k, [x[:2] for x in info['verdicts']], [l[1:] for l in o.log if l[1] != 'wait'], o.result and o.result['taken']]),
            'sample': {'mode': spec['mode'], 'latex': [behave(b) for b in spec['bases']], 'verdicts': info['verdicts'], 'fired': fired},
            'trace': {'verdicts': info['verdicts'], 'log': o.log[:100]}}


def behave(b):
    for s in b['sectors'].values():
        for x in s.values():
            if x['tex'].startswith('STUB'):
                return x['tex'][4:]


def shrink(spec):
    for a in drop_each(spec['plan']['acts']):
        s = with_(spec)
        s['plan']['acts'] = a
        yield s
    for k in sorted(spec['plan']['knobs']):
        s = with_(spec)
        del s['plan']['knobs'][k]
        yield s
    for s in drop_each(spec['switches']):
        yield with_(spec, switches=s)
    if len(spec['bases']) > 1:
        for b in range(len(spec['bases'])):
            s = with_(spec)
            del s['bases'][b]
            if s.get('per'):
                del s['per'][b]
            yield s
    for i, b in enumerate(spec['bases']):
        for s in sorted(b['sectors']):
            for c in sorted(b['sectors'][s]):
                if not b['sectors'][s][c]['tex'].startswith('STUB'):
                    n = with_(spec)
                    del n['bases'][i]['sectors'][s][c]
                    yield n
