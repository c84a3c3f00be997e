"""C17: a SMEFTsim card is written only for a valid file and, outside the
Warsaw mass basis, only after the warning was explicitly overridden."""
import copy
import errno
import json
import os
import simlib
from checks import cardmodel, cli
from checks.common import viol, drop_each, with_

ID = 'C17'
MODE = 'bases'
BUDGET = {'quick': (4500, 300), 'thorough': (20000, 3000)}
RULE = 'distinct (basis, validity, what the terminal delivered and how, faults fired, previous output, outcome)'
REAL = ['wcxf2smeftsim from argument parsing to interpreter exit, including its dialogue']
STUB = ['the user at the terminal (scripted answers, end of file, interrupts, errors at chosen reads)', 'contents of wcxf/bases']
ASSUMPTIONS = ['answers ending in a carriage return are not judged', 'the exit status of a declined conversion is not judged']
PROBES = ['probe:mass_written', 'probe:confirmed', 'probe:declined', 'probe:eof', 'probe:sigint', 'probe:read_error', 'probe:invalid', 'probe:old_kept', 'probe:crash', 'probe:short_reads', 'probe:data_on_stdin']
YES = ['i\n', 'I\n', 'i', 'I', 'i\nx\n', 'I\nn\n']
NO = ['', '\n', 'n\n', 'x', 'ignore\n', 'ii\n', 'q\ni\n', 'y\n', 'yes\n', 'in\n', '\ni\n', 'l\n', '1\n', 'Ii\n', 'quit\n', 'ı\n', 'ï\n', 'İ\n', 'j\n', 'no i\n', '-i\n', 'Warsaw mass\n', ' i\n', 'i \n', '\ti\n', 'I \n', 'i i\n', '"i"\n', "'i'\n", 'i.\n', 'x\ni\n', 'ii\ni\n', 'no\ni\n', 'maybe\nI\n', 'i i\ni\n', '\n\ni\n', 'what?\ni\ni\n']


def setup():
    cli.bases()


def gen(rng, i, tier):
    basis = rng.choice(['Warsaw mass', 'Warsaw', 'Warsaw', 'Warsaw up', 'Warsaw up', 'WET'])
    spec = {'basis': basis, 'fill': rng.randrange(1 << 20), 'bad': rng.choice([None] * 14 + ['value', 'basis', 'eft', 'cut', 'field', 'near']),
            'answer': rng.choice(YES) if rng.random() < 0.35 else rng.choice(NO),
            'pipe': rng.random() < 0.5, 'old': rng.choice([None, 'old card\n', 'x' * 9000]), 'named': rng.random() < 0.5,
            'opts': rng.choice([[], [], ['--model-set', 'B'], ['--input-scheme', 'mw'], ['--cutoff-scale', '2000'], ['--cutoff-scale', '350.5', '--model-set', 'B', '--input-scheme', 'mw']]),
            'dash': rng.random() < 0.06, 'genuine': rng.random() < 0.05, 'plan': {'acts': [], 'knobs': {}}}
    if rng.random() < 0.2:
        spec['plan']['knobs']['read_chunk'] = rng.choice([1, 2, 5]) if basis == 'WET' else rng.choice([700, 5000])
    if rng.random() < 0.4:
        o, d = execute(spec)
        ops = [l for l in o.log if l[1] in ('read', 'openr') and '/bases' not in l[2]]
        ask = [l for l in ops if l[2] == '<stdin>']
        ops = ask if ask and rng.random() < 0.75 else ops
        if ops:
            l = rng.choice(ops)
            k = rng.choice(['sigint', 'error', 'error', 'crash', 'eintr'])
            if k == 'eintr' and l[1] == 'read':
                a = [simlib.ERR, errno.EINTR]
            elif k == 'sigint':
                a = [simlib.SIGINT, 1 if l[1] == 'read' else 0]
            elif k == 'crash':
                a = [rng.choice([simlib.CRASH_BEFORE, simlib.CRASH_AFTER]), 0]
            else:
                a = [simlib.ERR, rng.choice([errno.EIO, errno.EBADF] if l[1] == 'read' else [errno.EACCES, errno.ENOENT])]
            spec['plan']['acts'].append([l[0]] + a)
    return spec


def text(spec, mass=False):
    if spec['basis'] == 'WET':
        d = {'eft': 'WET', 'basis': 'flavio', 'scale': 4.8, 'values': {'C9_bsmumu': 0.1}}
    else:
        c = {'data': {'eft': 'SMEFT', 'basis': 'Warsaw mass' if mass else spec['basis'], 'scale': 1000.0, 'values': {}}, 'fill': spec['fill']}
        d = cli.data_of(c)
    b = spec['bad'] if not mass else None
    if b == 'value':
        d['values']['no_such_coefficient'] = 1.0
    elif b == 'near':
        k = sorted(d['values'])[spec['fill'] % len(d['values'])]
        d['values'][k + 'x'] = d['values'].pop(k)
    elif b in ('basis', 'eft'):
        d[b] = 'nonsense'
    elif b == 'field':
        del d['values']
    t = json.dumps(d)
    if b == 'cut':
        t = t[:len(t) - 1 - spec['fill'] % 50]
    return t


def name(spec):
    return 'my card.dat' if spec['named'] else 'wcxf2smeftsim_param_card.dat'


def execute(spec, mass=False):
    d = simlib.fresh_dir('work')
    t = text(spec, mass).encode()
    inp = spec['answer'].encode()
    argv = ['wcxf2smeftsim']
    if spec['dash'] and not mass:
        argv.append('-')
        inp = t + inp
    else:
        simlib.write_file(os.path.join(d, 'in.json'), t)
        argv.append('in.json')
    if spec['named']:
        argv += ['--output', name(spec)]
    argv += spec['opts']
    if spec['old'] is not None and not mass:
        simlib.write_file(os.path.join(d, name(spec)), spec['old'].encode())
    o = simlib.run_cli(argv, d, stdin=b'' if mass else inp, stdin_kind='pipe' if spec['pipe'] else 'file', plan=None if mass else spec['plan'], genuine=spec['genuine'])
    return o, d


def run(spec):
    o, d = execute(spec)
    got = simlib.read_file(os.path.join(d, name(spec)))
    extra = sorted(set(simlib.snapshot(d)) - {'in.json', name(spec)})
    st = {'os_steps': o.nops}
    if o.hang:
        return {'viol': [viol('hang', 'no progress')], 'stats': st, 'sig': 'hang'}
    v = []
    fired = [l for l in o.log if l[4]]
    kinds = [tuple(int(x) for x in l[4][1:].split(':')) for l in fired]
    hard = [k for k in kinds if k != (simlib.ERR, errno.EINTR)]
    for k in kinds:
        n = 'eintr' if k not in hard else {simlib.ERR: 'read_error', simlib.SIGINT: 'sigint'}.get(k[0], 'crash')
        st['fault:' + n] = st.get('fault:' + n, 0) + 1
        st['probe:' + n] = 1
    if spec['plan']['knobs']:
        st['fault:chunked_input'] = 1
        st['probe:short_reads'] = 1
    old = None if spec['old'] is None else spec['old'].encode()
    written = got != old
    line = spec['answer'].split('\n')[0]
    mass = spec['basis'] == 'Warsaw mass'
    confirmed = line in ('i', 'I') and not spec['dash']
    may = not spec['bad'] and (mass or confirmed) and spec['basis'] != 'WET'
    if spec['dash']:
        st['probe:data_on_stdin'] = 1
        if spec['answer'] and not spec['bad']:
            may = may and mass and False
            # data followed by something else: only "no card" is judged below
    what = 'basis %s, %s, answer %r, faults %s' % (spec['basis'], spec['bad'] or 'valid', spec['answer'], fired)
    if written and not may:
        v.append(viol('written', 'a card was written (%s)' % what if spec['old'] is None else 'the previous card was overwritten (%s)' % what))
    if extra and not (o.crashed or hard):
        v.append(viol('other-file', 'unexpected files %s (%s)' % (extra, what)))
    if may and not hard:
        if o.status != 0:
            v.append(viol('refused', 'ends with %d although it may be written (%s): %s' % (o.status, what, o.stderr[-300:])))
        else:
            ro, rd = execute(spec, mass=True)
            ref = simlib.read_file(os.path.join(rd, name(spec)))
            if ref is None or ro.status != 0:
                v.append(viol('refused', 'the same coefficients declared as Warsaw mass fail: %s' % ro.stderr[-300:]))
            elif got != ref:
                v.append(viol('wrong-card', 'the card is not the one of these coefficients (%s bytes, %s expected; %s)' % (len(got or b''), len(ref), what)))
            else:
                o2 = spec['opts']
                bad = cardmodel.compare(got.decode(), json.loads(text(spec))['values'], 'B' if 'B' in o2 else 'A', float(o2[1]) if '--cutoff-scale' in o2 else 1000.0)
                if bad:
                    v.append(viol('wrong-entry', '%s (%s)' % (bad, what)))
            st['probe:mass_written' if mass else 'probe:confirmed'] = 1
    if spec['bad'] and o.status == 0 and (mass or confirmed):
        v.append(viol('invalid-success', 'exit 0 for a file that cannot be converted (%s)' % what))
    if spec['bad']:
        st['probe:invalid'] = 1
    elif not mass and not may:
        st['probe:eof' if spec['answer'] == '' else 'probe:declined'] = 1
    if not written and spec['old'] is not None:
        st['probe:old_kept'] = 1
    return {'viol': v[:3], 'stats': st, 'nontrivial': True,
            'sig': simlib.h([spec['basis'], spec['bad'], spec['answer'], spec['opts'], o.status, written, simlib.log_sig(o.log), spec['fill']]),
            'sample': {'basis': spec['basis'], 'bad': spec['bad'], 'answer': spec['answer'], 'status': o.status, 'written': written, 'fired': fired},
            'trace': {'log': o.log[:100], 'status': o.status, 'stderr': o.stderr[-300:]}}


def shrink(spec):
    for a in drop_each(spec['plan']['acts']):
        s = with_(spec)
        s['plan']['acts'] = a
        yield s
    for k in sorted(spec['plan']['knobs']):
        s = with_(spec)
        del s['plan']['knobs'][k]
        yield s
    for k, x in (('old', None), ('opts', []), ('named', False), ('genuine', False), ('pipe', False), ('dash', False)):
        if spec[k] != x:
            yield with_(spec, **{k: x})
