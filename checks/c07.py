"""C07: a command that fails before it has a result leaves the output file alone."""
import errno
import os
import simlib
from checks import cli
from checks.common import viol, drop_each, with_

ID = 'C07'
MODE = 'bases'
BUDGET = {'quick': (5500, 300), 'thorough': (50000, 3000)}
RULE = 'distinct (command, content, reason and place of the failure, previous state of the output, outcome)'
REAL = ['command line tools wcxf, wcxf2eos, wcxf2smeftsim from argument parsing to interpreter exit', 'file system of the working directory']
STUB = ['input faults: read errors, crash and interrupt at input steps (libc seam)', 'contents of wcxf/bases', 'EOS installation']
ASSUMPTIONS = ['faults are injected at steps that open or read input only; what happens when writing the result itself fails is not claimed here']
PROBES = ['probe:existing_kept', 'probe:none_created', 'probe:crash', 'probe:sigint', 'probe:read_error', 'probe:invalid', 'probe:in_place_ok',
          'probe:in_place_failed', 'probe:eos', 'probe:smeftsim', 'probe:while_computing']


def setup():
    cli.bases()


def gen(rng, i, tier):
    c = cli.gen_cmd(rng, rng.choice(['convert', 'convert', 'translate', 'translate', 'match', 'match', 'eos', 'eos', 'smeftsim']),
                    slow=0.02 if tier == 'quick' else 0.1, invalid=0.5)
    if not c['out'] and c['why'] != 'nohome':
        # an output file is what this is about
        if c['kind'] in ('convert', 'translate', 'match', 'eos'):
            c['out'] = 'out.json'
            c['argv'] += ['--output', 'out.json']
    inplace = False
    if c['in'] != '-' and c['out'] and '--output' in c['argv'] and rng.random() < 0.3:
        inplace = True
        c['argv'][c['argv'].index('--output') + 1] = c['in']
        c['out'] = c['in']
    spec = {'c': c, 'inplace': inplace, 'old': None if inplace else rng.choice([None, 'previous: 1\n', '{"a": 1}', 'x' * 20000]),
            'plan': {'acts': [], 'knobs': {}}}
    if c['kind'] == 'smeftsim' and rng.random() < 0.3 and c['valid']:
        # not in the Warsaw mass basis, not confirmed
        c['data']['basis'] = 'Warsaw'
        c['fill'] = None
        names = cli.wcs_of('SMEFT', 'Warsaw')
        c['data']['values'] = {k: x for k, x in c['data']['values'].items() if k in names}
        c['stdin'] = rng.choice(['', '\n', 'n\n', 'ignore\n', 'x', 'q\ni\n'])
        c['unconfirmed'] = True
    if c['kind'] == 'smeftsim' and c['valid'] and not c.get('unconfirmed') and rng.random() < 0.2:
        # not every coefficient the card needs
        c['fill'] = None
        c['incomplete'] = True
    if rng.random() < 0.2:
        spec['plan']['knobs']['read_chunk'] = rng.choice([100, 1000])
    if c['valid'] and rng.random() < 0.35:
        # interrupted, out of memory or killed while it computes the result
        o, d = cli.invoke(dict(c, genuine=False), dict(spec['plan'], pyrec=1), spec['old'])
        pl = [p for p in o.places if computing(p[0])]
        if pl:
            g = rng.choice(sorted({p[0][0] for p in pl}))
            p = rng.choice([p for p in pl if p[0][0] == g])
            spec['plan']['py'] = [rng.choice(p[1]), rng.choice(['KeyboardInterrupt', 'MemoryError', 'crash'])]
            return spec
    if c['valid'] and not (inplace and rng.random() < 0.4) or rng.random() < 0.3:
        o, d = cli.invoke(c, spec['plan'], spec['old'])
        ops = [l for l in o.log if l[1] in ('openr', 'read', 'opendir') and '/bases' not in l[2]]
        # only steps before anything is written
        first = min([l[0] for l in o.log if l[1] in ('openw', 'openc', 'write', 'rename', 'unlink', 'truncate', 'mkdir') and l[2] != '<stdout>'] or [1 << 30])
        ops = [l for l in ops if l[0] < first] or [l for l in ops if l[1] == 'read']
        if ops:
            l = rng.choice(ops)
            a = rng.choice(['error', 'error', 'crash', 'sigint', 'crash_after'])
            if a == 'error':
                e = {'openr': [errno.EACCES, errno.ENOENT, errno.EMFILE], 'read': [errno.EIO, errno.ENOMEM], 'opendir': [errno.EACCES, errno.EMFILE]}[l[1]]
                spec['plan']['acts'].append([l[0], simlib.ERR, rng.choice(e)])
            elif a == 'sigint':
                spec['plan']['acts'].append([l[0], simlib.SIGINT, rng.randrange(2)])
            else:
                spec['plan']['acts'].append([l[0], simlib.CRASH_BEFORE if a == 'crash' or l[1] == 'opendir' else simlib.CRASH_AFTER, 0])
    return spec


# functions that are part of finding the result, not of writing it
COMPUTE = {'classes.py': ('_load_yaml_json', 'WCxf.load', 'WC.__init__', 'WC.validate', 'WC.dict', 'WC._to_number', 'WC._to_complex_dict', 'WC.dict2values',
                          'WC.translate', 'WC.match', 'Translator.translate', 'Matcher.match', 'Basis.all_wcs', 'NamedInstanceClass.get_instance'),
           'converters/eos.py': ('get_sm_wcs', 'get_eos_np', 'wcxf2eos'), 'converters/smeftsim.py': ('smeftsim_card_fill', 'initialize_smeftsim_card')}


def computing(place):
    f, q, _ = place
    if f.startswith(('translators/', 'matchers/', 'util/')):
        return True
    return f in COMPUTE and q.startswith(COMPUTE[f])


def run(spec):
    c = spec['c']
    v = []
    before = simlib.snapshot(cli.prepare(c, spec['old']))
    o, d = cli.invoke(c, spec['plan'], spec['old'])
    st = {'os_steps': o.nops}
    if c['kind'] in ('eos', 'smeftsim'):
        st['probe:' + c['kind']] = 1
    after = simlib.snapshot(d)
    if o.hang:
        return {'viol': [viol('hang', 'no progress')], 'stats': st, 'sig': 'hang'}
    fired = [l for l in o.log if l[4]]
    for l in fired:
        kind = int(l[4][1:].split(':')[0])
        n = {simlib.ERR: 'read_error', simlib.SIGINT: 'sigint'}.get(kind, 'crash')
        st['fault:' + n] = st.get('fault:' + n, 0) + 1
        st['probe:' + n] = 1
    if o.pyfired:
        n = spec['plan']['py'][1]
        st['fault:compute_' + n] = 1
        st['probe:while_computing'] = 1
    if not c['valid']:
        st['fault:invalid_request'] = 1
        st['probe:invalid'] = 1
    # steps that wrote before a fault at an input step fired are what we look for:
    # the outcome is judged from the files only
    changed = sorted(f for f in set(before) | set(after) if before.get(f, 0) != after.get(f, 0))
    if o.status != 0:
        if changed:
            what = []
            for f in changed:
                b, a = before.get(f, 'absent'), after.get(f, 'absent')
                what.append('%s: %s -> %s' % (f, b if b == 'absent' else '%d bytes' % len(b or b''), a if a == 'absent' else '%d bytes' % len(a or b'')))
            v.append(viol('output-touched', '%s ends with %s without a result (%s%s%s) but changed %s' %
                          (c['argv'], 'a crash' if o.crashed else o.status, c['why'] or '', fired, o.pyfired or '', '; '.join(what))))
        else:
            st['probe:existing_kept' if spec['old'] is not None or spec['inplace'] else 'probe:none_created'] = 1
            if spec['inplace']:
                st['probe:in_place_failed'] = 1
    else:
        if c.get('unconfirmed'):
            if changed:
                v.append(viol('output-touched', '%s was not confirmed but changed %s' % (c['argv'], changed)))
        elif not c['valid']:
            if not changed:
                pass            # exit status of a refused request: C06
            else:
                v.append(viol('invalid-written', '%s cannot be carried out (%s) but changed %s' % (c['argv'], c['why'], changed)))
        elif spec['inplace']:
            # reading the file to be overwritten: same result as writing elsewhere
            c2 = dict(c)
            c2['argv'] = list(c['argv'])
            c2['argv'][c2['argv'].index('--output') + 1] = 'elsewhere.out'
            c2['out'] = 'elsewhere.out'
            got = after.get(os.path.normpath(c['out']))
            o2, d2 = cli.invoke(c2)
            ref = cli.delivered(c2, o2, d2)
            if o2.status == 0 and got != ref:
                v.append(viol('in-place-differs', '%s onto its own input gives another result than into a new file' % (c['argv'],)))
            else:
                st['probe:in_place_ok'] = 1
    if c.get('incomplete') and o.status:
        st['fault:incomplete'] = 1
    if not fired and not o.pyfired and c['valid'] and not c.get('unconfirmed') and not c.get('incomplete') and o.status != 0:
        v.append(viol('valid-rejected', '%s fails without any fault: %s' % (c['argv'], o.stderr[-300:])))
    if any(l[4].startswith('!%d' % simlib.SIGINT) or l[4].startswith('!1:4 ') for l in fired) and o.status == 0 and changed == [] and not c.get('unconfirmed') and c['valid'] and c['out']:
        v.append(viol('interrupt-swallowed', '%s was interrupted, wrote nothing and exits with 0' % (c['argv'],)))
    return {'viol': v, 'stats': st, 'nontrivial': bool(fired or o.pyfired or not c['valid'] or spec['inplace'] or c.get('unconfirmed')),
            'sig': simlib.h([c['argv'], o.pyfired, o.status, o.crashed, spec['old'] and len(spec['old']), simlib.log_sig(o.log), simlib.h(cli.text_of(c))]),
            'sample': {'argv': c['argv'], 'status': o.status, 'why': c['why'], 'fired': fired, 'in_place': spec['inplace']},
            'trace': {'log': o.log[:200], 'status': o.status, 'stderr': o.stderr[-500:]}}


def shrink(spec):
    if 'py' in spec['plan']:
        s = with_(spec)
        del s['plan']['py']
        yield s
    for a in drop_each(spec['plan']['acts']):
        s = with_(spec)
        s['plan']['acts'] = a
        yield s
    for k in sorted(spec['plan']['knobs']):
        s = with_(spec)
        del s['plan']['knobs'][k]
        yield s
    if spec['old'] is not None and len(spec['old']) > 20:
        yield with_(spec, old='old\n')
    for c in cli.shrink_cmd(spec['c']):
        yield with_(spec, c=c)
