"""C13: the EOS conversion uses the complete set of EOS parameters or fails."""
import copy
import errno
import json
import os
import random
import simlib
from checks import cli
from checks.common import viol, drop_each, with_

ID = 'C13'
MODE = 'bases'
BUDGET = {'quick': (5500, 300), 'thorough': (40000, 3000)}
RULE = 'distinct (parameter files, coefficients, listing orders, faults that fired and where, outcome)'
REAL = ['wcxf2eos from argument parsing to interpreter exit', 'get_sm_wcs and wcxf2eos', 'yaml parser, directory listing, file system']
STUB = ['EOS installation (generated parameter files)', 'kernel read, open and directory-listing behaviour and listing order (libc seam)', 'contents of wcxf/bases']
ASSUMPTIONS = ['where two relevant parameter files define the same name, any one of their values is right as long as it does not depend on the listing order']
PROBES = ['probe:cli', 'probe:api', 'probe:shared_names', 'probe:orders_compared', 'probe:read_error', 'probe:open_error', 'probe:listdir_error', 'probe:short_reads',
          'probe:broken_file', 'probe:decoys', 'probe:changed_between', 'probe:caller_modifies', 'probe:irrelevant', 'probe:other_coefficients', 'probe:not_universal', 'probe:denied', 'probe:listing_cut', 'probe:dangling']


def setup():
    cli.bases()


def gen_files(rng):
    import yaml
    fs = {}
    for f, d in cli.eos_params(rng, dup=0.5).items():
        if rng.random() < 0.3:
            # entries in any order, other ways to write the same
            ks = sorted(d)
            rng.shuffle(ks)
            if d['@metadata@'].get('wcxf-relevant') and rng.random() < 0.3:
                d['@metadata@']['wcxf-relevant'] = rng.choice([1, 'yes', ['wcxf']])
            fs[f] = rng.choice(['', '---\n', '# EOS parameters\n\n', '%YAML 1.1\n---\n']) + yaml.safe_dump({k: d[k] for k in ks}, sort_keys=False, default_flow_style=rng.choice([True, False, None])) + rng.choice(['', '', '...\n'])
        else:
            fs[f] = cli.render(d, 'yaml', 0)
    if rng.random() < 0.4:
        for n in rng.sample(['README', 'x.yml', '.hidden.yaml', 'old.yaml~', 'sub/deep.yaml', 'notes.txt', 'a.YAML'], rng.randint(1, 3)):
            fs[n] = cli.render({'@metadata@': {'wcxf-relevant': True}, 'decoy::' + n: {'central': 9.0}, 'b->s::c1': {'central': 77.0}}, 'yaml', 0)
    if rng.random() < 0.06:
        # larger than any buffer: the interesting part is not at the beginning
        f = rng.choice(sorted(x for x in fs if x[0] != '.' and x.endswith('.yaml') and '/' not in x))
        fs[f] = cli.render(yaml.safe_load(fs[f]), 'yaml', 0)
        n = rng.choice([9000, 40000, 70000])
        if rng.random() < 0.5:
            fs[f] = '# ' + 'comment ' * (n // 8) + '\n' + fs[f]
        else:
            fs[f] += ''.join('"many::%06d": {central: %d.5, min: 0.0, max: 1.0}\n' % (j, j) for j in range(n // 120))
    return fs


def gen_wc(rng):
    d = cli.rand_wc(rng, 'WET', 'EOS', n=rng.choice([1, 3, 6, 20]))
    d['values'] = {k: v for k, v in d['values'].items() if 'enue' not in k and 'munumu' not in k} or {'b->s::c7': 0.25}
    if rng.random() < 0.2:
        x = cli.rand_value(rng, False)
        for l in ('enue', 'munumu'):
            if 'b->u%s::cVL' % l in cli.wcs_of('WET', 'EOS'):
                d['values']['b->u%s::cVL' % l] = x
    elif rng.random() < 0.12 and 'b->uenue::cVL' in cli.wcs_of('WET', 'EOS'):
        # not lepton flavour universal: there is no right value
        l = rng.choice([['enue'], ['munumu'], ['enue', 'munumu']])
        for y in l:
            d['values']['b->u%s::cVL' % y] = cli.rand_value(rng, False)
        if len(l) == 2 and rng.random() < 0.5:
            # close: equal modulus
            x, y = round(rng.uniform(0.1, 1), 6), round(rng.uniform(0.1, 1), 6)
            a, b = rng.choice([[x, -x], [{'Re': x, 'Im': y}, {'Re': x, 'Im': -y}], [{'Re': x, 'Im': y}, {'Re': -x, 'Im': y}], [x, x * (1 + 1e-9)], [x, {'Re': x, 'Im': 1e-9}]])
            d['values']['b->uenue::cVL'], d['values']['b->umunumu::cVL'] = a, b
    return d


def parsed(files):
    """Relevant content of the parameter files: {name: {possible centrals}}"""
    import yaml
    out = {}
    for f, t in files.items():
        if '/' in f or f.startswith('.') or not f.endswith('.yaml'):
            continue
        d = yaml.safe_load(t)
        if not (d.get('@metadata@') or {}).get('wcxf-relevant'):
            continue
        for k, v in d.items():
            if k != '@metadata@':
                out.setdefault(k, set()).add(v['central'])
    return out


def bounds(files):
    """{name: {'min': possible values, 'max': ...}}: the bounds of the file or its central value"""
    import yaml
    out = {}
    for f, t in files.items():
        if '/' in f or f.startswith('.') or not f.endswith('.yaml'):
            continue
        d = yaml.safe_load(t)
        if not (d.get('@metadata@') or {}).get('wcxf-relevant'):
            continue
        for k, v in d.items():
            if k != '@metadata@':
                for q in ('min', 'max'):
                    out.setdefault(k, {}).setdefault(q, set()).update({v['central'], v.get(q, v['central'])})
    return out


def gen(rng, i, tier):
    files = gen_files(rng)
    mode = rng.choice(['cli', 'cli', 'api'])
    spec = {'mode': mode, 'files': files, 'wc': gen_wc(rng), 'broken': None, 'dirseeds': [rng.randrange(1, 1 << 20) for _ in range(2)],
            'plan': {'acts': [], 'knobs': {}}, 'out': rng.choice([None, 'out.yaml', 'home']), 'genuine': rng.random() < 0.05, 'hist': [], 'missing': False, 'dangling': None}
    if mode == 'api':
        # a history of reads with the installation changing in between
        h = [['read', rng.randrange(1, 1 << 20)]]
        for _ in range(rng.randint(0, 4)):
            x = rng.random()
            if x < 0.3:
                h.append(['files', gen_files(rng)])
            elif x < 0.45:
                h.append(['wc', gen_wc(rng)])
            elif x < 0.65:
                h.append(['modify', rng.randrange(1 << 20)])
            h.append(['read', rng.randrange(1, 1 << 20)])
        spec['hist'] = h
    x = rng.random()
    good = sorted(f for f in files if f.endswith('.yaml') and '/' not in f and not f.startswith('.'))
    if x < 0.12 and mode == 'cli':
        spec['broken'] = [rng.choice(good), rng.choice(['junk', 'cut', 'empty'])]
    elif x < 0.17 and mode == 'cli':
        spec['missing'] = True
    elif x < 0.24 and mode == 'cli':
        # lack of permission, a stale handle, ...
        y = rng.choice([''] + good + good)
        spec['plan']['knobs']['deny'] = [os.path.join('parameters', y).rstrip('/') if y else 'share/eos/parameters', rng.choice([1, 1, 2]), rng.choice([errno.EACCES, errno.EACCES, errno.EIO, errno.ESTALE])]
        return spec
    elif x < 0.28 and mode == 'cli':
        spec['plan']['knobs']['readdir_fail'] = rng.randint(1, len(files) + 3)
        return spec
    elif x < 0.31 and mode == 'cli':
        spec['dangling'] = rng.choice(['0.yaml', 'm.yaml', 'zz.yaml'])
        return spec
    if rng.random() < 0.25:
        spec['plan']['knobs']['read_chunk'] = rng.choice([5, 100, 1000])
    if rng.random() < 0.5:
        o, _ = execute(spec)
        ops = [l for l in o.log if l[1] in ('openr', 'read', 'opendir') and ('parameters' in l[2])]
        if ops:
            for _ in range(rng.choice([1, 1, 2])):
                kinds = sorted({l[1] for l in ops})
                k = rng.choice(kinds)
                l = rng.choice([y for y in ops if y[1] == k])
                if l[1] == 'read' and rng.random() < 0.35:
                    a = rng.choice([[simlib.ERR, errno.EINTR], [simlib.SHORT, rng.choice([1, 9, 60])]])
                else:
                    a = [simlib.ERR, rng.choice({'read': [errno.EIO, errno.ENOMEM], 'openr': [errno.EACCES, errno.EMFILE, errno.ENOENT, errno.ENFILE],
                                                 'opendir': [errno.EACCES, errno.EMFILE, errno.ENOENT, errno.EIO]}[l[1]])]
                spec['plan']['acts'].append([l[0]] + a)
    return spec


def put(d, files, broken=None):
    p = os.path.join(d, 'prefix/share/eos/parameters')
    for base, _, fs in os.walk(p):
        for f in fs:
            os.unlink(os.path.join(base, f))
    os.makedirs(p, exist_ok=True)
    for f, t in files.items():
        if broken and broken[0] == f:
            t = {'junk': '{a: [}\n' + t, 'cut': '{"k": ' + json.dumps(t)[:40], 'empty': ''}[broken[1]]
        simlib.write_file(os.path.join(p, f), t.encode())
    return p


def execute(spec, dirseed=None, plan=True):
    d = simlib.fresh_dir('work')
    pl = copy.deepcopy(spec['plan']) if plan else {'acts': [], 'knobs': {}}
    pl['knobs']['dirseed'] = dirseed or spec['dirseeds'][0]
    os.makedirs(os.path.join(d, 'home', 'parameters'))
    if not spec['missing']:
        p = put(d, spec['files'], spec['broken'])
        if spec.get('dangling'):
            os.symlink('no-such-file', os.path.join(p, spec['dangling']))
    if spec['mode'] == 'cli':
        simlib.write_file(os.path.join(d, 'in.json'), json.dumps(spec['wc']))
        argv = ['wcxf2eos', 'in.json', '--eosprefix', 'prefix']
        f = None
        if spec['out'] == 'home':
            argv += ['--eoshome', 'home']
            f = 'home/parameters/wcxf.yaml'
        elif spec['out']:
            argv += ['--output', spec['out']]
            f = spec['out']
        o = simlib.run_cli(argv, d, plan=pl, genuine=spec['genuine'])
        out = simlib.read_file(os.path.join(d, f)) if f else o.stdout
        return o, out

    def body():
        import wcxf
        from wcxf.converters.eos import get_sm_wcs, wcxf2eos
        wc = wcxf.WC(**copy.deepcopy(spec['wc']))
        p = os.path.join(d, 'prefix/share/eos/parameters')
        out = []
        last = None
        k = pl['knobs']
        for op in spec['hist']:
            if op[0] == 'read':
                simlib.lib.sim_knobs(k.get('read_chunk', 0), 0, -1, -1, 5, op[1], 12345)
                before = simlib.lib.sim_fired()
                n0 = len(simlib.get_log())
                try:
                    sm = get_sm_wcs(p)
                    snap = {x: y['central'] for x, y in sm.items()}
                    r = wcxf2eos(wc, sm)
                    if {x: y['central'] for x, y in sm.items()} != snap:
                        out.append(['sm-modified'])
                    last = (sm, r)
                    out.append(['ok', {x: dict(y) for x, y in r.items()}])
                except Exception as e:
                    out.append(['fail', type(e).__name__])
                out[-1].append([l[4] for l in simlib.get_log()[n0:] if l[4]])
            elif op[0] == 'wc':
                wc = wcxf.WC(**copy.deepcopy(op[1]))
            elif op[0] == 'files':
                simlib.lib.sim_disarm()
                put(d, op[1])
                simlib.lib.sim_arm()
            elif last:
                # the caller changes what it was given
                r = random.Random(op[1])
                for m in last:
                    for x in sorted(m):
                        if r.random() < 0.5:
                            m[x]['central'] = 1e6
                    for x in sorted(m)[:1]:
                        del m[x]
                last[0]['bogus::x'] = {'central': 5.0}
                last = None
        simlib.lib.sim_disarm()
        return out
    o = simlib.run_child(body, plan=pl)
    return o, o.result


def model_np(k, vals):
    """What the coefficients add to parameter k; None: there is no right value."""
    z = {x: complex(y.get('Re', 0), y.get('Im', 0)) if isinstance(y, dict) else complex(y) for x, y in vals.items()}
    if k in z:
        return z[k].real
    for part in ('Re', 'Im'):
        if part + '{' in k:
            n = k.replace(part + '{', '').replace('}', '')
            if n in z:
                return z[n].real if part == 'Re' else z[n].imag
            a, b = n.replace('lnu', 'enue'), n.replace('lnu', 'munumu')
            if 'lnu' in n and (a in z or b in z):
                if z.get(a, 0) != z.get(b, 0):
                    return None
                return complex(z.get(a, 0)).real if part == 'Re' else complex(z.get(a, 0)).imag
    return 0.0


def undecided(files, vals):
    """The coefficients cannot be converted: not lepton flavour universal."""
    return any(model_np(k, vals) is None for k in parsed(files))


def judge(got, files, vals, v, what):
    """Centrals of a successful conversion against the files."""
    want = parsed(files)
    lim = bounds(files)
    full, got = got, {k: x.get('central') for k, x in got.items()}
    if set(got) != set(want):
        v.append(viol('incomplete', '%s: parameters missing %s, unexpected %s' % (what, sorted(set(want) - set(got))[:4], sorted(set(got) - set(want))[:4])))
        return
    for k in sorted(want):
        np = model_np(k, vals)
        if np is None:
            v.append(viol('not-universal', '%s: %s is %r although the coefficients of e and mu differ' % (what, k, got[k])))
            return
        if np is not None and not any(cli.close(got[k], c + np, 1e-9) or abs(got[k] - c - np) < 1e-9 for c in want[k]):
            v.append(viol('wrong-value', '%s: %s is %r, not one of %s + %r' % (what, k, got[k], sorted(want[k]), np)))
            return
        for q in ('min', 'max'):
            x = full[k].get(q)
            if np is not None and (x is None or not any(abs(x - c - np) < 1e-9 for c in lim[k][q])):
                v.append(viol('wrong-bounds', '%s: %s of %s is %r' % (what, q, k, x)))
                return


def central(out):
    d = cli.parse(out)
    return {k: dict(x) for k, x in d.items()}


def run(spec):
    v = []
    o, out = execute(spec)
    st = {'os_steps': o.nops, 'probe:' + spec['mode']: 1}
    if o.hang or o.crashed:
        return {'viol': [viol('hang', 'no progress')], 'stats': st, 'sig': 'hang'}
    fired = [l for l in o.log if l[4]]
    soft = lambda m: m.startswith('!%d:' % simlib.SHORT) or m == '!%d:%d' % (simlib.ERR, errno.EINTR)
    for l in fired:
        n = 'short_read' if l[4].startswith('!2:') else 'eintr' if soft(l[4]) else {'read': 'read_error', 'openr': 'open_error', 'opendir': 'listdir_error'}.get(l[1], 'other_error')
        st['fault:' + n] = st.get('fault:' + n, 0) + 1
        st['probe:' + ('short_reads' if n == 'short_read' else n)] = 1
    if spec['plan']['knobs'].get('read_chunk'):
        st['fault:chunked_input'] = 1
        st['probe:short_reads'] = 1
    hard = [l for l in fired if not soft(l[4])]
    if any(len(x) > 1 for x in parsed(spec['files']).values()):
        st['probe:shared_names'] = 1
    if any('decoy' in t for t in spec['files'].values()):
        st['probe:decoys'] = 1
    if any('wcxf-relevant: true' not in t for t in spec['files'].values()):
        st['probe:irrelevant'] = 1
    st['fault:listing_order'] = 1
    if undecided(spec['files'], spec['wc']['values']):
        st['probe:not_universal'] = 1
    if spec['mode'] == 'cli':
        kn = spec['plan']['knobs']
        cut = kn.get('readdir_fail') and o.fired
        if kn.get('deny') and o.fired:
            st['fault:denied'] = st['probe:denied'] = 1
        if cut:
            st['fault:listing_cut'] = st['probe:listing_cut'] = 1
        if spec.get('dangling'):
            st['fault:dangling_link'] = st['probe:dangling'] = 1
        bad = spec['broken'] or spec['missing'] or spec.get('dangling') or (kn.get('deny') and o.fired and kn['deny'])
        if spec['broken'] or spec['missing']:
            st['fault:broken_file' if spec['broken'] else 'fault:missing_directory'] = 1
            st['probe:broken_file'] = 1
        if o.status == 0:
            if bad:
                v.append(viol('incomplete-accepted', 'exit 0 although the parameter files cannot be read: %s' % (bad if bad is not True else 'no directory',)))
            elif not hard or True:
                try:
                    got = central(out)
                except Exception as e:
                    got = None
                    v.append(viol('unreadable-output', 'exit 0 but the output is unreadable: %r' % (out or b'')[:80]))
                if got is not None:
                    judge(got, spec['files'], spec['wc']['values'], v, 'output (faults %s)' % (fired,))
                    if not v:
                        o2, out2 = execute(spec, dirseed=spec['dirseeds'][1], plan=False)
                        st['probe:orders_compared'] = 1
                        if o2.status != 0:
                            v.append(viol('order-status', 'succeeds or fails with the listing order: %s' % o2.stderr[-200:]))
                        elif not cli.close(central(out2), got, 1e-12):
                            v.append(viol('order-dependent', 'another order of the directory gives other values: %s' %
                                          [(k, x, central(out2).get(k)) for k, x in got.items() if x != central(out2).get(k)][:3]))
        elif not hard and not bad and not cut and not undecided(spec['files'], spec['wc']['values']):
            v.append(viol('valid-rejected', 'exit %d: %s' % (o.status, o.stderr[-300:])))
        sig = [o.status, simlib.h(out or b'')]
        sample = {'status': o.status, 'files': sorted(spec['files']), 'fired': fired}
    else:
        if out is None:
            if simlib.harness_fault(o):
                raise simlib.HarnessError('%s %s' % (o.exc, o.stderr))
            return {'viol': [viol('died', '%s %s' % (o.exc, o.stderr))], 'stats': st, 'sig': 'died'}
        files = spec['files']
        vals = spec['wc']['values']
        j = 0
        prev = None
        for op in spec['hist']:
            if op[0] == 'files':
                files = op[1]
                prev = None
                st['probe:changed_between'] = 1
            elif op[0] == 'wc':
                vals = op[1]['values']
                prev = None
                st['probe:other_coefficients'] = 1
            elif op[0] == 'modify':
                st['probe:caller_modifies'] = 1
            else:
                r = out[j]
                j += 1
                if r[0] == 'sm-modified':
                    v.append(viol('argument-modified', 'the conversion changed the parameters it was given'))
                    break
                if r[0] == 'fail':
                    if not [m for m in r[2] if not soft(m)] and not undecided(files, vals):
                        v.append(viol('valid-rejected', 'read %d fails: %s' % (j, r[1])))
                    continue
                judge(r[1], files, vals, v, 'read %d of the history (faults %s)' % (j, fired))
                if prev is not None and not v:
                    st['probe:orders_compared'] = 1
                    if not cli.close(prev, r[1], 1e-12):
                        v.append(viol('order-dependent', 'reading the same files again gives other values'))
                prev = r[1]
                if v:
                    break
        sig = out
        sample = {'history': [x[0] for x in spec['hist']], 'outcomes': [x[0] for x in out], 'fired': fired}
    return {'viol': v[:3], 'stats': st, 'nontrivial': True, 'sample': sample,
            'sig': simlib.h([spec['mode'], sig, spec['files'], spec['dirseeds'], simlib.log_sig(o.log)]), 'trace': {'log': o.log[:150], 'outcome': sig if spec['mode'] == 'cli' else None}}


def shrink(spec):
    for a in drop_each(spec['plan']['acts']):
        s = with_(spec)
        s['plan']['acts'] = a
        yield s
    for k in sorted(spec['plan']['knobs']):
        s = with_(spec)
        del s['plan']['knobs'][k]
        yield s
    for k in range(len(spec['hist'])):
        s = with_(spec)
        del s['hist'][k]
        yield s
    for f in sorted(spec['files']):
        if not (spec['broken'] and spec['broken'][0] == f):
            s = with_(spec)
            del s['files'][f]
            yield s
    for k in sorted(spec['wc']['values']):
        if len(spec['wc']['values']) > 1:
            s = with_(spec)
            del s['wc']['values'][k]
            yield s
