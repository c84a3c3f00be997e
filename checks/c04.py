"""C04: importing the package registers every shipped definition, or fails."""
import errno
import json
import os
import sys
import simlib
from checks import registry as R
from checks.common import viol, drop_each, with_

ID = 'C04'
MODE = 'deps'
BUDGET = {'quick': (6000, 300), 'thorough': (30000, 3000)}
RULE = 'distinct (set of definition files, listing order, read chunking, faults fired, outcome)'
REAL = ['import of the wcxf package and everything it executes at import time', 'json parser', 'file and directory reading through libc']
STUB = ['contents of wcxf/bases (generated definitions; the submodule is empty in this checkout)', 'directory order and I/O errors (libc seam)']
ASSUMPTIONS = ['parents of child bases are in the main directory, as in wcxf-bases']
PROBES = ['probe:import_failed', 'probe:import_ok', 'probe:reordered', 'probe:short_reads', 'probe:read_error', 'probe:open_error',
          'probe:listing_error', 'probe:retry_ok', 'probe:corrupt', 'probe:denied', 'probe:listing_cut', 'probe:dangling', 'probe:links', 'probe:similar_names']


def setup():
    pass


def gen(rng, i, tier):
    files = {}
    uid = 0
    efts = rng.sample(['WET', 'SMEFT', 'WET-4', 'X y'], rng.randint(1, 4))
    for e in efts:
        uid += 1
        d = {'eft': e, 'sectors': {s: {'dB': 1} for s in rng.sample(R.SECTORS, rng.randint(1, 4))},
             'metadata': {'description': rng.choice(['plain', 'ümlaut – dash ' * 30])}}
        files['%s.eft.json' % e.lower().replace(' ', '_')] = d
    parents = []
    for e in efts:
        for b in rng.sample(['JMS', 'flavio', 'Bern', 'Warsaw up', 'EOS'], rng.randint(0, 3)):
            uid += 1
            big = rng.random() < 0.12
            d = {'eft': e, 'basis': b, 'sectors': {}, 'metadata': {'uid': uid}}
            for s in rng.sample(R.SECTORS, rng.randint(0, 3)):
                d['sectors'][s] = {'c%d_%s_%d' % (uid, s, j): rng.choice([None, {'tex': 'µ'}, {'real': True}])
                                   for j in range(rng.randint(700, 2500) if big else rng.randint(0, 6))}
            files['%s.%s.basis.json' % (e.lower().replace(' ', '_'), b.replace(' ', '_'))] = d
            parents.append((e, b))
    for k in range(rng.randint(0, 3)):
        if not parents:
            break
        e, b = rng.choice(parents)
        uid += 1
        d = {'eft': e, 'basis': '%s ext%d' % (b, k), 'parent': b, 'sectors': {rng.choice(R.SECTORS): {'x%d' % uid: None}}}
        files['child/%s%s.%s_ext%d.basis.json' % (rng.choice(['', '', 'a_', '0']), e.lower().replace(' ', '_'), b.replace(' ', '_'), k)] = d
    if rng.random() < 0.1:
        # names of files that differ only in case, or one name twice with another ending
        f = rng.choice(sorted(files))
        c = json.loads(json.dumps(files[f]))
        c['basis' if 'basis' in c else 'eft'] += ' twin'
        g = rng.choice([f.swapcase().replace('.EFT.JSON', '.eft.json').replace('.BASIS.JSON', '.basis.json').replace('CHILD/', 'child/'),
                        os.path.join(os.path.dirname(f), 'twin-' + os.path.basename(f)), f.replace('.eft.json', '.2.eft.json').replace('.basis.json', '.v2.basis.json')])
        if g not in files:
            files[g] = c
    spec = {'links': [], 'dangling': None, 'files': files, 'style': rng.randrange(6), 'corrupt': None,
            'plan': {'acts': [], 'knobs': {'dirseed': rng.randrange(1, 1 << 30)}}}
    mode = rng.choice(['order', 'chunks', 'error', 'error', 'error', 'eintr', 'corrupt', 'sigint', 'deny', 'deny', 'cut', 'dangling'])
    if mode in ('chunks', 'eintr') or rng.random() < 0.3:
        spec['plan']['knobs']['read_chunk'] = rng.choice([1, 7, 100, 4096]) if sum(len(json.dumps(d)) for d in files.values()) < 20000 else rng.choice([500, 4096])
    if rng.random() < 0.1:
        spec['links'] = rng.sample(sorted(files), rng.randint(1, min(3, len(files))))
    if mode == 'deny':
        # lack of permission, a stale handle, ... of a file or directory
        x = rng.choice(sorted(files) + ['', 'child'])
        spec['plan']['knobs']['deny'] = [os.path.join('bases', x).rstrip('/'), rng.choice([1, 1, 2]), rng.choice([errno.EACCES, errno.EACCES, errno.EIO, errno.ESTALE])]
        return spec
    if mode == 'cut':
        # the listing breaks off
        spec['plan']['knobs']['readdir_fail'] = rng.randint(1, 3 * len(files) + 12)
        return spec
    if mode == 'dangling':
        spec['dangling'] = rng.choice(['x.eft.json', 'x.y.basis.json', 'child/x.z.basis.json'])
        return spec
    if mode == 'corrupt':
        spec['corrupt'] = [rng.choice(sorted(files)), rng.choice(['truncate', 'empty', 'binary', 'undecodable', 'junk']), round(rng.random(), 3)]
        return spec
    if mode in ('error', 'eintr', 'sigint'):
        o = execute(spec)
        ops = [l for l in o.log if l[1] in ('openr', 'read', 'opendir')]
        if ops:
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.choice(sorted({l[1] for l in ops}))
                l = rng.choice([x for x in ops if x[1] == kind])
                if mode == 'eintr':
                    if l[1] == 'opendir':
                        continue
                    spec['plan']['acts'].append([l[0], simlib.ERR, errno.EINTR])
                elif mode == 'sigint':
                    spec['plan']['acts'].append([l[0], simlib.SIGINT, rng.randrange(2)])
                else:
                    e = {'openr': [errno.ENOENT, errno.EACCES, errno.EMFILE, errno.EIO, errno.ENFILE],
                         'read': [errno.EIO, errno.EIO, errno.ENOMEM, errno.EISDIR],
                         'opendir': [errno.EMFILE, errno.EACCES, errno.EIO, errno.ENOMEM, errno.ENFILE]}[l[1]]
                    spec['plan']['acts'].append([l[0], simlib.ERR, rng.choice(e)])
    return spec


def execute(spec):
    d = simlib.fresh_dir('bases')
    os.makedirs(os.path.join(d, 'child'))
    for f, content in spec['files'].items():
        t = R.render(content, 'json', spec['style']).encode()
        if spec['corrupt'] and spec['corrupt'][0] == f:
            how, frac = spec['corrupt'][1:]
            t = {'truncate': t[:max(1, min(len(t) - 1, int(len(t) * frac)))], 'empty': b'', 'undecodable': t.replace(b'"eft"', b'"remark": "a\xff\xfeb", "eft"', 1), 'junk': t + b'\n}', 'binary': b'\xff\xfe\x00' + t}[how]
        if f in spec.get('links', ()):
            simlib.write_file(os.path.join(d, 'target-' + f.replace('/', '-') + '.data'), t)
            os.symlink(os.path.join(d, 'target-' + f.replace('/', '-') + '.data'), os.path.join(d, f))
            continue
        simlib.write_file(os.path.join(d, f), t)
    if spec.get('dangling'):
        os.symlink('gone.json', os.path.join(d, spec['dangling']))
    simlib.redirect_bases(d)

    def observe():
        import wcxf
        out = {}
        eft_objs = {}
        for f, c in spec['files'].items():
            n = ['EFT', c['eft']] if 'basis' not in c else ['Basis', c['eft'], c['basis']]
            o = R.lookup(n)
            if o is None:
                out[f] = None
            else:
                try:
                    out[f] = simlib.h(R.describe(o, n[0]))
                except Exception as e:
                    out[f] = 'INCOMPLETE %s' % e
                if n[0] == 'EFT':
                    eft_objs[c['eft']] = o
        return out, {e: sorted(o.known_bases) for e, o in eft_objs.items()}

    def body():
        res = {}
        try:
            import wcxf
            res['import'] = 'ok'
        except BaseException as e:
            res['import'] = '%s: %s' % (type(e).__name__, str(e)[:200])
        simlib.lib.sim_disarm()
        simlib.apply_plan({'knobs': {'dirseed': 5}})
        if res['import'] == 'ok':
            import wcxf
            res['file'] = wcxf.__file__
            res['defs'], res['bases'] = observe()
        else:
            res['left'] = 'wcxf' in sys.modules
            if spec.get('dangling'):
                os.unlink(os.path.join(d, spec['dangling']))
            if not spec['corrupt']:
                try:
                    import wcxf
                    res['retry'] = 'ok'
                    res['defs'], res['bases'] = observe()
                except BaseException as e:
                    res['retry'] = '%s: %s' % (type(e).__name__, str(e)[:200])
        return res
    return simlib.run_child(body, plan=spec['plan'])


def expected(spec):
    defs, bases = {}, {}
    for f, c in spec['files'].items():
        if 'parent' in c:
            p = [x for x in spec['files'].values() if x.get('basis') == c['parent'] and x['eft'] == c['eft']][0]
            defs[f] = simlib.h(R.expected(c, 'Basis', p['sectors']))
        else:
            defs[f] = simlib.h(c)
        if 'basis' in c:
            bases.setdefault(c['eft'], []).append(c['basis'])
        else:
            bases.setdefault(c['eft'], [])
    return defs, {e: sorted(b) for e, b in bases.items()}


def run(spec):
    o = execute(spec)
    if o.hang:
        return {'viol': [viol('hang', 'import makes no progress')], 'stats': {}, 'sig': 'hang'}
    r = o.result
    if r is None:
        if simlib.harness_fault(o):
            raise simlib.HarnessError('%s %s' % (o.exc, o.stderr))
        return {'viol': [viol('died', '%s %s %s' % (o.status, o.exc, o.stderr))], 'stats': {}, 'sig': 'died'}
    if r['import'] == 'ok' and os.path.realpath(r['file']) != '/repo/wcxf/__init__.py':
        raise simlib.HarnessError('imported from ' + r['file'])
    v = []
    defs, bases = expected(spec)
    fired = [l for l in o.log if l[4]]
    hard = [l for l in fired if not (l[4].startswith('!%d:%d' % (simlib.ERR, errno.EINTR)) and l[1] in ('openr', 'read'))]
    st = {'os_steps': o.nops}
    kn = spec['plan']['knobs']
    cause = spec['corrupt'] or spec.get('dangling') or ((kn.get('deny') or kn.get('readdir_fail')) and o.fired)

    def compare(what):
        miss = [f for f in defs if r['defs'][f] is None]
        wrong = [f for f in defs if r['defs'][f] is not None and r['defs'][f] != defs[f]]
        if miss:
            v.append(viol(what + '-missing', 'import returned normally but %s not registered (log: %s)' % (miss, [l for l in fired])))
        if wrong:
            v.append(viol(what + '-wrong', 'registered with other content: %s' % wrong))
        if not miss and not wrong and r['bases'] != bases:
            v.append(viol(what + '-listing', 'listing %s, shipped %s' % (r['bases'], bases)))
    if r['import'] == 'ok':
        st['probe:import_ok'] = 1
        if kn.get('deny') and o.fired:
            v.append(viol('denied-ignored', 'import returned normally although %s is not readable' % kn['deny'][0]))
        elif spec.get('dangling'):
            v.append(viol('dangling-ignored', 'import returned normally although %s cannot be opened' % spec['dangling']))
        elif spec['corrupt']:
            v.append(viol('corrupt-ignored', 'import returned normally although %s is damaged (%s)' % tuple(spec['corrupt'][:2])))
        else:
            compare('import')
    else:
        st['probe:import_failed'] = 1
        if not hard and not cause:
            v.append(viol('spurious-failure', 'import failed without cause: ' + r['import']))
        if r.get('retry') == 'ok':
            st['probe:retry_ok'] = 1
            compare('retry')
        elif 'retry' in r:
            v.append(viol('retry-failed', 'after the fault is gone, importing again fails: ' + r['retry']))
    for l in fired:
        k = {'openr': 'open_error', 'read': 'read_error', 'opendir': 'listing_error'}.get(l[1], 'other_error')
        st['probe:' + k] = st.get('probe:' + k, 0) + 1
        st['fault:' + ('signal' if l[4].startswith('!6') or (l[4].startswith('!%d' % simlib.SIGINT)) else k)] = st.get('fault:' + k, 0) + 1
    if kn.get('deny') and o.fired:
        st['fault:denied'] = st['probe:denied'] = 1
    if kn.get('readdir_fail') and o.fired:
        st['fault:listing_cut'] = st['probe:listing_cut'] = 1
    if spec.get('dangling'):
        st['fault:dangling_link'] = st['probe:dangling'] = 1
    if spec.get('links'):
        st['probe:links'] = 1
    if any('twin' in c['eft'] or 'twin' in c.get('basis', '') for c in spec['files'].values()):
        st['probe:similar_names'] = 1
    if spec['corrupt']:
        st['fault:damaged_file'] = 1
        st['probe:corrupt'] = 1
    if 'read_chunk' in spec['plan']['knobs']:
        st['fault:short_reads'] = 1
        st['probe:short_reads'] = 1
    st['fault:listing_order'] = 1
    st['probe:reordered'] = 1
    return {'viol': v, 'stats': st, 'nontrivial': True,
            'sig': simlib.h([sorted(spec['files']), spec['plan'], spec['corrupt'], r['import'].split(':')[0], simlib.log_sig(o.log)]),
            'sample': {'import': r['import'], 'files': sorted(spec['files']), 'fired': fired, 'knobs': spec['plan']['knobs']},
            'trace': {'import': r['import'], 'log': o.log[:200]}}


def shrink(spec):
    for a in drop_each(spec['plan']['acts']):
        s = with_(spec)
        s['plan']['acts'] = a
        yield s
    for f in sorted(spec['files']):
        c = spec['files'][f]
        if any(x.get('parent') == c.get('basis') and x['eft'] == c['eft'] for x in spec['files'].values() if 'basis' in c):
            continue
        if spec['corrupt'] and spec['corrupt'][0] == f or spec['plan']['knobs'].get('deny', [''])[0].endswith('/' + f):
            continue
        s = with_(spec)
        del s['files'][f]
        yield s
    if 'read_chunk' in spec['plan']['knobs']:
        s = with_(spec)
        del s['plan']['knobs']['read_chunk']
        yield s
    if spec['plan']['knobs'].get('dirseed') != 1:
        s = with_(spec)
        s['plan']['knobs']['dirseed'] = 1
        yield s
