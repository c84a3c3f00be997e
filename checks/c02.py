"""C02: loading a definition is all or nothing."""
import copy
import json
import os
import simlib
import tsched
from checks import registry as R
from checks.common import viol, drop_each, with_, pick_switches

ID = 'C02'
MODE = 'nobases'
LIBRARY = True
BUDGET = {'quick': (14000, 300), 'thorough': (60000, 3000)}
RULE = 'distinct (definition, fault and place where it fired, outcome) over runs in which a fault or preemption fired'
REAL = ['wcxf.EFT/Basis constructors and load, Translator/Matcher registration', 'json, yaml parsers', 'file reading through libc']
STUB = ['file system errors (libc seam)', 'stream objects that fail', 'asynchronous exceptions and thread switches (scheduler)']
ASSUMPTIONS = ['an asynchronous exception arrives between bytecodes or lines of the package, not inside C functions',
               'registered names are observed by lookup of the names used in the run and by the public listings']
PROBES = ['probe:load_failed', 'probe:interrupt_fired', 'probe:observer_preempted_load', 'probe:missing_parent', 'probe:read_error', 'probe:retry_ok']

BAD = ['noparent', 'nosectors', 'noeft', 'sectors_null', 'list', 'scalar', 'empty', 'truncate', 'garbage', 'badkey',
       'prop', 'prop2', 'sectors_list', 'parent_null', 'parent_other_eft', 'nobasis', 'parent_deleted', 'parent_unhashable',
       'child_sectors_bad', 'twodocs']


def setup():
    pass


def spoil(rec, how, rng):
    d = rec['def']
    if how == 'noparent':
        d['parent'] = 'nowhere'
    elif how == 'nosectors':
        d.pop('sectors')
    elif how == 'noeft':
        d.pop('eft')
    elif how == 'nobasis':
        d.pop('basis', None)
    elif how == 'sectors_null':
        d['sectors'] = None
        if rng.random() < 0.5:
            d['parent'] = 'P'
    elif how == 'sectors_list':
        d['sectors'] = ['a', 'b']
        if rng.random() < 0.5:
            d['parent'] = 'P'
    elif how == 'parent_null':
        d['parent'] = None
    elif how == 'parent_other_eft':
        d['eft'], d['parent'] = 'E2', 'P'
    elif how == 'parent_unhashable':
        d['parent'] = ['P']
    elif how == 'child_sectors_bad':
        d['parent'] = 'P'
        d['sectors'] = rng.choice([3, 'xy', [['a']], [1, 2]])
    elif how == 'prop':
        d[rng.choice(['known_translators', 'known_bases' if rec['kind'] == 'EFT' else 'all_wcs'])] = 1
    elif how == 'prop2':
        d['parent'] = 'P'
        d['known_translators'] = {}
    elif how == 'badkey':
        d['not an identifier'] = {'x': 1}


def mutate_text(text, how, frac):
    if how == 'truncate':
        return text[:max(1, int(len(text) * frac))]
    if how == 'garbage':
        k = int(len(text) * frac)
        return text[:k] + '\x01}}{{\t: -' + text[k:]
    if how == 'twodocs':
        return text + '\n---\n' + ['', '{}', text][int(frac * 3) % 3]
    if how == 'list':
        return '[1, 2, 3]'
    if how == 'scalar':
        return '42'
    if how == 'empty':
        return ''
    return text


def gen(rng, i, tier):
    uid = [0]

    def new(**k):
        uid[0] += 1
        return R.mkdef(rng, uid[0], nulls=0.05, **k)
    # parent definition always called P in E1
    par = new(kind='Basis', efts=('E1',), bases=('P',))
    pre = [par]
    for _ in range(rng.randint(0, 3)):
        r = new()
        pre.append(r)
    if rng.random() < 0.25:
        pre.remove(par)
    rec = new()
    child = rec['kind'] == 'Basis' and rng.random() < 0.5
    if child:
        rec['def']['parent'] = 'P'
        if rng.random() < 0.9:
            rec['def']['eft'] = 'E1'
    mode = rng.choice(['bad', 'bad', 'stream', 'interrupt', 'interrupt', 'osfault', 'observe', 'observe'])
    spec = {'pre': pre, 'rec': rec, 'mode': mode, 'bad': None, 'frac': round(rng.random(), 3),
            'src': rng.choice(['str', 'stringio', 'bytesio', 'file', 'ctor']), 'fmt': rng.choice(['json', 'json', 'yaml']),
            'style': rng.randrange(6), 'raises': [], 'opcode': rng.random() < 0.8, 'plan': {}, 'switches': [],
            'reload': rng.random() < 0.4}
    if spec['reload'] and pre:
        # replace something that exists
        old = rng.choice(pre)
        if old['kind'] == rec['kind']:
            rec['def']['eft'] = old['def']['eft']
            if rec['kind'] == 'Basis':
                rec['def']['basis'] = old['def']['basis']
    if mode == 'bad':
        spec['bad'] = rng.choice(BAD)
        spoil(rec, spec['bad'], rng)
        if spec['bad'] == 'parent_deleted':
            rec['def']['parent'] = 'P'
    elif mode == 'stream':
        spec['src'] = 'fail:' + rng.choice(['oserror', 'unicode', 'interrupt'])
    elif mode == 'osfault':
        spec['src'] = 'file'
        o = execute(spec)
        rd = [l for l in o.log if l[1] in ('read', 'openr')]
        if rd:
            l = rng.choice(rd)
            spec['plan'] = {'acts': [[l[0], simlib.ERR, rng.choice([5, 13, 24, 4, 12])]]}
            if rng.random() < 0.3:
                spec['plan'] = {'acts': [[l[0], simlib.SIGINT, rng.randrange(2)]]}
    elif mode == 'interrupt':
        o = execute(spec, record=True)
        if o.result and o.result.get('trace'):
            tr = o.result['trace']
            locs = {}
            for k, t in enumerate(tr):
                locs.setdefault(tuple(t[1:]), []).append(k + 1)
            s = rng.choice(locs[rng.choice(sorted(locs))])
            spec['raises'] = [[s, rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])]]
    elif mode == 'observe':
        o = execute(spec, record=True)
        if o.result and o.result.get('trace'):
            sw = []
            tr = [t for t in o.result['trace'] if t[0] == 0]
            n = len(tr)
            locs = {}
            for k, t in enumerate(tr):
                locs.setdefault(tuple(t[1:]), []).append(k + 1)
            s = rng.choice(locs[rng.choice(sorted(locs))])
            spec['switches'] = [[s, 1]]
    return spec


def names_of(spec):
    out = []
    for r in spec['pre'] + [spec['rec']]:
        for k in (['EFT', r['def'].get('eft', 'E1')],) if r['kind'] == 'EFT' else (['Basis', r['def'].get('eft', 'E1'), r['def'].get('basis', 'B1')],):
            if k not in out:
                out.append(k)
    for k in (['Basis', 'E1', 'P'], ['EFT', 'E1'], ['Basis', 'E1', 'B1'], ['Basis', 'E2', 'B2']):
        if k not in out:
            out.append(k)
    return out


def load(spec, rec, faulty):
    """Perform the load under test.  Returns None or the exception."""
    C = R.cls_of(rec['kind'])
    src = spec['src'] if faulty else ('str' if spec['src'].startswith('fail') else spec['src'])
    if src == 'ctor':
        d = copy.deepcopy(rec['def'])
        return C(**d)
    text = R.render(rec['def'], spec['fmt'], spec['style'])
    if faulty and spec['bad']:
        text = mutate_text(text, spec['bad'], spec['frac'])
    st = R.open_source(text, src, os.path.join(simlib.scratch, 'tmp', 'in'))
    try:
        return C.load(st)
    finally:
        if src == 'file':
            st.close()


def ref_outcome(spec, names_before):
    """(must_fail, expected content or None): what the load may do, from an
    independent reading of the definition."""
    rec = spec['rec']
    if spec['src'] == 'ctor':
        d = rec['def']
    else:
        text = R.render(rec['def'], spec['fmt'], spec['style'])
        if spec['bad']:
            text = mutate_text(text, spec['bad'], spec['frac'])
        try:
            d = R.ref_parse(text)
        except Exception:
            return True, None
    need = ['eft', 'sectors'] + (['basis'] if rec['kind'] == 'Basis' else [])
    if not isinstance(d, dict) or any(k not in d for k in need):
        return True, None
    parent = None
    if rec['kind'] == 'Basis' and 'parent' in d:
        try:
            p = names_before.get(json.dumps(['Basis', d['eft'], d['parent']]))
        except Exception:
            p = None
        if p is None:
            return True, None
        parent = p[1]['sectors']
        try:
            x = copy.deepcopy(parent)
            x.update(copy.deepcopy(d['sectors']))
        except Exception:
            return False, None       # unspecified whether this is accepted; no claim about content
    try:
        return False, json.loads(json.dumps(R.expected(d, rec['kind'], parent)))
    except Exception:
        return False, None


def execute(spec, record=False):
    def body():
        import wcxf
        names = names_of(spec)
        for r in spec['pre']:
            try:
                R.cls_of(r['kind'])(**copy.deepcopy(r['def']))
            except Exception as e:
                return {'viol': ['valid-rejected', 'a valid definition was rejected: %r' % e]}
        if spec['bad'] == 'parent_deleted':
            try:
                wcxf.Basis.del_instance(('E1', 'P'))
            except KeyError:
                pass
        # listing seen through a throw-away EFT object
        views = {}
        for e in ('E1', 'E2'):
            have = R.lookup(['EFT', e])
            if have is None:
                views[e] = wcxf.EFT(e, {})
                wcxf.EFT.del_instance(e)
            else:
                views[e] = have

        def listing():
            return {e: sorted(views[e].known_bases) for e in views}
        before = R.snap(names)
        lb = listing()
        cb = {k: v[1] for k, v in before.items()}
        must_fail, want = ref_outcome(spec, before)
        me = json.dumps(R.ckey(spec['rec'])) if 'eft' in spec['rec']['def'] else None
        out = {'viol': None, 'seen': 0}
        v = []
        exc = None
        fired = None
        if spec['mode'] == 'observe':
            obs = []

            def loader(s):
                try:
                    load(spec, spec['rec'], True)
                except Exception as e:
                    out['exc'] = '%s: %s' % (type(e).__name__, e)

            def observer(s):
                obs.append((R.snap(names), listing()))
            s = tsched.Sched(spec['switches'], opcode_files=['classes.py'] if spec['opcode'] else [], record=record)
            s.run([loader, observer], first=0)
            if s.deadlock:
                return {'viol': ['deadlock', 'all threads blocked']}
            out['taken'] = s.taken
            out['trace'] = s.trace if record else None
            out['steps'] = s.step
            exc = out.get('exc')
            if s.errors[1] is not None:
                v.append(['observer-error', 'lookup or listing during a load raised %r' % s.errors[1]])
            for sn, li in obs:
                for k, (o, c) in sn.items():
                    if isinstance(c, str):
                        v.append(['incomplete-visible', '%s was visible before it was complete: %s' % (k, c)])
                    elif c != cb.get(k) and (k != me or (want is not None and c != want)):
                        v.append(['wrong-visible', '%s shows content that belongs to no definition: %s' % (k, json.dumps(c)[:300])])
                for k in cb:
                    if k not in sn:
                        v.append(['entry-lost', '%s vanished during a load' % k])
            interrupted = False
        else:
            if spec['mode'] == 'interrupt':
                s, _, exc = tsched.run_single(lambda: load(spec, spec['rec'], True), raises=spec['raises'],
                                              record=record, opcode_files=['classes.py'] if spec['opcode'] else [])
                out['trace'] = s.trace if record else None
                out['steps'] = s.step
                fired = s.raised
            else:
                try:
                    load(spec, spec['rec'], True)
                except BaseException as e:
                    exc = e
            interrupted = bool(fired) or isinstance(exc, (KeyboardInterrupt, MemoryError))
            exc = None if exc is None else '%s: %s' % (type(exc).__name__, str(exc)[:200])
        simlib.lib.sim_disarm()
        after = R.snap(names)
        la = listing()
        changed = [k for k in sorted(set(before) | set(after))
                   if (before.get(k) or (None,))[0] is not (after.get(k) or (None,))[0]
                   or (before.get(k) or (0, None))[1] != (after.get(k) or (0, None))[1]]
        for k, (o, c) in after.items():
            if isinstance(c, str):
                v.append(['incomplete', '%s is registered but incomplete after the load %s: %s' % (k, 'failed' if exc else 'succeeded', c)])
        if exc is not None:
            if changed and not (interrupted and changed == [me] and want is not None and after.get(me, (0, 0))[1] == want):
                v.append(['failed-load-changed-registry', 'the load failed (%s) but %s changed' % (exc, ', '.join(changed))])
            if la != lb and not changed:
                v.append(['failed-load-changed-listing', 'the load failed (%s) but the listing went from %s to %s' % (exc, lb, la)])
        else:
            if must_fail and not fired:
                v.append(['bad-accepted', 'a definition that cannot be complete was accepted (%s)' % spec['bad']])
            others = [k for k in changed if k != me]
            if others and me is not None:
                v.append(['load-changed-others', 'loading %s changed %s' % (me, others)])
            if want is not None and not must_fail:
                got = after.get(me)
                if got is None:
                    v.append(['not-registered', 'the load returned but %s is not registered' % me])
                elif got[1] != want:
                    v.append(['wrong-content', '%s: got %s want %s' % (me, json.dumps(got[1])[:400], json.dumps(want)[:400])])
        if exc is not None and not must_fail and want is not None and (spec['mode'] == 'observe' or (spec['mode'] == 'interrupt' and not fired)):
            v.append(['valid-rejected', 'a valid definition was rejected: %s' % exc])
        # faults are over: loading a good version works and is complete
        retry = None
        if not v and want is not None and not must_fail and exc is not None and not spec['bad']:
            simlib.apply_plan({})
            try:
                load(dict(spec, bad=None), spec['rec'], False)
                retry = True
            except BaseException as e:
                v.append(['retry-failed', 'after a failed load the same definition cannot be loaded: %r' % e])
            if retry:
                got = R.snap(names).get(me)
                if got is None or got[1] != want:
                    v.append(['retry-wrong', '%s after retry: %s' % (me, got and json.dumps(got[1])[:300] if got else None)])
        out.update({'viols': v, 'exc': exc, 'changed': changed, 'fired': fired, 'retry': retry, 'must_fail': must_fail})
        return out
    return simlib.run_child(body, plan=spec['plan'])


def run(spec):
    o = execute(spec)
    if o.hang:
        return {'viol': [viol('hang', 'no progress')], 'stats': {}, 'sig': 'hang'}
    r = o.result
    if r is None:
        if simlib.harness_fault(o):
            raise simlib.HarnessError('%s %s' % (o.exc, o.stderr))
        return {'viol': [viol('died', '%s %s %s' % (o.status, o.exc, o.stderr))], 'stats': {}, 'sig': 'died'}
    if r.get('viol'):
        return {'viol': [viol(*r['viol'])], 'stats': {}, 'sig': 'pre'}
    st = {'os_steps': o.nops, 'sched_steps': r.get('steps') or 0}
    acts = {l[4] for l in o.log if l[4]}
    nt = False
    if r['exc']:
        st['probe:load_failed'] = 1
    if spec['mode'] == 'bad':
        st['fault:bad_definition'] = 1
        nt = True
    if spec['bad'] in ('noparent', 'parent_deleted', 'parent_other_eft'):
        st['probe:missing_parent'] = 1
    if spec['mode'] == 'stream':
        st['fault:stream_error'] = 1
        nt = True
    if acts:
        st['fault:os_error_or_signal'] = len(acts)
        st['probe:read_error'] = 1
        nt = True
    if r['fired']:
        st['fault:async_exception'] = 1
        st['probe:interrupt_fired'] = 1
        nt = True
    if r.get('taken'):
        st['fault:preemption'] = len(r['taken'])
        st['probe:observer_preempted_load'] = 1
        nt = True
    if r['retry']:
        st['probe:retry_ok'] = 1
    return {'viol': [viol(*x) for x in r['viols']], 'stats': st, 'nontrivial': nt,
            'sig': simlib.h([spec['rec'], spec['mode'], spec['bad'], r['fired'], r.get('taken'), sorted(acts), str(r['exc']).split(':')[0], r['changed']]),
            'sample': {'outcome': r['exc'] or 'loaded', 'changed': r['changed'], 'fault': r['fired'] or spec['bad'] or sorted(acts)},
            'trace': {'exc': r['exc'], 'changed': r['changed'], 'fired': r['fired'], 'taken': r.get('taken'), 'log': o.log[:50]}}


def shrink(spec):
    for p in drop_each(spec['pre']):
        yield with_(spec, pre=p)
    if spec['src'] not in ('ctor', 'str') and not spec['src'].startswith('fail') and not spec['plan']:
        yield with_(spec, src='str')
    if spec['opcode']:
        yield with_(spec, opcode=False)
    d = spec['rec']['def']
    for k in ('metadata', 'extra'):
        if k in d:
            s = copy.deepcopy(spec)
            del s['rec']['def'][k]
            yield s
    for j, (s, t) in enumerate(spec['switches']):
        for s2 in (s // 2, s - 1):
            if s2 > 0:
                yield with_(spec, switches=[[s2, t]])
