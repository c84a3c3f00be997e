"""Process of another configuration for C15: other hash seed, other order in
which the definitions are found at import."""
import os
import simlib
from checks import cli, hist
from checks import registry as R

ID = 'C15SUB'
MODE = 'deps'


def setup():
    cli.bases()
    simlib.redirect_bases(cli.FIX)
    simlib.apply_plan({'acts': [], 'knobs': {'dirseed': int(os.environ['SIM_DIRSEED'])}})
    # directories are listed in the seeded order only below the scratch root
    import shutil
    d = os.path.join(simlib.scratch, 'bases')
    shutil.copytree(cli.FIX, d)
    simlib.redirect_bases(d)
    simlib.lib.sim_arm()
    import wcxf
    import wcxf.cli, wcxf.converters.eos, wcxf.converters.yamljson, wcxf.converters.smeftsim   # noqa
    simlib.lib.sim_disarm()
    if os.path.realpath(wcxf.__file__) != '/repo/wcxf/__init__.py':
        raise simlib.HarnessError('wcxf is not imported from /repo: ' + wcxf.__file__)


def listing():
    import wcxf
    out = {}
    for e in sorted(cli.efts()):
        t = wcxf.EFT[e]
        out[e] = [list(t.known_bases), list(map(list, t.known_translators))]
    for b in sorted(cli.bases()):
        x = wcxf.Basis[b]
        out['/'.join(b)] = [list(x.all_wcs), [[s, list(c)] for s, c in x.sectors.items()], [list(map(list, x.known_translators[k])) for k in ('from', 'to')]]
    # and with definitions made here
    names = ['N%d' % ((7 * i) % 13) for i in range(9)]
    e = wcxf.EFT('listing', {'s%d' % i: {} for i in range(4)})
    for n in names:
        wcxf.Basis('listing', n, {'s2': {n + 'b': None, n + 'a': {'tex': 'x'}}, 's0': {n + 'c': {}}})
        wcxf.Translator('listing', n, names[0], None)
        wcxf.Translator('listing', names[1], n, None)
    out['made'] = [list(e.known_bases), list(map(list, e.known_translators)), list(wcxf.Basis['listing', names[3]].all_wcs),
                   {k: list(map(list, x)) for k, x in wcxf.Basis['listing', names[0]].known_translators.items()}]
    return simlib.h(out)


def verdicts(files):
    """[accepted or not, what was registered] of loading and validating texts."""
    import logging
    import wcxf
    logging.disable(logging.CRITICAL)
    os.environ['PATH'] = '/nonexistent'
    out = []
    for typ, text in files:
        try:
            x = {'wc': wcxf.WC, 'basis': wcxf.Basis, 'eft': wcxf.EFT}[typ].load(text)
            if typ != 'eft':
                x.validate()
            out.append(True)
        except Exception:
            out.append(False)
    return out


def qcd(calls):
    from checks import c10
    return [c10.call(c) for c in calls]


def run(spec):
    if spec['mode'] == 'cli':
        o, d = cli.invoke(spec['c'], {'acts': [], 'knobs': {'dirseed': spec['dirseed']}}, name='work')
        out = cli.delivered(spec['c'], o, d)
        return {'status': o.status, 'out': None if out is None else out.decode('utf-8', 'replace'), 'hang': o.hang, 'err': o.stderr[-200:]}
    if spec['mode'] == 'listing':
        o = simlib.run_child(listing, arm=False)
    elif spec['mode'] == 'verdict':
        o = simlib.run_child(lambda: verdicts(spec['files']), arm=False)
    elif spec['mode'] == 'qcd':
        o = simlib.run_child(lambda: qcd(spec['calls']), arm=False)
    else:
        o = simlib.run_child(lambda: [hist.do_call(c)[1] for c in spec['calls']], arm=False)
    return {'result': o.result, 'exc': o.exc, 'tb': o.stderr, 'hang': o.hang}
