"""Worker process: runs simulated executions on request (one JSON line each)."""
import importlib
import json
import os
import random
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib          # noqa: E402
import tsched         # noqa: E402

WORKSCRATCH = sys.argv[2]
PIPE_IN, PIPE_OUT = int(sys.argv[3]), int(sys.argv[4])


def send(obj):
    data = (json.dumps(obj) + '\n').encode()
    while data:
        data = data[os.write(PIPE_OUT, data):]


def lines():
    buf = b''
    while True:
        b = os.read(PIPE_IN, 65536)
        if not b:
            return
        buf += b
        while b'\n' in buf:
            l, buf = buf.split(b'\n', 1)
            yield json.loads(l)


def serve(chk):
    for req in lines():
        try:
            if req['cmd'] == 'index':
                rng = random.Random('%s:%s:%s:%s' % (req['seed'], chk.ID, req['tier'], req['i']))
                spec = chk.gen(rng, req['i'], req['tier'])
                if spec is None:
                    send({'i': req['i'], 'skip': True})
                    continue
            else:
                spec = req['spec']
            res = chk.run(spec)
            send({'i': req.get('i'), 'spec': spec, 'res': res})
        except simlib.ChildExit:
            raise
        except Exception:
            send({'i': req.get('i'), 'error': traceback.format_exc()[-4000:], 'spec': locals().get('spec')})


def main():
    chk = importlib.import_module('checks.' + sys.argv[1].lower())
    simlib.setup(WORKSCRATCH)
    import warnings
    warnings.simplefilter('ignore')
    import logging, yaml, numpy, ckmutil.ckm, ckmutil.diag, rundec     # noqa
    import tempfile, shutil, subprocess, argparse, io, collections           # noqa
    import glob, fnmatch, re, traceback as _t                                # noqa
    subprocess._USE_VFORK = subprocess._USE_POSIX_SPAWN = False      # fork is a step of the run
    tsched.install_locks()
    if chk.MODE == 'deps':
        import pylha     # noqa
    else:
        if chk.MODE == 'bases':
            simlib.redirect_bases(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'fixtures', 'bases'))
        elif chk.MODE == 'nobases':
            # an empty directory, whatever /repo/wcxf/bases holds
            simlib.redirect_bases(simlib.fresh_dir('empty-bases'))
        import wcxf
        if os.path.realpath(wcxf.__file__) != '/repo/wcxf/__init__.py':
            raise simlib.HarnessError('wcxf is not imported from /repo: ' + wcxf.__file__)
        if not getattr(chk, 'LIBRARY', False):
            # else only what a user of the library has loaded
            import pylha, wcxf.cli, wcxf.converters.eos, wcxf.converters.yamljson, wcxf.converters.smeftsim   # noqa
        tsched.code_objects(tsched.ROOT)
    chk.setup()
    import gc
    gc.collect()
    gc.freeze()        # keeps the collector of the forked children off the shared pages
    send({'ready': True})
    serve(chk)


if __name__ == '__main__':
    try:
        main()
        entry = None
    except simlib.ChildExit as e:
        entry, genuine = e.entry, e.genuine
    if entry is not None:
        if genuine:
            sys.exit(entry())
        simlib.finish(entry)
