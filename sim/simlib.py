"""Helpers used inside a worker: child processes under the libc seam."""
import ctypes
import errno
import hashlib
import json
import os
import re
import select
import shutil
import signal
import sys
import tempfile
import time

ERR, SHORT, TORN, CRASH_BEFORE, CRASH_AFTER, SIGINT = 1, 2, 3, 4, 5, 6
KIND_NAMES = {ERR: 'error', SHORT: 'short_transfer', TORN: 'torn_write_crash',
              CRASH_BEFORE: 'crash_before', CRASH_AFTER: 'crash_after', SIGINT: 'sigint'}
CHILD_TIMEOUT = float(os.environ.get('SIM_CHILD_TIMEOUT', '60'))

lib = None
scratch = None          # this worker's scratch directory
bases_dir = None        # where /repo/wcxf/bases is redirected to, or None


class HarnessError(Exception):
    """Something is wrong with the harness (never counts as a violation)."""


def setup(scratch_dir):
    global lib, scratch
    lib = ctypes.CDLL(None)
    try:
        lib.sim_shared
    except AttributeError:
        raise HarnessError('seam library is not loaded')
    lib.sim_nops.restype = ctypes.c_long
    lib.sim_fired.restype = ctypes.c_long
    lib.sim_log.restype = ctypes.c_long
    lib.sim_log.argtypes = [ctypes.c_char_p, ctypes.c_long]
    lib.sim_deny.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int]
    lib.sim_readdir_fail.argtypes = lib.sim_notready.argtypes = [ctypes.c_long]
    lib.sim_plan_add.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_long]
    lib.sim_knobs.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.c_long, ctypes.c_long,
                              ctypes.c_int, ctypes.c_uint64, ctypes.c_uint64]
    scratch = scratch_dir
    os.makedirs(scratch, exist_ok=True)
    lib.sim_reset()
    lib.sim_root(scratch.encode())


def redirect_bases(to):
    global bases_dir
    bases_dir = to
    lib.sim_redirect(b'/repo/wcxf/bases', (to or '/repo/wcxf/bases').encode())


def get_log():
    buf = ctypes.create_string_buffer(1 << 20)
    n = lib.sim_log(buf, 1 << 20)
    out = []
    for line in buf.raw[:n].decode('utf-8', 'replace').splitlines():
        m = re.match(r'(\d+) (\S+) (.*?) (-?\d+)((?: !\S+)*)$', line)
        if m:
            out.append((int(m.group(1)), m.group(2), m.group(3), int(m.group(4)), m.group(5).strip()))
    return out


def apply_plan(plan):
    """plan: {'acts': [[idx, kind, arg], ...], 'knobs': {...}}"""
    plan = plan or {}
    lib.sim_plan_clear()
    for idx, kind, arg in plan.get('acts', ()):
        lib.sim_plan_add(idx, kind, arg)
    k = plan.get('knobs', {})
    if k.get('package_data'):
        lib.sim_extra(b'/repo/wcxf/data')
    if k.get('deny'):
        lib.sim_deny(k['deny'][0].encode(), k['deny'][1], k['deny'][2])
    lib.sim_readdir_fail(k.get('readdir_fail', 0))
    lib.sim_notready(k.get('notready', 0))
    lib.sim_knobs(k.get('read_chunk', 0), k.get('write_chunk', 0), k.get('quota', -1),
                  k.get('sticky_from', -1), k.get('sticky_errno', errno.EIO),
                  k.get('dirseed', 1), k.get('rngseed', 12345))


class Outcome:
    __slots__ = ('status', 'result', 'log', 'nops', 'fired', 'crashed', 'hang', 'stdout', 'stderr', 'exc', 'places', 'pyfired')

    @property
    def ok(self):
        return self.status == 0


def _reap(pid, deadline):
    """Wait for pid without leaving it behind; returns (status, hang)."""
    delay = 0.0002
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return st, False
        if time.monotonic() > deadline:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return None, True
        time.sleep(delay)
        delay = min(delay * 1.5, 0.01)


def _status(st):
    if st is None:
        return -9
    if os.WIFSIGNALED(st):
        return 128 + os.WTERMSIG(st)
    return os.WEXITSTATUS(st)


def _finish(o, hang):
    o.hang = hang
    o.log = get_log()
    o.nops = lib.sim_nops()
    o.fired = lib.sim_fired()
    o.crashed = lib.sim_crashed()
    return o


def child_init():
    signal.signal(signal.SIGINT, signal.default_int_handler)
    tempfile.tempdir = None


def run_child(fn, plan=None, arm=True, timeout=None, cwd=None):
    """Fork; run fn() in the child (armed with the plan) and return its value."""
    lib.sim_reset()
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            child_init()
            if cwd:
                os.chdir(cwd)
            if arm:
                apply_plan(plan)
                lib.sim_arm()
            try:
                val = fn()
                msg = json.dumps({'v': val})
            except BaseException as e:
                import traceback
                msg = json.dumps({'e': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-3000:]})
            lib.sim_disarm()
            data = msg.encode()
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + (timeout or CHILD_TIMEOUT)
    hang = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hang = True
            break
        if not select.select([r], [], [], left)[0]:
            hang = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if hang:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        st = None
    else:
        st, hang = _reap(pid, deadline + 5)
    o = Outcome()
    o.stdout = o.stderr = None
    o.status = _status(st)
    o.result = o.exc = None
    if chunks and not hang:
        try:
            m = json.loads(b''.join(chunks))
        except ValueError:
            m = {}
        o.result = m.get('v')
        o.exc = m.get('e')
        if o.exc:
            o.stderr = m.get('tb')
    return _finish(o, hang)


def harness_fault(o):
    """The child ended by an exception that has nothing to do with the package."""
    return bool(o.exc) and ('HarnessError' in o.exc or '/repo/wcxf' not in (o.stderr or ''))


class ChildExit(BaseException):
    """Carries a command line entry point out of the worker's frames, so that
    the child ends by the interpreter's own shutdown."""

    def __init__(self, entry, genuine):
        self.entry = entry
        self.genuine = genuine


def finish(entry):
    """sys.exit(entry()) followed by what the interpreter does at shutdown, but
    tearing down only the package's modules (the full teardown of numpy and
    friends takes 50 ms; a share of the runs does that as well)."""
    code = 1
    try:
        try:
            sys.exit(entry())
        except SystemExit as e:
            if e.code is None:
                code = 0
            elif isinstance(e.code, int):
                code = e.code & 0xff
            else:
                sys.stderr.write(str(e.code) + '\n')
                code = 1
        except KeyboardInterrupt:
            sys.excepthook(*sys.exc_info())
            code = 130
        except BaseException:
            sys.excepthook(*sys.exc_info())
            code = 1
        import atexit
        import gc
        import threading
        threading._shutdown()
        atexit._run_exitfuncs()
        try:
            sys.stdout.flush()
        except Exception as e:
            try:
                sys.stderr.write('Exception ignored in stdout: %r\n' % e)
            except Exception:
                pass
            code = 120
        for name, m in list(sys.modules.items()):
            if name == 'wcxf' or name.startswith('wcxf.'):
                for k in list(vars(m)):
                    if not k.startswith('__'):
                        vars(m)[k] = None
        gc.collect()
        try:
            sys.stdout.flush()
        except Exception:
            code = 120
    except KeyboardInterrupt:
        code = 130
    finally:
        os._exit(code)


PYROOT = '/repo/wcxf/'
PYTOOL = 3
KINDS = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


def py_steps(entry, plan):
    """Number every line of the package's functions that the command executes;
    at plan['py'] = [step, what] raise an exception or end the process there.
    With plan['pyrec'] the places are written down for the generator."""
    act, rec = plan.get('py'), plan.get('pyrec')
    if not act and not rec:
        return entry
    m = sys.monitoring
    n = [0]
    by = {}
    # opened before the seam is armed: not a step of the command
    out = os.open(os.path.join(scratch, 'pyrec' if rec else 'pyfired'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)

    def line(code, no):
        f = code.co_filename
        if not f.startswith(PYROOT) or code.co_name == '<module>':
            return m.DISABLE
        n[0] += 1
        if rec:
            x = by.setdefault((f[len(PYROOT):], code.co_qualname, no), [])
            if len(x) < 6:
                x.append(n[0])
            else:
                x[-1] = n[0]
        if act and n[0] == act[0]:
            os.write(out, ('%s %s %d' % (f[len(PYROOT):], code.co_qualname, no)).encode())
            if act[1] == 'crash':
                os._exit(137)
            raise KINDS[act[1]]('simulated')

    def run():
        m.use_tool_id(PYTOOL, 'simcli')
        m.register_callback(PYTOOL, m.events.LINE, line)
        m.set_events(PYTOOL, m.events.LINE)
        try:
            return entry()
        finally:
            m.set_events(PYTOOL, 0)
            if rec:
                data = json.dumps([[list(k), v] for k, v in sorted(by.items())]).encode()
                while data:
                    data = data[os.write(out, data):]
    return run


ENTRIES = {'wcxf': 'wcxf_cli', 'wcxf2eos': 'eos', 'wcxf2smeftsim': 'smeftsim'}


def _spawn_cli(argv, cwd, stdin, stdin_kind, stdout_path, stderr_path, plan, env, gate, close_fds=(), genuine=False):
    """In the parent: fork and return the pid; in the child: raise ChildExit."""
    pid = os.fork()
    if pid:
        return pid
    for fd in close_fds:
        os.close(fd)
    child_init()
    os.chdir(cwd)
    for k, v in (env or {}).items():
        os.environ[k] = v
    if stdin is None:
        fd = os.open('/dev/null', os.O_RDONLY)
    elif stdin_kind == 'pipe' and len(stdin) <= 1 << 20:
        fd, wr = os.pipe()
        import fcntl
        fcntl.fcntl(wr, 1031, 1 << 20)      # F_SETPIPE_SZ
        data = stdin
        while data:
            data = data[os.write(wr, data):]
        os.close(wr)
    else:
        fd = os.memfd_create('stdin')
        data = stdin
        while data:
            data = data[os.write(fd, data):]
        os.lseek(fd, 0, 0)
    os.dup2(fd, 0)
    os.close(fd)
    fd = os.open(stdout_path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(fd, 1)
    os.close(fd)
    fd = os.open(stderr_path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(fd, 2)
    os.close(fd)
    sys.stdin = open(0, 'r', encoding='utf-8', closefd=False)
    sys.stdout = open(1, 'w', encoding='utf-8', closefd=False)
    sys.stderr = open(2, 'w', encoding='utf-8', errors='backslashreplace', buffering=1, closefd=False)
    for f, n in ((sys.stdin, '<stdin>'), (sys.stdout, '<stdout>'), (sys.stderr, '<stderr>')):
        f.buffer.raw.name = n           # as the interpreter names its own
    sys.__stdin__, sys.__stdout__, sys.__stderr__ = sys.stdin, sys.stdout, sys.stderr
    sys.argv = list(argv)
    apply_plan(plan)
    if gate:
        lib.sim_gate(*gate)
    import wcxf.cli
    entry = py_steps(getattr(wcxf.cli, ENTRIES[argv[0]]), plan or {})
    lib.sim_arm()
    raise ChildExit(entry, genuine)


def run_cli(argv, cwd, stdin=b'', stdin_kind='file', plan=None, env=None, timeout=None, genuine=False):
    """Run one of the command line tools in a forked child as its console
    script would: sys.exit(entry()) and interpreter shutdown."""
    lib.sim_reset()
    so, se = os.path.join(scratch, 'stdout'), os.path.join(scratch, 'stderr')
    for p in (so, se, os.path.join(scratch, 'pyrec'), os.path.join(scratch, 'pyfired')):
        if os.path.lexists(p):
            os.unlink(p)
    pid = _spawn_cli(argv, cwd, stdin, stdin_kind, so, se, plan, env, None, genuine=genuine)
    st, hang = _reap(pid, time.monotonic() + (timeout or CHILD_TIMEOUT))
    o = Outcome()
    o.result = o.exc = None
    o.status = _status(st)
    o.stdout = read_file(so)
    o.stderr = (read_file(se) or b'').decode('utf-8', 'replace')[-2000:]
    p = read_file(os.path.join(scratch, 'pyrec'))
    o.places = json.loads(p) if p else []
    p = read_file(os.path.join(scratch, 'pyfired'))
    o.pyfired = p.decode() if p else None
    return _finish(o, hang)


def run_cli_group(jobs, schedule, plan=None, timeout=None):
    """Several command processes at once; at most one runs between two gated
    steps.  jobs: list of dicts (argv, cwd, stdin, stdin_kind, env); schedule:
    [[global_step, process], ...] switches.  Returns (outcomes, log, order)."""
    lib.sim_reset()
    procs = []
    for i, j in enumerate(jobs):
        rr, rw = os.pipe()
        gr, gw = os.pipe()
        close = [p['rr'] for p in procs] + [p['gw'] for p in procs] + [rr, gw]
        so = os.path.join(scratch, 'stdout%d' % i)
        se = os.path.join(scratch, 'stderr%d' % i)
        pid = _spawn_cli(j['argv'], j['cwd'], j.get('stdin', b''), j.get('stdin_kind', 'file'), so, se,
                         plan, j.get('env'), (rw, gr), close)
        os.close(rw)
        os.close(gr)
        procs.append({'pid': pid, 'rr': rr, 'gw': gw, 'alive': True, 'asked': False, 'so': so, 'se': se, 'steps': 0})
    deadline = time.monotonic() + (timeout or CHILD_TIMEOUT)
    sw = {int(s): int(p) for s, p in schedule}
    cur = 0
    nstep = 0
    order = []
    hang = False
    while True:
        for p in procs:
            while p['alive'] and not p['asked']:
                left = deadline - time.monotonic()
                if left <= 0 or not select.select([p['rr']], [], [], left)[0]:
                    hang = True
                    break
                b = os.read(p['rr'], 1)
                if b:
                    p['asked'] = True
                else:
                    p['alive'] = False
            if hang:
                break
        if hang:
            break
        ready = [i for i, p in enumerate(procs) if p['alive'] and p['asked']]
        if not ready:
            break
        if nstep in sw:
            cur = sw[nstep] % len(procs)
        if cur not in ready:
            cur = ready[0] if not [i for i in ready if i > cur] else [i for i in ready if i > cur][0]
        p = procs[cur]
        p['asked'] = False
        p['steps'] += 1
        order.append(cur)
        nstep += 1
        os.write(p['gw'], b'g')
        # only one process runs at a time: wait until it asks again or ends
        left = deadline - time.monotonic()
        if left <= 0 or not select.select([p['rr']], [], [], left)[0]:
            hang = True
            break
        b = os.read(p['rr'], 1)
        if b:
            p['asked'] = True
        else:
            p['alive'] = False
    outs = []
    for p in procs:
        if hang:
            try:
                os.kill(p['pid'], signal.SIGKILL)
            except ProcessLookupError:
                pass
        st, h = _reap(p['pid'], time.monotonic() + 20)
        os.close(p['rr'])
        os.close(p['gw'])
        o = Outcome()
        o.result = o.exc = None
        o.status = _status(st)
        o.hang = hang or h
        o.stdout = read_file(p['so'])
        o.stderr = (read_file(p['se']) or b'').decode('utf-8', 'replace')[-2000:]
        o.nops = p['steps']
        o.log, o.fired, o.crashed = [], 0, 0
        outs.append(o)
    return outs, get_log(), order


# -- files ---------------------------------------------------------------
def read_file(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def write_file(p, data):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def fresh_dir(name):
    d = os.path.join(scratch, name)
    if os.path.lexists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


def snapshot(d):
    """{relative path: bytes or None for directories}"""
    out = {}
    for base, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(base, x), d)] = None
        for x in files:
            out[os.path.relpath(os.path.join(base, x), d)] = read_file(os.path.join(base, x))
    return out


def h(x):
    if not isinstance(x, (bytes, str)):
        x = json.dumps(x, sort_keys=True, default=str)
    if isinstance(x, str):
        x = x.encode('utf-8', 'surrogateescape')
    return hashlib.sha1(x).hexdigest()[:16]


def log_sig(log):
    return h([l[1:] for l in log])
