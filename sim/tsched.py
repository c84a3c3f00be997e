"""Deterministic scheduler for real Python threads.

Every simulated thread is a real thread, but all except one are parked on a
private lock.  Each line (or bytecode, for chosen files) of the code under test
that the running one executes is reported by sys.monitoring and is one numbered
step.  Control moves to another thread only at the steps named in the
schedule, when a thread ends, or when it blocks on a lock.  The same schedule
therefore gives the same execution, whatever the machine does.

At a chosen step an exception (KeyboardInterrupt, MemoryError) can be raised in
the running thread, which is what a signal or a failed allocation looks like
to Python code.
"""
import gc
import sys
import threading
import types
import _thread
import dis

ROOT = '/repo/wcxf/'
_real_lock = _thread.allocate_lock
current = None          # the active scheduler, if any


TOOL = 4
_codes = {}


def code_objects(root):
    """All code objects of functions of the code under test (modules' own
    top-level code excluded)."""
    if root in _codes:
        return _codes[root]
    seen, out = set(), []

    def walk(c):
        if id(c) in seen:
            return
        seen.add(id(c))
        if c.co_filename.startswith(root) and '/test_' not in c.co_filename and c.co_name != '<module>':
            out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(root):
            walk(o.__code__)
    _codes[root] = out
    return out


class SimLock:
    """Stand-in for threading.Lock: behaves as usual, but a thread of the
    simulation that would block hands control to the scheduler instead."""

    _reentrant = False

    def __init__(self):
        self._l = _real_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        while True:
            if self._l.acquire(False):
                self._owner = me
                self._count = 1
                return True
            if not blocking:
                return False
            s = current
            if s is None or not s.mine():
                r = self._l.acquire(True, timeout)
                if r:
                    self._owner = me
                    self._count = 1
                return r
            if timeout is not None and timeout >= 0:
                # simulated time passes instantly: the wait times out as
                # soon as nobody else can make progress
                if not s.block(self, may_time_out=True):
                    return False
            else:
                s.block(self)

    def release(self):
        if self._reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._l.release()
        if current is not None:
            current.unblock(self)

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_lock()
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    _reentrant = True

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


def install_locks():
    """Replace the lock factories (before the code under test is imported)."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock


_leaving = {}


def leaving_with(code, off):
    if code not in _leaving:
        ins = [i for i in dis.get_instructions(code) if i.opname != 'CACHE']
        bad = set()
        for k, i in enumerate(ins):
            if i.opname == 'WITH_EXCEPT_START':
                bad |= {j.offset for j in ins[max(k - 1, 0):k + 1]}
            if k + 3 < len(ins) and ins[k + 3].opname == 'CALL' and ins[k + 3].arg == 2 and \
                    all(j.opname == 'LOAD_CONST' and j.argval is None for j in ins[k:k + 3]):
                bad |= {j.offset for j in ins[k:k + 4]}
                while k and ins[k - 1].opname in ('SWAP', 'NOP'):
                    k -= 1
                    bad.add(ins[k].offset)
        _leaving[code] = bad
    return off in _leaving[code]


class Sched:
    def __init__(self, switches=(), raises=(), opcode_files=(), record=False,
                 cap=3000000, root=ROOT, end_order=()):
        self.switches = {int(s): int(t) for s, t in switches}
        self.raises = {int(s): e for s, e in raises}
        self.opcode_files = set(opcode_files)
        self.record = record
        self.cap = cap
        self.root = root
        self.step = 0
        self.clock = 0
        self.trace = []           # (thread, file, function, line, offset)
        self.taken = []           # switches that really happened
        self.raised = []
        self.cur = None
        self.deadlock = False
        self.capped = False
        self.ids = {}
        self.active = False
        self.end_order = list(end_order)

    # -- helpers -------------------------------------------------------
    def mine(self):
        return _thread.get_ident() in self.ids

    def tick(self):
        self.clock += 1
        return self.clock

    def _instrument(self):
        """One event per line (or per bytecode, for the chosen files) of every
        function of the code under test; set up once, before anything runs."""
        m = sys.monitoring
        if m.get_tool(TOOL) is None:
            m.use_tool_id(TOOL, 'sim')
        self.active = True
        m.register_callback(TOOL, m.events.LINE, self._line)
        m.register_callback(TOOL, m.events.INSTRUCTION, self._instr)
        allops = '*' in self.opcode_files
        for code in code_objects(self.root):
            short = code.co_filename[len(self.root):]
            m.set_local_events(TOOL, code, m.events.INSTRUCTION if allops or short in self.opcode_files
                               else m.events.LINE)

    def _uninstrument(self):
        self.active = False

    def _line(self, code, line):
        if self.active and _thread.get_ident() in self.ids:
            self._event(code, line, 0)

    def _instr(self, code, off):
        if self.active and _thread.get_ident() in self.ids:
            self._event(code, 0, off)

    def _event(self, code, line, off):
        self.step += 1
        s = self.step
        if self.record:
            self.trace.append((self.cur, code.co_filename[len(self.root):], code.co_qualname, line, off))
        if s > self.cap:
            self.capped = True
            raise SystemExit('step cap')
        if s in self.switches:
            self._switch(self.switches[s])
        if s in self.raises:
            if leaving_with(code, sys._getframe(2).f_lasti):
                # the interpreter does not deliver exceptions between the end of
                # the body of a with statement and the call of __exit__
                self.raises.setdefault(s + 1, self.raises[s])
                return
            e = self.raises[s]
            self.raised.append([s, e, code.co_qualname])
            raise {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[e]('simulated')

    def point(self, what):
        """A step taken by harness code (a simulated stream, say) on behalf of
        the running thread."""
        if self.active and _thread.get_ident() in self.ids:
            self.step += 1
            s = self.step
            if self.record:
                self.trace.append((self.cur, '<env>', what, 0, 0))
            if s in self.switches:
                self._switch(self.switches[s])

    # -- scheduling ----------------------------------------------------
    def _pick(self, want, exclude=None):
        n = self.n
        for k in range(n):
            t = (want + k) % n
            if t != exclude and self.state[t] == 'ready':
                return t
        return None

    def _switch(self, want):
        me = self.cur
        t = self._pick(want % self.n)
        if t == me:
            t = self._pick((me + 1) % self.n, exclude=me)
        if t is None:
            return
        self.taken.append([self.step, t])
        self.cur = t
        self.gates[t].release()
        self.gates[me].acquire()

    def block(self, lock, may_time_out=False):
        me = self.cur
        t = self._pick((me + 1) % self.n, exclude=me)
        if t is None:
            if may_time_out:
                return False
            for i in range(self.n):
                if self.state[i] == 'timed':
                    self.state[i] = 'ready'
            t = self._pick((me + 1) % self.n, exclude=me)
        if t is None:
            self.deadlock = True
            self.done.release()
            self.gates[me].acquire()      # never returns
        self.state[me] = 'timed' if may_time_out else 'blocked'
        self.waiting[me] = lock
        self.cur = t
        self.gates[t].release()
        self.gates[me].acquire()
        woken = self.waiting[me] is None
        self.waiting[me] = None
        return woken or not may_time_out

    def unblock(self, lock):
        for t in range(getattr(self, 'n', 0)):
            if self.waiting[t] is lock:
                self.waiting[t] = None
                self.state[t] = 'ready'

    def _body(self, i, fn):
        self.ids[_thread.get_ident()] = i
        self.gates[i].acquire()
        try:
            fn(self)
        except BaseException as e:      # noqa: thread functions report by themselves
            self.errors[i] = e
        self.state[i] = 'done'
        t = self._pick(self.end_order[i] if i < len(self.end_order) else 0)
        if t is None:
            for k in range(self.n):
                if self.state[k] == 'timed':
                    self.state[k] = 'ready'
                    t = k
                    break
        if t is None:
            if any(s != 'done' for s in self.state):
                self.deadlock = True
            self.done.release()
        else:
            self.cur = t
            self.gates[t].release()

    def run(self, fns, first=0):
        global current
        self.n = len(fns)
        self.state = ['ready'] * self.n
        self.waiting = [None] * self.n
        self.errors = [None] * self.n
        self.gates = [_real_lock() for _ in fns]
        for g in self.gates:
            g.acquire()
        self.done = _real_lock()
        self.done.acquire()
        current = self
        self._instrument()
        self.cur = first % self.n
        for i, fn in enumerate(fns):
            _thread.start_new_thread(self._body, (i, fn))
        self.gates[self.cur].release()
        self.done.acquire()
        self._uninstrument()
        current = None
        return self


def run_single(fn, raises=(), record=False, opcode_files=(), cap=3000000):
    """Run fn in the calling thread, counting steps and raising at the chosen
    ones.  Returns (scheduler, value, exception)."""
    s = Sched(raises=raises, record=record, opcode_files=opcode_files, cap=cap)
    s.cur = 0
    s.n = 1
    s.state = ['ready']
    s.waiting = [None]
    s.ids[_thread.get_ident()] = 0
    s._instrument()
    val = exc = None
    try:
        val = fn()
    except BaseException as e:
        exc = e
    finally:
        s._uninstrument()
    return s, val, exc
