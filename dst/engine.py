"""Deterministic scheduler: real threads, parked and released one at a time.

A run is driven by a plan: which task is preempted at which of its own steps (and in
favour of whom), and which fault is injected at which point.  Steps are counted per task at
monitoring events inside library code and at every simulated I/O or lock operation."""
import _thread
import sys
import threading as _threading
import time as _time

TOOL = 4
MON = sys.monitoring
EV = MON.events
_real_lock = _thread.allocate_lock
_real_Lock, _real_RLock = _threading.Lock, _threading.RLock
_real_Thread = _threading.Thread
_real_sleep = _time.sleep
get_ident = _thread.get_ident


class SimAbort(BaseException):
    """Raised in a task to unwind it when the run is over its step budget."""


class SimDeadlock(Exception):
    pass


class Task:
    __slots__ = ("id", "fn", "lock", "state", "step", "ipoint", "proc", "result", "exc", "wake",
                 "waiting", "ident", "name", "noyield", "injected", "log", "data", "parent", "jumped")

    def __init__(self, id, fn, proc=0, name=""):
        self.id, self.fn, self.proc, self.name = id, fn, proc, name
        self.lock = _real_lock()
        self.lock.acquire()
        self.state = "new"      # new ready blocked done dead
        self.step = 0           # preemption points passed
        self.ipoint = 0         # interrupt points passed
        self.result = self.exc = None
        self.wake = None
        self.waiting = None
        self.ident = None
        self.noyield = 0
        self.injected = []
        self.data = None
        self.jumped = False
        self.parent = None


CURRENT = None          # the Sim in progress in this process
_import_depth = {}      # thread id -> nesting of import statements


class Sim:
    def __init__(self, preempt=(), interrupts=(), max_steps=2_000_000, on_switch=None, ring=64):
        # preempt: [task, step, target]; interrupts: [task, point, kind]
        self.preempt = {(a, b): c for a, b, c in preempt}
        self.interrupts = {(a, b): k for a, b, k in interrupts}
        self.tasks = []
        self.cur = None
        self.now = 0.0
        self.total = 0
        self.max_steps = max_steps
        self.over = False
        self.deadlock = None
        self.switches = []      # (task, step, target) actually taken: the interleaving
        self.fired = {}         # fault kind -> count
        self.driver_lock = _real_lock()
        self.driver_lock.acquire()
        self.on_switch = on_switch
        self.exc_factory = {}
        self.point_hook = None
        self.by_ident = {}
        self.count_i = False
        self.trace = None       # optional event log
        self.dead_procs = set()
        self.stalled = 0

    # -- set up ------------------------------------------------------------------
    def spawn(self, fn, proc=0, name=""):
        t = Task(len(self.tasks), fn, proc, name)
        self.tasks.append(t)
        t.state = "ready"
        _thread.start_new_thread(self._main, (t,))
        return t

    def _main(self, t):
        t.lock.acquire()
        t.ident = get_ident()
        self.by_ident[t.ident] = t
        try:
            t.result = t.fn()
        except BaseException as e:      # recorded for the oracle
            t.exc = e
        self._finish(t)

    def _finish(self, t):
        if t.state != "dead":
            t.state = "done"
        nxt = self._pick(t)
        if nxt is None:
            self.cur = None
            self.driver_lock.release()
        else:
            self._enter(nxt)

    def _enter(self, t):
        self.cur = t
        if self.on_switch:
            self.on_switch(t)
        t.lock.release()

    def run(self):
        """Run all spawned tasks until each is done, dead or deadlocked."""
        global CURRENT
        CURRENT = self
        try:
            first = self._pick(None)
            if first is not None:
                self._enter(first)
                self.driver_lock.acquire()
        finally:
            CURRENT = None
        return self

    # -- scheduling -----------------------------------------------------------------
    def _ready(self, t):
        if t.state == "ready":
            return True
        if t.state == "blocked":
            if t.waiting is not None and t.waiting():
                return True
            if t.wake is not None and t.wake <= self.now:
                return True
        return False

    def _pick(self, prev, target=None):
        """Next task after prev stops; cyclic order, so it is a function of the plan."""
        n = len(self.tasks)
        if not n:
            return None
        if target is not None and target < n and self._ready(self.tasks[target]):
            return self._take(self.tasks[target])
        start = prev.id + 1 if prev is not None else 0
        while True:
            for k in range(n):
                t = self.tasks[(start + k) % n]
                if t is not prev and self._ready(t):
                    return self._take(t)
            if prev is not None and self._ready(prev):
                return self._take(prev)
            wakes = [t.wake for t in self.tasks if t.state == "blocked" and t.wake is not None]
            if wakes:
                self.now = max(self.now, min(wakes))     # discrete-event time
                continue
            stuck = [t for t in self.tasks if t.state == "blocked"]
            if stuck:
                self.deadlock = [t.id for t in stuck]
            return None

    def _take(self, t):
        if t.state == "blocked":
            t.state = "ready"
        return t

    def _switch(self, t, nxt):
        """Hand over from the running task t to nxt (t stays ready or blocked)."""
        if nxt is None:
            # nothing can run: give control back to the driver; t stays parked for good
            self.cur = None
            self.driver_lock.release()
            t.lock.acquire()
            return
        if nxt is t:
            return
        self.switches.append((t.id, t.step, nxt.id))
        self._enter(nxt)
        t.lock.acquire()

    def me(self):
        t = self.cur
        if t is not None and t.ident == get_ident():
            return t
        return None

    def point(self, kind=""):
        """A preemption point of the running task."""
        t = self.me()
        if t is None or t.noyield or _import_depth.get(t.ident):
            return
        t.step += 1
        self.total += 1
        if self.total > self.max_steps:
            self.over = True
            raise SimAbort("step budget")
        tgt = self.preempt.get((t.id, t.step))
        if tgt is not None and tgt < 0:
            # stalled: the others run on, timeouts expire
            self.stalled += 1
            self.switches.append((t.id, t.step, tgt))
            self.sleep(-tgt)
        elif tgt is not None:
            nxt = self._pick(t, tgt)
            if nxt is not t and nxt is not None:
                self._switch(t, nxt)

    def block(self, ready=None, until=None):
        """Block the running task until ready() or simulated time `until`."""
        t = self.me()
        t.waiting, t.wake = ready, until
        t.state = "blocked"
        nxt = self._pick(t)
        self._switch(t, nxt)
        t.waiting = t.wake = None
        if t.state == "blocked":
            t.state = "ready"

    def sleep(self, dt):
        t = self.me()
        if t is None:
            return
        self.block(None, self.now + max(dt, 0.0))

    def kill_proc(self, proc):
        """Every task of the process stops for good, exactly where it is."""
        self.dead_procs.add(proc)
        me = self.me()
        for t in self.tasks:
            if t.proc == proc and t.state != "done":
                t.state = "dead"
        if me is not None and me.state == "dead":
            self._switch(me, self._pick(me))
            while True:          # never scheduled again
                me.lock.acquire()

    def inject(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1


def with_stalls(rng, preempt, share=0.12):
    """In some runs, some of the preemptions become stalls: the task stops for that long in simulated time."""
    if preempt and rng.random() < share:
        for p in preempt:
            if rng.random() < 0.5:
                p[2] = -rng.choice([0.5, 3.0, 30.0, 400.0, 1e5])
    return preempt


# -- monitoring ----------------------------------------------------------------------
class Interrupt(KeyboardInterrupt):
    """The injected Ctrl-C."""


class NoMemory(MemoryError):
    """The injected allocation failure."""


INJECT = {"int": Interrupt, "mem": NoMemory}


def _ev_line(code, line):
    s = CURRENT
    if s is not None:
        t = s.cur
        if t is not None and t.ident == get_ident():
            s.point("line")
            if t.jumped:
                t.jumped = False
                _ipoint()


def _ipoint():
    s = CURRENT
    if s is None:
        return
    t = s.cur
    if t is None or t.ident != get_ident() or t.noyield:
        return
    t.ipoint += 1
    s.total += 1
    if s.total > s.max_steps:
        s.over = True
        raise SimAbort("step budget")
    k = s.interrupts.get((t.id, t.ipoint))
    if k is not None:
        s.inject("interrupt:" + k)
        e = INJECT[k]("injected at point %d" % t.ipoint)
        t.injected.append(e)
        raise e


def _ev_start(code, off):
    _ipoint()


def _ev_jump(code, off, dest):
    # CPython 3.12 does not consult the exception table when a JUMP callback raises, so the interrupt
    # is delivered at the line event of the loop header the jump leads to
    if dest <= off:
        s = CURRENT
        if s is not None:
            t = s.cur
            if t is not None and t.ident == get_ident():
                t.jumped = True


def _ev_creturn(code, off, fn, arg):
    _ipoint()


def _ev_call(code, off, fn, arg):
    return None


_mode = 0


def monitor(codes, line=True, interrupts=False, instruction=False):
    """Turn on events for the library's code objects."""
    global _mode
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "dst")
        MON.register_callback(TOOL, EV.LINE, _ev_line)
        MON.register_callback(TOOL, EV.INSTRUCTION, _ev_line)
        MON.register_callback(TOOL, EV.PY_START, _ev_start)
        MON.register_callback(TOOL, EV.JUMP, _ev_jump)
        MON.register_callback(TOOL, EV.CALL, _ev_call)
        MON.register_callback(TOOL, EV.C_RETURN, _ev_creturn)
    m = 0
    if line:
        m |= EV.LINE
    if instruction:
        m |= EV.INSTRUCTION
    if interrupts:
        m |= EV.PY_START | EV.JUMP | EV.CALL | EV.LINE
    _mode = m
    for c in codes:
        MON.set_local_events(TOOL, c, m)


def monitor_new_code(c):
    if _mode:
        MON.set_local_events(TOOL, c, _mode)


# -- locks, threads, sleeping ---------------------------------------------------------
class SimLock:
    """threading.Lock / RLock whose waiting is a scheduling event inside a simulation."""
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._n = 0
        self._real = _real_lock()

    def _key(self):
        return get_ident()

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        t = s.me() if s is not None else None
        if t is None:
            if self._reentrant and self._owner == get_ident():
                self._n += 1
                return True
            if self._owner is not None and s is None:
                # nobody else can be running outside a simulation
                if not blocking or timeout >= 0:
                    return False
                raise SimDeadlock("lock is already held")
            self._owner, self._n = get_ident(), 1
            return True
        if self._reentrant and self._owner == t.ident:
            self._n += 1
            return True
        s.point("lock")
        until = None if timeout is None or timeout < 0 else s.now + timeout
        while self._owner is not None:
            if not blocking:
                return False
            if until is not None and s.now >= until:
                return False
            s.block(lambda: self._owner is None, until)
        self._owner, self._n = t.ident, 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant and self._owner != get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    def _at_fork_reinit(self):
        self._owner, self._n = None, 0

    # Condition protocol
    def _is_owned(self):
        return self._owner == get_ident()


class SimRLock(SimLock):
    _reentrant = True

    def _release_save(self):
        st = (self._n, self._owner)
        self._n, self._owner = 0, None
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._n, self._owner = st


def _Lock():
    return SimLock()


def _RLock():
    return SimRLock()


class SimThread(_real_Thread):
    def start(self):
        s = CURRENT
        t = s.me() if s is not None else None
        if t is None:
            return super().start()
        if getattr(self, "_sim_task", None) is not None:
            raise RuntimeError("threads can only be started once")
        s.point("thread.start")
        self._sim_task = s.spawn(self.run, proc=t.proc, name="thread")
        self._sim_task.parent = t.id
        try:
            self._started._flag = True
        except Exception:
            pass

    def join(self, timeout=None):
        st = getattr(self, "_sim_task", None)
        s = CURRENT
        if st is None or s is None or s.me() is None:
            return super().join(timeout) if st is None else None
        s.point("thread.join")
        if st.state not in ("done", "dead"):
            s.block(lambda: st.state in ("done", "dead"), None if timeout is None else s.now + timeout)

    def is_alive(self):
        st = getattr(self, "_sim_task", None)
        if st is None:
            return super().is_alive()
        return st.state not in ("done", "dead")


def _sleep(dt):
    s = CURRENT
    if s is not None and s.me() is not None:
        s.sleep(dt)
    else:
        _real_sleep(dt)


def install_threading():
    import queue
    _threading.Lock = _Lock
    _threading.RLock = _RLock
    _threading.Thread = SimThread
    _thread.allocate_lock = _Lock
    queue.SimpleQueue = queue._PySimpleQueue
    _time.sleep = _sleep


def install_module_locks():
    """The locks of the import machinery become scheduling events, so that modules may be loaded by several tasks at once."""
    import importlib._bootstrap as b

    class Shim:
        RLock = staticmethod(_RLock)
        allocate_lock = staticmethod(_Lock)

        def __getattr__(self, name):
            return getattr(_thread, name)
    b._thread = Shim()


def install_import_guard():
    """No preemption while an import runs: the interpreter's import locks are real."""
    import builtins
    import importlib
    real = builtins.__import__
    real_im = importlib.import_module

    def guarded(name, globals=None, locals=None, fromlist=(), level=0):
        i = get_ident()
        _import_depth[i] = _import_depth.get(i, 0) + 1
        try:
            return real(name, globals, locals, fromlist, level)
        finally:
            _import_depth[i] -= 1

    def guarded_im(name, package=None):
        i = get_ident()
        _import_depth[i] = _import_depth.get(i, 0) + 1
        try:
            return real_im(name, package)
        finally:
            _import_depth[i] -= 1
    builtins.__import__ = guarded
    importlib.import_module = guarded_im
    return real
