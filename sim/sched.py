"""Deterministic thread scheduler.

Real Python threads run one at a time: each is parked on a raw lock and only
the thread the scheduler picked proceeds.  Every blocking primitive the code
under test can reach (locks, conditions, queues, thread start/join, sleep,
clocks) is replaced by one that calls into the scheduler; pre-emption happens
at executed lines (or bytecode instructions) of the repository's own code and
at file operations.  Time is virtual: it jumps to the next deadline when
nothing is runnable.

`patch()` must run before the repository, joblib or multiprocessing is
imported.  Outside a simulation the primitives behave as plain locks.
"""
import _thread
import sys
import time as _time

RAW_LOCK = _thread.allocate_lock
RAW_START = _thread.start_new_thread
REAL = {n: getattr(_time, n) for n in
        ("time", "monotonic", "sleep", "perf_counter", "process_time",
         "time_ns", "monotonic_ns", "perf_counter_ns")}

S = None  # the running simulation


class SimAbort(BaseException):
    pass


class Th:
    __slots__ = ("tid", "go", "ident", "state", "deadline", "waiting", "timed_out",
                 "daemon", "prio", "name", "stalled_until", "py")

    def __init__(self, tid):
        self.tid = tid
        self.go = RAW_LOCK()
        self.go.acquire()
        self.ident = None
        self.state = "run"  # run | block | done
        self.deadline = None
        self.waiting = None
        self.timed_out = False
        self.prio = 0
        self.name = "T%d" % tid
        self.stalled_until = 0.0
        self.py = None


class Sched:
    """mode: dict(kind=walk|pct|none|replay, seed, p, depth, horizon,
    granularity=line|instr, devs={step: tid}, jumps={step: seconds},
    stalls={step: seconds})"""

    EPOCH = 1.7e9

    def __init__(self, mode, on_end, max_steps=200000, code_prefix="/repo/opensfm/"):
        import random as _r
        self.mode = mode
        # instances of Random from the C type: unaffected by seeding of the module
        self.rng = _r.Random(mode.get("seed", 0))
        self.on_end = on_end  # called as on_end(kind, info) when the run cannot go on
        self.max_steps = max_steps
        self.prefix = code_prefix
        self.ths = []
        self.cur = None
        self.step = 0
        self.now = 0.0
        self.wall_off = 0.0
        self.devs = []  # recorded deviations [step, tid]
        self.trace = []  # compact switch log
        self.nswitch = 0
        self.poll = None
        self.idle = 0
        self.npreempt = 0
        self.nstall = 0
        self.njump = 0
        self.dead = False
        self.kind = mode.get("kind", "none")
        self.p = mode.get("p", 0.02)
        self.rep = {int(s): t for s, t in mode.get("devs", [])}
        self.stalls = {int(s): d for s, d in mode.get("stalls", [])}
        self.jumps = {int(s): d for s, d in mode.get("jumps", [])}
        self.maxthreads = 1
        if self.kind == "pct":
            hor = mode.get("horizon", 3000)
            self.changes = sorted(self.rng.randrange(hor) for _ in range(mode.get("depth", 3)))
            self.lowprio = 0
        self._gap()

    # -- thread life -------------------------------------------------------
    def new_thread(self):
        t = Th(len(self.ths))
        t.prio = self.rng.random() + 1
        self.ths.append(t)
        live = sum(1 for x in self.ths if x.state != "done")
        self.maxthreads = max(self.maxthreads, live)
        return t

    def start_main(self):
        t = self.new_thread()
        t.ident = _thread.get_ident()
        self.cur = t

    def spawn(self, fn, args, kwargs):
        t = self.new_thread()

        def body():
            t.go.acquire()
            t.ident = _thread.get_ident()
            try:
                fn(*args, **kwargs)
            finally:
                self.finish(t)

        RAW_START(body, ())
        self.point("spawn")
        return t

    def finish(self, t):
        t.state = "done"
        for s in sentinels.pop(t.ident, ()):
            s._force_release()
        nxt = self.pick(None)
        if nxt is None:
            self.end_deadlock()
        self.cur = nxt
        nxt.go.release()

    # -- choice ------------------------------------------------------------
    def _gap(self):
        # number of points until the next random pre-emption
        if self.kind == "walk" and self.p > 0:
            import math
            u = 1.0 - self.rng.random()
            self.next_pre = self.step + 1 + int(math.log(u) / math.log(1 - min(self.p, 0.999)))
        else:
            self.next_pre = -1

    def runnable(self):
        return [t for t in self.ths if t.state == "run" and t.stalled_until <= self.now]

    def pick(self, cur):
        """Chooses the next thread; advances virtual time when nothing runs."""
        while True:
            r = self.runnable()
            if r:
                break
            ds = [(t.deadline, t.tid) for t in self.ths
                  if t.state == "block" and t.deadline is not None]
            ds += [(t.stalled_until, t.tid) for t in self.ths
                   if t.state == "run" and t.stalled_until > self.now]
            if not ds:
                return None
            self.now = max(self.now, min(ds)[0])
            for t in self.ths:
                if t.state == "block" and t.deadline is not None and t.deadline <= self.now:
                    t.state = "run"
                    t.timed_out = True
                    t.deadline = None
        default = cur if cur in r else r[0]
        if self.kind == "walk":
            choice = default if len(r) == 1 else self.rng.choice(r)
        elif self.kind == "pct":
            choice = max(r, key=lambda t: t.prio)
        elif self.kind == "replay":
            tid = self.rep.get(self.step)
            choice = default
            for t in r:
                if t.tid == tid:
                    choice = t
        else:
            choice = default
        if choice is not default:
            self.devs.append([self.step, choice.tid])
        return choice

    def tick(self):
        self.step += 1
        if self.step > self.max_steps:
            self.on_end("steplimit", self.stacks())
        if self.jumps and self.step in self.jumps:
            self.now += self.jumps[self.step]
            self.njump += 1

    def maybe_stall(self):
        if self.stalls and self.step in self.stalls and sum(
                1 for t in self.ths if t.state != "done") > 1:
            self.cur.stalled_until = self.now + self.stalls[self.step]
            self.nstall += 1
            self.switch("stall")

    # -- points ------------------------------------------------------------
    def point(self, why):
        """A place where another thread may be chosen."""
        if self.dead or _thread.get_ident() != self.cur.ident:
            return
        self.tick()
        if len(self.ths) == 1:
            return
        self.maybe_stall()
        k = self.kind
        if k == "walk":
            if self.step < self.next_pre and why == "line":
                return
            self._gap()
            self.switch(why)
        elif k == "pct":
            while self.changes and self.changes[0] <= self.step:
                self.changes.pop(0)
                self.lowprio -= 1
                self.cur.prio = self.lowprio
            self.switch(why)
        elif k == "replay":
            if self.step in self.rep:
                self.switch(why)

    def switch(self, why):
        me = self.cur
        nxt = self.pick(me)
        if nxt is None:
            self.end_deadlock()
        if nxt is not me:
            self.nswitch += 1
            if why in ("line", "fs"):
                self.npreempt += 1
            self.trace.append((self.step, nxt.tid))
            self.cur = nxt
            nxt.go.release()
            me.go.acquire()

    def block(self, on, timeout):
        """Parks the current thread until wake() or the deadline; returns
        False on timeout."""
        me = self.cur
        self.tick()
        me.state = "block"
        me.waiting = on
        me.timed_out = False
        me.deadline = None if timeout is None else self.now + max(0.0, timeout)
        self.switch("block")
        me.waiting = None
        return not me.timed_out

    def nap(self, d):
        """sleep(d); a thread that polls while nothing else moves oversleeps
        more and more, so that long waits of the others cost few steps."""
        me = self.cur
        n = self.nswitch
        if self.poll == (me.tid, n):
            self.idle = min(self.idle + 1, 14)
        else:
            self.idle = 0
        self.block("sleep", d * (1 << self.idle) if d > 0 else d)
        self.poll = (me.tid, self.nswitch)

    def wake(self, t):
        if t.state == "block":
            t.state = "run"
            t.deadline = None
            t.timed_out = False

    def stacks(self):
        frames = sys._current_frames()
        out = []
        for t in self.ths:
            if t.state == "done":
                continue
            f = frames.get(t.ident)
            st = []
            while f is not None and len(st) < 60:
                fn = f.f_code.co_filename
                if "/sim/sched.py" not in fn:
                    st.append("%s:%d %s" % (fn.replace("/repo/", ""), f.f_lineno, f.f_code.co_name))
                f = f.f_back
            out.append((t.tid, t.state, st))
        return out

    def end_deadlock(self):
        self.on_end("deadlock", self.stacks())

    def drain(self):
        """Process exit: the interpreter joins every non-daemon thread."""
        import threading
        for th in list(threading.enumerate()):
            if th is threading.current_thread() or th.daemon:
                continue
            th.join()


sentinels = {}


class SimLock:
    """Replacement of _thread.lock."""
    __slots__ = ("_l", "_w", "__weakref__")

    def __init__(self):
        self._l = False
        self._w = []

    def acquire(self, blocking=True, timeout=-1):
        s = S
        if s is not None and not s.dead:
            s.point("lock")
            if self._l:
                if not blocking:
                    return False
                dl = None if timeout is None or timeout < 0 else s.now + timeout
                while self._l:
                    left = None if dl is None else dl - s.now
                    if left is not None and left <= 0:
                        return False
                    me = s.cur
                    self._w.append(me)
                    ok = s.block(self, left)
                    if me in self._w:
                        self._w.remove(me)
                    if not ok and self._l:
                        return False
            self._l = True
            return True
        if self._l:
            if not blocking or timeout == 0:
                return False
            # no simulation is running: nothing could release it
            raise RuntimeError("simulated lock would block outside a simulation")
        self._l = True
        return True

    def _force_release(self):
        self._l = False
        s = S
        if s is not None:
            for t in self._w:
                s.wake(t)

    def release(self):
        if not self._l:
            raise RuntimeError("release unlocked lock")
        self._force_release()
        s = S
        if s is not None and not s.dead:
            s.point("unlock")

    def locked(self):
        return self._l

    def _at_fork_reinit(self):
        self._l = False
        self._w = []

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def sim_start_new_thread(fn, args, kwargs={}):
    s = S
    if s is None or s.dead:
        return RAW_START(fn, args, kwargs)
    return s.spawn(fn, args, kwargs).tid + 1000


def sim_set_sentinel():
    l = SimLock()
    s = S
    if s is None:
        return _real_set_sentinel()
    sentinels.setdefault(_thread.get_ident(), []).append(l)
    return l


_real_set_sentinel = getattr(_thread, "_set_sentinel", None)


def v_time():
    return REAL["time"]() if S is None else Sched.EPOCH + S.now + S.wall_off


def v_mono():
    return REAL["monotonic"]() if S is None else S.now + 1000.0


def v_sleep(d):
    if S is None or S.dead:
        return REAL["sleep"](d)
    S.nap(d)


def patch():
    import queue
    import threading
    import timeit
    _time.time = v_time
    _time.monotonic = v_mono
    _time.perf_counter = v_mono
    _time.sleep = v_sleep
    _time.time_ns = lambda: int(v_time() * 1e9)
    _time.monotonic_ns = lambda: int(v_mono() * 1e9)
    _time.perf_counter_ns = lambda: int(v_mono() * 1e9)
    threading._time = v_mono
    queue.time = v_mono
    timeit.default_timer = v_mono
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None
    threading.RLock = threading._PyRLock
    threading._start_new_thread = sim_start_new_thread
    threading._set_sentinel = sim_set_sentinel
    _thread.allocate_lock = SimLock
    _thread.start_new_thread = sim_start_new_thread
    queue.SimpleQueue = queue._PySimpleQueue
    queue._SimpleQueue = queue._PySimpleQueue

    import multiprocessing.pool as mp

    class Notifier(queue._PySimpleQueue):
        """Pool's worker-exit notifications: an OS pipe in the real one."""
        @property
        def _reader(self):
            return self

        def close(self):
            pass

    class Ctx:
        SimpleQueue = Notifier

    def init(self, processes=None, initializer=None, initargs=()):
        mp.Pool.__init__(self, processes, initializer, initargs, context=Ctx())

    def wait(sentinels, notifier, timeout=None):
        notifier.get()
        while not notifier.empty():
            notifier.get()

    mp.ThreadPool.__init__ = init
    mp.Pool._wait_for_updates = staticmethod(wait)


# -- pre-emption at lines of the repository's code ---------------------------
TOOL = 4


def _on_line(code, line):
    s = S
    if not code.co_filename.startswith(("/repo/opensfm/", "/repo/annotation_gui_gcp/")):
        return sys.monitoring.DISABLE
    if s is not None and not s.dead:
        s.point("line")


def _on_instr(code, off):
    s = S
    if not code.co_filename.startswith(("/repo/opensfm/", "/repo/annotation_gui_gcp/")):
        return sys.monitoring.DISABLE
    if s is not None and not s.dead:
        s.point("line")


def monitor(granularity):
    m = sys.monitoring
    try:
        m.use_tool_id(TOOL, "sim")
    except ValueError:
        pass
    if granularity == "instr":
        m.register_callback(TOOL, m.events.INSTRUCTION, _on_instr)
        m.set_events(TOOL, m.events.INSTRUCTION)
    elif granularity == "line":
        m.register_callback(TOOL, m.events.LINE, _on_line)
        m.set_events(TOOL, m.events.LINE)


def unmonitor():
    sys.monitoring.set_events(TOOL, 0)
