"""One simulated lifetime of an operating-system process.

`run()` forks; the child installs the seams (threads, clock, disk, randomness),
executes the given function and reports.  A simulated kill is os._exit at the
chosen file operation: user-space buffers are lost as they would be, what
reached the kernel survives on the scratch disk for the next lifetime.
"""
import ctypes
import errno
import gc
import hashlib
import io
import os
import pickle
import random
import signal
import sys
import time
import traceback

from . import sched

OPN = {1: "open_r", 2: "open_w", 3: "write", 4: "read", 5: "close_w",
       6: "rename", 7: "unlink", 8: "mkdir", 9: "rmdir", 10: "symlink",
       11: "link", 12: "truncate", 13: "fsync", 14: "escape"}
READS = ("open_r", "read")
SPACE = ("open_w", "write", "mkdir", "symlink", "close_w")

_lib = None
CB = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_char_p,
                      ctypes.c_char_p, ctypes.c_long, ctypes.c_int,
                      ctypes.c_void_p)


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.PyDLL(None)
        _lib.simfs_loaded()
    return _lib


class Disk:
    """Decides every file operation below root."""

    def __init__(self, root, plan, report):
        self.root = root
        self.report = report
        self.m = 0  # mutating operations so far
        self.r = 0  # reading operations so far
        self.ops = []  # (op, path, n)
        self.rops = []
        self.fired = []
        self.full = None  # (errno) sticky condition
        self.full_glob = None
        self.plan_m = {}
        self.plan_r = {}
        for f in plan:
            (self.plan_r if f.get("side") == "r" else self.plan_m)[f["at"]] = f
        self.escapes = []
        self.hash = hashlib.sha256()
        self.dead_fds = {}

    def cb(self, op, path, path2, n, fd, buf):
        try:
            return self.decide(OPN[op], path.decode("utf8", "replace"),
                               path2.decode("utf8", "replace"), n, fd, buf)
        except BaseException:
            os.write(2, traceback.format_exc().encode())
            self.report("harness", traceback.format_exc())
            os._exit(98)

    def decide(self, op, path, path2, n, fd, buf):
        lib().simfs_bypass(1)
        try:
            s = sched.S
            if op == "escape":
                self.escapes.append((OPN.get(n, n), path, path2))
                return 0
            if s is not None and not s.dead:
                s.point("fs")
            self.hash.update(("%s %s %s %d\n" % (op, path, path2, n)).encode())
            if op in READS:
                k = self.r
                self.r += 1
                if len(self.rops) < 20000:
                    self.rops.append((op, path))
                f = self.plan_r.get(k)
                if f is not None:
                    return self.fire(f, op, path, n, fd, buf)
                return 0
            k = self.m
            self.m += 1
            if len(self.ops) < 20000:
                self.ops.append((op, path, n))
            f = self.plan_m.get(k)
            if f is not None:
                return self.fire(f, op, path, n, fd, buf)
            if self.full and op in SPACE and not (op == "close_w"):
                if op != "open_w" or (n & os.O_CREAT) or (n & os.O_TRUNC):
                    self.fired.append(["sticky_" + self.full[1], op, path])
                    return self.full[0]
            return 0
        finally:
            lib().simfs_bypass(-1)

    def fire(self, f, op, path, n, fd, buf):
        kind = f["kind"]
        if kind == "kill":
            self.fired.append(["kill", op, path])
            self.die()
        if kind == "torn":
            if op == "write" and buf:
                m = int(n * f.get("frac", 0.5))
                if m:
                    try:
                        os.write(fd, ctypes.string_at(buf, m))
                    except OSError:
                        pass
                self.fired.append(["torn_kill", op, path])
            else:
                self.fired.append(["kill", op, path])
            self.die()
        if kind == "short":
            if op == "write" and n > 1:
                self.fired.append(["short_write", op, path])
                return -(2 + max(1, int(n * f.get("frac", 0.5))))
            return 0
        if kind == "err":
            e = getattr(errno, f["errno"])
            if op in ("unlink", "rmdir", "rename") and f["errno"] == "ENOSPC" and op != "rename":
                return 0
            if op == "fsync" and f["errno"] == "ENOSPC":
                e = errno.EIO
            if f.get("sticky"):
                self.full = (e, f["errno"])
            self.fired.append([f["errno"].lower(), op, path])
            if op == "write" and buf and f.get("frac") and n > 1:
                # what still fitted reaches the disk before the error
                m = int(n * f["frac"])
                if m:
                    try:
                        os.write(fd, ctypes.string_at(buf, m))
                    except OSError:
                        pass
            return e
        if kind == "jump":
            s = sched.S
            if s is not None:
                s.wall_off += f["by"]
                self.fired.append(["clock_jump", op, path])
            return 0
        raise ValueError(kind)

    def die(self):
        self.report("killed", None)
        os._exit(137)


def _permuted(names, rng):
    names = sorted(names)
    if rng is not None:
        rng.shuffle(names)
    return names


class _Scan:
    def __init__(self, it):
        self._it = iter(it)

    def __iter__(self):
        return self._it

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def seed_everything(seed, dirseed):
    import tempfile
    import uuid
    import numpy
    os.getpid = lambda: 4000 + seed % 997
    random.seed(seed)
    lib().simfs_seed(seed & 0x7FFFFFFF)
    numpy.random.seed(seed & 0x7FFFFFFF)
    r = random.Random(seed ^ 0x5EED)
    os.urandom = lambda n: bytes(r.getrandbits(8) for _ in range(n))
    uuid.uuid4 = lambda: uuid.UUID(int=r.getrandbits(128), version=4)
    tempfile._Random = lambda: random.Random(seed ^ 0x7E)
    tempfile._name_sequence = None
    drng = random.Random(dirseed) if dirseed else None
    rl, rs = os.listdir, os.scandir

    def listdir(p="."):
        return _permuted(rl(p), drng)

    def scandir(p="."):
        with rs(p) as it:
            es = sorted(it, key=lambda e: e.name)
        if drng is not None:
            drng.shuffle(es)
        return _Scan(es)

    os.listdir = listdir
    os.scandir = scandir


def run(fn, root, mode=None, faults=(), seed=0, dirseed=0, max_steps=300000,
        granularity=None, wall=300, allow=()):
    """Executes fn() in one simulated process lifetime.  Returns a dict with
    outcome: ok | exc | killed | deadlock | steplimit | harness."""
    mode = mode or {"kind": "none"}
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        _child(fn, root, mode, list(faults), seed, dirseed, max_steps,
               granularity, wfd, allow)
        os._exit(97)
    os.close(wfd)
    chunks = []
    t0 = sched.REAL["monotonic"]()
    import select
    timed = False
    while True:
        left = wall - (sched.REAL["monotonic"]() - t0)
        if left <= 0:
            timed = True
            os.kill(pid, signal.SIGKILL)
            break
        r, _, _ = select.select([rfd], [], [], left)
        if r:
            b = os.read(rfd, 1 << 20)
            if not b:
                break
            chunks.append(b)
    os.close(rfd)
    _, st = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if timed:
        return {"outcome": "walltimeout"}
    if not data:
        if os.WIFSIGNALED(st):
            return {"outcome": "crashed", "signal": os.WTERMSIG(st), "info": None,
                    "value": None, "ops": [], "rops": [], "fired": [], "escapes": [], "steps": 0,
                    "now": 0.0, "m": 0, "r": 0, "devs": [], "nswitch": 0, "npreempt": 0, "nstall": 0,
                    "njump": 0, "threads": 0, "fshash": "crash", "trace": "crash"}
        return {"outcome": "harness", "info": "no report, status %r" % st}
    res = pickle.loads(data)
    return res


DISK = None


def fired():
    """The faults that fired so far (inside a simulated process)."""
    return DISK.fired


def _child(fn, root, mode, faults, seed, dirseed, max_steps, granularity, wfd, allow):
    gc.disable()
    sent = []

    def report(outcome, info, value=None):
        if sent:
            return
        sent.append(1)
        lib().simfs_enable(0)
        s = sched.S
        sched.S = None
        d = disk
        res = {"outcome": outcome, "info": info, "value": value,
               "ops": d.ops, "rops": d.rops, "fired": d.fired, "m": d.m, "r": d.r,
               "escapes": d.escapes,
               "steps": s.step, "now": s.now, "devs": s.devs, "nswitch": s.nswitch,
               "npreempt": s.npreempt, "nstall": s.nstall, "njump": s.njump,
               "threads": s.maxthreads,
               "fshash": d.hash.hexdigest()[:16],
               "trace": hashlib.sha256(repr(s.trace).encode()).hexdigest()[:16]}
        if s.mode.get("_main_threads"):
            pass
        try:
            data = pickle.dumps(res)
        except Exception as e:
            res["value"] = None
            res["outcome"] = "harness"
            res["info"] = "unpicklable result: %r" % e
            data = pickle.dumps(res)
        view = memoryview(data)
        while view:
            view = view[os.write(wfd, view):]

    disk = Disk(root, faults, report)
    global DISK
    DISK = disk

    def on_end(kind, info):
        report(kind, info)
        os._exit(99)

    s = sched.Sched(mode, on_end, max_steps)
    keep = CB(disk.cb)
    L = lib()
    L.simfs_configure(keep, root.encode())
    for a in allow:
        L.simfs_allow(a.encode())
    seed_everything(seed, dirseed)
    import tempfile
    os.makedirs(root + "/.tmp", exist_ok=True)
    tempfile.tempdir = root + "/.tmp"
    s.start_main()
    sched.S = s
    if granularity:
        sched.monitor(granularity)
    L.simfs_enable(1)
    try:
        value = fn()
        if len(s.ths) > 1:
            s.drain()
        outcome, info = "ok", None
    except sched.SimAbort:
        raise
    except SystemExit as e:
        value = None
        outcome, info = ("ok", None) if e.code in (None, 0) else ("exc", ("SystemExit", str(e.code), ""))
    except BaseException as e:
        value = None
        tb = traceback.format_exc()[-3000:]
        L.simfs_enable(0)
        outcome, info = "exc", (type(e).__name__, str(e)[:500].replace(root, "$ROOT"),
                                tb.replace(root, "$ROOT"))
    if granularity:
        sched.unmonitor()
    # interpreter shutdown flushes what is still open
    if outcome == "exc":
        L.simfs_enable(1)
    e = None
    gc.collect()
    L.simfs_enable(0)
    report(outcome, info, value)
    os._exit(0)
