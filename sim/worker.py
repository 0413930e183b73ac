"""Zygote: imports everything once, then forks one conductor per run."""
import json
import os
import pickle
import shutil
import signal
import struct
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def read_exact(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            return None
        b += c
    return b


def recv(fd):
    h = read_exact(fd, 4)
    if h is None:
        return None
    return pickle.loads(read_exact(fd, struct.unpack("<I", h)[0]))


def send(fd, obj):
    d = pickle.dumps(obj)
    d = struct.pack("<I", len(d)) + d
    while d:
        d = d[os.write(fd, d):]


def main():
    prop, scratch, rfd, wfd = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    from sim import boot, sched
    boot.boot()
    import importlib
    mod = importlib.import_module("checks." + prop.lower())
    if hasattr(mod, "prepare"):
        mod.prepare()
    send(wfd, "ready")
    n = 0
    while True:
        job = recv(rfd)
        if job is None:
            return
        n += 1
        root = "%s/r%07d_%06d" % (scratch, os.getpid(), n)
        os.makedirs(root)
        crfd, cwfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(crfd)
            os.setsid()
            try:
                os.chdir(root)
                out = mod.run(job, root)
            except BaseException:
                out = {"harness": traceback.format_exc()[-4000:]}
            send(cwfd, out)
            os._exit(0)
        os.close(cwfd)
        t0 = sched.REAL["monotonic"]()
        import select
        out = None
        limit = getattr(mod, "WALL", 200)
        r, _, _ = select.select([crfd], [], [], limit)
        if r:
            out = recv(crfd)
        if out is None:
            out = {"harness": "no answer from the run (wall limit or death)"}
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        os.close(crfd)
        out["wall"] = sched.REAL["monotonic"]() - t0
        shutil.rmtree(root, ignore_errors=True)
        send(wfd, out)


if __name__ == "__main__":
    main()
