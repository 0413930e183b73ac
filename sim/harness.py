"""Parent of a check: plans runs, hands them to workers, minimises and reports.

A check module (checks/cNN.py) provides:
  ID, RULE, ASSUMPTIONS, COMPONENTS
  plan(tier, seed) -> iterator of scenarios (JSON-able dicts, "hs": hash-seed)
  run(scenario, root) -> {"violations": [{"key","msg"}], "nontrivial": str|None,
        "stats": {...counts}, "fired": {...}, "sim_time": s, "log": str}
  shrink(scenario) -> iterator of smaller scenarios        (optional)
  BUDGET = {"quick": s, "thorough": s}                       (optional)
Exit 0 / 1 as the manifest says, 3 for an error of the check itself.
"""
import argparse
import collections
import fnmatch
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sim import build as _build  # noqa: E402
from sim.worker import recv, send  # noqa: E402

HASHSEEDS = (0, 1, 7, 4242)


class HarnessError(Exception):
    pass


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > 2 << 30:
                return d
        except OSError:
            pass
    return "/tmp"


class Worker:
    def __init__(self, prop, ext, seam, hs, scratch, extra_env=None):
        a, b = os.pipe()
        c, d = os.pipe()
        for fd in (a, d):
            os.set_inheritable(fd, True)
        env = {k: os.environ[k] for k in ("PATH", "HOME", "LANG") if k in os.environ}
        env.update(
            VERIF_EXT=ext, LD_PRELOAD=seam, PYTHONHASHSEED=str(hs),
            OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
            OPENCV_FOR_THREADS_NUM="1", PYTHONDONTWRITEBYTECODE="1",
            OPENCV_LOG_LEVEL="SILENT", GLOG_minloglevel="3", TMPDIR=scratch,
            LC_ALL="C.UTF-8", PYTHONMALLOC="malloc" if False else "default",
            MPLCONFIGDIR=_build.OUT + "/mpl", MPLBACKEND="Agg", PYTHONSAFEPATH="1", HOME=scratch)
        env.update(extra_env or {})
        err = open(scratch + "/worker_%d.log" % os.getpid(), "ab")
        self.p = subprocess.Popen(
            [_build.PY, "-u", VERIF + "/sim/worker.py", prop, scratch, str(a), str(d)],
            env=env, pass_fds=(a, d), stdin=subprocess.DEVNULL, stdout=err,
            stderr=err, start_new_session=True)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c
        self.hs = hs
        self.job = None
        self.ready = False

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        os.close(self.w)
        os.close(self.r)


class Pool:
    def __init__(self, prop, nworkers=None, hashseeds=None):
        self.ext, self.seam = _build.build()
        n = nworkers or min(8, os.cpu_count() or 1)
        self.scratch = tempfile.mkdtemp(prefix="osfm-verif-", dir=scratch_base())
        os.chmod(self.scratch, 0o700)
        hss = hashseeds or HASHSEEDS
        self.workers = [Worker(prop, self.ext, self.seam, hss[i % len(hss)], self.scratch)
                        for i in range(max(n, len(hss)))]
        self.pending = {w.hs: collections.deque() for w in self.workers}

    def close(self):
        for w in self.workers:
            w.close()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def log(self):
        out = ""
        for f in os.listdir(self.scratch):
            if f.startswith("worker_"):
                with open(os.path.join(self.scratch, f), errors="replace") as h:
                    out += h.read()[-3000:]
        return out

    def map(self, jobs, deadline=None, stop=None):
        """Yields (index, job, result) as they finish; jobs is an iterator."""
        jobs = iter(jobs)
        idx = 0
        exhausted = False
        backlog = {w.hs: collections.deque() for w in self.workers}
        busy = 0
        while True:
            # feed
            while not exhausted and not (deadline and time.monotonic() > deadline) \
                    and not (stop and stop()):
                free = [w for w in self.workers if w.ready and w.job is None]
                if not any(not backlog[w.hs] for w in free):
                    break
                if sum(map(len, backlog.values())) > 200:
                    break
                try:
                    j = next(jobs)
                except StopIteration:
                    exhausted = True
                    break
                backlog[j.get("hs", self.workers[0].hs)].append((idx, j))
                idx += 1
            over = (deadline and time.monotonic() > deadline) or (stop and stop())
            if over:
                for q in backlog.values():
                    q.clear()
            for w in self.workers:
                if w.ready and w.job is None and backlog[w.hs]:
                    w.job = backlog[w.hs].popleft()
                    send(w.w, w.job[1])
            active = [w for w in self.workers if w.job is not None or not w.ready]
            if not any(w.job is not None for w in self.workers) and (
                    over or exhausted) and not any(backlog.values()):
                return
            r, _, _ = select.select([w.r for w in active], [], [], 300)
            if not r:
                raise HarnessError("workers silent for 300 s")
            for w in active:
                if w.r in r:
                    m = recv(w.r)
                    if m is None:
                        raise HarnessError("a worker died\n" + self.log())
                    if m == "ready":
                        w.ready = True
                        continue
                    i, j = w.job
                    w.job = None
                    yield i, j, m


def known_findings(prop):
    path = VERIF + "/known_findings.json"
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [x for x in data.get("findings", []) if x["property"] == prop]


def run_one(pool, job):
    for _, _, r in pool.map([job]):
        return r


def minimise(pool, mod, job, key, seconds):
    """Greedy: keep the first smaller scenario that shows the same violation."""
    if not hasattr(mod, "shrink"):
        return job, 0
    end = time.monotonic() + seconds
    tries = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        cands = mod.shrink(job)
        found = []
        for i, j, r in pool.map(cands, deadline=end, stop=lambda: bool(found)):
            tries += 1
            if "harness" in r:
                continue
            if any(v["key"] == key for v in r["violations"]):
                found.append((i, j))
        if found:
            job = min(found, key=lambda x: x[0])[1]
            progress = True
    return job, tries


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--determinism", type=int, default=0)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--max", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    try:
        sys.exit(_main(a))
    except SystemExit:
        raise
    except BaseException as e:  # an error of the check, never a verdict
        import traceback
        traceback.print_exc()
        sys.exit(3)


def _main(a):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = importlib.import_module("checks." + a.prop.lower())
    prop = mod.ID
    hss = getattr(mod, "HASHSEEDS", HASHSEEDS)
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        job = rep["scenario"]
        pool = Pool(a.prop, 1, (job.get("hs", 0),))
        try:
            r = run_one(pool, job)
        finally:
            pool.close()
        if "harness" in r:
            print(r["harness"])
            return 3
        for v in r["violations"]:
            print(v["key"], "-", v["msg"])
        print("log", r.get("log"))
        if any(v["key"] == rep["key"] for v in r["violations"]):
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("not reproduced")
        return 0
    if a.determinism:
        return determinism(a, mod, tier, seed, hss)
    print("property=%s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    pool = Pool(a.prop, a.workers or None, hss)
    tb = time.monotonic() - t0
    try:
        return _explore(a, mod, prop, pool, tier, seed, t0, tb)
    finally:
        pool.close()


def _explore(a, mod, prop, pool, tier, seed, t0, tb):
    budget = a.budget or getattr(mod, "BUDGET", {}).get(tier, 45 if tier == "quick" else 600)
    known = known_findings(prop)
    stats = collections.Counter()
    fired = collections.Counter()
    nontriv = set()
    samples = []
    sim_time = 0.0
    runs = 0
    viol = {}  # key -> (idx, job, msg)
    kf = {}
    traces = set()
    slow = 0
    start = time.monotonic()

    jobs = mod.plan(tier, seed)
    if a.max:
        import itertools
        jobs = itertools.islice(jobs, a.max)
    grace = [None]

    def stop():
        return grace[0] is not None and time.monotonic() > grace[0]

    for i, j, r in pool.map(jobs, deadline=start + budget, stop=stop):
        if "harness" in r:
            raise HarnessError("run %d: %s\nscenario %s\n%s" % (
                i, r["harness"], json.dumps(j)[:2000], pool.log()))
        runs += 1
        slow = max(slow, r["wall"])
        stats.update(r.get("stats", {}))
        fired.update(r.get("fired", {}))
        sim_time += r.get("sim_time", 0.0)
        if r.get("trace"):
            traces.add(r["trace"])
        if r.get("nontrivial"):
            if r["nontrivial"] not in nontriv:
                nontriv.add(r["nontrivial"])
                if len(samples) < 4:
                    samples.append({"scenario": j, "result": r.get("log", "")})
        for v in r["violations"]:
            k = next((x for x in known if fnmatch.fnmatchcase(v["key"], x["key"])), None)
            if k is not None:
                kf.setdefault(k["key"], (k, v))
                continue
            if a.v:
                print("run", i, v["key"], v["msg"][:3000], json.dumps(j)[:1500], flush=True)
            if v["key"] not in viol or i < viol[v["key"]][0]:
                viol[v["key"]] = (i, j, v["msg"])
            if grace[0] is None:
                grace[0] = time.monotonic() + 6
    if runs == 0:
        raise HarnessError("no run finished")
    explore_s = time.monotonic() - start

    # a probe that must have been hit in a healthy exploration
    for k, (f, v) in sorted(kf.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    rc = 0
    out = []
    if viol:
        rc = 1
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for n, (key, (i, j, msg)) in enumerate(sorted(viol.items(), key=lambda x: x[1][0])[:3]):
            small, tries = minimise(pool, mod, j, key, 40 if tier == "quick" else 200)
            res = run_one(pool, small)
            if "harness" in res or not any(v["key"] == key for v in res["violations"]):
                small, res = j, run_one(pool, j)
            if "harness" in res or not any(v["key"] == key for v in res["violations"]):
                raise HarnessError("violation %s of run %d did not replay: %s\n%s" % (
                    key, i, msg, json.dumps(j)))
            msg = next(v["msg"] for v in res["violations"] if v["key"] == key)
            path = "%s/replays/%s-%s.json" % (
                VERIF, prop, hashlib.sha256(key.encode()).hexdigest()[:8])
            with open(path, "w") as f:
                json.dump({"property": prop, "key": key, "message": msg, "seed": seed,
                           "run": i, "scenario": small, "minimise_tries": tries,
                           "log": res.get("log")}, f, indent=1)
            out.append((key, path, msg))
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE,
            "samples": samples,
            "runs_per_hour": round(runs / max(explore_s, 1e-9) * 3600),
            "simulated_seconds": round(sim_time, 3),
            "faults_fired": dict(sorted(fired.items())),
            "distinct_interleavings": len(traces),
            "counters": dict(sorted(stats.items())),
            "components": getattr(mod, "COMPONENTS", {}),
            "build_s": round(tb, 2), "explore_s": round(explore_s, 2),
            "slowest_run_s": round(slow, 2),
            "workers": len(pool.workers),
            "known_findings_seen": sorted(kf),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json.tmp" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1)
    os.replace("%s/evidence/%s.json.tmp" % (VERIF, prop), "%s/evidence/%s.json" % (VERIF, prop))
    print("runs=%d nontrivial=%d interleavings=%d faults=%s sim=%.0fs slowest=%.1fs wall=%.1fs" % (
        runs, len(nontriv), len(traces), dict(fired), sim_time, slow, ev["wall_s"]))
    if a.v:
        print(json.dumps(dict(stats), indent=1))
    for key, path, msg in out:
        print("violated: %s\n%s" % (key, msg))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return rc


def determinism(a, mod, tier, seed, hss):
    """Runs the same scenarios in two pools with different worker counts and
    compares the logs."""
    import itertools
    jobs = list(itertools.islice(mod.plan(tier, seed), a.determinism))
    logs = []
    for n in (8, 3):
        pool = Pool(a.prop, n, hss)
        try:
            got = {}
            for i, j, r in pool.map(jobs):
                r.pop("wall", None)
                got[i] = json.dumps(r, sort_keys=True, default=str)
            logs.append(got)
        finally:
            pool.close()
    bad = [i for i in range(len(jobs)) if logs[0].get(i) != logs[1].get(i)]
    print("determinism: %d scenarios, %d differ" % (len(jobs), len(bad)))
    for i in bad[:3]:
        print(i, json.dumps(jobs[i])[:600])
        print(" A", logs[0][i][:1500])
        print(" B", logs[1][i][:1500])
    return 3 if bad else 0


if __name__ == "__main__":
    main()
