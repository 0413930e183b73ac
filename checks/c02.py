"""C02: the parallel map behaves as the sequential one, under every schedule."""
import random

from sim import simproc
from . import common as cm

ID = "C02"
BUDGET = {"quick": 30, "thorough": 600}
RULE = ("a run is one program of parallel-map calls (some nested, some with failing or sleeping "
        "items) under one schedule; non-trivial when more than one thread ran and at least one "
        "pre-emption or stall fired; distinct by schedule trace and program")
COMPONENTS = {"real": ["opensfm.context.parallel_map", "joblib threading backend",
                       "multiprocessing.pool.ThreadPool", "cv2 thread count"],
              "stub": ["thread scheduler, locks, clock"]}
ASSUMPTIONS = ["pre-emption only at lines/instructions of repository and workload code, locks and sleeps"]


def call(r, depth=0):
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 9, 14, 25])
    c = {"n": n, "proc": r.choice([1, 2, 2, 3, 4, 8, 16]),
         "batch": r.choice([None, 1, 1, 2, 3, 0, 7]),
         "sleep": [r.choice([0, 0, 0, 0.001, 1, 50]) for _ in range(n)],
         "fail": sorted(r.sample(range(n), min(n, r.choice([1, 1, 2])))) if n and r.random() < 0.3 else [],
         "exc": r.choice(["ValueError", "KeyError", "RuntimeError", "Custom"]),
         "ret": r.choice(["int", "none", "array", "list", "same"]), "nested": None,
         "cv": r.choice([0, 1, 2, 3])}
    if depth == 0 and n and r.random() < 0.2:
        c["nested"] = call(r, 1)
        c["nested"]["fail"] = [] if r.random() < 0.6 else c["nested"]["fail"]
    return c


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 2)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        sc = {"hs": r.choice(cm.HS), "calls": [call(r) for _ in range(r.choice([1, 1, 2, 3]))],
              "mode": cm.pick_mode(r, 800), "gran": r.choice(cm.GRANS), "seed": r.randrange(1 << 30)}
        if r.random() < 0.25:
            sc["mode"]["stalls"] = [[r.randrange(5, 900), r.choice([0.05, 30, 700])]
                                    for _ in range(r.randrange(1, 3))]
        yield sc


class Custom(Exception):
    pass


EXC = {"ValueError": ValueError, "KeyError": KeyError, 
       "RuntimeError": RuntimeError, "Custom": Custom}


def program(calls):
    import time
    import cv2
    import numpy as np
    from opensfm import context

    def value(c, i):
        k = c["ret"]
        if k == "int":
            return i * i
        if k == "none":
            return None if i % 2 else False
        if k == "array":
            return np.full(3, i)
        if k == "list":
            return [i] * (i % 4)
        return 7

    def norm(x):
        if isinstance(x, (list, tuple)):
            return [norm(y) for y in x]
        return x.tolist() if isinstance(x, np.ndarray) else x

    hist = []
    bad = []
    for ci, c in enumerate(calls):
        seen = []
        inside = []
        cv2.setNumThreads(c["cv"])
        before = cv2.getNumThreads()

        def work(i, c=c, seen=seen):
            seen.append(i)
            if cv2.getNumThreads() > 1:
                inside.append(cv2.getNumThreads())
            if c["sleep"][i]:
                time.sleep(c["sleep"][i])
            if c["nested"] and i % 2 == 0:
                nc = c["nested"]
                got = context.parallel_map(
                    lambda j: value(nc, j) if j not in nc["fail"] else fail(nc, j),
                    list(range(nc["n"])), nc["proc"])
                if norm(got) != norm([value(nc, j) for j in range(nc["n"])]):
                    bad.append("nested result %r" % (norm(got),))
            if i in c["fail"]:
                fail(c, i)
            return value(c, i)

        def fail(c, i):
            raise EXC[c["exc"]]("item", i)

        args = list(range(c["n"]))
        kw = {} if c["batch"] is None else {"max_batch_size": c["batch"]}
        nested_fails = bool(c["nested"] and c["nested"]["fail"] and c["n"])
        try:
            got = context.parallel_map(work, args, c["proc"], **kw)
            out = ("ok", norm(got))
        except Exception as e:
            out = ("exc", type(e).__name__, str(e.args))
        after = cv2.getNumThreads()
        if args != list(range(c["n"])):
            bad.append("the argument list was modified")
        if out[0] == "ok":
            if c["fail"] or nested_fails:
                bad.append("call %d returned although item %s raised" % (ci, c["fail"] or "(nested)"))
            want = norm([value(c, i) for i in range(c["n"])])
            if out[1] != want:
                bad.append("call %d returned %r, a sequential map returns %r" % (ci, out[1], want))
            if sorted(seen) != args:
                bad.append("call %d evaluated items %r, expected each of %d once" % (ci, sorted(seen), c["n"]))
        else:
            ok = (c["fail"] and out[1] == EXC[c["exc"]].__name__ and
                  any(out[2] == str(("item", i)) for i in c["fail"]))
            ok = ok or (nested_fails and out[1] == EXC[c["nested"]["exc"]].__name__)
            if not ok:
                bad.append("call %d raised %r; items that fail: %r" % (ci, out, c["fail"]))
            if len(set(seen)) != len(seen):
                bad.append("call %d evaluated an item twice: %r" % (ci, seen))
        if before != after and not (c["nested"]):
            bad.append("call %d left OpenCV with %d threads instead of %d (%s)" % (ci, after, before, out[0]))
        # after a failure joblib abandons items that are still running
        if inside and out[0] == "ok" and not c["nested"]:
            bad.append("call %d ran items with OpenCV threading on (%r)" % (ci, inside[0]))
        hist.append((out[0], len(seen)))
    return hist, bad


def run(sc, root):
    res = cm.must_report(simproc.run(lambda: program(sc["calls"]), root, mode=sc["mode"],
                                     seed=sc["seed"], granularity=sc["gran"], max_steps=150000))
    v = []
    o = res["outcome"]
    if o in ("deadlock", "steplimit"):
        v.append({"key": "hang", "msg": "a parallel map never returns (%s): %s" % (o, cm.stacks_str(res))})
    elif o != "ok":
        v.append({"key": "error", "msg": cm.outcome_str(res) + str(res["info"])[:1500]})
    else:
        for b in res["value"][1][:3]:
            v.append({"key": "result" if "OpenCV" not in b else "opencv-threads", "msg": b})
    nt = None
    if res["threads"] > 1 and (res["npreempt"] or res["nstall"]):
        nt = res["trace"] + str(sc["seed"])
    return {"violations": v, "nontrivial": nt, "trace": res["trace"],
            "stats": {"outcome_" + o: 1, "steps": res["steps"], "calls": len(sc["calls"]),
                      "threads_max_%d" % min(res["threads"], 12): 1,
                      "calls_with_failing_item": sum(bool(c["fail"]) for c in sc["calls"]),
                      "nested": sum(bool(c["nested"]) for c in sc["calls"])},
            "fired": dict(cm.fired_counts(res), failing_item=sum(bool(c["fail"]) for c in sc["calls"])),
            "sim_time": res["now"], "log": [o, res["steps"], res["nswitch"], res["trace"], str(res["value"])[:300]]}


def shrink(sc):
    yield from cm.shrink_mode(sc)
    if len(sc["calls"]) > 1:
        for i in range(len(sc["calls"])):
            yield dict(sc, calls=[sc["calls"][i]])
    for i, c in enumerate(sc["calls"]):
        def put(d):
            return dict(sc, calls=sc["calls"][:i] + [dict(c, **d)] + sc["calls"][i + 1:])
        if c["nested"]:
            yield put({"nested": None})
        for n in sorted({c["n"] // 2, c["n"] - 1}):
            if 0 <= n < c["n"]:
                yield put({"n": n, "sleep": c["sleep"][:n], "fail": [f for f in c["fail"] if f < n]})
        for f in cm.subsets(c["fail"]):
            yield put({"fail": f})
        if any(c["sleep"]):
            yield put({"sleep": [0] * c["n"]})
        for p in range(1, c["proc"]):
            yield put({"proc": p})
        if c["ret"] != "int":
            yield put({"ret": "int"})
