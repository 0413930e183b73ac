"""C05: saving a file of a dataset replaces it whole or leaves it alone."""
import os
import random

from sim import simproc
from . import common as cm
from . import pipeline as pl
from . import stores as st

ID = "C05"
BUDGET = {"quick": 40, "thorough": 900}
RULE = ("a run saves some files, then saves new versions of them (sequentially, by parallel workers, "
        "or beside a reader) while file operations fail, transfer less, or the process is killed; "
        "then saves once more without faults; non-trivial when a fault fired or a reader ran; "
        "distinct by file operations, faults and schedule")
COMPONENTS = {"real": ["opensfm.dataset", "opensfm.large.metadataset", "opensfm.io", "opensfm.features",
                       "opensfm.context", "annotation_gui_gcp.lib.gcp_manager", "OpenCV codecs", "C++ map"],
              "stub": ["disk, its errors and process death at the libc boundary", "thread scheduler, clock, randomness"]}
ASSUMPTIONS = ["process death, not power loss (no fsync is asked for)",
               "a save that raises may leave the old or the new file, but a whole one"]
prepare = st.prepare


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 5)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        u = r.random()
        how = "reader" if u < 0.12 else "par" if u < 0.4 else "seq"
        n = 1 if how == "reader" else r.choice([1, 1, 2, 3])
        tg, files = [], set()
        while len(tg) < n:
            k = r.choice(sorted(st.BY))
            i = r.randrange(len(st.IMAGES))
            f = st.BY[k].files(i)[0]
            if f not in files:
                files.add(f)
                tg.append({"key": k, "i": i, "seed": r.randrange(1 << 30),
                           "old": r.choice([None, r.randrange(1 << 30), r.randrange(1 << 30)])})
        faults = []
        if how != "reader":
            for _ in range(r.choice([1, 1, 1, 2])):
                kind = r.choice(["kill", "torn", "err", "err", "err", "short"])
                f = {"at": r.randrange(6 * n), "side": "m", "kind": kind, "frac": r.choice([0.0, 0.05, 0.5, 0.99])}
                if kind == "err":
                    f.update(errno=r.choice(["ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EACCES"]), sticky=r.random() < 0.5)
                faults.append(f)
        yield {"hs": r.choice(cm.HS), "how": how, "targets": tg, "faults": faults,
               "others": [{"key": k, "i": 0, "seed": r.randrange(1 << 30)} for k in r.sample(sorted(st.BY), 2)],
               "mode": {"kind": "none"} if how == "seq" else cm.pick_mode(r, 300),
               "gran": None if how == "seq" else r.choice(cm.GRANS),
               "dirseed": r.randrange(1, 100), "seed": r.randrange(1 << 20)}


def rel(t):
    return st.BY[t["key"]].files(t["i"])[0]


def decode_at(ds, f):
    p = os.path.join(ds, f)
    if not os.path.exists(p):
        return "ABSENT"
    with open(p, "rb") as fp:
        b = fp.read()
    try:
        return pl.decode(f, b)
    except Exception as e:
        return "UNREADABLE %s (%d bytes)" % (type(e).__name__, len(b))


def save_all(ds, items):
    d = st.dataset(ds)
    for t in items:
        st.BY[t["key"]].save(d, t["i"], st.value(t["key"], t["seed"]))
    return True


def run(sc, root):
    ds, alt = root + "/ds", root + "/alt"
    tg = sc["targets"]
    files = [rel(t) for t in tg]
    others = [o for o in sc["others"] if rel(o) not in files]
    v, results, log = [], [], []

    def sim(fn, k, **kw):
        r = cm.must_report(simproc.run(fn, root, seed=sc["seed"] + k, dirseed=sc["dirseed"], **kw))
        results.append(r)
        log.append([r["outcome"], r["fshash"], r["trace"]])
        return r

    for d in (ds, alt):
        st.make(d)
    olds = [dict(t, seed=t["old"]) for t in tg if t["old"] is not None]
    for d, items, k in ((ds, others + olds, 0), (alt, tg, 1)):
        r = sim(lambda: save_all(d, items), k)
        if r["outcome"] != "ok":
            return {"violations": [{"key": "cannot-save", "msg": cm.outcome_str(r)}], "nontrivial": None}
    new = {f: decode_at(alt, f) for f in files}
    old = {f: decode_at(ds, f) for f in files}
    for f in files:
        if isinstance(new[f], str) and new[f].startswith(("UNREAD", "ABSENT")):
            v.append({"key": "unreadable", "msg": "%s saved without faults is %s" % (f, new[f])})
    before = cm.snapshot(ds)
    rp, wp = os.pipe()

    def one(d, j):
        t = tg[j]
        try:
            st.BY[t["key"]].save(d, t["i"], st.value(t["key"], t["seed"]))
        except Exception as e:
            os.write(wp, b"!" + bytes([j]))
            return type(e).__name__
        os.write(wp, b"+" + bytes([j]))

    def body():
        d = st.dataset(ds)
        if sc["how"] == "seq":
            return [one(d, j) for j in range(len(tg))]
        from opensfm import context
        if sc["how"] == "par":
            return context.parallel_map(lambda j: one(d, j), list(range(len(tg))), len(tg))
        t = tg[0]
        S = st.BY[t["key"]]
        bad = []
        wants = [st.tl(S.want(st.value(t["key"], s))) for s in (t["old"], t["seed"]) if s is not None]
        fixture = st.fixture().get(rel(t))
        if fixture and t["old"] is None:
            wants.append(fixture[2])

        def read(_):
            for _ in range(3):
                if not os.path.exists(os.path.join(ds, rel(t))):
                    continue
                try:
                    got = st.tl(S.load(d, t["i"]))
                except Exception as e:
                    bad.append("a reader beside the writer got %s: %s" % (type(e).__name__, str(e)[:150]))
                    continue
                if all(st.differ(w, got, S.tol) for w in wants):
                    bad.append("a reader beside the writer saw neither version: %s" % st.differ(wants[-1], got, S.tol))
        context.parallel_map(lambda j: read(j) if j else one(d, 0), [0, 1, 2], 3)
        return bad

    r = sim(body, 2, faults=sc["faults"], mode=sc["mode"], granularity=sc["gran"])
    os.close(wp)
    rep = {}
    while True:
        b = os.read(rp, 4096)
        if not b:
            break
        for a, j in zip(b[0::2], b[1::2]):
            rep[j] = chr(a)
    os.close(rp)
    fault = ", ".join("%s at %s %s" % (x[0], x[1], x[2].replace(ds + "/", "")) for x in r.get("fired", [])[:3])
    if r["outcome"] not in ("ok", "killed"):
        v.append({"key": "stops", "msg": "saving %s with %s: %s" % (files, fault, cm.outcome_str(r))})
    if sc["how"] == "reader":
        for b in (r.get("value") or [])[:2]:
            v.append({"key": "torn-read:" + tg[0]["key"], "msg": "%s: %s" % (files[0], b)})
    after = cm.snapshot(ds)
    for f in sorted(before):
        if f not in files and after.get(f) != before[f]:
            v.append({"key": "other-file", "msg": "saving %s (%s) changed %s" % (files, fault, f)})
    for j, f in enumerate(files):
        got = decode_at(ds, f)
        k = tg[j]["key"]
        if got == new[f]:
            continue
        if rep.get(j) == "+":
            v.append({"key": "silent:" + k, "msg": "saving %s reported success, but the file is %s (%s)" % (
                f, got if isinstance(got, str) else "the old one" if got == old[f] else "different", fault)})
        elif got != old[f]:
            v.append({"key": "damaged:" + k, "msg": "saving %s was interrupted (%s): the file is now %s instead of the %s" % (
                f, fault, got if isinstance(got, str) else "different", "old or the new one" if old[f] != "ABSENT" else "new one or absent")})
        elif rep.get(j) == "!" and not r["fired"]:
            v.append({"key": "cannot-save", "msg": "saving %s failed without any fault" % f})
    if not v and r["outcome"] != "harness":
        r2 = sim(lambda: save_all(ds, tg), 3)
        if r2["outcome"] != "ok":
            v.append({"key": "blocked", "msg": "after a failed save (%s) %s cannot be saved again: %s" % (fault, files, cm.outcome_str(r2))})
        for f in files:
            if not v and decode_at(ds, f) != new[f]:
                v.append({"key": "blocked", "msg": "after a failed save (%s) saving %s again does not take effect" % (fault, f)})
    nt = repr(log) if r.get("fired") or sc["how"] == "reader" else None
    return {"violations": v, "nontrivial": nt, "trace": r.get("trace", ""),
            "stats": {"how_" + sc["how"]: 1, "end_" + r["outcome"]: 1, **{"kind_" + t["key"]: 1 for t in tg},
                      "raised": sum(x == "!" for x in rep.values()), "returned": sum(x == "+" for x in rep.values())},
            "fired": cm.fired_counts(*results), "sim_time": sum(x.get("now", 0) for x in results), "log": log}


def shrink(sc):
    for s in cm.subsets(sc["targets"]):
        if s:
            yield dict(sc, targets=s)
    for s in cm.subsets(sc["faults"]):
        yield dict(sc, faults=s)
    if sc["others"]:
        yield dict(sc, others=[])
    if sc["how"] == "par":
        yield dict(sc, how="seq", mode={"kind": "none"}, gran=None)
    yield from cm.shrink_mode(sc)
