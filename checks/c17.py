"""C17: what was saved is what a later process loads."""
import json
import os
import random

from sim import simproc
from . import common as cm
from . import stores as st

ID = "C17"
BUDGET = {"quick": 30, "thorough": 600}
RULE = ("a run is a history of saves over the kinds of files of a dataset, split over one to three "
        "process lifetimes (sequential or by parallel workers, some killed part-way, also tearing a "
        "write), each followed by loading everything in a fresh process; non-trivial when at "
        "least one file was loaded; distinct by the history and the file operations seen")
COMPONENTS = {"real": ["opensfm.dataset", "opensfm.large.metadataset", "opensfm.io", "opensfm.features",
                       "opensfm.types", "opensfm.context", "annotation_gui_gcp.lib.gcp_manager",
                       "C++ map and geometry", "OpenCV codecs"],
              "stub": ["disk and process death at the libc boundary", "thread scheduler, clock, randomness"]}
ASSUMPTIONS = ["process death, not power loss",
               "values are compared to the precision the file format states (tracks: 6 digits, ply: 4 decimals)"]
prepare = st.prepare


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 17)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        lives = []
        keys = r.sample(sorted(st.BY), r.randrange(1, 6))
        if r.random() < 0.5:
            keys = keys[:2]
        for _ in range(r.randrange(1, 4)):
            ops = [{"op": "save" if r.random() < 0.55 else "load", "key": k, "d": r.choice([0, 0, 1]),
                    "i": r.randrange(len(st.IMAGES)), "seed": r.randrange(1 << 30)}
                   for k in (r.choice(keys) for _ in range(r.randrange(2, 11)))]
            par = r.choice([0, 0, 2, 4])
            faults, x = [], r.random()
            if x < 0.35:
                faults = [{"at": r.randrange(5 * len(ops) + 4), "side": "m",
                           "kind": r.choice(["kill", "torn"]), "frac": r.choice([0, 0.3, 0.9])}]
            elif x < 0.75:
                for _ in range(r.choice([1, 1, 2, 3])):
                    side = r.choice("mr")
                    faults.append({"at": r.randrange(4 * len(ops) + 2), "side": side, "kind": "err",
                                   "errno": r.choice(["ENOSPC", "EIO"] if side == "m" else ["EIO", "EMFILE", "ENOMEM"]),
                                   "frac": r.choice([0, 0.5])})
            lives.append({"ops": ops, "par": par, "mode": cm.pick_mode(r, 400) if par else {"kind": "none"},
                          "gran": r.choice(["line", "line", None]) if par else None, "faults": faults})
        yield {"hs": r.choice(cm.HS), "lives": lives, "dirseed": r.randrange(1, 100), "seed": r.randrange(1 << 20)}


def touch(v):
    """What a caller may do with its own data after saving or loading it."""
    if isinstance(v, dict):
        for x in v.values():
            touch(x)
        v["zz"] = "zz"
    elif isinstance(v, list):
        for x in v:
            touch(x)
        v.append("zz")


def outcome(S, d, i):
    try:
        got = S.load(d, i)
    except Exception as e:
        return ["raises", type(e).__name__, str(e)[:200]]
    out = ["value", st.tl(got)]
    touch(got)
    return out


ABSENT = {}


def absent(key, i, root):
    """What loading a record says in a dataset where it was never saved."""
    if (key, i) not in ABSENT:
        d = root + "/fresh"
        if not os.path.exists(d):
            st.make(d)
        r = cm.must_report(simproc.run(lambda: outcome(st.BY[key], st.dataset(d), i), root, seed=1, dirseed=1))
        ABSENT[key, i] = r["value"][:2]
    return ABSENT[key, i]


def judge(S, i, got, cands, gone):
    """None if what a load gave is one of the records that may be there."""
    why = None
    for c in cands:
        if c is None:
            if gone is None or got[:2] == gone:
                return None
            why = "never saved, but loading it gives %s instead of %s" % (str(got)[:150], str(gone)[:150])
            continue
        key, j, want = c
        if key != S.key or j != i:  # another kind of record in the same file
            return None
        if got[0] == "raises":
            why = "cannot be loaded: %s: %s" % (got[1], got[2])
            continue
        why = st.differ(st.tl(want), got[1], S.tol)
        if not why:
            return None
    return why


def run(sc, root):
    ds = root + "/ds"
    st.make(ds)
    model = {f: [x] for f, x in st.fixture().items()}
    v, log, results = [], [], []  # file -> [(key, image, value) or None, ...] that may be there
    nload = 0
    for n, life in enumerate(sc["lives"]):
        ops, seen = [], set()
        for s in life["ops"]:
            f = st.BY[s["key"]].files(s["i"])[0]
            if life["par"] and f in seen:  # parallel users of one file have no defined order
                continue
            seen.add(f)
            ops.append(s)
        gone = {(s["key"], s["i"]): absent(s["key"], s["i"], root) for s in ops if s["op"] == "load"}
        rp, wp = os.pipe()

        def tell(*x):
            os.write(wp, (json.dumps(x) + "\n").encode())

        def one(d, j, cur, nfired):
            s = ops[j]
            S = st.BY[s["key"]]
            f = S.files(s["i"])[0]
            tell("start", j)
            if s["op"] == "save":
                val = st.value(s["key"], s["seed"])
                try:
                    S.save(d, s["i"], val)
                except Exception as e:
                    if len(simproc.fired()) == nfired:
                        tell("bad", j, "cannot-save", "saving %s failed: %s: %s" % (f, type(e).__name__, str(e)[:200]))
                    tell("failed", j)
                    return
                touch(val)
                cur[f] = [(s["key"], s["i"], S.want(st.value(s["key"], s["seed"])))]
                tell("saved", j)
                return
            got = outcome(S, d, s["i"])
            if got[0] == "raises" and len(simproc.fired()) > nfired:
                return
            why = judge(S, s["i"], got, cur.get(f, [None]), gone.get((s["key"], s["i"])))
            if why:
                tell("bad", j, "changed:" + s["key"], "%s saved, then loaded by the same or another process: %s" % (f, why))
            tell("loaded", j)

        def body():
            d = [st.dataset(ds), st.dataset(ds)]
            cur = dict(model)
            if life["par"]:
                from opensfm import context
                context.parallel_map(lambda j: one(d[ops[j]["d"]], j, cur, -1 if life["faults"] else 0),
                                     list(range(len(ops))), life["par"])
            else:
                for j in range(len(ops)):
                    one(d[ops[j]["d"]], j, cur, len(simproc.fired()))
            return True
        r = cm.must_report(simproc.run(body, root, seed=sc["seed"] + n, dirseed=sc["dirseed"], mode=life["mode"],
                                       granularity=life["gran"], faults=life["faults"]))
        os.close(wp)
        data = b""
        while True:
            b = os.read(rp, 65536)
            if not b:
                break
            data += b
        os.close(rp)
        said = [json.loads(x) for x in data.decode().split("\n")[:-1]]
        results.append(r)
        log.append([r["outcome"], r["fshash"], said])
        if r["outcome"] not in ("ok", "killed"):
            v.append({"key": "cannot-run", "msg": "%s: %s" % ([s["key"] for s in ops], cm.outcome_str(r))})
            break
        for x in said:
            if x[0] == "bad":
                v.append({"key": x[2], "msg": x[3]})
            if x[0] == "loaded":
                nload += 1
        state = {x[1]: x[0] for x in said if x[0] != "bad"}
        for j, s in enumerate(ops):
            if s["op"] == "load":
                continue
            S = st.BY[s["key"]]
            f = S.files(s["i"])[0]
            new = (s["key"], s["i"], S.want(st.value(s["key"], s["seed"])))
            if state.get(j) == "saved":
                model[f] = [new]
            elif state.get(j) == "failed":
                pass
            elif r["outcome"] == "ok":
                v.append({"key": "lost-item", "msg": "parallel saves returned but %s was not saved" % f})
            elif state.get(j) == "start":
                model[f] = model.get(f, [None]) + [new]

        def check():
            d = st.dataset(ds)
            out = []
            for f in sorted(model):
                key, i = [x for x in model[f] if x][0][:2]
                if None in model[f] and not os.path.exists(os.path.join(ds, f)):
                    continue
                # a file may hold records of several kinds: any that may be there
                why = None
                for key, i in sorted({x[:2] for x in model[f] if x}):
                    c = [x for x in model[f] if x and x[:2] == (key, i)]
                    why = judge(st.BY[key], i, outcome(st.BY[key], d, i), c, None)
                    if not why:
                        break
                if why:
                    out.append([key, f, why])
            return out
        r = cm.must_report(simproc.run(check, root, seed=sc["seed"] + 50 + n, dirseed=sc["dirseed"]))
        results.append(r)
        log.append([r["outcome"], str(r["value"])])
        if r["outcome"] != "ok":
            v.append({"key": "cannot-load", "msg": cm.outcome_str(r)})
            break
        for key, f, bad in r["value"]:
            v.append({"key": "changed:" + key, "msg": "%s saved, then loaded by another process: %s" % (f, bad)})
        if v:
            break
    kinds = {x[0] for m in model.values() for x in m if x}
    return {"violations": v, "nontrivial": repr([x["fshash"] for x in results]) if model else None,
            "trace": repr([x["trace"] for x in results]),
            "stats": {"files": len(model), "loads": nload, "lifetimes": len(results), "killed": sum(x["outcome"] == "killed" for x in results),
                      **{"kind_" + k: 1 for k in kinds}},
            "fired": cm.fired_counts(*results), "sim_time": sum(x.get("now", 0) for x in results), "log": log}


def shrink(sc):
    for s in cm.subsets(sc["lives"]):
        if s:
            yield dict(sc, lives=s)
    for i, l in enumerate(sc["lives"]):
        def put(**d):
            return dict(sc, lives=sc["lives"][:i] + [dict(l, **d)] + sc["lives"][i + 1:])
        for s in cm.subsets(l["ops"]):
            if s:
                yield put(ops=s)
        for s in cm.subsets(l["faults"]):
            yield put(faults=s)
        if l["par"]:
            yield put(par=0, mode={"kind": "none"}, gran=None)
