"""C27: create_rig assigns every image to its rig instance and finds the relative poses of the rig's cameras.

Each scenario writes a dataset with one or two rigs whose cameras have known relative poses, runs create_rig in one or more process
lifetimes with kills and disk errors, with a stand-in for the structure-from-motion of the calibration subset that reconstructs the
images it is given (some of them, or none) in a frame of its own, and compares what create_rig saves with the truth.
"""
import json
import os
import random

import numpy as np

from checks import c09, c15
from checks import common as cm
from checks import pipeline as pl
from sim import simproc

ID = "C27"
BUDGET = {"quick": 40, "thorough": 600}
RULE = ("a run creates the rigs of a generated dataset in one or more process lifetimes; non-trivial when rig cameras were saved; distinct by "
        "dataset, reconstructions and what the disk holds in the end")
COMPONENTS = {"real": ["opensfm.actions.create_rig", "opensfm.rig", "opensfm.dataset (subset, rig files)", "C++ poses and map"],
              "stub": ["metadata, features, matching, tracks and reconstruction of the calibration subset: a reconstruction with the true poses, noise and losses",
                       "disk at the libc boundary", "clock, randomness"]}
ASSUMPTIONS = ["patterns are literal parts of the names", "instances have distinct capture times and positions"]
HASHSEEDS = cm.HS


def prepare():
    pl.prepare()
    import networkx  # noqa
    import scipy.spatial  # noqa
    import opensfm.rig  # noqa
    import opensfm.actions.create_rig  # noqa


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 27)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        yield {"hs": r.choice(cm.HS), "rigs": [{"m": r.choice([2, 2, 3, 4]), "n": r.choice([2, 3, 5, 8, 16]), "shape": r.choice(["narrow", "ring", "back", "any"]),
                                               "lack": r.choice([0, 0, 0.2, 0.5])} for _ in range(r.choice([1, 1, 2]))],
               "singles": r.choice([0, 0, 2]), "move": r.choice(["straight", "turning", "nadir", "any"]), "noise": r.choice([0, 0, 0.002]), "drop": r.choice([0, 0, 0.05, 0.3]),
               "fail": r.choice([0, 0, 0.3, 0.8]), "size": r.choice([2, 4, 15, 15]), "rounds": r.choice([1, 3, 10]), "complete": r.choice([0.5, 0.85, 1.0]), "prefix": r.random() < 0.2,
               "far": r.random() < 0.2, "old": r.random() < 0.3,
               "lives": [{"pos": r.random(), "kind": r.choice(["kill", "kill", "torn", "err"]), "side": r.choice("mr"), "errno": r.choice(["EIO", "ENOSPC"]), "frac": r.choice([0, 0.5])}
                         for _ in range(r.choice([0, 0, 0, 1, 2]))], "dirseed": r.randrange(1, 1000), "seed": r.randrange(1 << 30)}


class W:
    pass


def world(sc):
    r = random.Random(sc["seed"])
    g = np.random.RandomState(sc["seed"] % (1 << 31))
    w = W()
    w.patterns, w.poses, w.names, w.when, w.where, w.cams = {}, {}, [], {}, {}, {}
    w.true = []  # per rig: camera -> (R, t), from rig to camera
    order = []
    for k, rg in enumerate(sc["rigs"]):
        toks = ["%s%d" % ("AB"[k], i) for i in range(rg["m"])]
        if sc["prefix"] and k == 0:
            toks = ["A1", "A1x", "A1xy", "A1xyz"][:rg["m"]][::-1]  # longer ones first
        T = {}
        for i, t in enumerate(toks):
            yaw = 2 * np.pi * i / rg["m"]
            v = {"narrow": g.uniform(-0.15, 0.15, 3), "ring": np.array([0, yaw if yaw < np.pi else yaw - 2 * np.pi, 0]) + g.uniform(-0.05, 0.05, 3),
                 "back": np.array([0, np.pi * (i % 2), 0]) + g.uniform(-0.03, 0.03, 3), "any": g.uniform(-1.7, 1.7, 3)}[rg["shape"]]
            T["rc_" + t] = (c15.rot(v), g.uniform(-0.5, 0.5, 3))
            w.patterns["rc_" + t] = "(%s_)" % t
        w.true.append(T)
        for j in range(rg["n"]):
            c = np.array([4.0 * j, 0, 10.0]) + g.uniform(-0.5, 0.5, 3) + [0, 100 * k, 0] + ([3000.0, 0, 0] if sc["far"] and j % 2 else [0, 0, 0])
            h = {"straight": 0.3, "turning": g.uniform(-np.pi, np.pi), "nadir": g.choice([0, np.pi]) + g.uniform(-0.1, 0.1), "any": 0}[sc["move"]]
            if sc["move"] == "any":
                R = np.linalg.qr(g.randn(3, 3))[0]
                R = R * np.sign(np.linalg.det(R))
            else:
                R = c15.rot([0, 0, h])
                R = (np.diag([1.0, -1, -1]) if sc["move"] == "nadir" else c15.rot([-np.pi / 2, 0, 0]).T) @ R
                R = c15.rot(g.uniform(-0.05, 0.05, 3)) @ R
            order.append((k, j, R, c))
    r.shuffle(order)
    for n, (k, j, R, c) in enumerate(order):
        for i, (rc, (Rr, tr)) in enumerate(w.true[k].items()):
            if g.rand() < sc["rigs"][k]["lack"] and (i or g.rand() < 0.5):
                continue
            nm = "%s_%03d.jpg" % (rc[3:], j) if k == 0 else "b%03d%s_.jpg" % (j, rc[3:])
            t = Rr @ (-R @ c) + tr
            w.poses[nm] = (Rr @ R, t)
            w.when[nm] = 1000.0 + 5 * n + 0.01 * i
            w.cams[nm] = r.choice(["cam a", "cam b"]) if i > 1 else "cam a"
            w.where[nm] = c
    for i in range(sc["singles"]):
        nm = "other%d.jpg" % i
        w.poses[nm], w.when[nm], w.cams[nm], w.where[nm] = (np.eye(3), np.zeros(3)), 0.0, "cam a", np.zeros(3)
    w.names = sorted(w.poses)
    # what the patterns say
    w.instances, w.singles = {}, []
    for nm in w.names:
        for rc, p in w.patterns.items():
            rest = nm.replace(p[1:-1], "")
            if rest != nm and rest != "":
                w.instances.setdefault(rest, {})[nm] = rc
                break
        else:
            w.singles.append(nm)
    return w


def make(ds, sc, w):
    os.makedirs(ds + "/images")
    cm.write_config(ds, {"processes": 1, "rig_calibration_subset_size": sc["size"], "rig_calibration_max_rounds": sc["rounds"], "rig_calibration_completeness": sc["complete"],
                         "use_altitude_tag": True})
    for nm in w.names:
        with open(ds + "/images/" + nm, "w") as f:
            f.write(nm)
        la, lo, al = c09.to_lla(w.where[nm])
        cm.write_json(ds + "/exif/" + nm + ".exif", {"camera": w.cams[nm], "width": 100, "height": 80, "orientation": 1, "capture_time": w.when[nm],
                                                     "gps": {"latitude": la, "longitude": lo, "altitude": al, "dop": 3.0}})
    c = cm.camera_json(100, 80, 0.9)
    cm.write_json(ds + "/camera_models.json", {"cam a": c, "cam b": c})
    cm.write_json(ds + "/reference_lla.json", dict(zip(("latitude", "longitude", "altitude"), c09.HOME)))
    if sc["old"]:
        cm.write_json(ds + "/rig_cameras.json", {"old": {"rotation": [0, 0, 0], "translation": [0, 0, 0]}})
        cm.write_json(ds + "/rig_assignments.json", {"x": [[w.names[0], "old"]]})
        os.makedirs(ds + "/rig_calibration/images")
        os.symlink(ds + "/images/" + w.names[0], ds + "/rig_calibration/images/" + w.names[0])


def job(ds, sc, w, logfile):
    """In the simulated process: create_rig with a stand-in for structure from motion."""
    from opensfm import actions
    g = np.random.RandomState(sc["seed"] % (1 << 31) + 5)
    steps, n = [], [0]

    def sub(name):
        def f(data, *a):
            steps.append(name)
        return f

    def reconstruct(data, *a):
        d = data.data_path
        im = sorted(os.listdir(d + "/images"))
        good = all(os.path.exists(d + "/images/" + x) for x in im) and os.path.exists(d + "/config.yaml")
        n[0] += 1
        ok = g.rand() >= sc["fail"]
        have = [x for x in im if g.rand() >= sc["drop"]] if ok else []
        S, Rg, tg = 1.7, c15.rot([0.2, 0.1, -0.4]), np.array([5.0, -3, 1])  # the frame of the reconstruction
        shots = {}
        for x in have:
            R, t = w.poses[x]
            o = S * (Rg @ (-R.T @ t)) + tg + g.randn(3) * sc["noise"]
            R2 = c15.rot(g.randn(3) * sc["noise"]) @ R @ Rg.T
            shots[x] = {"rotation": c15.unrot(R2).tolist(), "translation": (-R2 @ o).tolist(), "camera": w.cams[x], "orientation": 1, "capture_time": 0.0}
        with open(logfile, "a") as f:
            f.write(json.dumps({"images": im, "have": have, "good": good, "steps": steps[-4:]}) + "\n")
        recs = [{"cameras": {c: cm.camera_json(100, 80, 0.9) for c in set(w.cams.values())}, "shots": shots, "points": {}}] if shots else []
        if shots and g.rand() < 0.3:
            recs.append({"cameras": recs[0]["cameras"], "shots": {}, "points": {}})
        with open(d + "/reconstruction.json", "w") as f:
            json.dump(recs, f)
    for k in ("extract_metadata", "detect_features", "match_features", "create_tracks"):
        getattr(actions, k).run_dataset = sub(k)
    actions.reconstruct.run_dataset = reconstruct
    return pl.cli("create_rig", ds, "pattern", json.dumps(w.patterns))


def components(w, insts):
    """The instances of one group that calibration may pick from, by time: the biggest of the components linked by six nearest neighbours."""
    P = np.array([np.mean([w.where[x][:2] for x in i], axis=0) for i in insts])
    n = len(insts)
    link = {i: set() for i in range(n)}
    for i in range(n):
        for j in np.argsort(np.linalg.norm(P - P[i], axis=1), kind="stable")[:6]:
            if i != j:
                link[i].add(int(j))
                link[int(j)].add(i)
    seen, out = set(), []
    for i in range(n):
        if i not in seen and link[i]:
            todo, c = [i], set()
            while todo:
                a = todo.pop()
                if a not in c:
                    c.add(a)
                    todo += link[a]
            seen |= c
            out.append(c)
    big = max([len(c) for c in out] or [0])
    return [sorted((insts[i] for i in c), key=lambda x: w.when[min(x)]) for c in out if len(c) == big]


def by_cameras(w):
    groups = {}
    for inst in w.instances.values():
        groups.setdefault(tuple(sorted(set(inst.values()))), []).append(inst)
    return groups


def judge(ds, sc, w, rounds, before):
    v = []
    groups = by_cameras(w)
    want = {c for i in w.instances.values() for c in i.values()}
    half = sc["size"] // 2
    good, last = False, None
    for n, rd in enumerate(rounds):
        if good:
            v.append({"key": "rounds", "msg": "another round after one that calibrated the rig"})
            return v
        if rd["steps"] != ["extract_metadata", "detect_features", "match_features", "create_tracks"] or not rd["good"]:
            v.append({"key": "subset", "msg": "the calibration subset is not complete: %s" % rd})
            return v
        im, picked = set(rd["images"]), 0
        for insts in groups.values():
            mine = im & {x for i in insts for x in i}
            im -= mine
            opts = [[s[max(0, i - half):i + half]] for s in components(w, insts) for i in range(len(s))] or [[[]]]
            fit = [o for [o] in opts if {x for i in o for x in i} == mine]
            if not fit:
                v.append({"key": "subset", "msg": "the calibration subset has %s, which are not up to %d consecutive whole instances of %s" % (
                    sorted(mine), 2 * half, [sorted(i) for s in components(w, insts) for i in s])})
                return v
            picked += len(fit[0])
        if im:
            v.append({"key": "subset", "msg": "the calibration subset has %s, which are of no instance" % sorted(im)})
            return v
        have = set(rd["have"])
        full = [i for i in w.instances.values() if set(i) <= have]
        found = {c for i in full for c in i.values()}
        good = bool(have) and found == want and len(full) >= picked * sc["complete"]
        last = full
    now = state(ds)
    if not good:
        if now != before:
            v.append({"key": "uncalibrated", "msg": "the rig files changed though no round reconstructed enough: %s" % (rounds[-3:],)})
        if len(rounds) > sc["rounds"] + 1:
            v.append({"key": "rounds", "msg": "%d rounds instead of %d" % (len(rounds), sc["rounds"])})
        return v
    if len(rounds) > sc["rounds"] + 1:
        v.append({"key": "rounds", "msg": "%d rounds instead of %d" % (len(rounds), sc["rounds"])})
    if now[0] is None or now[1] is None:
        v.append({"key": "unsaved", "msg": "rig files are missing though the last round reconstructed %d whole instances of %d" % (len(last), picked)})
        return v
    asg = {k: {a: b for a, b in x} for k, x in now[1].items()}
    if asg != w.instances or any(len(x) != len(asg[k]) for k, x in now[1].items()):
        v.append({"key": "assignments", "msg": "the images are assigned as %s, not %s" % (asg, w.instances)})
    if set(now[0]) != want:
        v.append({"key": "cameras", "msg": "the rig cameras are %s, not %s" % (sorted(now[0]), sorted(want))})
        return v
    tol = 1e-6 + 12 * sc["noise"]
    for T in w.true:
        # cameras that occur together in reconstructed instances, directly or by others
        links = [set(i.values()) & set(T) for i in last]
        links = [x for x in links if x]
        done = set()
        for a in T:
            if a in done or a not in want:
                continue
            comp, grew = {a}, True
            while grew:
                new = comp.union(*[x for x in links if x & comp]) if links else comp
                grew, comp = new != comp, new
            done |= comp
            Ka, ta = c15.rot(now[0][a]["rotation"]), np.array(now[0][a]["translation"])
            for b in sorted(comp - {a}):
                Kb, tb = c15.rot(now[0][b]["rotation"]), np.array(now[0][b]["translation"])
                R, t = Kb @ Ka.T, tb - Kb @ Ka.T @ ta
                Rw = T[b][0] @ T[a][0].T
                tw = 1.7 * (T[b][1] - Rw @ T[a][1])
                er = np.linalg.norm(c15.unrot(R @ Rw.T))
                if er > tol or np.linalg.norm(t - tw) > 3 * tol:
                    v.append({"key": "pose", "msg": "camera %s is %.3f degrees and %.4f from where it is to %s (%s, %d whole instances, groups %s)" % (
                        b, np.degrees(er), np.linalg.norm(t - tw), a, [x["shape"] for x in sc["rigs"]], len(last), sorted({tuple(sorted(set(i.values()))) for i in last}))})
                    return v
    with open(ds + "/rig_instances.json") as f:
        out = json.load(f)
    ri = {k: i["rig_camera_ids"] for k, i in out[0].get("rig_instances", {}).items()}
    if len(out) != 1 or set(out[0]["shots"]) != {x for i in w.instances.values() for x in i} or {k: x for k, x in ri.items()} != w.instances:
        v.append({"key": "instances", "msg": "rig_instances.json has instances %s, not %s" % (ri, w.instances)})
    elif set(out[0]["rig_cameras"]) - set(w.cams.values()) != want or any(
            np.abs(np.array(out[0]["rig_cameras"][c][k]) - now[0][c][k]).max() > 1e-9 for c in want for k in ("rotation", "translation")):
        v.append({"key": "instances", "msg": "rig_instances.json has rig cameras %s, not %s" % (out[0]["rig_cameras"], now[0])})
    return v


def judged(*a):
    try:
        return judge(*a)
    except (KeyError, IndexError, TypeError, AttributeError) as e:
        return [{"key": "malformed", "msg": "the rig files are not what they should be: %r" % e}]


def state(ds):
    out = []
    for f in ("rig_cameras.json", "rig_assignments.json"):
        try:
            with open(ds + "/" + f) as h:
                out.append(json.load(h))
        except FileNotFoundError:
            out.append(None)
    return out


def run(sc, root):
    ds = root + "/ds"
    w = world(sc)
    make(ds, sc, w)
    v, rs, log, saved = [], [], [], False
    first = state(ds)
    logfile = root + "/rounds"
    final, mids = None, []
    for n, life in enumerate(sc["lives"] + [None]):
        faults = []
        if life:
            f = {"at": int(life["pos"] * (60 + 12 * len(w.names))), "side": life["side"] if life["kind"] == "err" else "m", "kind": life["kind"], "frac": life["frac"]}
            if life["kind"] == "err":
                f["errno"] = life["errno"] if f["side"] == "m" else "EIO"
                if f["side"] == "r":
                    f["at"] *= 3
            faults = [f]
        before = state(ds)
        if os.path.exists(logfile):
            os.remove(logfile)
        res = cm.must_report(simproc.run(lambda: job(ds, sc, w, logfile), root, seed=sc["seed"] + n, dirseed=sc["dirseed"], faults=faults))
        rs.append(res)
        log.append([res["outcome"], res["fshash"], res["fired"]])
        try:
            now = state(ds)
        except ValueError:
            v.append({"key": "torn", "msg": "a rig file does not parse after %s" % cm.outcome_str(res)})
            break
        if res["outcome"] == "ok":
            rounds = []
            if os.path.exists(logfile):
                with open(logfile) as f:
                    rounds = [json.loads(x) for x in f]
            v += [dict(b, msg=b["msg"] + " (run %d of %d)" % (n + 1, len(sc["lives"]) + 1)) for b in judged(ds, sc, w, rounds, before)]
            saved |= now != first
            if final is None:
                final = now
            elif now != final and not v:
                v.append({"key": "differs", "msg": "create_rig saves other rigs when it is run again"})
        elif res["outcome"] == "exc" and "No Images found" in res["info"][1] and not any(components(w, x) for x in by_cameras(w).values()):
            break  # no instance has another one to be calibrated with
        elif not res["fired"] or res["outcome"] not in ("exc", "killed"):
            v.append({"key": "fails:" + str((res["info"] or [""])[0]), "msg": "create_rig fails: %s %s" % (cm.outcome_str(res), (res["info"] or "")[-1][-500:])})
        else:
            mids.append(now)
        if v:
            break
    for now in mids:
        for k, f in enumerate(("rig_cameras", "rig_assignments")):
            if final is not None and now[k] not in (first[k], final[k]):
                v.append({"key": "partial", "msg": "an interrupted create_rig left another %s.json" % f})
    return {"violations": v[:4], "nontrivial": repr([sc["seed"], rs[-1]["fshash"]]) if saved else None, "trace": repr([sc["seed"], [x["fshash"] for x in rs]]),
            "stats": {"lifetimes": len(rs), "images": len(w.names), "saved": int(saved)}, "fired": cm.fired_counts(*rs), "sim_time": 0, "log": log}


def shrink(sc):
    for s in cm.subsets(sc["lives"]):
        yield dict(sc, lives=s)
    if len(sc["rigs"]) > 1:
        for x in sc["rigs"]:
            yield dict(sc, rigs=[x])
    for i, x in enumerate(sc["rigs"]):
        for k, opts in (("m", [2, 3]), ("n", [2, 3, 5]), ("lack", [0]), ("shape", ["narrow"])):
            for o in opts:
                if x[k] != o and (isinstance(o, str) or o < x[k]):
                    yield dict(sc, rigs=sc["rigs"][:i] + [dict(x, **{k: o})] + sc["rigs"][i + 1:])
    for k, o in (("singles", 0), ("move", "straight"), ("noise", 0), ("drop", 0), ("fail", 0), ("size", 15), ("prefix", False), ("far", False), ("old", False), ("rounds", 1)):
        if sc[k] != o:
            yield dict(sc, **{k: o})
