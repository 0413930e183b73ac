"""C31: aligned submodels agree with each other and with the positions of their images."""
import json
import os
import random

import numpy as np

from sim import simproc
from . import c09
from . import common as cm
from . import pipeline as pl
from .c15 import rot, unrot

ID = "C31"
BUDGET = {"quick": 40, "thorough": 400}
prepare = pl.prepare
RULE = ("a run aligns two to four submodels with one or two generated reconstructions each, moved, turned and scaled against each other, possibly with an earlier result, after runs that were killed or "
        "met a failing disk; non-trivial when reconstructions share images; distinct by dataset and file operations")
COMPONENTS = {"real": ["bin/opensfm_main.py", "opensfm.actions.align_submodels", "opensfm.large.tools", "opensfm.large.metadataset", "opensfm.align", "opensfm.reconstruction", "opensfm.multiview",
                       "opensfm.dataset", "opensfm.io", "opensfm.types", "C++ map and reconstruction alignment (Ceres)"],
              "stub": ["disk, process death, directory order, hash seed, random numbers"]}
ASSUMPTIONS = ["positions are as accurate as the images say", "submodels of one dataset have one reference", "the reconstructions of submodels are the same scene up to a similarity"]


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 31)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        subs = r.choice([2, 2, 2, 3])
        gps = r.choice([0.0, 0.0, 2.0, 5.0])
        yield {"hs": r.choice(cm.HS), "subs": subs, "own": r.randrange(3, 6), "share": r.choice([0, 1, 1, 2, 3, 4]), "split": [r.random() < 0.25 for _ in range(subs)],
               "gps": gps, "acc": 3 * gps or r.choice([1.0, 5.0, 15.0]), "move": r.choice([0.0, 3.0, 20.0]), "scale": r.choice([1.0, 1.08, 1.2]), "pts": r.choice([0, 0, 40, 60]),
               "wrong": r.choice([0, 0.2]), "rig": r.random() < 0.3, "missing": r.random() < 0.15, "stale": r.random() < 0.3,
               "lives": [{"pos": r.random(), "kind": r.choice(["kill", "torn", "err", "err"]), "side": r.choice("mmr"), "errno": r.choice(["EIO", "ENOSPC"]),
                          "frac": r.choice([0, 0.5, 0.9])} for _ in range(r.choice([0, 0, 1, 2]))], "dirseed": r.randrange(1, 1000), "seed": r.randrange(1 << 30)}


def world(sc):
    """A scene, and the parts of it that are reconstructed: [(submodel, names, similarity)]."""
    r = random.Random(sc["seed"])
    g = np.random.RandomState(sc["seed"] % (1 << 31))
    n = sc["subs"] * sc["own"]
    names = ["%s%02d.jpg" % (r.choice(["im", "é"]), i) for i in range(n)]
    P = {}
    for i, nm in enumerate(names):
        P[nm] = (rot([g.uniform(-0.2, 0.2), g.uniform(-0.2, 0.2), g.uniform(-3, 3)]) @ np.diag([1.0, -1, -1]), np.array([4.0 * i, g.uniform(-9, 9), 30 + g.uniform(-3, 3)]))
    rigv, rigt = g.randn(3) * 0.1, g.randn(3) * 0.3
    mates = {}
    if sc["rig"]:
        for a, b in zip(names[::2], names[1::2]):
            Ra = P[a][0]
            Rb, tb = rot(rigv) @ Ra, rot(rigv) @ (-Ra @ P[a][1]) + rigt
            P[b] = (Rb, -Rb.T @ tb)
            mates[a] = b
    X = {k: np.array([g.uniform(-10, 4 * n + 10), g.uniform(-12, 12), g.uniform(0, 5)]) for k in range(sc["pts"] * sc["subs"])}
    gps = {nm: P[nm][1] + g.randn(3) * sc["gps"] for nm in names}
    parts = []
    for k in range(sc["subs"]):
        lo, hi = k * sc["own"], min(n, (k + 1) * sc["own"] + (sc["share"] if k + 1 < sc["subs"] else 0))
        mine = names[lo:hi]
        if sc["rig"]:  # whole rigs
            mine = [nm for nm in names if nm in mine or mates.get(nm) in mine or any(b == nm and a in mine for a, b in mates.items())]
        cut = [mine[:len(mine) // 2 + 1], mine[len(mine) // 2:]] if sc["split"][k] and not sc["rig"] and len(mine) >= 4 else [mine]
        for m in cut:
            v = g.randn(3)
            parts.append((k, m, (float(g.uniform(1 / sc["scale"], sc["scale"])), rot(v / np.linalg.norm(v) * np.radians(g.uniform(0, 4)) * (sc["move"] > 0)), g.uniform(-1, 1, 3) * sc["move"])))
    return names, P, X, gps, parts, mates, (rigv, rigt)


def visible(W):
    """{image: {point: place in the image}}."""
    names, P, X = W[:3]
    out = {nm: {} for nm in names}
    for k, x in X.items():
        for nm in names:
            R, c = P[nm]
            b = R @ (x - c)
            if b[2] > 1 and np.abs(b[:2] / b[2] * 0.8).max() < 0.45:
                out[nm][k] = b[:2] / b[2] * 0.8
    return out


def make(ds, sc, W):
    names, P, X, gps, parts, mates, (rigv, rigt) = W
    g = np.random.RandomState(sc["seed"] % (1 << 31) + 1)
    cam = {"projection_type": "perspective", "width": 640, "height": 480, "focal": 0.8, "k1": 0.0, "k2": 0.0}
    os.makedirs(ds + "/images")
    cm.write_config(ds, {"processes": 1})
    ref = dict(zip(("latitude", "longitude", "altitude"), c09.HOME))
    cm.write_json(ds + "/reference_lla.json", ref)
    for nm in names:
        open("%s/images/%s" % (ds, nm), "w").close()
    seen = {nm: sorted(v.items()) for nm, v in visible(W).items()}
    for s in range(sc["subs"]):
        sub = "%s/submodels/submodel_%04d" % (ds, s)
        os.makedirs(sub + "/images")
        cm.write_config(sub, {"processes": 1})
        recs, rows = [], []
        for i, (k, mine, (sc_, A, b)) in enumerate(parts):
            if k != s:
                continue
            rec = {"cameras": {"c0": cam}, "shots": {}, "points": {}, "reference_lla": ref, "rig_instances": {}, "rig_cameras": {}}
            for nm in mine:
                R, c = P[nm]
                R2, c2 = R @ A.T, sc_ * A @ c + b
                rec["shots"][nm] = {"rotation": unrot(R2).tolist(), "translation": (-R2 @ c2).tolist(), "camera": "c0", "gps_position": gps[nm].tolist(), "gps_dop": sc["acc"], "orientation": 1}
            if sc["rig"]:
                rec["rig_cameras"] = {"r0": {"rotation": [0.0] * 3, "translation": [0.0] * 3}, "r1": {"rotation": rigv.tolist(), "translation": (rigt * sc_).tolist()}}
                for nm in mine:
                    if nm in mates:
                        rec["rig_instances"][nm] = {"rotation": rec["shots"][nm]["rotation"], "translation": rec["shots"][nm]["translation"], "rig_camera_ids": {nm: "r0", mates[nm]: "r1"}}
                if len(set(mine) - set(mates) - set(mates.values())):
                    lone = sorted(set(mine) - set(mates) - set(mates.values()))
                    rec["rig_cameras"]["c0"] = {"rotation": [0.0] * 3, "translation": [0.0] * 3}
                    for nm in lone:
                        rec["rig_instances"][nm] = {"rotation": rec["shots"][nm]["rotation"], "translation": rec["shots"][nm]["translation"], "rig_camera_ids": {nm: "c0"}}
            else:
                del rec["rig_instances"], rec["rig_cameras"]
            for t, x in X.items():
                if sum(any(k2 == t for k2, _ in seen[nm]) for nm in mine) >= 2:
                    y = sc_ * A @ x + b
                    if g.rand() < sc["wrong"]:
                        y = y + g.randn(3) * 20
                    rec["points"]["%d" % (7 * t + s)] = {"coordinates": y.tolist(), "color": [1.0, 2.0, 3.0]}
            recs.append(rec)
        mine = sorted({nm for k, m, _ in parts if k == s for nm in m})
        for nm in mine:
            open("%s/images/%s" % (sub, nm), "w").close()
            for f, (t, u) in enumerate(seen[nm]):
                rows.append([nm, "%d" % (7 * t + s), t, "%.10g" % u[0], "%.10g" % u[1], "0.004", 1, 2, 3, -1, -1])
        cm.write_json(sub + "/camera_models.json", {"c0": cam})
        if not (sc["missing"] and s == sc["subs"] - 1):
            cm.write_json(sub + "/reconstruction.json", recs)
        with open(sub + "/tracks.csv", "w", encoding="utf8") as f:
            f.write("OPENSFM_TRACKS_VERSION_v2\n" + "".join("\t".join(map(str, t)) + "\n" for t in rows))
        if sc["stale"] and not (sc["missing"] and s == sc["subs"] - 1):
            cm.write_json(sub + "/reconstruction.aligned.json", [])


def judge(ds, sc, W):
    names, P, X, gps, parts, mates, _ = W
    got, n = [], {}
    for i, (k, mine, T) in enumerate(parts):
        sub = "%s/submodels/submodel_%04d" % (ds, k)
        if not os.path.exists(sub + "/reconstruction.json"):
            if os.path.exists(sub + "/reconstruction.aligned.json"):
                return ("extra", "a submodel without reconstruction was aligned"), 0
            continue
        with open(sub + "/reconstruction.json", encoding="utf8") as f, open(sub + "/reconstruction.aligned.json", encoding="utf8") as h:
            old, new = json.load(f), json.load(h)
        j = n.get(k, 0)
        n[k] = j + 1
        if len(old) != len(new):
            return ("count", "submodel %d has %d reconstructions, %d aligned" % (k, len(old), len(new))), 0
        o, x = old[j], new[j]
        if set(o["shots"]) != set(x["shots"]) or set(o["points"]) != set(x["points"]) or o["cameras"] != x["cameras"] or o.get("reference_lla") != x.get("reference_lla"):
            return ("content", "aligning submodel %d changed its images, points, cameras or reference" % k), 0
        pose = {}
        for nm in mine:
            R = rot(x["shots"][nm]["rotation"])
            pose[nm] = (R, -R.T @ np.array(x["shots"][nm]["translation"]))
        # moved as a whole: from the truth to what is there now
        A = pose[mine[0]][0].T @ P[mine[0]][0]
        c1, c2 = np.array([P[nm][1] for nm in mine]) @ A.T, np.array([pose[nm][1] for nm in mine])
        s = np.linalg.norm(c2 - c2.mean(0)) / np.linalg.norm(c1 - c1.mean(0))
        t = c2.mean(0) - s * c1.mean(0)
        for nm in mine:
            e = max(np.linalg.norm(s * A @ P[nm][1] + t - pose[nm][1]), np.radians(c09.angle(pose[nm][0], P[nm][0] @ A.T)) * 10)
            if e > 0.01:
                return ("bent", "submodel %d is not moved as a whole: %s is off by %.3f" % (k, nm, e)), 0
        so = {q: np.array(p["coordinates"]) for q, p in o["points"].items()}
        if so:
            q, (s0, A0, b0) = sorted(so), T
            back = np.array([A0.T @ (so[z] - b0) / s0 for z in q])
            e = np.abs(s * back @ A.T + t - np.array([x["points"][z]["coordinates"] for z in q])).max()
            if e > 0.02:
                return ("points", "the points of submodel %d do not move with its images, by %.3f" % (k, e)), 0
        good = {(int(q) - k) // 7: np.array(p["coordinates"]) for q, p in x["points"].items() if np.linalg.norm(T[1].T @ (so[q] - T[2]) / T[0] - X[(int(q) - k) // 7]) < 1e-3}
        got.append((k, mine, pose, T[0], good, {(int(q) - k) // 7 for q in x["points"]}))
    if not got:
        return None, 0
    # what holds the parts together: shared images, positions
    pairs = 0
    seen = visible(W)
    for i, (k, m, p, S, pt, al) in enumerate(got):
        if sc["gps"] == 0 and len(m) >= 3:
            e = max(np.linalg.norm(p[nm][1] - P[nm][1]) for nm in m)
            w = max(c09.angle(p[nm][0], P[nm][0]) for nm in m)
            if e > 0.1 or w > 1:
                return ("place", "images of submodel %d are up to %.3f m and %.2f degrees from their exact positions" % (k, e, w)), 0
        for l, m2, p2, S2, pt2, al2 in got[:i]:
            both = set(m) & set(m2)
            if both:
                pairs += 1
                e = max(np.linalg.norm(p[nm][1] - p2[nm][1]) for nm in both)
                w = max(c09.angle(p[nm][0], p2[nm][0]) for nm in both)
                if e > 0.3 or w > 1:
                    return ("apart", "images shared by submodels %d and %d are up to %.3f m and %.2f degrees apart" % (l, k, e, w)), 0
                same = {t for nm in both for t in seen[nm]}
                ids = sorted(same & set(pt) & set(pt2))
                if len(ids) >= 35 and len(ids) > 0.55 * len(same & al & al2) and max(S / S2, S2 / S) < 1.25:
                    d = np.percentile([np.linalg.norm(pt[t] - pt2[t]) for t in ids], 80)
                    if d > 0.3:
                        return ("points", "points shared by submodels %d and %d are %.3f m apart" % (l, k, d)), 0
    if sc["gps"]:  # around their positions
        e = np.mean([p[nm][1] - gps[nm] for k, m, p, S, pt, al in got for nm in m], axis=0)
        if np.linalg.norm(e) > 1.5 * sc["gps"]:
            return ("place", "images are %s from their positions in the mean" % np.round(e, 2)), 0
    return None, pairs


@pl.guarded
def run(sc, root):
    W = world(sc)
    ds = root + "/ds"
    make(ds, sc, W)
    before = cm.snapshot(ds)
    v, rs, n = [], [], 0
    lives = list(sc["lives"]) + [None]
    for j, k in enumerate(lives):
        faults = []
        if k:
            fk = {"at": int(k["pos"] * {"m": 8, "r": 10 + 6 * sc["subs"]}[k["side"]]), "side": k["side"], "kind": k["kind"], "frac": k["frac"]}
            if k["kind"] == "err":
                fk["errno"] = "EIO" if k["side"] == "r" else k["errno"]
            elif k["side"] == "r":
                fk["kind"] = "kill"
            faults = [fk]
        res = cm.must_report(simproc.run(lambda: pl.cli("align_submodels", ds), root, faults=faults, seed=sc["seed"] % 1000 + j, dirseed=sc["dirseed"] + j, wall=100))
        rs.append(res)
        what = "run %d of %d%s, %d submodels sharing %d images" % (j + 1, len(lives), ", a failing disk" if res["fired"] else "", sc["subs"], sc["share"])
        if not res["fired"] and res["outcome"] != "ok":
            v.append({"key": "fails:%s" % (res["info"][0] if res["outcome"] == "exc" else res["outcome"]),
                      "msg": "%s: %s %s" % (what, cm.outcome_str(res), (res["info"] or "")[-1][-500:] if res["outcome"] == "exc" else "")})
            break
        after = cm.snapshot(ds)
        diff = [f for f in before if after.get(f) != before[f] and not f.endswith("aligned.json")]
        if diff:
            v.append({"key": "changed", "msg": "aligning changed %s (%s)" % (diff[:3], what)})
            break
        if res["outcome"] == "ok":
            try:
                bad, n = judge(ds, sc, W)
            except Exception as e:
                bad = ("unreadable", "%s: %s" % (type(e).__name__, e))
            if bad:
                v.append({"key": bad[0], "msg": "%s (%s)" % (bad[1], what)})
                break
    return {"violations": v, "nontrivial": repr([sc["seed"], rs[-1]["fshash"]]) if n else None, "trace": rs[-1]["trace"],
            "stats": {"pairs": n, "lifetimes": len(rs), "share_%d" % sc["share"]: 1}, "fired": cm.fired_counts(*rs), "sim_time": sum(x["now"] for x in rs),
            "log": [[x["outcome"], x["fshash"]] for x in rs]}


def shrink(sc):
    for s in cm.subsets(sc["lives"]):
        yield dict(sc, lives=s)
    for k, z in (("subs", 2), ("split", [False] * sc["subs"]), ("gps", 0.0), ("rig", False), ("missing", False), ("stale", False), ("wrong", 0), ("pts", 0), ("scale", 1.0), ("move", 0.0), ("acc", 15.0)):
        if sc[k] != z:
            yield dict(sc, **{k: z})
