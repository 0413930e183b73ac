"""C30: where positions do not determine it, a reconstruction stands upright as the images say."""
import json
import os
import random

import numpy as np

from sim import simproc
from . import c09
from . import common as cm
from . import pipeline as pl
from .c15 import PANO, project, rot

ID = "C30"
BUDGET = {"quick": 45, "thorough": 500}
prepare = pl.prepare
RULE = ("a run reconstructs a generated scene of exact observations whose images have positions that leave the orientation of the scene open (none, one, all equal, on a line) or do not, with one of "
        "the orientation priors, turned cameras and orientation tags, possibly after runs that were killed or met a failing disk; non-trivial when every image was reconstructed; distinct by "
        "dataset and file operations")
COMPONENTS = {"real": ["bin/opensfm_main.py", "opensfm.actions.reconstruct", "opensfm.reconstruction", "opensfm.align", "opensfm.multiview", "opensfm.reconstruction_helpers", "opensfm.dataset",
                       "opensfm.io", "opensfm.types", "C++ map, geometry, robust estimators and bundle adjustment (Ceres)"],
              "stub": ["disk, process death, directory order, hash seed, random numbers"]}
ASSUMPTIONS = ["images are at one height and stand as the prior says", "orientation tags are those of turned cameras (1, 3, 6, 8), not of mirrored images"]
TURN = {1: np.eye(3), 3: np.diag([-1.0, -1, 1]), 6: np.array([[0.0, 1, 0], [-1, 0, 0], [0, 0, 1]]), 8: np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]])}


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 30)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        prior = r.choice(["horizontal", "horizontal", "no_roll", "vertical"])
        yield {"hs": r.choice(cm.HS), "n": r.randrange(4, 7), "kind": r.choice(c09.KINDS[:4] if prior == "vertical" else c09.KINDS), "prior": prior,
               "pos": r.choice(["none", "one", "same", "line", "line", "grid"]), "method": r.choice(["auto", "auto", "orientation_prior"]),
               "tags": r.choice([[1], [1, 3, 6, 8], [6], [3, 8]]), "interval": r.choice([999999, 1, 2]), "local": r.choice([3, 0]), "retri": r.choice([1.2, 3.0]), "focal": r.random() < 0.6,
               "lives": [{"pos": r.random(), "kind": r.choice(["kill", "torn", "err", "err"]), "side": r.choice("mmr"), "errno": r.choice(["EIO", "ENOSPC"]),
                          "frac": r.choice([0, 0.5, 0.9])} for _ in range(r.choice([0, 0, 0, 1]))], "dirseed": r.randrange(1, 1000), "seed": r.randrange(1 << 30)}


def world(sc):
    r = random.Random(sc["seed"])
    g = np.random.RandomState(sc["seed"] % (1 << 31))
    cam = c09.camera(r, sc["kind"])
    pano = sc["kind"] in PANO
    az = g.uniform(-3.1, 3.1)
    Z = lambda a: np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1.0]])
    down = sc["prior"] == "vertical"
    shots = {}
    for i in range(sc["n"]):
        yaw = g.uniform(-0.3, 0.3)
        p = np.array([1.2 * (i - sc["n"] / 2), 0.0 if sc["pos"] == "line" else g.uniform(-1.5, 1.5), 11.0 if down else 1.5])
        if down:
            R = np.diag([1.0, -1, -1]) @ Z(g.uniform(-3.1, 3.1))
        else:  # looks along y
            up = rot([g.uniform(-0.25, 0.25), 0, 0]) if sc["prior"] == "no_roll" else np.eye(3)
            R = up @ np.array([[1.0, 0, 0], [0, 0, -1], [0, 1, 0]]) @ Z(yaw)
        tag = 1 if pano else r.choice(sc["tags"])
        shots["%s%02d.jpg" % (r.choice(["im", "é"]), (7 * i) % 31)] = {"R": TURN[tag] @ R @ Z(az).T, "c": Z(az) @ p, "tag": tag}
    X = np.column_stack([g.uniform(-5, 5, 400), g.uniform(-4, 4, 400), g.uniform(0, 4, 400)]) if down else np.column_stack(
        [g.uniform(-5, 5, 400), g.uniform(5.5, 12, 400), g.uniform(-1.5, 5, 400)])
    if pano and not down:
        X[::2, 1] *= -1
    X = X @ Z(az).T
    rows = []
    for t, x in enumerate(X):
        col = [int(v) for v in g.randint(0, 256, 3)]
        for nm, s in shots.items():
            b = s["R"] @ (x - s["c"])
            if not pano and b[2] < 0.1:
                continue
            u = project(cam, b[None])[0]
            if pano or abs(u[0]) < 0.5 and abs(u[1]) < 0.375:
                rows.append([nm, str(3 * t + 1), len(rows), "%.10g" % u[0], "%.10g" % u[1], "0.004"] + col + [-1, -1])
    return cam, shots, X, rows


def shared(shots, rows):
    """Whether any two images see enough common points."""
    seen = {nm: set() for nm in shots}
    for t in rows:
        seen[t[0]].add(t[1])
    return all(len(seen[a] & seen[b]) >= 70 for a in shots for b in shots)


def make(ds, sc, cam, shots, rows):
    r = random.Random(sc["seed"] + 1)
    os.makedirs(ds + "/images")
    cm.write_config(ds, {"processes": 1, "align_method": sc["method"], "align_orientation_prior": sc["prior"], "bundle_interval": sc["interval"], "local_bundle_radius": sc["local"],
                         "retriangulation_ratio": sc["retri"], "optimize_camera_parameters": sc["focal"]})
    cm.write_json(ds + "/camera_models.json", {"c0": cam})
    names = sorted(shots)
    gps = {"none": [], "one": [r.choice(names)]}.get(sc["pos"], names)
    for nm in names:
        open("%s/images/%s" % (ds, nm), "w").close()
        e = dict(cm.exif_dict(0, cam["width"], cam["height"], "c0"), projection_type=cam["projection_type"], orientation=shots[nm]["tag"])
        if nm in gps:
            la, lo, al = [float(x) for x in c09.to_lla(np.array([3.0, 4.0, 1.0]) if sc["pos"] == "same" else shots[nm]["c"])]
            e["gps"] = {"latitude": la, "longitude": lo, "altitude": al, "dop": 1.0}
        cm.write_json("%s/exif/%s.exif" % (ds, nm), e)
    rows = list(rows)
    r.shuffle(rows)
    with open(ds + "/tracks.csv", "w", encoding="utf8") as f:
        f.write("OPENSFM_TRACKS_VERSION_v2\n" + "".join("\t".join(map(str, t)) + "\n" for t in rows))
    return gps


def judge(ds, sc, shots, X, gps):
    with open(ds + "/reconstruction.json", encoding="utf8") as f:
        recs = json.load(f)
    if len(recs) != 1 or set(recs[0]["shots"]) != set(shots):
        return None, 0  # C09 judges completeness and shapes
    x = recs[0]
    ns = sorted(shots)
    R = {nm: rot(x["shots"][nm]["rotation"]) for nm in ns}
    C = {nm: -R[nm].T @ np.array(x["shots"][nm]["translation"]) for nm in ns}
    if gps:
        Q, o = c09.frame(x["reference_lla"])
    else:
        Q, o = np.eye(3), np.zeros(3)
    T = {nm: Q @ shots[nm]["c"] + o for nm in ns}
    s, A, b = c09.align(np.array([shots[nm]["c"] for nm in ns]), np.array([C[nm] for nm in ns]))
    if max(np.linalg.norm(s * A @ shots[nm]["c"] + b - C[nm]) for nm in ns) / s > 0.05 or len(x["points"]) < 60:
        return None, 0
    # what is up
    tilt = max(np.degrees(np.arccos(np.clip((R[nm].T @ (shots[nm]["R"] @ Q.T))[2, 2], -1, 1))) for nm in ns)
    loose = sc["prior"] == "no_roll"  # not part of the bundle, which may turn what it leaves free
    if tilt > ({"same": 30}.get(sc["pos"], 12) if loose else 3 if sc["pos"] == "same" else 1):  # equal positions pull images to one place
        return ("tilt", "up is %.2f degrees off" % tilt), 0
    # where positions determine more
    if sc["pos"] in ("line", "grid"):
        e = max(np.linalg.norm(C[nm] - T[nm]) for nm in ns)
        a = max(c09.angle(R[nm], shots[nm]["R"] @ Q.T) for nm in ns)
        if e > (1.5 if loose else 0.15) or a > (12 if loose else 2):
            return ("frame", "images are up to %.3f m and %.2f degrees from where their positions say" % (e, a)), 0
        pts = [np.linalg.norm(np.array(p["coordinates"]) - (Q @ X[(int(t) - 1) // 3] + o)) for t, p in x["points"].items()]
        if np.percentile(pts, 80) > (3 if loose else 0.3):
            return ("points", "%d points, 80%% of them within %.3f m" % (len(pts), np.percentile(pts or [9], 80))), 0
    else:
        if sc["pos"] == "one" and np.linalg.norm(C[gps[0]] - T[gps[0]]) > 0.3:
            return ("place", "the only image with a position is %.2f m from it" % np.linalg.norm(C[gps[0]] - T[gps[0]])), 0
        m = np.mean([C[nm] for nm in ns], axis=0) - (Q @ [3.0, 4.0, 1.0] + o)
        if sc["pos"] == "same" and np.linalg.norm(m) > 0.5:
            return ("place", "the images are %.2f m from their common position" % np.linalg.norm(m)), 0
    return None, len(ns)


@pl.guarded
def run(sc, root):
    cam, shots, X, rows = world(sc)
    ds = root + "/ds"
    gps = make(ds, sc, cam, shots, rows)
    ok = shared(shots, rows)
    v, rs, n = [], [], 0
    for j, k in enumerate(list(sc["lives"]) + [None]):
        faults = []
        if k:
            fk = {"at": int(k["pos"] * {"m": 12, "r": 20 + 3 * sc["n"]}[k["side"]]), "side": k["side"], "kind": k["kind"], "frac": k["frac"]}
            if k["kind"] == "err":
                fk["errno"] = "EIO" if k["side"] == "r" else k["errno"]
            elif k["side"] == "r":
                fk["kind"] = "kill"
            faults = [fk]
        res = cm.must_report(simproc.run(lambda: pl.cli("reconstruct", ds), root, faults=faults, seed=sc["seed"] % 1000 + j, dirseed=sc["dirseed"] + j, wall=120))
        rs.append(res)
        what = "%s prior, positions %s, %s, run %d of %d%s" % (sc["prior"], sc["pos"], sc["kind"], j + 1, len(sc["lives"]) + 1, ", a failing disk" if res["fired"] else "")
        if not res["fired"] and res["outcome"] != "ok":
            v.append({"key": "fails:%s" % (res["info"][0] if res["outcome"] == "exc" else res["outcome"]),
                      "msg": "%s: %s %s" % (what, cm.outcome_str(res), (res["info"] or "")[-1][-500:] if res["outcome"] == "exc" else "")})
            break
        if res["outcome"] == "ok" and ok:
            try:
                bad, n = judge(ds, sc, shots, X, gps)
            except Exception as e:
                bad = ("unreadable", "%s: %s" % (type(e).__name__, e))
            if bad:
                v.append({"key": bad[0], "msg": "%s (%s)" % (bad[1], what)})
                break
    return {"violations": v, "nontrivial": repr([sc["seed"], rs[-1]["fshash"]]) if n else None, "trace": rs[-1]["trace"],
            "stats": {"images": n, "lifetimes": len(rs), "pos_" + sc["pos"]: 1, "prior_" + sc["prior"]: 1}, "fired": cm.fired_counts(*rs), "sim_time": sum(x["now"] for x in rs),
            "log": [[x["outcome"], x["fshash"]] for x in rs]}


def shrink(sc):
    for s in cm.subsets(sc["lives"]):
        yield dict(sc, lives=s)
    for k, z in (("n", 4), ("kind", "perspective"), ("tags", [1]), ("interval", 999999), ("local", 3), ("retri", 1.2), ("focal", True), ("method", "auto")):
        if sc[k] != z:
            yield dict(sc, **{k: z})
