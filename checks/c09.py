"""C09: reconstructed images and points agree with their tracks, their GPS and each other."""
import json
import os
import random

import numpy as np

from sim import simproc
from . import c15
from . import common as cm
from . import pipeline as pl
from .c15 import PANO, project, rot, unrot

ID = "C09"
BUDGET = {"quick": 50, "thorough": 700}
prepare = pl.prepare
RULE = ("a run reconstructs generated tracks of a scene of known geometry (incrementally, by triangulation from metadata, from a prior "
        "reconstruction, or by bundling one), possibly after runs that were killed or met a failing disk, under a random schedule, hash seed, "
        "directory order and stream of random numbers; non-trivial when an image was reconstructed; distinct by scene, files and schedule")
COMPONENTS = {"real": ["bin/opensfm_main.py", "opensfm.commands", "opensfm.actions.reconstruct, reconstruct_from_prior and bundle",
                       "opensfm.reconstruction", "opensfm.reconstruction_helpers", "opensfm.align", "opensfm.rig", "opensfm.tracking",
                       "opensfm.dataset", "opensfm.io", "opensfm.context (joblib)", "C++ map, geometry, robust, sfm and bundle (with a stand-in for Ceres, see DESIGN.md)"],
              "stub": ["disk, worker processes (threads of the simulator), process death, directory order, hash seed, random numbers"]}
ASSUMPTIONS = ["scenes are well conditioned: overlapping views of a scene with depth, noise far under the thresholds, few wrong observations",
               "a reprojection error within 2% of the threshold is not judged"]
THR = 0.006
KINDS = ["perspective", "perspective", "brown", "fisheye", "spherical"]


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 9)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        cmd = r.choice(["inc", "inc", "inc", "tri", "prior", "prior", "bundle", "ext", "ext"])
        yield {"hs": r.choice(cm.HS), "cmd": cmd, "n": r.choice([2, 3, 4, 5, 6, 7]) if cmd == "inc" else r.randrange(3, 9),
               "pts": r.choice([160, 250]), "kind": r.choice(KINDS), "ncam": r.choice([1, 1, 2]),
               "clusters": r.choice([1, 1, 1, 2]), "orphans": r.choice([0, 0, 1, 2]), "rig": r.random() < 0.3,
               "noise": r.choice([0, 1e-4, 3e-4]), "out": r.choice([0, 0, 0.02, 0.04]), "gps": r.choice([0, 0, 0.2]),
               "nogps": r.choice([0, 0, 0, 0.3]), "multi": r.random() < 0.2, "gcp": r.choice([0, 0, 5]),
               "robust": r.random() < 0.3, "three": cmd == "prior" and r.random() < 0.5, "filter": r.random() < 0.2, "optcam": r.random() < 0.6, "partial": r.random() < 0.1,
               "local": r.choice([3, 3, 0, 1]), "interval": r.choice([999999, 1, 2]), "retri": r.choice([1.2, 1.2, 3.0]),
               "bias": r.random() < 0.1, "part": r.choice([0, 0, 1]), "io": r.random() < 0.4, "procs": r.choice([1, 2, 3]),
               "lives": [{"pos": r.random(), "kind": r.choice(["kill", "torn", "err", "err"]), "side": r.choice("mmr"),
                          "errno": r.choice(["EIO", "ENOSPC"]), "frac": r.choice([0, 0.5, 0.9])} for _ in range(r.choice([0, 0, 0, 1, 2]))],
               "mode": cm.pick_mode(r, 2000), "dirseed": r.randrange(1, 1000), "seed": r.randrange(1 << 30)}


# ---- the world -----------------------------------------------------------

A, E2 = 6378137.0, 6.69437999014e-3


def ecef(lat, lon, alt):
    a, o = np.radians(lat), np.radians(lon)
    n = A / np.sqrt(1 - E2 * np.sin(a) ** 2)
    return np.array([(n + alt) * np.cos(a) * np.cos(o), (n + alt) * np.cos(a) * np.sin(o), (n * (1 - E2) + alt) * np.sin(a)])


def enu_axes(lat, lon):
    a, o = np.radians(lat), np.radians(lon)
    return np.array([[-np.sin(o), np.cos(o), 0], [-np.sin(a) * np.cos(o), -np.sin(a) * np.sin(o), np.cos(a)],
                     [np.cos(a) * np.cos(o), np.cos(a) * np.sin(o), np.sin(a)]])


def lla(p):
    x, y, z = p
    lon = np.arctan2(y, x)
    q = np.hypot(x, y)
    lat, alt = np.arctan2(z, q * (1 - E2)), 0.0
    for _ in range(20):
        n = A / np.sqrt(1 - E2 * np.sin(lat) ** 2)
        alt = q / np.cos(lat) - n
        lat = np.arctan2(z, q * (1 - E2 * n / (n + alt)))
    return np.degrees(lat), np.degrees(lon), alt


HOME = (47.3, 8.6, 420.0)


def to_lla(p):
    return lla(ecef(*HOME) + enu_axes(*HOME[:2]).T @ p)


def frame(ref):
    """(Q, o): the local frame of HOME in the local frame of `ref`: q = Q p + o."""
    B = enu_axes(ref["latitude"], ref["longitude"])
    return B @ enu_axes(*HOME[:2]).T, B @ (ecef(*HOME) - ecef(ref["latitude"], ref["longitude"], ref["altitude"]))


def camera(r, kind):
    c = {"projection_type": kind, "width": 640, "height": 480}
    if kind in PANO:
        c["height"] = 320
    elif kind == "brown":
        f = r.uniform(0.75, 0.95)
        c.update(focal_x=f, focal_y=f, c_x=r.uniform(-0.02, 0.02), c_y=r.uniform(-0.02, 0.02), k1=r.uniform(-0.1, 0.1), k2=0.01, k3=0.0, p1=0.001, p2=-0.001)
    else:
        c.update(focal=r.uniform(0.75, 0.95), k1=r.uniform(-0.08, 0.08), k2=0.01)
    return c


def world(sc):
    r = random.Random(sc["seed"])
    g = np.random.RandomState(sc["seed"] % (1 << 31))
    pano = sc["kind"] in PANO
    cams = {"c%d" % i: camera(r, sc["kind"]) for i in range(sc["ncam"])}
    rigc = {}
    if sc["rig"]:
        for k in range(2):
            if pano:
                v, t = g.uniform(-0.2, 0.2, 3), np.array([1.2 * k, 0.1, 0.05])
            else:
                v, t = np.array([0.15 - 0.3 * k, 0.1 * k, 0.2 * k]), np.array([0.9 - 1.8 * k, 0.1 * k, 0.1])
            rigc["rc%d" % k] = {"rotation": v.tolist(), "translation": t.tolist()}
    shots, insts, points = {}, {}, []
    for c in range(sc["clusters"]):
        off = np.array([300.0 * c, 20.0 * c, 0])
        k = 0
        while k < sc["n"]:
            yaw = g.uniform(-3.1, 3.1)
            if pano:
                p = off + [2.0 * (k % 2) + g.uniform(-0.3, 0.3), 1.6 * (k // 2) + g.uniform(-0.3, 0.3), g.uniform(0, 1.2)]
                R = rot(g.uniform(-0.1, 0.1, 3)) @ np.array([[1, 0, 0], [0, 0, -1], [0, 1, 0]]) @ rot([0, 0, yaw])
            else:
                p = off + [2.2 * (k % 3) + g.uniform(-0.4, 0.4), 2.0 * (k // 3) + g.uniform(-0.4, 0.4), 9 + g.uniform(-1, 1)]
                R = rot(g.uniform(-0.2, 0.2, 3)) @ np.array([[1, 0, 0], [0, -1, 0], [0, 0, -1]]) @ rot([0, 0, yaw])
            cams_ = ["rc0", "rc1"] if sc["rig"] else [None]
            inst = "i%d_%d" % (c, k)
            for q, rc in enumerate(cams_):
                nm = "%s%d_%d%s.jpg" % ("éb"[c], k, q, "x" * (k % 2))
                Rs, ps = R, p
                if rc:
                    Rc, tc = rot(rigc[rc]["rotation"]), np.array(rigc[rc]["translation"])
                    Rs, ts = Rc @ R, Rc @ (-R @ p) + tc
                    ps = -Rs.T @ ts
                    insts.setdefault(inst, []).append([nm, rc])
                shots[nm] = {"R": Rs, "c": ps, "cam": "c%d" % ((q if rc else k) % sc["ncam"]), "cluster": c, "orphan": False, "inst": inst if rc else nm}
                k += 1
        n = sc["pts"]
        if pano:
            a = g.uniform(0, 2 * np.pi, n)
            X = np.column_stack([np.cos(a), np.sin(a), g.uniform(-0.4, 0.6, n)]) * g.uniform(3.5, 8, n)[:, None] + off + [1, 1.5, 0.5]
        else:
            X = np.column_stack([g.uniform(-4, 9, n), g.uniform(-4, 7, n), g.uniform(0, 4, n)]) + off
        points += [(c, x) for x in X]
    for k in range(sc["orphans"]):
        s = shots[sorted(x for x in shots)[k % len(shots)]]
        shots["z%d.jpg" % k] = dict(s, c=s["c"] + 0.2, orphan=True, inst="z%d.jpg" % k)
    tracks, truth = [], {}
    for t, (c, x) in enumerate(points):
        tid = str(7 * t + 1)
        truth[tid] = x
        col = [int(v) for v in g.randint(0, 256, 3)]
        for nm, s in shots.items():
            if s["cluster"] != c:
                continue
            b = s["R"] @ (x - s["c"])
            if not pano and b[2] < 0.1:
                continue
            u = project(cams[s["cam"]], b[None])[0]
            if not pano and (abs(u[0]) > 0.49 or abs(u[1]) > 0.36) or g.rand() < 0.15 or s["orphan"] and g.rand() < 0.98 - 4.0 / sc["pts"]:
                continue
            bad = g.rand() < sc["out"]
            e = g.randn(2) * sc["noise"] / (6.28 if pano else 1)
            u = g.uniform(-0.35, 0.35, 2) if bad and not pano else g.uniform([-0.5, -0.25], [0.5, 0.25]) if bad else u + e
            tracks.append([nm, tid, len(tracks), "%.9g" % u[0], "%.9g" % u[1], "0.004"] + (
                [int(v) for v in g.randint(0, 256, 3)] if sc["multi"] else col) + [-1, -1, bad])
    if sc["three"]:
        # tracks of three observations, one of them wrong
        by = {}
        for t in tracks:
            by.setdefault(t[1], []).append(t)
        drop = set()
        for tid in sorted(by)[::3]:
            ts = [t for t in by[tid] if not t[-1]]
            if len(ts) < 3:
                continue
            ts = [ts[k] for k in g.permutation(len(ts))[:3]]
            drop |= {t[2] for t in by[tid]} - {t[2] for t in ts}
            b = ts[0]
            b[3], b[4], b[-1] = "%.9g" % (float(b[3]) + g.choice([-0.13, 0.13])), "%.9g" % (float(b[4]) + g.choice([-0.12, 0.12])), True
        tracks = [t for t in tracks if t[2] not in drop]
    few = {}
    for t in tracks:
        if shots[t[0]]["orphan"]:
            few[t[0]] = few.get(t[0], 0) + 1
    tracks = [t for t in tracks if few.get(t[0], 0) < 9]
    return cams, rigc, shots, insts, truth, tracks


def opk_of(R):
    from opensfm import geometry
    return dict(zip(("omega", "phi", "kappa"), [float(np.degrees(x)) for x in geometry.opk_from_rotation(R)]))


def rec_json(cams, rigc, shots, insts, points, ref, move=None):
    """A reconstruction file: true poses, or moved by `move` (a function of the name)."""
    Q, o = frame(ref)
    out, ri = {}, {}
    pose = {}
    for nm, s in shots.items():
        R, c = s["R"] @ Q.T, Q @ s["c"] + o
        pose[nm] = (R, c)
    for i, ms in insts.items():
        if not all(nm in shots for nm, _ in ms):
            continue
        nm, rc = ms[0]
        Rc, tc = rot(rigc[rc]["rotation"]), np.array(rigc[rc]["translation"])
        R, t = Rc.T @ pose[nm][0], Rc.T @ (-pose[nm][0] @ pose[nm][1] - tc)
        if move:
            a, b = move(i)
            R, t = a @ R, a @ (t - R @ b)
        ri[i] = {"rotation": unrot(R).tolist(), "translation": t.tolist(), "rig_camera_ids": dict(ms)}
        for nm, rc in ms:
            Rc, tc = rot(rigc[rc]["rotation"]), np.array(rigc[rc]["translation"])
            pose[nm] = (Rc @ R, -(Rc @ R).T @ (Rc @ t + tc))
    for nm, s in shots.items():
        if move and s["inst"] == nm:
            a, b = move(nm)
            pose[nm] = (a @ pose[nm][0], pose[nm][1] + b)
        R, c = pose[nm]
        out[nm] = {"rotation": unrot(R).tolist(), "translation": (-R @ c).tolist(), "camera": s["cam"], "gps_position": s["gpsxyz"],
                   "gps_dop": 1.0, "orientation": 1, "skey": "s"}
        if s["gpsxyz"] is None:
            del out[nm]["gps_position"], out[nm]["gps_dop"]
    rec = {"cameras": cams, "shots": out, "points": {t: {"coordinates": x.tolist(), "color": [1.0, 2.0, 3.0]} for t, x in points.items()}, "reference_lla": ref}
    if ri:
        rec["rig_cameras"] = dict(rigc)
        for nm, s in shots.items():
            if s["inst"] == nm:
                rec["rig_cameras"][s["cam"]] = {"rotation": [0.0] * 3, "translation": [0.0] * 3}
                ri[nm] = {"rotation": out[nm]["rotation"], "translation": out[nm]["translation"], "rig_camera_ids": {nm: s["cam"]}}
        rec["rig_instances"] = ri
    return rec


def make(ds, sc, cams, rigc, shots, insts, truth, tracks):
    r = random.Random(sc["seed"] + 1)
    g = np.random.RandomState((sc["seed"] + 1) % (1 << 31))
    os.makedirs(ds + "/images")
    cm.write_config(ds, {"processes": sc["procs"], "triangulation_type": "ROBUST" if sc["robust"] else "FULL", "filter_final_point_cloud": sc["filter"],
                         "optimize_camera_parameters": sc["optcam"], "save_partial_reconstructions": sc["partial"], "local_bundle_radius": sc["local"],
                         "bundle_interval": sc["interval"], "retriangulation_ratio": sc["retri"], "bundle_compensate_gps_bias": sc["bias"]})
    cm.write_json(ds + "/camera_models.json", cams)
    for nm, s in shots.items():
        open("%s/images/%s" % (ds, nm), "w").close()
        c = cams[s["cam"]]
        s["gps"] = None
        e = dict(cm.exif_dict(0, c["width"], c["height"], s["cam"]), opk=opk_of(s["R"]), projection_type=c["projection_type"])
        if r.random() >= sc["nogps"] or (s["cluster"], s["orphan"]) not in [(x["cluster"], x["orphan"]) for x in shots.values() if x.get("gps")] and sc["nogps"]:
            la, lo, al = to_lla(s["c"] + g.randn(3) * sc["gps"])
            s["gps"] = [la, lo, al]
            e["gps"] = {"latitude": la, "longitude": lo, "altitude": al, "dop": 1.0}
        cm.write_json("%s/exif/%s.exif" % (ds, nm), e)
    r.shuffle(tracks)
    with open(ds + "/tracks.csv", "w") as f:
        f.write("OPENSFM_TRACKS_VERSION_v2\n" + "".join("\t".join(map(str, t[:-1])) + "\n" for t in tracks))
    if rigc:
        cm.write_json(ds + "/rig_cameras.json", rigc)
        cm.write_json(ds + "/rig_assignments.json", insts)
    if sc["gcp"]:
        ps = []
        for t in sorted(truth)[:: max(1, len(truth) // (2 * sc["gcp"]))]:
            obs = [{"shot_id": x[0], "projection": [float(x[3]), float(x[4])]} for x in tracks if x[1] == t and not x[-1]]
            if len(obs) >= 2:
                la, lo, al = to_lla(truth[t])
                ps.append({"id": "g" + t, "position": {"latitude": la, "longitude": lo, "altitude": al}, "observations": obs})
        cm.write_json(ds + "/ground_control_points.json", {"points": ps})
    ref = None
    if sc["cmd"] in ("prior", "bundle", "ext"):
        ref = dict(zip(("latitude", "longitude", "altitude"), [float(x) for x in to_lla(np.array([10.0, -20.0, 3.0]))]))
        cm.write_json(ds + "/reference_lla.json", ref)
        Q, o = frame(ref)
        for s in shots.values():
            s["gpsxyz"] = None if s["gps"] is None else (Q @ (enu_axes(*HOME[:2]) @ (ecef(*s["gps"]) - ecef(*HOME))) + o).tolist()
        keep = dict(shots)
        if sc["part"] and sc["cmd"] == "prior":
            gone = shots[sorted(shots)[0]]["inst"]
            keep = {k: s for k, s in shots.items() if s["inst"] != gone}
        if sc["cmd"] == "ext":
            first = sorted({s["inst"] for s in shots.values() if s["cluster"] == 0 and not s["orphan"]})
            first = r.sample(first, max(2, len(first) * r.choice([1, 2]) // 3))
            keep = {k: s for k, s in shots.items() if s["inst"] in first and not s["orphan"]}
        mv = {}
        if sc["cmd"] == "bundle":
            mv = {i: (rot(g.randn(3) * 0.004), g.randn(3) * 0.04) for i in sorted({s["inst"] for s in shots.values()})}
        seen = {}
        for t in tracks:
            if not t[-1] and t[0] in keep:
                seen.setdefault(t[1], set()).add(t[0])
        pts = {t: Q @ truth[t] + o + g.randn(3) * 0.03 * bool(mv) for t in truth if len(seen.get(t, ())) >= 2 and (mv or spread(truth[t], [shots[nm]["c"] for nm in seen[t]]) > 3)} if sc["cmd"] != "prior" else {}
        rec = rec_json(cams, rigc, keep, insts, pts, ref, (lambda i: mv[i]) if mv else None)
        cm.write_json("%s/%s" % (ds, "in.json" if sc["cmd"] in ("prior", "ext") or sc["io"] else "reconstruction.json"), [rec])
    return ref


def spread(x, cs):
    """The widest angle under which x sees two of cs."""
    rays = [(x - c) / np.linalg.norm(x - c) for c in cs]
    return max(np.degrees(np.arccos(np.clip(a @ b, -1, 1))) for k, a in enumerate(rays) for b in rays[:k])


# ---- the judge -------------------------------------------------------------

def align(X, Y):
    """Similarity s, R, t with Y ~ s R X + t."""
    mx, my = X.mean(0), Y.mean(0)
    U, S, Vt = np.linalg.svd((Y - my).T @ (X - mx))
    D = np.diag([1, 1, np.sign(np.linalg.det(U @ Vt))])
    R = U @ D @ Vt
    s = (S * np.diag(D)).sum() / ((X - mx) ** 2).sum()
    return s, R, my - s * R @ mx


def angle(a, b):
    return np.degrees(np.arccos(np.clip((np.trace(a @ b.T) - 1) / 2, -1, 1)))


def fit(rec, obs, shots):
    """80th percentile of the reprojection errors of the observations that are not wrong."""
    es = []
    P = {nm: (rot(s["rotation"]), np.array(s["translation"])) for nm, s in rec["shots"].items()}
    for pid, p in rec["points"].items():
        for t in obs.get(pid, []):
            if t[0] in P and not t[-1]:
                R, tr = P[t[0]]
                d = np.array([float(t[3]), float(t[4])]) - project(rec["cameras"][shots[t[0]]["cam"]], (R @ p["coordinates"] + tr)[None])[0]
                es.append(np.hypot(d[0] - np.round(d[0]), d[1]))
    return float(np.percentile(es, 80)) if es else 0


def judge(ds, sc, W, ref, what):
    cams, rigc, shots, insts, truth, tracks = W
    v, stat = [], {}

    def bad(key, msg):
        if not any(x["key"] == key for x in v):
            v.append({"key": key, "msg": "%s (%s)" % (msg, what)})
    name = "out.json" if sc["cmd"] in ("prior", "bundle", "ext") and sc["io"] else "reconstruction.json"
    try:
        with open("%s/%s" % (ds, name), encoding="utf8") as f:
            recs = json.load(f)
        rep = {}
        if sc["cmd"] != "bundle":
            with open(ds + "/reports/reconstruction.json", encoding="utf8") as f:
                rep = json.load(f)
    except Exception as e:
        bad("unreadable", "%s: %s" % (type(e).__name__, e))
        return v, stat
    obs, per = {}, {}
    for t in tracks:
        obs.setdefault(t[1], []).append(t)
        per.setdefault(t[0], set()).add(t[1])
    intracks = set(per)
    rig_of = {nm: (i, rc) for i, ms in insts.items() for nm, rc in ms}
    # which images
    sizes = [len(x["shots"]) for x in recs]
    if sizes != sorted(sizes, reverse=True):
        bad("order", "reconstructions of %s images" % sizes)
    all_ = [nm for x in recs for nm in x["shots"]]
    if len(set(all_)) != len(all_):
        bad("twice", "images %s are in two reconstructions" % sorted(nm for nm in set(all_) if all_.count(nm) > 1))
    if not set(all_) <= set(shots):
        bad("unknown", "unknown images %s" % sorted(set(all_) - set(shots)))
        return v, stat
    if sc["cmd"] in ("inc", "prior", "ext"):
        left = rep.get("not_reconstructed_images")
        miss = sorted(intracks - set(all_))
        if left is None or sorted(left) != miss:
            bad("report", "the report lists %s as not reconstructed instead of %s" % (left, miss))
    linked = {nm for nm in shots if not shots[nm]["orphan"]}
    # the incremental reconstruction starts from two images at an arbitrary scale, which a rig of known size contradicts
    vague = sc["cmd"] == "inc" and sc["rig"]
    # whether positions and observations determine the poses
    posed = not vague and not sc["gps"] and not sc["nogps"] and not sc["bias"] and (sc["cmd"] in ("inc", "prior", "ext") or sc["clusters"] == 1)
    posed &= sc["n"] >= (4, 8)[sc["rig"]] or sc["cmd"] == "prior"
    if sc["cmd"] == "inc":
        need = {} if vague else expected(sc, W)
        for c in range(sc["clusters"]):
            if need.get(c):
                got = [sorted(set(x["shots"]) & need[c]) for x in recs]
                if sorted(need[c]) not in got:
                    bad("incomplete", "images %s see the same points but are reconstructed as %s" % (sorted(need[c]), [x for x in got if x]))
        for x in recs:
            if len({shots[nm]["cluster"] for nm in x["shots"]}) > 1:
                bad("mixed", "a reconstruction has images that share nothing: %s" % sorted(x["shots"]))
            if len(x["shots"]) < 2:
                bad("alone", "a reconstruction of %s" % sorted(x["shots"]))
        if sum(not (set(x["shots"]) & linked) for x in recs):
            bad("orphan", "a reconstruction of images that share nothing")
    elif sc["cmd"] == "ext":
        with open(ds + "/in.json", encoding="utf8") as f:
            inp = json.load(f)
        need = set(inp[0]["shots"]) | expected(sc, W).get(0, set())
        if len(recs) != 1 or not need <= set(recs[0]["shots"]) or any(shots[nm]["cluster"] for nm in recs[0]["shots"]):
            bad("incomplete", "%s was extended to %s, the images that see the same points are %s" % (sorted(inp[0]["shots"]), [sorted(x["shots"]) for x in recs], sorted(need)))
            return v, stat
        if recs[0].get("reference_lla") != inp[0]["reference_lla"]:
            bad("reference", "the reference is %s" % recs[0].get("reference_lla"))
    elif sc["cmd"] == "tri":
        want = {nm for nm in intracks if shots[nm]["gps"]}
        if len(recs) != 1 or set(recs[0]["shots"]) != want:
            bad("incomplete", "triangulation reconstructs %s instead of %s" % ([sorted(x["shots"]) for x in recs], sorted(want)))
            return v, stat
    else:
        with open("%s/%s" % (ds, "in.json" if sc["cmd"] in ("prior", "ext") or sc["io"] else "reconstruction.json"), encoding="utf8") as f:
            inp = json.load(f) if sc["cmd"] == "prior" or sc["io"] else W_in[0]
        if len(recs) != 1 or set(recs[0]["shots"]) != set(inp[0]["shots"]):
            bad("incomplete", "%s has images %s instead of %s" % (sc["cmd"], [sorted(x["shots"]) for x in recs], sorted(inp[0]["shots"])))
            return v, stat
        if sc["cmd"] == "bundle" and set(recs[0]["points"]) != set(inp[0]["points"]):
            bad("points-lost", "bundling changes the points from %d to %d" % (len(inp[0]["points"]), len(recs[0]["points"])))
        if sc["cmd"] == "prior" and recs[0].get("reference_lla") != inp[0]["reference_lla"]:
            bad("reference", "the reference is %s" % recs[0].get("reference_lla"))
    stat["images"] = len(all_)
    for x in recs:
        P = {nm: (rot(s["rotation"]), np.array(s["translation"])) for nm, s in x["shots"].items()}
        # their own cameras, metadata and rigs
        for nm, s in x["shots"].items():
            if s["camera"] != shots[nm]["cam"]:
                bad("camera", "%s has camera %s" % (nm, s["camera"]))
                return v, stat
            if ("gps_position" in s) != (shots[nm]["gps"] is not None):
                bad("metadata", "%s has position %s, its image %s" % (nm, s.get("gps_position"), shots[nm]["gps"]))
        if sc["cmd"] != "bundle" or x.get("reference_lla"):
            rl = x.get("reference_lla")
            if rl is None:
                bad("reference", "a reconstruction has no reference")
                return v, stat
            Q, o = frame(rl)
        for nm, s in x["shots"].items():
            if "gps_position" in s:
                g = Q @ (enu_axes(*HOME[:2]) @ (ecef(*shots[nm]["gps"]) - ecef(*HOME))) + o
                if np.abs(g - s["gps_position"]).max() > 1e-3:
                    bad("gps", "%s has position %s instead of %s" % (nm, s["gps_position"], g))
        ri, rcs = x.get("rig_instances", {}), x.get("rig_cameras", {})
        for nm in x["shots"]:
            if nm in rig_of:
                i, rc = rig_of[nm]
                ms = {m: c for m, c in insts[i] if sc["cmd"] != "tri" or m in want}
                if i not in ri or ri[i]["rig_camera_ids"] != ms or not all(m in x["shots"] for m in ms):
                    bad("rig", "%s is reconstructed without the rest of %s: %s" % (nm, i, ri.get(i)))
                    return v, stat
        for i, y in ri.items():
            R, t = rot(y["rotation"]), np.array(y["translation"])
            for nm, rc in y["rig_camera_ids"].items():
                Rc, tc = rot(rcs[rc]["rotation"]), np.array(rcs[rc]["translation"])
                if np.abs(Rc @ R - P[nm][0]).max() > 1e-6 or np.abs(Rc @ t + tc - P[nm][1]).max() > 1e-5:
                    bad("rig-pose", "the pose of %s is not that of its rig" % nm)
        # points
        cen = {nm: -R.T @ t for nm, (R, t) in P.items()}
        pano = sc["kind"] in PANO
        for pid, p in x["points"].items():
            X = np.array(p["coordinates"])
            if pid not in obs:
                bad("point", "point %s is no track" % pid)
                continue
            ok = []
            for t in obs[pid]:
                if t[0] not in P:
                    continue
                R, tr = P[t[0]]
                b = R @ X + tr
                u = project(x["cameras"][shots[t[0]]["cam"]], b[None])[0]
                d = np.array([float(t[3]), float(t[4])]) - u
                if pano:
                    d[0] -= np.round(d[0])
                    e = np.hypot(*d) * 6.28
                else:
                    e = np.hypot(*d) if b[2] > 0 or not posed else 9
                if e < THR * (2.5 if sc["cmd"] == "tri" or pano or sc["cmd"] == "prior" else 1.02):
                    ok.append(t)
            if len(ok) < 2 and sc["cmd"] != "bundle" and not vague:
                bad("unsupported", "point %s is supported by %d of its %d observations" % (pid, len(ok), len(obs[pid])))
            elif ok:
                rays = [X - cen[t[0]] for t in ok]
                rays = [a / np.linalg.norm(a) for a in rays]
                an = max([np.degrees(np.arccos(np.clip(a @ b, -1, 1))) for k, a in enumerate(rays) for b in rays[:k]] or [9])
                if an < 0.5 and posed and sc["cmd"] != "bundle":
                    bad("ray-angle", "point %s is seen under %.3f degrees only" % (pid, an))
            if sc["cmd"] != "bundle" and [int(c) for c in p["color"]] not in [t[6:9] for t in obs[pid]]:
                bad("colour", "point %s has colour %s, its observations %s" % (pid, p["color"], [t[6:9] for t in obs[pid]][:3]))
        stat["points"] = stat.get("points", 0) + len(x["points"])
        if sc["cmd"] == "bundle":
            e = fit(inp[0], obs, shots), fit(x, obs, shots)
            if posed and e[1] > max(0.004, 0.4 * e[0]):
                bad("fit", "bundling takes the reprojection errors from %.5f to %.5f" % e)
        # tracks that agree everywhere have a point
        def wide(tid, ts):
            return spread(truth[tid], [shots[t[0]]["c"] for t in ts]) > 3

        if sc["cmd"] != "bundle" and posed:
            lost, good = [], 0
            for tid, ts in obs.items():
                ts = [t for t in ts if t[0] in P]
                if len(ts) < 2 or any(t[-1] for t in ts):
                    continue
                if not wide(tid, ts):
                    continue
                good += 1
                if tid not in x["points"]:
                    lost.append(tid)
            if sc["three"] and sc["robust"]:
                two = {tid: [t for t in ts if not t[-1]] for tid, ts in obs.items() if len(ts) == 3 and all(t[0] in P for t in ts)}
                two = [tid for tid, ts in two.items() if len(ts) == 2 and wide(tid, ts)]
                lost3 = [tid for tid in two if tid not in x["points"]]
                stat["three"] = [len(two), len(lost3)]
                if len(lost3) > 0.12 * len(two) + 3:
                    bad("robust", "%d of %d points of three observations with a wrong one are missing" % (len(lost3), len(two)))
            if len(lost) > 0.2 * good + 1 and not sc["filter"]:
                bad("points-missing", "%d of %d points that all images agree on are missing" % (len(lost), good))
        # where they are
        ns = sorted(nm for nm in P if not shots[nm]["orphan"])
        if len(ns) < 4 and sc["cmd"] != "prior" or not posed:
            continue
        T = np.array([Q @ shots[nm]["c"] + o for nm in ns])
        C = np.array([cen[nm] for nm in ns])
        err = np.linalg.norm(C - T, axis=1).max()
        rerr = max(angle(P[nm][0], shots[nm]["R"] @ Q.T) for nm in ns)
        if sc["cmd"] == "prior":
            if err > 1e-5 or rerr > 1e-3:
                bad("moved", "the poses of the prior moved by %g m, %g degrees" % (err, rerr))
        flat = np.linalg.svd(T - T.mean(0), compute_uv=False)[1] / len(T) ** 0.5 < 1
        if sc["cmd"] in ("inc", "tri", "ext") and not flat and sum(shots[nm]["gps"] is not None for nm in ns) >= 4 and (err > 0.5 or rerr > 10):
            bad("frame", "images are %.3f m and %.2f degrees from where their positions say" % (err, rerr))
        pts = [k for k in x["points"] if k in truth and not any(t[-1] for t in obs.get(k, []))]
        if len(pts) >= 30 and sc["cmd"] != "bundle":
            X = np.array([x["points"][k]["coordinates"] for k in pts] + list(C))
            Y = np.array([Q @ truth[k] + o for k in pts] + list(T))
            s, R, t = (1.0, np.eye(3), np.zeros(3)) if sc["cmd"] == "prior" else align(X, Y)
            d = np.linalg.norm(s * X @ R.T + t - Y, axis=1)
            e = float(np.percentile(d, 80)), float(d[len(pts):].max())
            if e[0] > 0.15 or e[1] > 0.3:
                bad("shape", "points are up to %.3f m and images up to %.3f m from where they should be" % e)
    return v, stat


W_in = [None]


def expected(sc, W):
    """{cluster: images that have to be reconstructed together}."""
    cams, rigc, shots, insts, truth, tracks = W
    out = {}
    for c in range(sc["clusters"]):
        ns = [nm for nm, s in shots.items() if s["cluster"] == c and not s["orphan"]]
        seen = {nm: set() for nm in ns}
        for t in tracks:
            if t[0] in seen:
                seen[t[0]].add(t[1])
        if all(len(seen[a] & seen[b]) >= 70 for a in ns for b in ns):
            out[c] = set(ns)
    return out


def run(sc, root):
    W = world(sc)
    ds = root + "/ds"
    ref = make(ds, sc, *W)
    W_in[0] = None
    if sc["cmd"] == "bundle" and not sc["io"]:
        with open(ds + "/reconstruction.json", encoding="utf8") as f:
            W_in[0] = json.load(f)
    args = {"inc": ["reconstruct", ds], "tri": ["reconstruct", ds, "--algorithm", "triangulation"],
            "prior": ["reconstruct_from_prior", ds, "--input", "in.json", "--output", "out.json" if sc["io"] else "reconstruction.json"],
            "ext": ["extend_reconstruction", ds, "--input", "in.json", "--output", "out.json" if sc["io"] else "reconstruction.json"],
            "bundle": ["bundle", ds] + (["--input", "in.json", "--output", "out.json"] if sc["io"] else [])}[sc["cmd"]]
    v, rs, stat = [], [], {}
    base = "%s, %s, %d images, %d workers" % (" ".join(args[:1] + args[2:]), sc["kind"], len(W[2]), sc["procs"])
    nops = {"m": 14, "r": 30 + 4 * len(W[2])}
    for j, k in enumerate(list(sc["lives"]) + [None]):
        faults = []
        if k:
            fk = {"at": int(k["pos"] * nops[k["side"]]), "side": k["side"], "kind": k["kind"], "frac": k["frac"]}
            if k["kind"] == "err":
                fk["errno"] = "EIO" if k["side"] == "r" else k["errno"]
            elif k["side"] == "r":
                fk["kind"] = "kill"
            faults = [fk]
        r = cm.must_report(simproc.run(lambda: pl.cli(*args), root, mode=sc["mode"] if sc["procs"] > 1 else None,
                                       faults=faults, seed=sc["seed"] % 1000 + j, dirseed=sc["dirseed"] + j, wall=120))
        rs.append(r)
        what = "%s, run %d of %d" % (base, j + 1, len(sc["lives"]) + 1)
        if (k is None or not r["fired"]) and r["outcome"] != "ok":
            v.append({"key": "fails:%s" % (r["info"][0] if r["outcome"] == "exc" else r["outcome"]),
                      "msg": "%s: %s %s" % (what, cm.outcome_str(r), (r["info"] or "")[-1][-500:] if r["outcome"] == "exc" else cm.stacks_str(r) if r["outcome"] == "deadlock" else "")})
            break
        if r["outcome"] in ("deadlock", "steplimit", "crashed"):
            v.append({"key": r["outcome"], "msg": "%s: %s after %s" % (what, cm.stacks_str(r), r["fired"])})
            break
        if r["outcome"] == "ok":
            w, stat = judge(ds, sc, W, ref, what + (", a failing disk" if r["fired"] else ""))
            v += w
            if w:
                break
            if sc["cmd"] == "bundle" and not sc["io"] and k:
                break  # bundling again starts from the bundled one
    return {"violations": v, "nontrivial": repr([sc["seed"], rs[-1]["fshash"], rs[-1]["nswitch"]]) if stat.get("images") else None, "trace": rs[-1]["trace"],
            "stats": {"images": stat.get("images", 0), "points": stat.get("points", 0), "lifetimes": len(rs), "cmd_" + sc["cmd"]: 1},
            "fired": cm.fired_counts(*rs), "sim_time": sum(x["now"] for x in rs), "log": [[x["outcome"], x["fshash"]] for x in rs]}


def shrink(sc):
    for s in cm.subsets(sc["lives"]):
        yield dict(sc, lives=s)
    for k, z in (("n", 2), ("n", 3), ("procs", 1), ("clusters", 1), ("orphans", 0), ("rig", False), ("noise", 0), ("out", 0), ("gps", 0), ("nogps", 0),
                 ("multi", False), ("gcp", 0), ("three", False), ("robust", False), ("filter", False), ("partial", False), ("bias", False), ("part", 0), ("io", False),
                 ("ncam", 1), ("kind", "perspective"), ("local", 3), ("interval", 999999), ("retri", 1.2), ("optcam", True)):
        if sc[k] != z and not (k == "n" and sc[k] < z):
            yield dict(sc, **{k: z})
    yield from cm.shrink_mode(sc)
