"""C26: compute_statistics and export_report say what is in the reconstruction, whatever is in it.

Each scenario writes a dataset with a reconstruction of known geometry and known errors (components, camera models, rigs, panoramas,
positions, biases, ground control points, images without tracks, nothing at all), runs compute_statistics and export_report in one or
more process lifetimes with kills and disk errors, and recomputes every figure of stats.json, and the text of the report, from what
was written.
"""
import datetime
import json
import os
import random
import re
import zlib

import numpy as np

from checks import c09, c15
from checks import common as cm
from checks import pipeline as pl
from sim import simproc

ID = "C26"
BUDGET = {"quick": 45, "thorough": 600}
RULE = ("a run computes the statistics and the report of a generated dataset in one or more process lifetimes, killed or failing at a "
        "random file operation; non-trivial when statistics of at least one shot were reported; distinct by dataset and what the disk holds in the end")
COMPONENTS = {"real": ["opensfm.actions.compute_statistics, export_report", "opensfm.stats", "opensfm.report", "matplotlib (but for the rendering)", "fpdf",
                       "opensfm.dataset", "C++ map and geometry"],
              "stub": ["rendering of figures (a small PNG is written instead)", "disk at the libc boundary", "clock, randomness"]}
ASSUMPTIONS = ["figures are judged by their presence and names"]
KINDS = ["perspective", "perspective", "brown", "fisheye", "spherical"]
STEPS = {"Feature Extraction": "features", "Features Matching": "matches", "Tracks Merging": "tracks", "Reconstruction": "reconstruction"}


def prepare():
    pl.prepare()
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    from matplotlib.figure import Figure
    import fpdf  # noqa
    import PIL.Image  # noqa
    import PIL.PngImagePlugin  # noqa
    import cv2

    def savefig(self, f, **kw):
        name = re.sub(r"\.[^.]*\.tmp$|\.tmp$", "", os.path.basename(f.name))
        f.write(cv2.imencode(".png", np.zeros(extent(name) + (3,), np.uint8))[1].tobytes())
    Figure.savefig = savefig
    from matplotlib.backend_bases import FigureCanvasBase
    FigureCanvasBase.draw_idle = lambda self, *a, **k: None
    from opensfm import stats, report  # noqa


def extent(name):
    """Height and width by which a figure is recognised in the report."""
    x = zlib.crc32(name.encode())
    return 20 + x % 97, 20 + x // 97 % 101


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 26)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        yield {"hs": r.choice(cm.HS), "n": r.choice([0, 1, 2, 3, 4, 6, 9]), "comps": r.choice([1, 1, 1, 2, 3]), "kinds": [r.choice(KINDS) for _ in range(3)],
               "ncam": r.choice([1, 1, 2, 3]), "slash": r.random() < 0.15, "pts": r.choice([0, 3, 40, 40]), "out": r.choice([0, 0, 2]), "place": r.choice(["box", "box", "neg", "line", "spot", "far"]),
               "gps": r.choice([0, 0.6, 1, 1]), "bias": r.random() < 0.4, "gcp": r.choice([0, 0, 1, 3]), "noise": r.choice([0.3, 1.0, 4.0, 40.0]), "rig": r.random() < 0.3,
               "loose": r.choice([0, 0, 0.3]), "steps": r.choice([0, 0.6, 1]), "cap": r.choice([-1, -1, 1, 10]), "old": r.random() < 0.3,
               "lives": [{"pos": r.random(), "kind": r.choice(["kill", "kill", "torn", "err"]), "side": r.choice("mr"), "errno": r.choice(["EIO", "ENOSPC"]),
                          "frac": r.choice([0, 0.5, 0.9])} for _ in range(r.choice([0, 0, 0, 1, 2]))],
               "dirseed": r.randrange(1, 1000), "seed": r.randrange(1 << 30)}


class W:
    pass


def world(sc):
    r = random.Random(sc["seed"])
    g = np.random.RandomState(sc["seed"] % (1 << 31))
    w = W()
    w.cams = {("v2 a/b 1" if sc["slash"] else "cam 1") + "0" * i: c09.camera(r, sc["kinds"][i]) for i in range(sc["ncam"])}
    cn = sorted(w.cams)
    w.first = {c: dict(v, **{k: v[k] * 1.1 for k in ("focal", "focal_x", "k1") if k in v}) for c, v in w.cams.items()}
    names = ["im%02d.jpg" % i for i in range(max(1, sc["n"] + sc["out"]))]
    w.names, inside = names, names[:sc["n"]]
    r.shuffle(inside)
    w.cam = {nm: r.choice(cn) for nm in names}
    w.recs, w.poses = [], []
    n = min(sc["comps"], len(inside))
    groups = [inside[k::n] for k in range(n)]
    if sc["seed"] % 2 and n > 1:  # components of any sizes
        at = [0] + sorted(r.sample(range(1, len(inside)), n - 1)) + [len(inside)]
        groups = [inside[a:b] for a, b in zip(at, at[1:])]
    base = {"box": np.zeros(3), "neg": np.array([-500.0, -300, 0]), "far": np.array([900.0, 700, 50])}.get(sc["place"], np.zeros(3))
    where = {}
    for i, nm in enumerate(names):
        c = g.uniform(-20, 20, 3) * [1, 1, 0.1]
        if sc["place"] == "line":
            c = np.array([0.0, 3.0 * i, 0])
        if sc["place"] == "spot":
            c = np.zeros(3)
        a = g.uniform(-0.1, 0.1, 3)
        R = c15.rot(a) @ np.array([[1.0, 0, 0], [0, -1, 0], [0, 0, -1]])  # looks down
        where[nm] = (R, base + c + [0, 0, 50])
    w.rigc = {}
    for k, ns in enumerate(groups):
        P = {nm: where[nm] for nm in ns}
        insts, rigc = {}, {}
        if sc["rig"] and k == 0 and len(ns) >= 2:
            a, b = ns[:2]
            v = g.randn(3) * 0.05
            t = g.randn(3)
            rigc = {"front": {"rotation": [0.0] * 3, "translation": [0.0] * 3}, "side": {"rotation": v.tolist(), "translation": t.tolist()}}
            Ra, ta = P[a][0], -P[a][0] @ P[a][1]
            Rb = c15.rot(v) @ Ra
            tb = c15.rot(v) @ ta + t
            P[b] = where[b] = (Rb, -Rb.T @ tb)
            insts["rig"] = {"rotation": c15.unrot(Ra).tolist(), "translation": ta.tolist(), "rig_camera_ids": {a: "front", b: "side"}}
            for nm in ns[2:]:
                rigc[w.cam[nm]] = {"rotation": [0.0] * 3, "translation": [0.0] * 3}
                insts[nm] = {"rotation": c15.unrot(P[nm][0]).tolist(), "translation": (-P[nm][0] @ P[nm][1]).tolist(), "rig_camera_ids": {nm: w.cam[nm]}}
        w.poses.append(P)
        shots = {}
        for nm in ns:
            s = {"rotation": c15.unrot(P[nm][0]).tolist(), "translation": (-P[nm][0] @ P[nm][1]).tolist(), "camera": w.cam[nm], "capture_time": float(g.randint(1000))}
            if g.rand() < sc["gps"]:
                s["gps_position"] = (P[nm][1] + g.randn(3) * 0.5).tolist()
                s["gps_dop"] = 2.0
            shots[nm] = s
        cams = {c: dict(w.cams[c], **({"k1": w.cams[c]["k1"] + 0.001 * k} if "k1" in w.cams[c] else {})) for c in sorted({w.cam[nm] for nm in ns})}
        rec = {"cameras": cams, "shots": shots, "points": {}, "reference_lla": dict(zip(("latitude", "longitude", "altitude"), c09.HOME))}
        if sc["bias"]:
            rec["biases"] = {c: {"rotation": (g.randn(3) * 0.01).tolist(), "translation": g.randn(3).tolist(), "scale": float(g.uniform(0.99, 1.01))} for c in cams}
        if insts:
            rec["rig_instances"], rec["rig_cameras"] = insts, rigc
            w.rigc = {"front": rigc["front"], "side": {"rotation": (v + 0.01).tolist(), "translation": (t + 0.1).tolist()}}
        w.recs.append(rec)
    # points below the images; observations with known errors
    w.obs, w.errors = {}, []
    for p in range(sc["pts"]):
        if not w.recs:
            break
        k = r.randrange(len(w.recs))
        tid = str(5 * p + 1)
        X = base + g.uniform(-15, 15, 3) * [1, 1, 0.2]
        P = w.poses[k]
        seen = [nm for nm in sorted(P) if g.rand() < 0.75]
        for nm in seen:
            c = w.recs[k]["cameras"][w.cam[nm]]
            q = P[nm][0] @ (X - P[nm][1])
            big = max(c["width"], c["height"])
            d = g.randn(2) * sc["noise"] / big
            uv = c15.project(c, q[None])[0]
            w.obs.setdefault(tid, {})[nm] = (uv + d, float(np.float32(g.choice([0.004, 0.002, 0.01]))))
        loose = [nm for nm in names[sc["n"]:] if g.rand() < 0.4]  # images not reconstructed
        for nm in loose:
            w.obs.setdefault(tid, {})[nm] = (g.uniform(-0.3, 0.3, 2), 0.004)
        if tid in w.obs and len(seen) >= 1 and g.rand() >= sc["loose"]:
            w.recs[k]["points"][tid] = {"coordinates": X.tolist(), "color": [1.0, 2.0, 3.0]}
    # ground control points, seen without error
    w.gcps, w.gcp_errors = [], []
    for i in range(sc["gcp"]):
        if not w.recs:
            break
        k = r.randrange(len(w.recs))
        X = base + g.uniform(-10, 10, 3) * [1, 1, 0.1]
        e = g.randn(3)
        o = []
        P = w.poses[k]
        see = [nm for nm in sorted(P) if g.rand() < 0.8]
        for nm in see:
            q = P[nm][0] @ (X - P[nm][1])
            o.append({"shot_id": nm, "projection": c15.project(w.recs[k]["cameras"][w.cam[nm]], q[None])[0].tolist()})
        la, lo, al = c09.to_lla(X - e)
        gp = {"id": "g%d" % i, "position": {"latitude": la, "longitude": lo, "altitude": al}, "observations": o}
        if g.rand() < 0.15:
            del gp["position"]
        w.gcps.append(gp)
        cs = np.array([P[nm][1] for nm in see])
        rays = [(X - c) / np.linalg.norm(X - c) for c in cs]
        wide = max([np.degrees(np.arccos(np.clip(a @ b, -1, 1))) for a in rays for b in rays] or [0])
        if "position" in gp and len(see) >= 2:
            w.gcp_errors.append((e, wide))
    w.features = {nm: int(g.randint(0, 50)) for i, nm in enumerate(names) if i < sc["n"] or g.rand() < 0.7}
    w.steps = {}
    for s, f in STEPS.items():
        if g.rand() < sc["steps"]:
            w.steps[s] = {"wall_time": float(g.uniform(0, 100))} if g.rand() < 0.5 else {"wall_times": {"a": 1.5, "b": float(g.uniform(0, 9))}}
            if g.rand() < 0.15:
                w.steps[s] = {"other": 3}
    return w


def make(ds, sc, w):
    os.makedirs(ds + "/images")
    cm.write_config(ds, {"processes": 1})
    for nm in w.names:
        open(ds + "/images/" + nm, "w").close()
        c = w.cams[w.cam[nm]]
        cm.write_json(ds + "/exif/" + nm + ".exif", {"camera": w.cam[nm], "width": c["width"], "height": c["height"], "orientation": 1})
    cm.write_json(ds + "/reconstruction.json", w.recs)
    os.utime(ds + "/reconstruction.json", (sc["seed"], sc["seed"]))
    cm.write_json(ds + "/camera_models.json", w.first)
    cm.write_json(ds + "/reference_lla.json", dict(zip(("latitude", "longitude", "altitude"), c09.HOME)))
    if w.rigc:
        cm.write_json(ds + "/rig_cameras.json", w.rigc)
    if sc["gcp"]:
        cm.write_json(ds + "/ground_control_points.json", {"points": w.gcps})
    with open(ds + "/tracks.csv", "w") as f:
        f.write("OPENSFM_TRACKS_VERSION_v2\n")
        for t, o in w.obs.items():
            for nm, (uv, s) in o.items():
                f.write("\t".join([nm, t, "0", "%.9g" % uv[0], "%.9g" % uv[1], "%.9g" % s, "10", "20", "30", "-1", "-1"]) + "\n")
    if w.features:
        os.makedirs(ds + "/features")
    for nm, n in w.features.items():
        np.savez_compressed("%s/features/%s.features.npz" % (ds, nm), points=np.zeros((n, 4), np.float32), descriptors=np.zeros((n, 8), np.uint8), colors=np.zeros((n, 3)),
                            segmentations=[], instances=[], segmentation_labels=[], OPENSFM_FEATURES_VERSION=3)
    for s, o in w.steps.items():
        cm.write_json("%s/reports/%s.json" % (ds, STEPS[s]), o)
    if sc["old"]:  # of an earlier run
        cm.write_json(ds + "/stats/stats.json", {"old": 1})


# ---- the oracle ------------------------------------------------------------------------

def params(c):
    k = c["projection_type"]
    if k == "spherical":
        return None
    if k == "brown":
        return {"focal": c["focal_x"], "aspect_ratio": c["focal_y"] / c["focal_x"], "cx": c["c_x"], "cy": c["c_y"], "k1": c["k1"], "k2": c["k2"], "k3": c["k3"], "p1": c["p1"], "p2": c["p2"]}
    return {"focal": c["focal"], "k1": c["k1"], "k2": c["k2"]}


def summary(e):
    if not len(e):
        return {}
    e = np.array(e)
    d = lambda v: dict(zip("xyz", v))  # noqa: E731
    return {"mean": d(e.mean(0)), "std": d(e.std(0)), "error": d(np.sqrt((e ** 2).mean(0))), "average_error": np.linalg.norm(e, axis=1).mean()}


def close(a, b, tol):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(map(str, a)) == set(map(str, b)) and all(close(a[str(k)], x, tol) for k, x in b.items())
    if isinstance(b, (list, tuple, np.ndarray)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(b, (bool, str)) or b is None:
        return a == b
    return isinstance(a, (int, float)) and abs(a - b) <= tol * max(1.0, abs(b))


def judge(ds, sc, w):
    v = []
    with open(ds + "/stats/stats.json") as f:
        S = json.load(f)

    def same(path, want, tol=1e-5):
        x = S
        for k in path.split("/"):
            if k not in x:
                v.append({"key": path, "msg": "stats.json has no %s" % path})
                return
            x = x[k]
        if not close(x, want, tol):
            v.append({"key": path, "msg": "%s is %s, not %s (%d shots in %d components, %d points)" % (path, str(x)[:200], str(want)[:200], sum(len(a["shots"]) for a in w.recs), len(w.recs),
                                                                                                 sum(len(a["points"]) for a in w.recs))})
    # processing
    times = {s: o["wall_time"] if "wall_time" in o else sum(o["wall_times"].values()) if "wall_times" in o else -1 for s, o in w.steps.items()}
    times = {s: times.get(s, -1) for s in STEPS}
    same("processing_statistics/steps_times", dict(times, **{"Total Time": sum(t for t in times.values() if t >= 0)}))
    same("processing_statistics/date", datetime.datetime.fromtimestamp(sc["seed"]).strftime("%d/%m/%Y at %H:%M:%S"))
    cs = np.array([c for P in w.poses for _, c in P.values()])
    same("processing_statistics/area", np.prod(cs.max(0)[:2] - cs.min(0)[:2]) if len(cs) else -1)
    # features
    ns = [w.features[nm] for a in w.recs for nm in a["shots"] if nm in w.features]
    q = lambda x: {"min": min(x), "max": max(x), "mean": int(np.mean(x)), "median": int(np.median(x))} if x else dict.fromkeys(("min", "max", "mean", "median"), -1)  # noqa: E731
    same("features_statistics/detected_features", q(ns))
    per = [sum(t in a["points"] and nm in o for t, o in w.obs.items()) for a in w.recs for nm in a["shots"]]
    same("features_statistics/reconstructed_features", q([x for x in per if x]))
    # reconstruction
    R = "reconstruction_statistics/"
    same(R + "components", len(w.recs))
    same(R + "has_gps", sum("gps_position" in s for a in w.recs for s in a["shots"].values()) > 2)
    same(R + "has_gcp", bool(w.gcps))
    same(R + "initial_points_count", len(w.obs))
    same(R + "initial_shots_count", len(w.names))
    same(R + "reconstructed_shots_count", len(cs))
    pts = [(k, t) for k, a in enumerate(w.recs) for t in a["points"]]
    same(R + "reconstructed_points_count", len(pts))
    ls = [len(w.obs[t]) for _, t in pts]
    same(R + "observations_count", sum(ls))
    same(R + "histogram_track_length", {str(x): ls.count(x) for x in set(ls)})
    same(R + "average_track_length", np.mean(ls) if ls else -1)
    over = [x for x in ls if x > 2]
    same(R + "average_track_length_over_two", np.mean(over) if over else -1)
    px, no, an, edge = [], [], [], False
    for k, t in pts:
        a = w.recs[k]
        X = np.array(a["points"][t]["coordinates"])
        for nm, (uv, s) in w.obs[t].items():
            if nm not in a["shots"]:
                continue
            c = a["cameras"][w.cam[nm]]
            Rm, o = w.poses[k][nm]
            q3 = Rm @ (X - o)
            uv = np.array([float("%.9g" % x) for x in uv])
            e = np.linalg.norm(uv - c15.project(c, q3[None])[0])
            p = e * max(c["width"], c["height"])
            edge |= abs(p - 4) < 1e-6 or p < 1e-4
            if p <= 4:
                px.append(p)
                no.append(e / s)
                if c["projection_type"] == "spherical":
                    lon, lat = uv[0] * 2 * np.pi, -uv[1] * 2 * np.pi
                    b = np.array([np.cos(lat) * np.sin(lon), -np.sin(lat), np.cos(lat) * np.cos(lon)])
                    an.append(np.arccos(np.clip(b @ q3 / np.linalg.norm(q3), -1, 1)))
                elif an is not None:  # distorted: the bearing by iteration
                    x = q3[:2] / q3[2]
                    for _ in range(60):
                        J = np.column_stack([(c15.project(c, np.array([[x[0] + h[0], x[1] + h[1], 1.0]]))[0] - c15.project(c, np.array([[x[0] - h[0], x[1] - h[1], 1.0]]))[0]) / 2e-6
                                             for h in ((1e-6, 0), (0, 1e-6))])
                        dx = np.linalg.solve(J, uv - c15.project(c, np.array([[x[0], x[1], 1.0]]))[0])
                        x = x + dx
                        if np.abs(dx).max() < 1e-13:
                            break
                    b = np.array([x[0], x[1], 1.0])
                    an.append(np.arctan2(np.linalg.norm(np.cross(b, q3)), b @ q3))
    if not edge:
        for key, x, tol in (("pixels", px, 1e-4), ("normalized", no, 1e-4), ("angular", an, 2e-3)):
            same(R + "reprojection_error_" + key, np.mean(x) if x else -1, 1e-6 if key == "angular" else tol)
            h = S["reconstruction_statistics"]["reprojection_histogram_" + key]
            if not x:
                if h != [[], []]:
                    v.append({"key": "histogram", "msg": "histogram of %s errors of nothing: %s" % (key, h)})
            elif len(h[1]) != len(h[0]) + 1 or sum(h[0]) != len(x) or max(x) - min(x) > 1e-9 and (
                    abs(h[1][0] - min(x)) > tol * max(1, min(x)) or abs(h[1][-1] - max(x)) > tol * max(1, max(x)) + (5e-4 if key == "angular" else 0)):
                v.append({"key": "histogram", "msg": "histogram of %s errors: %d errors in %s, not %d from %s to %s" % (key, sum(h[0]), h[1][:1] + h[1][-1:], len(x), min(x), max(x))})
            elif abs(np.dot(h[0], (np.array(h[1][1:]) + h[1][:-1]) / 2) / len(x) - np.mean(x)) > (h[1][-1] - h[1][0]) / 30 + tol:
                v.append({"key": "histogram", "msg": "the histogram of %s errors is about %s, not %s" % (key, np.dot(h[0], h[1][1:]) / len(x), np.mean(x))})
    # cameras and rigs: of the biggest component that has them
    want = {}
    for c in w.cams:
        having = [a for a in w.recs if c in a["cameras"]]
        if not having:
            continue
        big = max(len(a["shots"]) for a in having)
        got = S["camera_errors"].get(c)
        if got is None:
            v.append({"key": "cameras", "msg": "no statistics of camera %s" % c})
            continue
        want[c] = 1
        for key, opts in (("initial_values", [params(w.first[c])]), ("optimized_values", [params(a["cameras"][c]) for a in having if len(a["shots"]) == big])):
            if opts[0] is not None and not any(close(got[key], o, 1e-9) for o in opts):
                v.append({"key": "cameras", "msg": "%s of %s are %s, not %s" % (key, c, got[key], opts)})
        opts = [a["biases"][c] if "biases" in a else {"rotation": [0, 0, 0], "translation": [0, 0, 0], "scale": 1} for a in having if len(a["shots"]) == big]
        if not any(close(got["bias"], o, 1e-9) for o in opts):
            v.append({"key": "cameras", "msg": "the bias of %s is %s, not %s" % (c, got["bias"], opts)})
    if set(S["camera_errors"]) != set(want):
        v.append({"key": "cameras", "msg": "statistics of cameras %s, not %s" % (sorted(S["camera_errors"]), sorted(want))})
    same("rig_errors", {x: {"initial_values": w.rigc[x], "optimized_values": w.recs[0]["rig_cameras"][x]} for x in w.rigc}, 1e-9)
    # positions
    e = []
    for k, a in enumerate(w.recs):
        for nm, s in a["shots"].items():
            if "gps_position" in s:
                b = a.get("biases", {}).get(w.cam[nm], {"rotation": [0.0] * 3, "translation": [0.0] * 3, "scale": 1.0})
                e.append(w.poses[k][nm][1] - (b["scale"] * c15.rot(np.array(b["rotation"])) @ np.array(s["gps_position"]) + b["translation"]))
    same("gps_errors", summary(e), 1e-6)
    if all(x[1] > 0.2 or x[1] < 0.05 for x in w.gcp_errors):
        same("gcp_errors", summary([x[0] for x in w.gcp_errors if x[1] > 0.2]), 2e-3)
    # figures
    fig = lambda kind, c: "%s_%s.png" % (kind, c.replace("/", "_"))  # noqa: E731
    used = {w.cam[nm] for k, a in enumerate(w.recs) for nm in a["shots"] if any(nm in w.obs[t] for t in a["points"])}
    have = set(os.listdir(ds + "/stats"))
    lack = ({"stats.json", "matchgraph.png", "residual_histogram.png", "topview.png"} | {fig("heatmap", c) for c in used}) - have
    if sc["noise"] < 1 and not edge:
        lack |= {fig("residuals", c) for c in used} - have
    more = have - {"stats.json", "matchgraph.png", "residual_histogram.png", "topview.png", "report.pdf"} - {fig(k, c) for k in ("heatmap", "residuals") for a in w.recs for c in a["cameras"]}
    more = {x for x in more if not x.endswith(".tmp")}
    if lack or more:
        v.append({"key": "figures", "msg": "the statistics lack %s and have %s too many (cameras %s)" % (sorted(lack), sorted(more), [sorted(a["cameras"]) for a in w.recs])})
    return v, S


def judged(ds, sc, w):
    try:
        return judge(ds, sc, w)
    except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
        return [{"key": "malformed", "msg": "stats.json is not what it should be: %r" % e}], None


def pdf_text(p):
    with open(p, "rb") as f:
        b = f.read()
    if not b.startswith(b"%PDF") or b"%%EOF" not in b[-20:]:
        return None
    out = []
    for m in re.finditer(rb"stream\r?\n(.*?)endstream", b, re.S):
        try:
            t = zlib.decompressobj().decompress(m.group(1))
        except zlib.error:
            continue
        out += [re.sub(rb"\\([()\\])", rb"\1", x).decode("latin1") for x in re.findall(rb"\(((?:[^()\\]|\\.)*)\) Tj", t)]
    return out


def judge_report(ds, sc, w, S):
    v = []
    t = pdf_text(ds + "/stats/report.pdf")
    if t is None:
        return [{"key": "report", "msg": "report.pdf is no whole PDF"}]
    R, G, F = S["reconstruction_statistics"], S["processing_statistics"], S["features_statistics"]
    pc = lambda a, b: "%.1f%%" % (100.0 * a / b if b else -1)  # noqa: E731
    geo = (["GPS"] if R["has_gps"] else []) + (["GCP"] if R["has_gcp"] and S["gcp_errors"] else [])
    rows = [["OpenSfM Quality Report"], ["Dataset", "ds"], ["Date", G["date"]], ["Area Covered", "%.6f km\xb2" % (G["area"] / 1e6)], ["Processing Time", "%.2f seconds" % G["steps_times"]["Total Time"]],
            ["Reconstructed Images", "%d over %d shots (%s)" % (R["reconstructed_shots_count"], R["initial_shots_count"], pc(R["reconstructed_shots_count"], R["initial_shots_count"]))],
            ["Reconstructed Points", "%d over %d points (%s)" % (R["reconstructed_points_count"], R["initial_points_count"], pc(R["reconstructed_points_count"], R["initial_points_count"]))],
            ["Reconstructed Components", "%d component" % R["components"]], ["Detected Features", "%d features" % F["detected_features"]["median"]],
            ["Reconstructed Features", "%d features" % F["reconstructed_features"]["median"]], ["Geographic Reference", " and ".join(geo)],
            [" / ".join(geo) + " errors", " / ".join("%.2f" % S[k.lower() + "_errors"]["average_error"] for k in geo) + " meters"],
            ["Average Reprojection Error (normalized / pixels / angular)",
             "%.2f / %.2f / %.5f" % (R["reprojection_error_normalized"], R["reprojection_error_pixels"], R["reprojection_error_angular"])],
            ["Average Track Length", "%.2f images" % R["average_track_length"]], ["Average Track Length (> 2)", "%.2f images" % R["average_track_length_over_two"]]]
    for k in ("detected", "reconstructed"):
        rows.append([k.capitalize() + " "] + ["%d" % F[k + "_features"][x] for x in ("min", "max", "mean", "median")])
    h = sorted((int(k), x) for k, x in R["histogram_track_length"].items() if 2 <= int(k) <= 10)
    rows.append(["Length"] + ["%d" % k for k, _ in h] + ["Count"] + ["%d" % x for _, x in h])
    num = lambda xs, f="%.4f": [f % x for x in xs]  # noqa: E731
    have = set(os.listdir(ds + "/stats"))
    for c, x in S["camera_errors"].items():
        if "residuals_%s.png" % c.replace("/", "_") in have:
            ks = list(x["initial_values"])
            rows.append([c] + ks + ["Initial"] + num(x["initial_values"][k] for k in ks) + ["Optimized"] + num(x["optimized_values"][k] for k in ks))
        b = x["bias"]
        rows.append([c, "%.2f" % b["scale"], "      ".join(num(b["translation"], "%.2f")), "      ".join(num(b["rotation"], "%.2f"))])
    for c, x in S["rig_errors"].items():
        rows.append([c] + [a + " " + b for a in ("Translation", "Rotation") for b in "XYZ"] + [
            z for k in ("initial_values", "optimized_values") for z in num(x[k]["translation"], "%.4f m") + num(x[k]["rotation"])])
    for k in ("gps", "gcp"):
        e = S[k + "_errors"]
        if e:
            rows.append([k.upper(), "Mean", "Sigma", "RMS Error"] + [z for a in "xyz" for z in [a.upper() + " Error (meters)"] + ["%.3f" % e[q][a] for q in ("mean", "std", "error")]] + [
                "Total", "%.3f" % e["average_error"]])
    st = list(G["steps_times"])
    rows.append(st + ["%.2f sec." % G["steps_times"][k] for k in st])
    flat = "\n" + "\n".join(x for x in t if x) + "\n"
    for x in rows:
        if "\n" + "\n".join(y for y in x if y) + "\n" not in flat:
            v.append({"key": "report-text", "msg": "the report does not say %s: %s" % (x, t)})
            break
    with open(ds + "/stats/report.pdf", "rb") as f:
        b = f.read()
    dims = {(int(re.search(rb"/Height (\d+)", o).group(1)), int(re.search(rb"/Width (\d+)", o).group(1))) for o in re.findall(rb"obj\s*<<(.*?)>>\s*stream", b, re.S)
            if b"/Subtype /Image" in o and b"/Width" in o}
    figs = {"topview.png", "residual_histogram.png", "matchgraph.png"} | {x for c in S["camera_errors"] for x in ["residuals_%s.png" % c.replace("/", "_")] if x in have}
    hm = {x for x in have if x.startswith("heatmap")}
    shown = {x for x in figs | hm if extent(x) in dims}
    if figs - shown or len(dims) != len({extent(x) for x in shown}) or hm and not hm & shown:
        v.append({"key": "report-figures", "msg": "the report shows %s of the figures %s, and %d images in all" % (sorted(shown), sorted(figs | hm), len(dims))})
    return v


# ---- the run -----------------------------------------------------------------------------

def run(sc, root):
    ds = root + "/ds"
    w = world(sc)
    make(ds, sc, w)
    v, rs, log, out = [], [], [], None
    args = ["compute_statistics", ds] + (["--diagram_max_points", str(sc["cap"])] if sc["cap"] > 0 else [])
    before = None
    for n, life in enumerate(sc["lives"] + [None]):
        faults = []
        if life and life["kind"] != "none":
            at = int(life["pos"] * 30)
            f = {"at": at, "side": life["side"] if life["kind"] == "err" else "m", "kind": life["kind"], "frac": life["frac"]}
            if life["kind"] == "err":
                f["errno"] = life["errno"] if f["side"] == "m" else "EIO"
            faults = [f]
        res = cm.must_report(simproc.run(lambda: pl.cli(*args), root, seed=sc["seed"] + n, dirseed=sc["dirseed"], faults=faults))
        rs.append(res)
        log.append([res["outcome"], res["fshash"], res["fired"]])
        if res["outcome"] == "ok":
            bad, S = judged(ds, sc, w)
            out = S
            v += [dict(b, msg=b["msg"] + " (run %d of %d)" % (n + 1, len(sc["lives"]) + 1)) for b in bad]
        elif not res["fired"] or res["outcome"] not in ("exc", "killed"):
            v.append({"key": "fails:" + str((res["info"] or [""])[0]), "msg": "compute_statistics fails (%d shots in %d components, %d tracks): %s %s" % (
                sum(len(a["shots"]) for a in w.recs), len(w.recs), len(w.obs), cm.outcome_str(res), (res["info"] or "")[-1][-500:])})
        if v:
            break
        p = ds + "/stats/stats.json"
        if os.path.exists(p):
            try:
                with open(p) as f:
                    now = json.load(f)
            except ValueError:
                v.append({"key": "torn", "msg": "stats.json does not parse after %s" % cm.outcome_str(res)})
                break
            if res["outcome"] != "ok" and before is not None and now != before:
                v += [dict(b, msg=b["msg"] + " (left by a run that failed)") for b in judged(ds, sc, w)[0]]
                if v:
                    break
            before = now
    if not v and out:
        res = cm.must_report(simproc.run(lambda: pl.cli("export_report", ds), root, seed=sc["seed"], dirseed=sc["dirseed"]))
        rs.append(res)
        log.append([res["outcome"], res["fshash"]])
        if res["outcome"] != "ok":
            v.append({"key": "report-fails:" + str((res["info"] or [""])[0]), "msg": "export_report fails: %s %s" % (cm.outcome_str(res), (res["info"] or "")[-1][-500:])})
        else:
            v += judge_report(ds, sc, w, out)
    return {"violations": v[:4], "nontrivial": repr([sc["seed"], rs[-1]["fshash"]]) if out and w.recs else None, "trace": repr([sc["seed"], [x["fshash"] for x in rs]]),
            "stats": {"lifetimes": len(rs), "shots": sum(len(a["shots"]) for a in w.recs), "points": sum(len(a["points"]) for a in w.recs)},
            "fired": cm.fired_counts(*rs), "sim_time": 0, "log": log}


def shrink(sc):
    for s in cm.subsets(sc["lives"]):
        yield dict(sc, lives=s)
    for k, xs in (("n", [1, 2, 3]), ("comps", [1]), ("pts", [0, 3]), ("gcp", [0]), ("out", [0]), ("ncam", [1]), ("rig", [False]), ("bias", [False]), ("steps", [0]),
                  ("gps", [0, 1]), ("loose", [0]), ("cap", [-1]), ("old", [False]), ("slash", [False]), ("place", ["box"]), ("noise", [0.3])):
        for x in xs:
            if sc[k] != x and not (isinstance(x, int) and not isinstance(x, bool) and isinstance(sc[k], int) and x > sc[k] and k != "cap"):
                yield dict(sc, **{k: x})
