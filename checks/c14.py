"""C14: depthmaps and the dense cloud hold supported depths only, whatever the schedule and the interruptions."""
import json
import os
import random

import numpy as np

from sim import simproc
from . import common as cm
from . import pipeline as pl
from . import scene
from .c15 import unrot

ID = "C14"
BUDGET = {"quick": 45, "thorough": 500}
prepare = pl.prepare
RULE = ("a run generates an undistorted dataset from a scene of known geometry, computes its depthmaps, possibly after "
        "runs that were killed or met a failing disk, under a random schedule of the workers and random numbers; "
        "non-trivial when a clean depthmap has depths; distinct by scene, files and schedule")
COMPONENTS = {"real": ["bin/opensfm_main.py", "opensfm.commands", "opensfm.actions.compute_depthmaps", "opensfm.dense", "opensfm.dataset",
                       "opensfm.masking", "opensfm.io", "opensfm.tracking", "opensfm.context (joblib)", "C++ dense and map", "OpenCV"],
              "stub": ["disk, worker processes (threads of the simulator), process death, directory order, hash seed, random_device"]}
ASSUMPTIONS = ["a decision within a thousandth of its threshold is not judged (the code decides in single precision)"]


STALE = "0left.png"


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 14)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        yield {"hs": r.choice(cm.HS), "n": r.choice([2, 3, 3, 4, 5]), "extra": r.sample(["same", "blind", "gone", "stale", "wide", "wide "], r.choice([0, 0, 1, 2])),
               "size": r.choice([[96, 72], [96, 72], [72, 96], [64, 64]]), "foc": r.choice([0.9, 0.9, 0.75, 1.1]),
               "res": r.choice([32, 40, 48, 64, 200]), "method": r.choice(["PATCH_MATCH_SAMPLE", "PATCH_MATCH_SAMPLE", "PATCH_MATCH", "BRUTE_FORCE"]),
               "nn": r.choice([10, 10, 2, 1]), "nv": r.choice([6, 6, 2, 1]), "it": r.choice([3, 2, 1]), "patch": r.choice([7, 7, 5]),
               "sd": r.choice([1.0, 1.0, 12.0]), "corr": r.choice([0.1, 0.1, 0.6]), "same": r.choice([0.01, 0.01, 0.05]), "cons": r.choice([3, 2, 2]),
               "range": r.random() < 0.25, "masks": r.choice([0, 0.6]), "seg": r.choice([0, 0.6]), "ign": r.choice([None, "seg", "useg", "both"]), "msize": r.random() < 0.3,
               "fmt": r.choice(["png", "png", "jpg"]), "debug": r.random() < 0.15, "sub": r.choice([None, None, "u2"]), "pts": r.choice([300, 300, 90]),
               "procs": r.choice([1, 2, 3, 4]),
               "lives": [{"pos": r.random(), "kind": r.choice(["kill", "torn", "err", "err"]), "side": r.choice("mmr"),
                          "errno": r.choice(["EIO", "ENOSPC"]), "frac": r.choice([0, 0.5, 0.9])} for _ in range(r.choice([0, 0, 1, 1, 2]))],
               "mode": cm.pick_mode(r, 2000), "dirseed": r.randrange(1, 1000), "seed": r.randrange(1 << 30)}


def world(sc):
    r = random.Random(sc["seed"])
    w, h = sc["size"]
    ps = scene.poses(sc["n"])
    names = ["%s%d.%s" % (r.choice("abcé"), i, sc["fmt"]) for i in range(sc["n"])]
    if "same" in sc["extra"]:  # stands where another stands: nothing to triangulate with it
        ps.append((ps[0][0], ps[0][1] + 0.005))
        names.append("same." + sc["fmt"])
    if "wide" in [x.strip() for x in sc["extra"]]:  # sees the scene from the side, under angles around 30 degrees
        x = ps[-1][1][0] + r.uniform(0.9, 2.4)
        a = np.arctan2(x, 4.5)
        ps.append((np.array([[np.cos(a), 0, np.sin(a)], [0, 1, 0], [-np.sin(a), 0, np.cos(a)]]), np.array([x, 0.05, 0.0])))
        names.append("wide." + sc["fmt"])
    if "blind" in sc["extra"]:  # observes nothing
        ps.append((ps[0][0], ps[0][1] + np.array([0.3, -0.2, 0.1])))
        names.append("blind." + sc["fmt"])
    order = r.sample(range(len(names)), len(names))
    ps, names = [ps[i] for i in order], [names[i] for i in order]
    Z = []
    imgs = scene.render(sc["seed"] % 1000, len(ps), w, h, sc["foc"], at=ps, depths=Z)
    if sc["seed"] % 3 == 0:  # a surface without texture
        imgs = [np.where((np.arange(h) > 0.75 * h)[:, None, None], np.uint8(90), im) for im in imgs]
    rng = np.random.RandomState(sc["seed"] % (1 << 31))
    big = max(w, h)
    pts, tracks = {}, []
    for k in range(sc["pts"]):
        i = rng.randint(len(ps))
        x, y = rng.randint(w), rng.randint(h)
        if Z[i][y, x] <= 0:
            continue
        R, c = ps[i]
        X = R.T @ (Z[i][y, x] * np.array([(x + 0.5 - w / 2) / big / sc["foc"], (y + 0.5 - h / 2) / big / sc["foc"], 1])) + c
        tid = str(k)
        if rng.rand() < 0.9:  # the others were not triangulated
            pts[tid] = X
        for (Ro, co), nm, Zo in zip(ps, names, Z):
            q = Ro @ (X - co)
            if q[2] <= 0 or nm.startswith("blind"):
                continue
            u, v = sc["foc"] * q[0] / q[2], sc["foc"] * q[1] / q[2]
            a, b = int(u * big + w / 2), int(v * big + h / 2)
            if 0 <= a < w and 0 <= b < h and abs(Zo[b, a] - q[2]) < 0.05 * q[2]:
                tracks.append((nm, tid, u, v))
    if "gone" in sc["extra"]:  # an image that was not reconstructed
        tracks += [("gone." + sc["fmt"], t, u, v) for n, t, u, v in tracks if n == names[0]]
    files = {}
    for i, nm in enumerate(names):
        f = {"img": imgs[i], "mask": None, "seg": None}
        mw, mh = (w // 2, h // 2) if sc["msize"] and i % 2 else (w, h)
        if r.random() < sc["masks"]:
            f["mask"] = np.full((mh, mw), 255, np.uint8)
            f["mask"][mh // 3:2 * mh // 3, (7 * i) % (mw // 2):(7 * i) % (mw // 2) + mw // 3] = 0
        if r.random() < sc["seg"]:
            f["seg"] = np.full((h, w), 3, np.uint8)
            f["seg"][:, : w // 5 + 3 * i] = 7
            f["seg"][: h // 4] = 20 + i
        files[nm] = f
    return ps, names, Z, pts, tracks, files


def ignored(sc):
    """Labels that make a mask."""
    return {None: [], "seg": [7], "useg": [20, 21, 22], "both": [20, 21, 22]}[sc["ign"]]


def make(ds, sc, ps, names, pts, tracks, files):
    import cv2
    w, h = sc["size"]
    u = ds + "/" + (sc["sub"] or "undistorted")
    for d in (ds + "/images", u + "/images", u + "/masks", u + "/segmentations"):
        os.makedirs(d)
    cm.write_png(ds + "/images/x.png", files[names[0]]["img"])
    conf = {"processes": sc["procs"], "depthmap_method": sc["method"], "depthmap_resolution": sc["res"], "depthmap_num_neighbors": sc["nn"],
            "depthmap_num_matching_views": sc["nv"], "depthmap_patchmatch_iterations": sc["it"], "depthmap_patch_size": sc["patch"],
            "depthmap_min_patch_sd": sc["sd"], "depthmap_min_correlation_score": sc["corr"], "depthmap_same_depth_threshold": sc["same"],
            "depthmap_min_consistent_views": sc["cons"], "depthmap_save_debug_files": sc["debug"]}
    if sc["range"]:
        conf.update(depthmap_min_depth=2.0, depthmap_max_depth=5.5)
    if sc["ign"] in ("seg", "both"):
        conf["segmentation_ignore_values"] = [7]
    if sc["ign"] in ("useg", "both"):
        conf["undistorted_segmentation_ignore_values"] = [20, 21, 22]
    cm.write_config(ds, conf)
    cm.write_json(u + "/reconstruction.json", [{
        "cameras": {"c": {"projection_type": "perspective", "width": w, "height": h, "focal": sc["foc"], "k1": 0.0, "k2": 0.0}},
        "shots": {nm: {"rotation": unrot(R).tolist(), "translation": (-R @ c).tolist(), "camera": "c"} for nm, (R, c) in zip(names, ps)},
        "points": {k: {"coordinates": X.tolist(), "color": [1.0, 2.0, 3.0]} for k, X in pts.items()}}])
    with open(u + "/tracks.csv", "w") as g:
        g.write("OPENSFM_TRACKS_VERSION_v2\n" + "".join("%s\t%s\t%d\t%g\t%g\t0.004\t9\t8\t7\t-1\t-1\n" % (n, t, i, a, b) for i, (n, t, a, b) in enumerate(tracks)))
    for nm, f in files.items():
        ok, buf = cv2.imencode("." + sc["fmt"], f["img"], [cv2.IMWRITE_JPEG_QUALITY, 97])
        with open("%s/images/%s" % (u, nm), "wb") as g:
            g.write(buf.tobytes())
        for k, d in (("mask", "masks"), ("seg", "segmentations")):
            if f[k] is not None:
                cm.write_png("%s/%s/%s.png" % (u, d, nm), f[k])
    if "stale" in sc["extra"]:  # left by a run on a reconstruction that had another image
        os.makedirs(u + "/depthmaps")
        z = np.zeros((4, 4), np.float32)
        a = np.arange(15, dtype=np.float32).reshape(5, 3)
        for k, cols in (("raw", {"depth": z + 3, "plane": np.zeros((4, 4, 3), np.float32), "score": z + 1, "nghbr": z, "nghbrs": np.array([STALE])}),
                        ("clean", {"depth": z + 3, "plane": np.zeros((4, 4, 3), np.float32), "score": z + 1}),
                        ("pruned", {"points": a, "normals": a, "colors": a.astype(np.uint8), "labels": np.arange(5, dtype=np.uint8)})):
            np.savez("%s/depthmaps/%s.%s.npz" % (u, STALE, k), **cols)
    return u


# ---- the model -----------------------------------------------------------

def neighbours(sc, ps, names, pts, tracks):
    """{image: (neighbours best first, or None when a count is too close to call)}."""
    seen = {}
    for n, t, _, _ in tracks:
        seen.setdefault(n, set()).add(t)
    out = {}
    for nm, (R, c) in zip(names, ps):
        sure, unsure = [], False
        for om, (Ro, co) in zip(names, ps):
            common = seen.get(nm, set()) & seen.get(om, set())
            if om == nm or len(common) < 50:
                continue
            ang = []
            for t in common & set(pts):
                a, b = c - pts[t], co - pts[t]
                ang.append(np.arccos(np.clip(a @ b / np.linalg.norm(a) / np.linalg.norm(b), -1, 1)))
            ang = np.array(ang)
            e = 1e-9
            lo = int(((ang > np.pi / 60 + e) & (ang < np.pi / 6 - e)).sum())
            hi = int(((ang > np.pi / 60 - e) & (ang < np.pi / 6 + e)).sum())
            unsure |= lo != hi
            if hi > 20:
                sure.append((lo, om))
        sure.sort(reverse=True)
        cut = sure[:sc["nn"]]
        scores = [s for s, _ in sure]
        unsure |= len(set(scores)) != len(scores)
        out[nm] = ([om for _, om in cut], unsure)
    return out


def K_of(sc, w, h):
    b = max(w, h)
    return np.array([[b * sc["foc"], 0, 0.5 * w], [0, b * sc["foc"], 0.5 * h], [0, 0, 1]])


def load(path):
    with np.load(path, allow_pickle=False) as z:
        return {k: z[k] for k in z.files}


def interp(D, v, u):
    """Bilinear value as the cleaner sees it: 0 outside."""
    h, w = D.shape
    ok = (u >= 0) & (u < w - 1) & (v >= 0) & (v < h - 1)
    x, y = np.clip(np.floor(u), 0, w - 2).astype(int), np.clip(np.floor(v), 0, h - 2).astype(int)
    dx, dy = u - x, v - y
    D = D.astype(float)
    r = (1 - dy) * ((1 - dx) * D[y, x] + dx * D[y, x + 1]) + dy * ((1 - dx) * D[y + 1, x] + dx * D[y + 1, x + 1])
    return np.where(ok, r, 0.0)


def points_of(D, K, R, c):
    h, w = D.shape
    y, x = np.mgrid[:h, :w]
    q = (np.linalg.inv(K) @ np.vstack([x.ravel(), y.ravel(), np.ones(w * h)])) * D.ravel().astype(float)
    return (R.T @ q).T + c


def project(X, K, R, c):
    q = (K @ (R @ (X - c).T)).T
    with np.errstate(divide="ignore", invalid="ignore"):
        return q[:, 0] / q[:, 2], q[:, 1] / q[:, 2], q[:, 2]


def ncc(g0, g1, H, i, j, hp):
    """Bilaterally weighted correlation of the patch at (i, j) with its image under H (linearised)."""
    u, v, w = H @ np.array([j, i, 1.0])
    J = np.array([[H[0, 0] * w - H[2, 0] * u, H[0, 1] * w - H[2, 1] * u], [H[1, 0] * w - H[2, 0] * v, H[1, 1] * w - H[2, 1] * v]]) / (w * w)
    dy, dx = [a.ravel().astype(float) for a in np.mgrid[-hp:hp + 1, -hp:hp + 1]]
    a = g0[i - hp:i + hp + 1, j - hp:j + hp + 1].ravel().astype(float)
    x2, y2 = u / w + J[0, 0] * dx + J[0, 1] * dy, v / w + J[1, 0] * dx + J[1, 1] * dy
    edge = min(np.min(np.abs(x2)), np.min(np.abs(y2)), np.min(np.abs(x2 - g1.shape[1] + 1)), np.min(np.abs(y2 - g1.shape[0] + 1)))
    b = interp(g1, y2, x2)
    wt = np.exp(-(a - float(g0[i, j])) ** 2 / 5000.0 - (dx * dx + dy * dy) / 50.0)
    m = lambda z: (wt * z).sum() / wt.sum()
    va, vb = m(a * a) - m(a) ** 2, m(b * b) - m(b) ** 2
    if va < 0.1 or vb < 0.1:
        return -1.0, min(va, vb), edge
    return (m(a * b) - m(a) * m(b)) / np.sqrt(va * vb), min(va, vb), edge


def judge(u, sc, ps, names, Z, pts, tracks, files, what):
    import cv2
    v = []

    def bad(key, msg):
        if not any(x["key"] == key for x in v):
            v.append({"key": key, "msg": "%s (%s)" % (msg, what)})
    w0, h0 = sc["size"]
    w = min(w0, sc["res"])
    h = min(w * h0 // w0, h0)
    hp = (sc["patch"] - 1) // 2
    K = K_of(sc, w, h)
    P = dict(zip(names, ps))
    T = dict(zip(names, Z))
    nb = neighbours(sc, ps, names, pts, tracks)
    D = u + "/depthmaps"
    there = {x for x in os.listdir(D) if not x.endswith((".tmp", ".ply")) and not x.startswith(STALE + ".")} if os.path.isdir(D) else set()
    sure = {n for n in names if nb[n][0] and not nb[n][1]}
    maybe = {n for n in names if nb[n][1]}
    for k in ("raw", "clean", "pruned"):
        have = {x[:-len(k) - 5] for x in there if x.endswith(".%s.npz" % k)}
        if not sure <= have or not have <= sure | maybe:
            bad("files:" + k, "%s depthmaps of %s, expected of %s" % (k, sorted(have), sorted(sure)))
            return v, 0
    done = sorted(x[:-8] for x in there if x.endswith(".raw.npz"))
    gray, color, raw, clean, pruned = {}, {}, {}, {}, {}
    for nm in names:
        with open("%s/images/%s" % (u, nm), "rb") as f:
            c = cv2.imdecode(np.frombuffer(f.read(), np.uint8), cv2.IMREAD_COLOR)[:, :, ::-1]
        color[nm] = cv2.resize(np.ascontiguousarray(c), (w, h), interpolation=cv2.INTER_AREA)
        gray[nm] = cv2.resize(cv2.cvtColor(np.ascontiguousarray(c), cv2.COLOR_RGB2GRAY), (w, h), interpolation=cv2.INTER_AREA)
    for nm in done:
        try:
            raw[nm], clean[nm], pruned[nm] = [load("%s/%s.%s.npz" % (D, nm, k)) for k in ("raw", "clean", "pruned")]
        except Exception as e:
            bad("unreadable", "depthmap of %s: %s: %s" % (nm, type(e).__name__, e))
            return v, 0
    seen = {}
    for n, t, _, _ in tracks:
        if t in pts:
            seen.setdefault(n, []).append(t)
    good, right = 0, 0
    rng = np.random.RandomState(1)
    for nm in done:
        r = raw[nm]
        d, R, c = r["depth"], P[nm][0], P[nm][1]
        if d.shape != (h, w) or any(r[k].shape[:2] != (h, w) for k in ("plane", "score", "nghbr")):
            bad("shape", "the raw depthmap of %s is %s instead of %s" % (nm, d.shape, (h, w)))
            continue
        nbs = [str(x) for x in r["nghbrs"]]
        if not nb[nm][1] and nbs != nb[nm][0]:
            bad("neighbours", "the neighbours of %s are %s instead of %s" % (nm, nbs, nb[nm][0]))
        q = np.array([(R @ (pts[t] - c))[2] for t in seen[nm]])
        top = 5.5 if sc["range"] else np.percentile(q, 90) * 1.1
        low = 2.0 if sc["range"] else np.percentile(q, 10) * 0.9
        if not np.isfinite(d).all() or (d < 0).any() or (d >= top * (1 + 1e-6)).any():
            bad("range", "raw depths of %s go from %s to %s, the maximum is %s" % (nm, d.min(), d.max(), top))
        if sc["method"] == "BRUTE_FORCE" and (d[d > 0] < low * (1 - 1e-5)).any():
            bad("range", "raw depths of %s start at %s, the minimum is %s" % (nm, d[d > 0].min(), low))
        if (d[r["score"] <= sc["corr"]] != 0).any():
            bad("score", "%d raw depths of %s have a score under the minimum" % ((d[r["score"] <= sc["corr"]] != 0).sum(), nm))
        on = d > 0
        rim = np.ones((h, w), bool)
        rim[hp:h - hp, hp:w - hp] = False
        if on[rim].any():
            bad("border", "raw depths of %s within half a patch of the border" % nm)
        # masks
        m = files[nm]["mask"]
        s = files[nm]["seg"]
        s = (~np.isin(s, ignored(sc))).astype(np.uint8) if s is not None and ignored(sc) else None
        if m is not None and s is not None:
            m, s = [cv2.resize(a, max(m.shape, s.shape)[::-1], interpolation=cv2.INTER_NEAREST) for a in (m, s)]
            m = ((m > 0) & (s > 0)).astype(np.uint8)
        elif m is None:
            m = s
        if m is not None:
            out = cv2.resize(m, (w, h), interpolation=cv2.INTER_NEAREST) == 0
            if on[out].any():
                bad("mask", "%d raw depths of %s where it is masked" % (on[out].sum(), nm))
        g = gray[nm].astype(float)
        n = sc["patch"] ** 2
        mean = cv2.boxFilter(g, -1, (sc["patch"],) * 2)
        sd2 = np.maximum(cv2.boxFilter(g * g, -1, (sc["patch"],) * 2) - mean * mean, 0)
        if on[sd2 < 0.99 * sc["sd"] ** 2 - 0.01].any():
            bad("texture", "%d raw depths of %s where the patch has no texture" % (on[sd2 < 0.99 * sc["sd"] ** 2 - 0.01].sum(), nm))
        # depth, plane, score and neighbour agree
        y, x = np.nonzero(on)
        if len(y):
            rays = (np.linalg.inv(K) @ np.vstack([x, y, np.ones(len(x))])).T
            dp = 1 / np.maximum(1e-6, -(rays * r["plane"][y, x]).sum(1))
            wrong = np.abs(dp - d[y, x]) > 2e-3 * np.abs(d[y, x])
            if wrong.any():
                bad("plane", "%d of %d raw depths of %s are not on their plane" % (wrong.sum(), len(y), nm))
            views = nbs[:sc["nv"]]
            k = r["nghbr"][y, x]
            if (k < 1).any() or (k > len(views)).any():
                bad("nghbr", "raw depths of %s refer to views %s of %d" % (nm, sorted(set(k.tolist())), len(views)))
            else:
                for i in rng.permutation(len(y))[:25]:
                    best = []
                    for om in views:
                        Ro, co = P[om]
                        H = K @ (Ro @ R.T + np.outer(Ro @ (co - c), r["plane"][y[i], x[i]].astype(float))) @ np.linalg.inv(K)
                        best.append(ncc(gray[nm], gray[om], H, y[i], x[i], hp))
                    mine = best[k[i] - 1]
                    sco = float(r["score"][y[i], x[i]])
                    if mine[1] < 4 or mine[2] < 1e-2:
                        continue
                    if abs(mine[0] - sco) > 0.03:
                        bad("correlation", "the score of (%d, %d) of %s is %.3f, its plane has %.3f in view %d" % (x[i], y[i], nm, sco, mine[0], k[i]))
                    if sc["method"] != "PATCH_MATCH_SAMPLE" and any(b[0] > mine[0] + 0.03 and b[1] > 4 and b[2] > 1e-2 for b in best):
                        bad("best-view", "(%d, %d) of %s takes view %d (%.3f) where another has %.3f" % (x[i], y[i], nm, k[i], mine[0], max(b[0] for b in best)))
        # clean
        cl = clean[nm]
        if cl["depth"].shape != (h, w) or not (np.array_equal(cl["plane"], r["plane"]) and np.array_equal(cl["score"], r["score"])):
            bad("clean-copy", "plane or score of the clean depthmap of %s differ from the raw ones" % nm)
            continue
        X = points_of(d, K, R, c)
        lo, hi = np.ones(h * w, int), np.ones(h * w, int)
        for om in nbs:
            if om not in raw or raw[om]["depth"].shape != (h, w):
                continue
            a, b, z = project(X, K, *P[om])
            front = z > 1e-8
            do = raw[om]["depth"]
            e = 2e-3
            with np.errstate(invalid="ignore"):
                a, b = np.where(front, a, -9), np.where(front, b, -9)
                df = np.abs(interp(do, b, a) - z)
                safe = (np.abs(a) > e) & (np.abs(b) > e) & (np.abs(a - w + 1) > e) & (np.abs(b - h + 1) > e)
                # a shift of e pixels changes the interpolated depth
                slack = 3 * e * cv2.morphologyEx(do, cv2.MORPH_GRADIENT, np.ones((5, 5), np.uint8))[np.clip(np.round(b), 0, h - 1).astype(int), np.clip(np.round(a), 0, w - 1).astype(int)] + 1e-4 * z
                lo += front & safe & (df < z * sc["same"] - slack)
                hi += front & (~safe | (df < z * sc["same"] + slack))
        lo, hi = lo.reshape(h, w), hi.reshape(h, w)
        cd = cl["depth"]
        must, never = on & (lo >= sc["cons"]), hi < sc["cons"]
        if ((cd != 0) & (cd != d)).any():
            bad("clean-value", "the clean depthmap of %s has depths the raw one has not" % nm)
        if (cd[never] != 0).any():
            bad("clean-kept", "%d clean depths of %s are supported by fewer than %d views" % ((cd[never] != 0).sum(), nm, sc["cons"]))
        if (cd[must] == 0).any():
            bad("clean-lost", "%d depths of %s that %d views support are gone" % ((cd[must] == 0).sum(), nm, sc["cons"]))
        tz = T[nm][np.clip(((np.arange(h) + 0.5) * h0 / h).astype(int), 0, h0 - 1)][:, np.clip(((np.arange(w) + 0.5) * w0 / w).astype(int), 0, w0 - 1)]
        k = (cd > 0) & (tz > 0)
        good += int(k.sum())
        right += int((np.abs(cd[k] - tz[k]) < 0.1 * tz[k]).sum())
    if v:
        return v, good
    if good >= 200 and sc["cons"] >= 2 and right < 0.7 * good:
        bad("truth", "only %d of %d clean depths are within a tenth of the truth" % (right, good))
    # pruned
    for nm in done:
        R, c = P[nm]
        cd, pn = clean[nm]["depth"].astype(float), clean[nm]["plane"].astype(float)
        X = points_of(cd, K, R, c)
        ln = np.linalg.norm(pn, axis=2)
        nz = np.where(ln > 0, pn[:, :, 2] / np.maximum(ln, 1e-30), 0)
        with np.errstate(divide="ignore"):
            area = np.where(cd > 0, -nz / cd * K[0, 0], 0)
        drop, may = np.zeros(h * w, bool), np.zeros(h * w, bool)
        for om in [str(x) for x in raw[nm]["nghbrs"]]:
            if om not in clean:
                continue
            a, b, z = project(X, K, *P[om])
            od, on_ = clean[om]["depth"].astype(float), clean[om]["plane"].astype(float)
            ol = np.linalg.norm(on_, axis=2)
            onz = np.where(ol > 0, on_[:, :, 2] / np.maximum(ol, 1e-30), 0)
            with np.errstate(divide="ignore", invalid="ignore"):
                oarea = np.where(od > 0, -onz / od * K[0, 0], 0)
                a, b = np.where(z > 1e-8, a, -99), np.where(z > 1e-8, b, -99)
            ia, ib = np.trunc(a + 0.5), np.trunc(b + 0.5)
            e = 1e-3
            close = (np.abs(np.abs(a + 0.5 - np.round(a + 0.5))) < e) | (np.abs(np.abs(b + 0.5 - np.round(b + 0.5))) < e)
            close |= ((a > -1.5 - e) & (a < -0.5 + e)) | ((b > -1.5 - e) & (b < -0.5 + e))  # half a pixel outside: not judged
            ins = (ia >= 0) & (ib >= 0) & (ia < w) & (ib < h)
            ja, jb = np.clip(ia, 0, w - 1).astype(int), np.clip(ib, 0, h - 1).astype(int)
            dd, aa = od[jb, ja], oarea[jb, ja]
            lim = (1 - sc["same"]) * z
            t1 = ins & (dd > lim * (1 + 1e-4)) & (aa > area.ravel() * (1 + 1e-4) + 1e-12)
            t2 = (dd > lim * (1 - 1e-4)) & (aa > area.ravel() * (1 - 1e-4) - 1e-12)
            near = (a > -2) & (b > -2) & (a < w + 1) & (b < h + 1)
            drop |= t1 & ~close
            may |= (ins & t2 & ~t1) | (close & near)
        pr = pruned[nm]
        lens = {k: len(pr[k]) for k in ("points", "normals", "colors", "labels")}
        if len(set(lens.values())) != 1:
            bad("pruned-lengths", "the pruned depthmap of %s has %s" % (nm, lens))
            continue
        lab = files[nm]["seg"]
        lab = cv2.resize(lab, (w, h), interpolation=cv2.INTER_NEAREST).ravel() if lab is not None else np.zeros(h * w, int)
        i, msg = 0, None
        for p in np.nonzero(cd.ravel() > 0)[0]:
            mt = i < lens["points"] and np.abs(pr["points"][i] - X[p]).max() < 1e-3
            if drop[p] and not mt:
                continue
            if drop[p] and not may[p]:
                msg = "the point of pixel (%d, %d) of %s is kept though a neighbour sees it better" % (p % w, p // w, nm)
                break
            if not mt:
                if may[p]:
                    continue
                msg = "the point of pixel (%d, %d) of %s is missing" % (p % w, p // w, nm)
                break
            nrm = R.T @ (pn.reshape(-1, 3)[p] / ln.ravel()[p])
            if np.abs(pr["normals"][i] - nrm).max() > 1e-3 or pr["colors"][i].tolist() != color[nm].reshape(-1, 3)[p].tolist() or pr["labels"][i] != lab[p]:
                msg = "pixel (%d, %d) of %s has normal %s, colour %s, label %s instead of %s, %s, %s" % (
                    p % w, p // w, nm, pr["normals"][i], pr["colors"][i], pr["labels"][i], nrm, color[nm].reshape(-1, 3)[p], lab[p])
                break
            i += 1
        if msg is None and i != lens["points"]:
            msg = "%d points of %s are no clean depth" % (lens["points"] - i, nm)
        if msg:
            bad("pruned", msg)
    # merged
    try:
        with open(D + "/merged.ply") as f:
            head, body = f.read().split("end_header\n")
    except Exception as e:
        bad("merged", "merged.ply: %s: %s" % (type(e).__name__, e))
        return v, good
    rows = [x.split() for x in body.split("\n") if x]
    want = []
    for nm in names:
        if nm in pruned:
            pr = pruned[nm]
            want += ["%.4f %.4f %.4f %.3f %.3f %.3f %d %d %d %d" % (*p, *n, *c, l) for p, n, c, l in zip(pr["points"], pr["normals"], pr["colors"], pr["labels"])]
    if "element vertex %d\n" % len(rows) not in head or sorted(" ".join(x) for x in rows) != sorted(want):
        bad("merged", "merged.ply has %d points (%s), the pruned depthmaps %d" % (len(rows), head.split("element")[1][:16].strip(), len(want)))
    return v, good


def run(sc, root):
    ps, names, Z, pts, tracks, files = world(sc)
    ds = root + "/ds"
    u = make(ds, sc, ps, names, pts, tracks, files)
    args = ["compute_depthmaps", ds] + (["--subfolder", sc["sub"]] if sc["sub"] else [])
    v, rs, good = [], [], 0
    base = "%s, %d images, %d workers" % (sc["method"], len(names), sc["procs"])
    nops = {"m": 4 + 9 * sc["n"], "r": 10 + 22 * sc["n"]}
    for j, k in enumerate(list(sc["lives"]) + [None]):
        faults = []
        if k:
            fk = {"at": int(k["pos"] * nops[k["side"]]), "side": k["side"], "kind": k["kind"], "frac": k["frac"]}
            if k["kind"] == "err":
                fk["errno"] = "EIO" if k["side"] == "r" else k["errno"]
            elif k["side"] == "r":
                fk["kind"] = "kill"
            faults = [fk]
        r = cm.must_report(simproc.run(lambda: pl.cli(*args), root, mode=sc["mode"] if sc["procs"] > 1 else None,
                                       faults=faults, seed=sc["seed"] % 1000 + j, dirseed=sc["dirseed"] + j, wall=120))
        rs.append(r)
        what = "%s, run %d of %d" % (base, j + 1, len(sc["lives"]) + 1)
        if (k is None or not r["fired"]) and r["outcome"] != "ok":
            v.append({"key": "fails:%s" % (r["info"][0] if r["outcome"] == "exc" else r["outcome"]),
                      "msg": "%s: %s %s" % (what, cm.outcome_str(r), (r["info"] or "")[-1][-500:] if r["outcome"] == "exc" else cm.stacks_str(r) if r["outcome"] == "deadlock" else "")})
            break
        if r["outcome"] in ("deadlock", "steplimit", "crashed"):
            v.append({"key": r["outcome"], "msg": "%s: %s after %s" % (what, cm.stacks_str(r), r["fired"])})
            break
        if r["outcome"] == "ok":
            w, good = judge(u, sc, ps, names, Z, pts, tracks, files, what + (", a failing disk" if r["fired"] else ""))
            v += w
            if w:
                break
    return {"violations": v, "nontrivial": repr([sc["seed"], rs[-1]["fshash"], rs[-1]["nswitch"]]) if good else None, "trace": rs[-1]["trace"],
            "stats": {"clean_depths": good, "lifetimes": len(rs)},
            "fired": cm.fired_counts(*rs), "sim_time": sum(x["now"] for x in rs), "log": [[x["outcome"], x["fshash"]] for x in rs]}


def shrink(sc):
    for s in cm.subsets(sc["lives"]):
        yield dict(sc, lives=s)
    for s in cm.subsets(sc["extra"]):
        yield dict(sc, extra=s)
    for k, z in (("n", 2), ("n", 3), ("procs", 1), ("masks", 0), ("seg", 0), ("ign", None), ("msize", False), ("debug", False), ("sub", None),
                 ("fmt", "png"), ("range", False), ("it", 1), ("nv", 6), ("nn", 10), ("sd", 1.0), ("corr", 0.1)):
        if sc[k] != z and not (k == "n" and sc[k] < z):
            yield dict(sc, **{k: z})
    yield from cm.shrink_mode(sc)
