"""C08: splitting a dataset into submodels, and aligning them, from any state the dataset is in."""
import fcntl
import json
import math
import os
import random
import shutil

import numpy as np

from sim import simproc
from . import common as cm
from . import pipeline as pl

ID = "C08"
BUDGET = {"quick": 45, "thorough": 900}
RULE = ("a run splits a generated dataset once to three times with changing settings, some of the splits "
        "killed or hit by failing file operations, then once more undisturbed; or aligns reconstructed "
        "submodels with kills and failures and then once more; non-trivial when a fault fired or there "
        "was more than one split; distinct by dataset, file operations and faults")
COMPONENTS = {"real": ["bin/opensfm_main.py create_submodels, align_submodels, create_tracks, reconstruct",
                       "opensfm.large", "opensfm.dataset", "opensfm.align", "C++ extensions", "OpenCV kmeans"],
              "stub": ["disk, its errors and process death at the libc boundary", "clock, randomness"]}
ASSUMPTIONS = ["process death, not power loss", "distances closer than 2% to the overlap setting may go either way "
               "(positions are clustered in single precision)"]
prepare = pl.prepare
LINKED = ["camera_models.json", "reference_lla.json", "exif", "features", "matches", "masks", "mask_list.txt", "segmentations",
          "reports/features", "reports/features.json", "reports/matches.json"]
ACFGS = [{"wl": 3, "n": 5, "conf": {"submodel_size": 3, "submodel_overlap": 1.0}, "split": 3},
         {"wl": 12, "n": 5, "conf": {"submodel_size": 3, "submodel_overlap": 1.3}, "split": 2},
         {"wl": 12, "n": 5, "conf": {"submodel_size": 3, "submodel_overlap": 1.3}}]


def fault(r, side=None):
    k = r.choice(["kill", "kill", "kill", "torn", "err", "err", "short"])
    f = {"pos": r.random(), "side": "m" if k in ("kill", "torn", "short") else r.choice("mmr"), "kind": k,
         "frac": r.choice([0.0, 0.3, 0.9])}
    if k == "err":
        f.update(errno=r.choice(["EIO", "ENOSPC" if f["side"] == "m" else "EACCES"]), sticky=f["side"] == "m" and r.random() < 0.4)
    return f


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 8)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        if r.random() < 0.25:
            c = r.choice(ACFGS)
            yield {"hs": r.choice(cm.HS), "kind": "align", "cfg": c, "faults": [[fault(r)] for _ in range(r.choice([1, 1, 2]))],
                   "dirseed": c["wl"] * 7 + 3, "seed": c["wl"] + 17}
            continue
        n = r.choice([1, 2, 3, 5, 8, 12, 16])
        groups = r.random() < 0.25
        if r.random() < 0.015:  # more submodels than a byte counts
            yield {"hs": r.choice(cm.HS), "kind": "split", "n": 262, "world": r.randrange(1 << 30), "groups": groups, "list": None, "nogps": 0, "same": False,
                   "spaces": False, "extras": False, "gcp": False, "many": True, "splits": [{"w": None, "size": 1, "overlap": 0.001, "faults": []}],
                   "dirseed": r.randrange(1, 100), "seed": r.randrange(1 << 20)}
            continue
        yield {"hs": r.choice(cm.HS), "kind": "split", "n": n, "world": r.randrange(1 << 30), "groups": groups,
               "list": r.choice([None, None, "inside", "outside"]), "nogps": r.choice([0, 0, 0.2]),
               "same": r.random() < 0.15, "zero": r.choice(["lat", "lon"]) if r.random() < 0.15 else None, "spaces": not groups and r.random() < 0.2,
               "extras": r.random() < 0.6, "gcp": r.random() < 0.3,
               "splits": [{"w": r.choice([None, None, None, r.randrange(1 << 30)]), "size": r.choice([1, 2, 3, 5, 80]), "overlap": r.choice([0.001, 5.0, 20.0, 60.0, 500.0]),
                           "faults": [fault(r)] if r.random() < 0.75 else []}
                          for _ in range(r.choice([1, 1, 2, 3]))],
               "dirseed": r.randrange(1, 100), "seed": r.randrange(1 << 20)}


# ---- the dataset ------------------------------------------------------------

def world(sc):
    """[(image, lat, lon) or (image, None, None)], {image: group}"""
    r = random.Random(sc["world"])
    centers = [(50.0 + r.uniform(-1, 1) * 2e-3, 10.0 + r.uniform(-1, 1) * 2e-3) for _ in range(max(1, sc["n"] // 3))]
    out, groups = [], {}
    for i in range(sc["n"]):
        nm = ("im age %d.png" if sc["spaces"] else "img%02d.png") % i
        a, b = r.choice(centers)
        lat, lon = a + r.gauss(0, 1e-4), b + r.gauss(0, 1.5e-4)
        if sc["same"]:
            lat, lon = centers[i % 2 if len(centers) > 1 else 0]
        if sc.get("zero"):  # along the equator or the meridian of Greenwich
            lat, lon = (0.0, lon) if sc["zero"] == "lat" else (lat, 0.0)
        if r.random() < sc["nogps"] and i:
            lat = lon = None
        out.append((nm, lat, lon))
        groups[nm] = "g%d" % (i if sc.get("many") else r.randrange(3) if i > 2 else 0)
    return out, groups


def at(sc, s):
    """The dataset as it is when split s is made: positions and groups may have been corrected since."""
    return sc if s.get("w") is None else dict(sc, world=s["w"])


def make(ds, sc):
    imgs, groups = world(sc)
    os.makedirs(ds, exist_ok=True)
    pics = ds + "/images" if sc["list"] != "outside" else os.path.dirname(ds) + "/elsewhere/pics"
    os.makedirs(pics)
    for i, (nm, lat, lon) in enumerate(imgs):
        cm.write_png(pics + "/" + nm, np.full((4, 6, 3), i % 256, np.uint8))
        d = cm.exif_dict(i, 6, 4, "cam")
        d.pop("gps", None)
        if lat is not None:
            d["gps"] = {"latitude": lat, "longitude": lon, "altitude": 1.0, "dop": 5.0}
        cm.write_json("%s/exif/%s.exif" % (ds, nm), d)
    cm.write_json(ds + "/camera_models.json", {"cam": cm.camera_json(6, 4)})
    if sc["list"]:
        with open(ds + "/image_list.txt", "w") as f:
            f.write("".join("%s/%s\n" % (os.path.relpath(pics, ds), nm) for nm, _, _ in imgs))
    if sc["extras"]:
        os.makedirs(ds + "/masks")
        cm.write_png("%s/masks/%s.png" % (ds, imgs[0][0]), np.zeros((4, 6), np.uint8))
        if not sc["spaces"] and sc["world"] % 2:
            with open(ds + "/mask_list.txt", "w") as f:
                f.write("%s masks/%s.png\n" % (imgs[-1][0], imgs[0][0]))
        for f in ("features/x.features.npz", "matches/x_matches.pkl.gz", "reports/features/x.json", "reports/features.json"):
            os.makedirs(os.path.dirname(ds + "/" + f), exist_ok=True)
            with open(ds + "/" + f, "wb") as g:
                g.write(b"data of " + f.encode())
    if sc["groups"]:
        with open(ds + "/image_groups.txt", "w") as f:
            f.write("".join("%s %s\n" % (nm, groups[nm]) for nm, _, _ in imgs))
    if sc["gcp"]:
        cm.write_json(ds + "/ground_control_points.json", {"points": [{
            "id": "g", "position": {"latitude": 50.0, "longitude": 10.0, "altitude": 1.0}, "observations": []}]})


def remake(ds, sc):
    """Same images, other positions and groups."""
    for nm in os.listdir(ds):
        if nm not in ("submodels", "config.yaml", "profile.log"):
            (shutil.rmtree if os.path.isdir(ds + "/" + nm) else os.remove)(ds + "/" + nm)
    shutil.rmtree(os.path.dirname(ds) + "/elsewhere", ignore_errors=True)
    make(ds, sc)


def conf(ds, s):
    cm.write_config(ds, {"submodel_size": s["size"], "submodel_overlap": s["overlap"]})


# ---- the oracle --------------------------------------------------------------

def dist(a, b):
    R = 6378137.0
    la = math.radians((a[0] + b[0]) / 2)
    return math.hypot(math.radians(a[0] - b[0]) * R * 0.9966, math.radians(a[1] - b[1]) * R * math.cos(la) * 1.0016)


def tree(ds):
    """What is under submodels/, comparable between datasets."""
    out = {}
    for k, b in cm.snapshot(ds + "/submodels").items():
        if k.endswith(".tmp"):
            continue
        if isinstance(b, str):
            out[k] = b
            continue
        try:
            out[k] = pl.decode(k, b)
        except Exception as e:
            out[k] = "UNREADABLE " + type(e).__name__
    return out


def judge(ds, sc, s):
    """Violations of the finished split."""
    v = []
    imgs, groups = world(sc)
    pos = {nm: (la, lo) for nm, la, lo in imgs if la is not None}
    sub = sorted(x for x in os.listdir(ds + "/submodels") if os.path.isdir("%s/submodels/%s" % (ds, x)))
    if sub != ["submodel_%04d" % i for i in range(len(sub))]:
        v.append({"key": "names", "msg": "submodel folders %s" % sub})
    sets = []
    for x in sub:
        b = "%s/submodels/%s" % (ds, x)
        with open(b + "/image_list.txt") as f:
            lines = f.read().splitlines()
        names = [os.path.basename(l) for l in lines]
        if len(set(names)) != len(names):
            v.append({"key": "twice", "msg": "%s lists an image twice: %s" % (x, names)})
        for nm, l in zip(names, lines):
            src = os.path.join(os.path.dirname(ds) + "/elsewhere/pics" if sc["list"] == "outside" else ds + "/images", nm)
            if os.path.realpath(os.path.join(b, l)) != os.path.realpath(src):
                v.append({"key": "image", "msg": "%s of %s leads to %s" % (l, x, os.path.realpath(os.path.join(b, l)))})
        for f in LINKED:
            if os.path.exists(ds + "/" + f) != os.path.exists(b + "/" + f) or (
                    os.path.exists(b + "/" + f) and os.path.realpath(b + "/" + f) != os.path.realpath(ds + "/" + f)):
                v.append({"key": "link", "msg": "%s of %s leads to %s" % (f, x, os.path.realpath(b + "/" + f))})
        with open(b + "/config.yaml", "rb") as f, open(ds + "/config.yaml", "rb") as g:
            if f.read() != g.read():
                v.append({"key": "config", "msg": "the config of %s is not the dataset's" % x})
        sets.append(set(names))
    lost = set(pos) - set().union(*sets) if sets else set(pos)
    extra = set().union(*sets) - set(pos) if sets else set()
    if lost or extra:
        v.append({"key": "coverage", "msg": "images %s are in no submodel, %s should be in none" % (sorted(lost), sorted(extra))})
    # own cluster of every image
    z = np.load(ds + "/submodels/clusters.npz")
    own = dict(zip([str(a) for a in z["images"].ravel()], [int(a) for a in z["labels"].ravel()]))
    if set(own) != set(pos):
        v.append({"key": "clusters", "msg": "clustered %s, not %s" % (sorted(own), sorted(pos))})
    elif not v:
        if sc["groups"]:
            ks = sorted({groups[nm] for nm in pos})
            bad = [nm for nm in pos if own[nm] != ks.index(groups[nm])]
            if bad:
                v.append({"key": "groups", "msg": "%s are not in the submodel of their group" % bad})
        elif len(sub) != math.ceil(len(pos) / s["size"]):
            v.append({"key": "count", "msg": "%d submodels for %d images of at most %d" % (len(sub), len(pos), s["size"])})
        for k, have in enumerate(sets):
            core = [nm for nm in pos if own[nm] == k]
            d = {nm: min([dist(pos[nm], pos[c]) for c in core] or [1e9]) for nm in pos}
            miss = [nm for nm in pos if nm not in have and (nm in core or d[nm] < s["overlap"] * 0.98 - 0.7)]
            more = [nm for nm in have if nm not in core and d[nm] > s["overlap"] * 1.02 + 0.7]
            if miss or more:
                v.append({"key": "overlap", "msg": "submodel %d (images %s, overlap %s m) lacks %s and has %s too many" % (
                    k, core, s["overlap"], miss, more)})
        for f, want in (("clusters.geojson", [(nm, own[nm]) for nm in pos]),
                        ("clusters_with_neighbors.geojson", [(nm, k) for k, h in enumerate(sets) for nm in h])):
            with open(ds + "/submodels/" + f) as g:
                fs = json.load(g)["features"]
            got = [(x["properties"]["name"], x["properties"]["submodel"]) for x in fs]
            off = [x["properties"]["name"] for x in fs if x["properties"]["name"] in pos and np.abs(np.array(x["geometry"]["coordinates"])[::-1] - pos[x["properties"]["name"]]).max() > 1e-4]
            if off:
                v.append({"key": "geojson-place", "msg": "%s draws %s at other places" % (f, off[:4])})
            if sorted(got) != sorted(want):
                v.append({"key": "geojson", "msg": "%s has %s" % (f, sorted(got)[:5])})
    return v


def outside(ds):
    out = cm.snapshot(os.path.dirname(ds), skip=("ds/submodels/", "golden", "fresh", "ds/profile.log", ".tmp"))
    return {k: x for k, x in out.items() if not k.endswith(".tmp") and k not in ("ds/config.yaml", "ds/reference_lla.json")
            and k.startswith(("ds/", "elsewhere/"))}


def split(ds, root, sc, faults, ops):
    fs = []
    for f in faults:
        n = max(1, ops[f["side"]])
        fs.append(dict(f, at=min(n - 1, int(f["pos"] * n))))
    return cm.must_report(simproc.run(lambda: pl.cli("create_submodels", ds), root, seed=sc["seed"],
                                      dirseed=sc["dirseed"], faults=fs))


def run_split(sc, root):
    ds = root + "/ds"
    v, lives, log = [], [], []
    last = sc["splits"][-1]
    # an undisturbed split of an untouched copy
    make(ds, at(sc, last))
    conf(ds, last)
    res = split(ds, root, sc, [], {})
    lives.append(res)
    log.append([res["outcome"], res["fshash"]])
    if res["outcome"] != "ok":
        return {"violations": [{"key": "cannot-split", "msg": "splitting fails: %s %s" % (
            cm.outcome_str(res), (res["info"] or "")[-1][-500:])}], "nontrivial": None, "trace": "", "stats": {},
            "fired": {}, "sim_time": 0, "log": log}
    ops = {"m": res["m"], "r": res["r"]}
    v += judge(ds, at(sc, last), last)
    want = tree(ds)
    with open(ds + "/reference_lla.json") as f:
        ref = json.load(f)
    shutil.rmtree(ds)
    shutil.rmtree(root + "/elsewhere", ignore_errors=True)
    make(ds, sc)
    now = None
    for s in sc["splits"] + [dict(last, faults=[])]:
        if s.get("w") != now:
            remake(ds, at(sc, s))
        now = s.get("w")
        before = outside(ds)
        conf(ds, s)
        res = split(ds, root, sc, s["faults"], ops)
        lives.append(res)
        log.append([res["outcome"], res["fshash"], res["fired"]])
        where = ", ".join("%s at %s %s" % (x[0], x[1], x[2].split("/ds/")[-1]) for x in res["fired"][:2])
        d = pl.diff(before, outside(ds))
        if d:
            v.append({"key": "dataset-changed", "msg": "splitting (%s; %s) changed the dataset: %s" % (
                res["outcome"], where, "; ".join(d[:4]))})
        if res["outcome"] in ("deadlock", "steplimit", "crashed") or (res["outcome"] == "exc" and not res["fired"]):
            v.append({"key": "cannot-split-again", "msg": "splitting again fails: %s %s" % (
                cm.outcome_str(res), (res["info"] or "")[-1][-500:])})
        elif res["outcome"] == "ok" and not v:
            bad = judge(ds, at(sc, s), s)
            for b in bad:
                b["msg"] += " (reported success; %s)" % where
            v += bad
        if v:
            break
    else:
        d = pl.diff(want, tree(ds))
        if d:
            v.append({"key": "differs", "msg": "after earlier splits %s, splitting again leaves: %s" % (
                [x["outcome"] for x in lives[1:-1]], "; ".join(d[:4]))})
        with open(ds + "/reference_lla.json") as f:
            if json.load(f) != ref:
                v.append({"key": "reference", "msg": "the reference is not that of an undisturbed split"})
    fired = cm.fired_counts(*lives)
    return {"violations": v, "nontrivial": repr([sc["world"], [x["fshash"] for x in lives]]) if fired or len(lives) > 3 else None,
            "trace": repr([x["trace"] for x in lives]),
            "stats": {"splits": len(lives), "submodels": sum(k.endswith("image_list.txt") for k in want), **{"end_" + x["outcome"]: 1 for x in lives}},
            "fired": fired, "sim_time": 0, "log": log}


# ---- alignment ---------------------------------------------------------------

def shape(rec):
    """Camera centres and points, in a fixed order."""
    out = []
    def rod(v):
        v = np.array(v)
        t = np.linalg.norm(v)
        if t < 1e-12:
            return np.eye(3)
        k = v / t
        K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
        return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K
    cen = {s: -rod(x["rotation"]).T @ np.array(x["translation"]) for s, x in rec["shots"].items()}
    pts = {p: np.array(x["coordinates"]) for p, x in rec["points"].items()}
    return cen, pts


def aligned_ready(cfg, hs, root):
    base = pl.golden(cfg, hs, root, "match_features")
    ds = root + "/ds"
    done = base + "/aligned"
    run = lambda *a: cm.must_report(simproc.run(lambda: pl.cli(*a), root, seed=cfg["wl"] + 17, dirseed=cfg["wl"] * 7 + 3))  # noqa: E731
    with open(base + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(done):
            shutil.copytree(base + "/g_match_features", ds, symlinks=True)
            if cfg.get("split"):
                with open(ds + "/image_groups.txt", "w") as f:
                    f.write("".join("v%02d.png %d\n" % (i, i >= cfg["split"]) for i in range(cfg["n"])))
            r = run("create_submodels", ds)
            subs = sorted(x for x in os.listdir(ds + "/submodels") if x.startswith("submodel_"))
            todo = [(c, "%s/submodels/%s" % (ds, x)) for x in subs for c in ("create_tracks", "reconstruct")]
            for a in todo:
                if r["outcome"] == "ok":
                    r = run(*a)
            if r["outcome"] == "ok":
                shutil.copytree(ds, base + "/t_split", symlinks=True)
                r = run("align_submodels", ds)
            if r["outcome"] != "ok":
                raise pl.FaultFreeFailure("splitting, reconstructing and aligning fails: %s %s" % (
                    cm.outcome_str(r), (r["info"] or "")[-1][-400:]))
            shutil.copytree(ds, base + "/g_aligned", symlinks=True)
            shutil.rmtree(ds)
            os.rename(base + "/t_split", base + "/g_split")
            with open(done + ".t", "w") as f:
                json.dump({"m": r["m"], "r": r["r"]}, f)
            os.rename(done + ".t", done)
    shutil.copytree(base + "/g_split", ds, symlinks=True)
    with open(done) as f:
        return ds, base + "/g_aligned", json.load(f)


def judge_aligned(ds):
    v = []
    cens = {}
    n = 0
    for x in sorted(os.listdir(ds + "/submodels")):
        b = "%s/submodels/%s" % (ds, x)
        if not os.path.exists(b + "/reconstruction.json"):
            continue
        with open(b + "/reconstruction.json") as f:
            if not json.load(f):  # nothing to align
                continue
        n += 1
        if not os.path.exists(b + "/reconstruction.aligned.json"):
            v.append({"key": "align:missing", "msg": "%s was not aligned" % x})
            continue
        with open(b + "/reconstruction.json") as f, open(b + "/reconstruction.aligned.json") as g:
            old, new = json.load(f), json.load(g)
        if len(old) != len(new):
            v.append({"key": "align:count", "msg": "%s has %d reconstructions, aligned %d" % (x, len(old), len(new))})
            continue
        for k, (o, m) in enumerate(zip(old, new)):
            (c0, p0), (c1, p1) = shape(o), shape(m)
            if set(c0) != set(c1) or set(p0) != set(p1):
                v.append({"key": "align:content", "msg": "aligning %s changed its shots or points" % x})
                continue
            A = np.array([c0[s] for s in sorted(c0)] + [p0[s] for s in sorted(p0)])
            B = np.array([c1[s] for s in sorted(c0)] + [p1[s] for s in sorted(p0)])
            da, db = A - A.mean(0), B - B.mean(0)
            na, nb = np.linalg.norm(da), np.linalg.norm(db)
            U, S, Vt = np.linalg.svd((da / na).T @ (db / nb))
            if abs(S.sum() * np.sign(np.linalg.det(U @ Vt)) - 1) > 1e-6:
                v.append({"key": "align:deformed", "msg": "aligning %s is not a similarity (%s)" % (x, S)})
            for s in c1:
                cens.setdefault(s, []).append((x, k, c1[s]))
    common = {s: c for s, c in cens.items() if len(c) > 1}
    if n < 2 or not common:  # how the images cluster is up to k-means
        return v
    far = {s: float(np.linalg.norm(c[0][2] - c[1][2])) for s, c in common.items()}
    if max(far.values()) > 0.3:
        v.append({"key": "align:apart", "msg": "aligned submodels place shared images apart: %s" % far})
    return v


def run_align(sc, root):
    ds, want_dir, ops = aligned_ready(sc["cfg"], sc["hs"], root)
    v = judge_aligned(want_dir)
    skip = ("profile.log", "reports/", ".tmp")
    keep = lambda d: {k: x for k, x in cm.snapshot(d, skip=skip).items()  # noqa: E731
                      if not k.endswith(("aligned.json", ".tmp", "profile.log"))}
    before = keep(ds)
    want = {k: pl.decode(k, x) for k, x in cm.snapshot(want_dir).items() if k.endswith("aligned.json")}
    lives, log = [], []
    for fs in sc["faults"] + [[]]:
        fs = [dict(f, at=min(max(1, ops[f["side"]]) - 1, int(f["pos"] * ops[f["side"]]))) for f in fs]
        r = cm.must_report(simproc.run(lambda: pl.cli("align_submodels", ds), root, seed=sc["seed"],
                                       dirseed=sc["dirseed"], faults=fs))
        lives.append(r)
        log.append([r["outcome"], r["fshash"], r["fired"]])
        where = ", ".join("%s at %s %s" % (x[0], x[1], x[2].split("/ds/")[-1]) for x in r["fired"][:2])
        d = pl.diff(before, keep(ds))
        if d:
            v.append({"key": "align:changed", "msg": "aligning (%s) changed %s" % (where, "; ".join(d[:4]))})
        if r["outcome"] == "ok":
            got = {k: pl.decode(k, x) for k, x in cm.snapshot(ds).items() if k.endswith("aligned.json")}
            d = pl.diff(want, got)
            if d:
                v.append({"key": "align:differs", "msg": "aligning reported success (%s) with %s" % (where, "; ".join(d[:4]))})
        elif not r["fired"] or r["outcome"] not in ("exc", "killed"):
            v.append({"key": "align:fails", "msg": "aligning fails: %s" % cm.outcome_str(r)})
        if v:
            break
    fired = cm.fired_counts(*lives)
    return {"violations": v, "nontrivial": repr(["align"] + [x["fshash"] for x in lives]) if fired else None,
            "trace": repr([x["trace"] for x in lives]), "stats": {"alignments": len(lives)},
            "fired": fired, "sim_time": 0, "log": log}


@pl.guarded
def run(sc, root):
    return run_align(sc, root) if sc["kind"] == "align" else run_split(sc, root)


def shrink(sc):
    if sc["kind"] == "align":
        for k in cm.subsets(sc["faults"]):
            yield dict(sc, faults=k)
        return
    for k in cm.subsets(sc["splits"]):
        if k:
            yield dict(sc, splits=k)
    for i, s in enumerate(sc["splits"]):
        if s.get("w") is not None:
            yield dict(sc, splits=[dict(x, w=None) if x is s else x for x in sc["splits"]])
        if s["faults"]:
            yield dict(sc, splits=sc["splits"][:i] + [dict(s, faults=[])] + sc["splits"][i + 1:])
    for n in (1, 2, 3, 5, 8):
        if n < sc["n"]:
            yield dict(sc, n=n)
    for k, z in (("groups", False), ("list", None), ("nogps", 0), ("same", False), ("spaces", False), ("extras", False), ("gcp", False)):
        if sc[k] != z:
            yield dict(sc, **{k: z})
