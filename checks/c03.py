"""C03: every selected pair is matched once, as if it were matched alone."""
import fcntl
import json
import os
import pickle
import random
import shutil

import numpy as np

from sim import simproc
from . import c19
from . import common as cm
from . import pipeline as pl
from . import scene

ID = "C03"
BUDGET = {"quick": 50, "thorough": 900}
RULE = ("a run matches the images of a small scene with a random matcher, pair selection, number of workers, "
        "memory size and schedule, from the command line or through the API with separate references and "
        "candidates, once or again after some features changed; non-trivial when there were at least two "
        "pairs and two workers, or features changed; distinct by settings, schedule trace and file operations")
COMPONENTS = {"real": ["opensfm.matching", "opensfm.pairs_selection", "opensfm.feature_loading", "opensfm.masking",
                       "opensfm.context (joblib threads)", "opensfm.dataset", "C++ features, geometry and robust", "OpenCV matchers"],
              "stub": ["thread scheduler, clock, randomness", "disk at the libc boundary"]}
ASSUMPTIONS = ["C calls are atomic with respect to the scheduler",
               "approximate matching (FLANN) is judged by what it must not do only: its search is random"]
prepare = pl.prepare
GRAN = "line"
CFGS = [{"wl": 3, "n": 5}, {"wl": 11, "n": 4, "extras": ["masks", "seg"], "conf": {"processes": 2, "matcher_type": "BRUTEFORCE"}},
        {"wl": 8, "n": 4, "extras": ["bake", "gcp", "brown"]}]
MATCH = [{"matcher_type": "BRUTEFORCE"}, {"matcher_type": "BRUTEFORCE", "symmetric_matching": False},
         {"matcher_type": "WORDS"}, {"matcher_type": "BRUTEFORCE", "matching_use_filters": True},
         {"matcher_type": "WORDS", "symmetric_matching": False, "robust_matching_min_match": 60},
         {"matcher_type": "FLANN"}, {"matcher_type": "BRUTEFORCE", "lowes_ratio": 0.6, "matching_use_segmentation": True}]

FILTERS = 3


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 3)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        ci = r.randrange(len(CFGS))
        n = CFGS[ci]["n"]
        late = r.choice([None, None, 1, 3, 6, 8])
        sel = r.choice([{}, {}, {"matching_time_neighbors": r.choice([1, 2])}, {"matching_order_neighbors": r.choice([1, 3])},
                        {"matching_gps_neighbors": r.choice([1, 2])}, {"matching_gps_distance": 9.0},
                        {"matching_gps_distance": 5.0, "matching_order_neighbors": 1}])
        api = r.random() < 0.4
        match = r.choice(list(range(len(MATCH))) + [FILTERS] * 2)
        marks = r.choice([None, "VTrans_Camera", "BlackVue"]) if match == FILTERS else None
        yield {"hs": r.choice(cm.HS), "cfg": ci, "match": match, "marks": marks,
               "list": r.random() < 0.3, "static": (r.choice([0, 0, 1, 2]) if marks else r.choice([0, 1])) if match == FILTERS and ci != 1 else 0, "sel": sel, "processes": r.choice([1, 2, 2, 3, 4]),
               "memory": r.choice([None, None, 600, 1500]), "api": api, "late": late,
               "warm": r.random() < 0.3, "guided": api and r.random() < 0.2,
               "ref": sorted(r.sample(range(n), r.randrange(1, n + 1))) if api else None,
               "cand": sorted(r.sample(range(n), r.randrange(1, n + 1))) if api else None,
               "few": r.choice([None, None, None, 0, 1, 3]), "again": r.random() < 0.25, "gran": r.choice(["line", "line", None]),
               "mode": cm.pick_mode(r, 3000), "dirseed": r.randrange(1, 100), "seed": r.randrange(1 << 20)}


# ---- the dataset -----------------------------------------------------------------

def names(n):
    return ["v%02d.png" % i for i in range(n)]


def edit_features(path, rows):
    with np.load(path) as z:
        d = {k: z[k] for k in z.files}
    n = len(d["points"])
    d = {k: (x[rows] if x.shape[:1] == (n,) and n else x) for k, x in d.items()}
    np.savez_compressed(path, **d)


def words_of(ds, nm):
    with np.load("%s/features/%s.features.npz" % (ds, nm)) as z:
        d = z["descriptors"].astype(np.float32)
    voc = np.random.RandomState(5).randint(0, 90, (24, d.shape[1])).astype(np.float32)
    if not len(d):
        return np.zeros((0, 2), np.uint16)
    e = ((d ** 2).sum(1)[:, None] - 2 * d @ voc.T + (voc ** 2).sum(1)[None])
    return np.argsort(e, 1)[:, :2].astype(np.uint16)


def pixels(ds, nm):
    with np.load("%s/features/%s.features.npz" % (ds, nm)) as z:
        return z["points"][:, :2] * max(scene.W, scene.H) + [scene.W / 2, scene.H / 2]


def mask_late(ds, orientation):
    """A mask that the user adds to v01.png after detection, away from its features' pixels; mask images are upright."""
    x = np.sort(np.concatenate([pixels(ds, "v01.png")[:, 0], [scene.W * 0.4, scene.W * 0.6]]))
    x = x[(x >= scene.W * 0.4) & (x <= scene.W * 0.6)]
    k = int(np.argmax(np.diff(x)))
    at = int(round((x[k] + x[k + 1]) / 2))
    m = np.full((scene.H, scene.W), 255, np.uint8)
    m[:, at:] = 0
    with open(ds + "/exif/v01.png.exif") as f:
        e = json.load(f)
    cm.write_json(ds + "/exif/v01.png.exif", dict(e, orientation=orientation))
    os.makedirs(ds + "/masks", exist_ok=True)
    turn = lambda x: np.ascontiguousarray(np.rot90(x, {1: 0, 3: 2, 6: -1, 8: 1}[orientation]))  # noqa: E731
    cm.write_png(ds + "/masks/v01.png.png", turn(m))  # what was masked at detection has no features
    p = ds + "/segmentations/v01.png.png"
    if os.path.exists(p):
        cm.write_png(p, turn(np.full((scene.H, scene.W), 3, np.uint8)))
    with open(ds + "/late.json", "w") as f:
        json.dump(at, f)


def marked(sc):
    """The images of a camera that prints a watermark."""
    return ["v00.png", "v02.png"] if sc["marks"] else []


def add_static(ds, n, marks, moving):
    """Dust: features that are at the same place in all images, or things on the watermark that move."""
    g = np.random.RandomState(9)
    k = 100
    at = np.column_stack([g.uniform(-0.45, 0.45, k), g.uniform(-0.3, 0.3, k)])
    if moving:
        at[:, 1] = g.uniform(-0.37, -0.26, k) if marks == "VTrans_Camera" else g.uniform(0.27, 0.37, k)
    for i, nm in enumerate(names(n)):
        p = "%s/features/%s.features.npz" % (ds, nm)
        with np.load(p) as z:
            d = {f: z[f] for f in z.files}
        m = len(d["points"])
        if not m:
            continue
        e = np.random.RandomState(8).randint(0, 200, (k, d["descriptors"].shape[1])).astype(d["descriptors"].dtype)
        new = {"points": np.column_stack([at + [0.01 * i * moving, 0.5 * (i % 2) * moving * (1 if marks == "VTrans_Camera" else -1)], d["points"][np.arange(k) % m, 2:]]).astype(d["points"].dtype), "descriptors": e}
        for f, x in d.items():
            if x.shape[:1] == (m,):
                add = new.get(f, x[np.arange(k) % m])
                if f == "segmentations":
                    add = np.full_like(add, 3)
                d[f] = np.concatenate([x, add])
        np.savez_compressed(p, **d)


def filtered(ds, sc, ms, a, b):
    """Those that are neither static nor on a watermark."""
    at = []
    for nm in (a, b):
        with np.load("%s/features/%s.features.npz" % (ds, nm)) as z:
            at.append(z["points"][:, :2].astype(float))
    moves = {(i, j) for i, j in ms if np.hypot(*(at[0][i] - at[1][j])) > 0.001 - 1e-7}
    if len(moves) >= 0.2 * len(ms):
        ms = moves
    elif len(moves) > 0.1 * len(ms):
        return set(ms), set()
    for k, nm in enumerate((a, b)):
        if nm in marked(sc):
            y = at[k][:, 1]
            ms = {m for m in ms if (y[m[k]] > -0.255 - 1e-6 if sc["marks"] == "VTrans_Camera" else y[m[k]] < 0.263 + 1e-6)}
    return ms, ms


def kept(ds, sc, nm):
    """Indices of the features that are not masked."""
    with np.load("%s/features/%s.features.npz" % (ds, nm)) as z:
        k = np.ones(len(z["points"]), bool)
        if "bake" in CFGS[sc["cfg"]].get("extras", ()) and len(k):
            k &= z["segmentations"] != 7
    if sc["late"] and nm == "v01.png":
        with open(ds + "/late.json") as f:
            k &= pixels(ds, nm)[:, 0] < json.load(f)
    return np.flatnonzero(k)


def nearest(d1, d2, ratio, slack):
    """{(i, j)}: j is the nearest to i, clearly nearer than the second nearest."""
    if len(d2) < 2 or not len(d1):
        return set()
    e = np.sqrt(np.maximum(0, (d1 ** 2).sum(1)[:, None] - 2 * d1 @ d2.T + (d2 ** 2).sum(1)[None]))
    o = np.argsort(e, 1)
    a, b = e[np.arange(len(e)), o[:, 0]], e[np.arange(len(e)), o[:, 1]]
    return {(int(i), int(o[i, 0])) for i in np.flatnonzero(a < ratio * slack * b)}


def matchable(ds, sc, conf, a, b, slack):
    """Brute force matches of the features of two images that are not masked."""
    ks, ds_ = [], []
    for nm in (a, b):
        ks.append(kept(ds, sc, nm))
        with np.load("%s/features/%s.features.npz" % (ds, nm)) as z:
            ds_.append(z["descriptors"].astype(float)[ks[-1]])
    if min(len(k) for k in ks) < 2:
        return set()
    ratio = conf.get("lowes_ratio", 0.8)
    m = nearest(ds_[0], ds_[1], ratio, slack)
    if conf.get("symmetric_matching", True):
        m &= {(i, j) for j, i in nearest(ds_[1], ds_[0], ratio, slack)}
    return {(int(ks[0][i]), int(ks[1][j])) for i, j in m}


def true_ones(ds, sc, n, ms, a, b):
    """Those that are the same place of the scene."""
    cfg = CFGS[sc["cfg"]]
    Z = []
    scene.render(cfg["wl"], n, depths=Z)
    ps = scene.poses(n)
    i, j = names(n).index(a), names(n).index(b)
    (Ri, ci), (Rj, cj) = ps[i], ps[j]
    pa, pb = pixels(ds, a), pixels(ds, b)
    out = set()
    for x, y in ms:
        u = pa[x]
        z = Z[i][min(int(u[1]), scene.H - 1), min(int(u[0]), scene.W - 1)]
        if not z:
            continue
        f = max(scene.W, scene.H) * scene.FOCAL
        X = Ri.T @ (z * np.array([(u[0] - scene.W / 2) / f, (u[1] - scene.H / 2) / f, 1])) + ci
        q = Rj @ (X - cj)
        if q[2] > 0 and np.hypot(*(q[:2] / q[2] * f + [scene.W / 2, scene.H / 2] - pb[y])) < 0.5:
            out.add((x, y))
    return out


def change(ds, n, k):
    """Other features for one image: every second of them, backwards."""
    p = "%s/features/v%02d.png.features.npz" % (ds, k)
    with np.load(p) as z:
        m = len(z["points"])
    edit_features(p, np.arange(m)[::-2])
    np.savez_compressed("%s/features/v%02d.png.words.npz" % (ds, k), words=words_of(ds, "v%02d.png" % k))


def ready(sc, root):
    """Dataset with features; matches of each ordered pair matched alone."""
    cfg = CFGS[sc["cfg"]]
    base = pl.golden(cfg, sc["hs"], root, "detect_features")
    ds = root + "/ds"
    conf = dict(scene.CONF, **cfg.get("conf", {}))
    if "seg" in cfg.get("extras", ()):
        conf["segmentation_ignore_values"] = [7]
    if "bake" in cfg.get("extras", ()):
        conf["features_bake_segmentation"] = True
        conf["segmentation_ignore_values"] = [7]
    conf.update(MATCH[sc["match"]])
    conf.update(words_file_is="generated", bow_words_to_match=2)

    def build():
        shutil.copytree(base + "/g_detect_features", ds, symlinks=True)
        if sc["few"] is not None:
            edit_features("%s/features/v01.png.features.npz" % ds, np.arange(sc["few"]))
        if sc["static"]:
            add_static(ds, cfg["n"], sc["marks"], sc["static"] == 2)
        for nm in marked(sc):
            with open("%s/exif/%s.exif" % (ds, nm)) as f:
                e = json.load(f)
            cm.write_json("%s/exif/%s.exif" % (ds, nm), dict(e, make=sc["marks"], model=sc["marks"]))
        for nm in names(cfg["n"]):
            np.savez_compressed("%s/features/%s.words.npz" % (ds, nm), words=words_of(ds, nm))
        if sc["late"]:
            mask_late(ds, sc["late"])
        cm.write_config(ds, conf)
    key = "%s/alone_%d_%s_%d_%s" % (base, sc["match"], sc["few"], sc["again"], "%s_%s_%s_%s" % (sc["late"], sc["guided"], sc["marks"], sc["static"]))
    with open(base + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(key):
            build()
            alone = [alone_matches(ds, cfg["n"], root, sc["guided"])]
            if sc["again"]:
                change(ds, cfg["n"], 2)
                alone.append(alone_matches(ds, cfg["n"], root, sc["guided"]))
            shutil.rmtree(ds)
            with open(key + ".t", "wb") as f:
                pickle.dump(alone, f)
            os.rename(key + ".t", key)
    build()
    if sc["list"]:  # images and masks are listed in files and lie elsewhere
        if os.path.isdir(ds + "/masks"):
            os.rename(ds + "/masks", ds + "/more masks")
            with open(ds + "/mask_list.txt", "w") as f:
                f.write("".join("%s %s\n" % (m[:-4], r) for m in sorted(os.listdir(ds + "/more masks")) for r in ["more masks/" + m]))
        os.rename(ds + "/images", ds + "/pictures")
        with open(ds + "/image_list.txt", "w") as f:
            f.write("".join("pictures/%s\n" % nm for nm in names(cfg["n"])))
    cm.write_config(ds, dict(conf, processes=sc["processes"], **sc["sel"]))
    with open(key, "rb") as f:
        return ds, pickle.load(f)


def true_poses(n):
    from opensfm import pygeometry
    out = {}
    for nm, (R, c) in zip(names(n), scene.poses(n)):
        p = pygeometry.Pose()
        p.set_rotation_matrix(R)
        p.set_origin(c)
        out[nm] = p
    return out


def alone_matches(ds, n, root, guided):
    def body():
        from opensfm import dataset, matching
        d = dataset.DataSet(ds)
        cams = d.load_camera_models()
        out = {}
        poses = true_poses(n) if guided else None
        for a in names(n):
            for b in names(n):
                if a != b:
                    matching.clear_cache()
                    ca, cb = (cams[d.load_exif(x)["camera"]] for x in (a, b))
                    out[a, b] = np.asarray(matching.match(a, b, ca, cb, d, {}, poses[b].relative_to(poses[a]) if guided else None)).tolist()
        return out
    r = cm.must_report(simproc.run(body, root, seed=1, dirseed=1))
    if r["outcome"] != "ok":
        raise pl.FaultFreeFailure("matching a pair fails: %s %s" % (cm.outcome_str(r), (r["info"] or "")[-1][-500:]))
    return r["value"]


# ---- the run ----------------------------------------------------------------------

def body(ds, sc, n, fork):
    from opensfm import context, dataset, matching
    from opensfm.actions import match_features
    if sc["memory"]:
        context.memory_available = lambda: sc["memory"]
    d = dataset.DataSet(ds)
    out = []
    if sc["warm"]:  # the process has matched something, another way, before
        matching.match_images(d, {"lowes_ratio": 0.55, "robust_matching_min_match": 5, "matching_order_neighbors": 1, "symmetric_matching": False},
                              names(n)[:3], names(n)[1:])
        if sc["again"]:
            matching.clear_cache()
    for k in range(2 if sc["again"] else 1):
        if k:
            shutil.rmtree(ds + "/matches")
            change(ds, n, 2)
        if sc["api"]:
            ref = [names(n)[i] for i in sc["ref"]]
            cand = [names(n)[i] for i in sc["cand"]]
            if sc["guided"]:
                pairs = [(a, b) for a in ref for b in cand if a != b and not (b in ref and a in cand and b < a)]
                got = matching.match_images_with_pairs(d, {}, {x: d.load_exif(x) for x in names(n)}, pairs, true_poses(n))
            else:
                got, _ = matching.match_images(d, {}, ref, cand)
            matching.save_matches(d, ref, got)
            matching.clear_cache()
            out.append({p: np.asarray(m).tolist() for p, m in got.items()})
        else:
            match_features.run_dataset(d)
            out.append(None)
        os.rename(ds + "/matches", ds + "/matches%d" % k)
        os.mkdir(ds + "/matches")
    return out


def expected(sc, n, ds):
    imgs = names(n)
    if sc["guided"]:
        ref, cand = [[imgs[i] for i in sc[k]] for k in ("ref", "cand")]
        ps = {frozenset((a, b)) for a in ref for b in cand if a != b}
        return ref, (ps, ps)
    ref = [imgs[i] for i in sc["ref"]] if sc["api"] else imgs
    cand = [imgs[i] for i in sc["cand"]] if sc["api"] else imgs
    ex, xy = {}, {}
    for im, (_, c) in zip(imgs, scene.poses(n)):
        with open("%s/exif/%s.exif" % (ds, im)) as f:
            ex[im] = json.load(f)
        xy[im] = (c[0] * 1.4e-5 * 71696, c[2] * 9e-6 * 111229)
    # the order of the candidates and references is only meaningful when they are the same
    m = {"conf": dict({"matching_gps_distance": 0, "matching_gps_neighbors": 0}, **sc["sel"]), "line": False}
    return ref, c19.model(m, (imgs, ref, cand, ex, xy, {}, {}, None, None), ref, cand)


def valid(m, na, nb, symmetric):
    """An index out of range, or used twice."""
    if not len(m):
        return None
    a, b = [x[0] for x in m], [x[1] for x in m]
    if min(a) < 0 or min(b) < 0 or max(a) >= na or max(b) >= nb:
        return "an index out of range"
    if len({tuple(x) for x in m}) != len(m):
        return "a match twice"
    if symmetric and (len(set(a)) != len(a) or len(set(b)) != len(b)):
        return "a feature matched twice"
    return None


@pl.guarded
def run(sc, root):
    ds, alone = ready(sc, root)
    n = CFGS[sc["cfg"]]["n"]
    ref, (must, may) = expected(sc, n, ds)
    conf = MATCH[sc["match"]]
    sizes = []
    for k in range(len(alone)):
        if k == 0:
            sizes.append({})
            for nm in names(n):
                with np.load("%s/features/%s.features.npz" % (ds, nm)) as z:
                    sizes[0][nm] = len(z["points"])
        else:
            sizes.append(dict(sizes[0], **{"v02.png": (sizes[0]["v02.png"] + 1) // 2}))
    r = cm.must_report(simproc.run(lambda: body(ds, sc, n, None), root, seed=sc["seed"], dirseed=sc["dirseed"],
                                   mode=sc["mode"], granularity=sc["gran"]))
    what = "%s, %s, %d workers, %s" % (conf, sc["sel"], sc["processes"], "references %s candidates %s" % (sc["ref"], sc["cand"]) if sc["api"] else "all images")
    v, log, total, good = [], [r["outcome"], r["fshash"]], 0, [0, 0]
    if r["outcome"] != "ok":
        v.append({"key": "fails:%s" % (r["info"][0] if r["outcome"] == "exc" else r["outcome"]),
                  "msg": "matching (%s) ends with %s %s" % (what, cm.outcome_str(r), (r["info"] or "")[-1][-500:] if r["outcome"] == "exc" else cm.stacks_str(r))})
    for k, ret in enumerate(r["value"] if r["outcome"] == "ok" else []):
        when = "" if k == 0 else " after the features of v02.png changed"
        got = {}
        files = pl.state(ds, ["matches%d/" % k])
        if sorted(files) != sorted("matches%d/%s_matches.pkl.gz" % (k, x) for x in ref):
            v.append({"key": "files", "msg": "match files %s for references %s" % (sorted(files), ref)})
        for f, m in files.items():
            a = os.path.basename(f)[:-len("_matches.pkl.gz")]
            if isinstance(m, str):
                v.append({"key": "unreadable", "msg": "%s: %s" % (f, m)})
                continue
            for b, x in m.items():
                got[a, b] = x
        un = [frozenset(p) for p in got]
        total += len(un)
        if len(set(un)) != len(un):
            v.append({"key": "twice", "msg": "a pair is stored twice (%s)" % what})
        if must - set(un) or set(un) - may:
            v.append({"key": "pairs", "msg": "stored pairs lack %s, have %s in excess (%s)" % (
                c19.show(must - set(un)), c19.show(set(un) - may), what)})
        if ret is not None and ret != got:
            v.append({"key": "saved", "msg": "the saved matches are not those computed (%s)" % what})
        for (a, b), x in sorted(got.items()):
            bad = valid(x, sizes[k][a], sizes[k][b], conf.get("symmetric_matching", True))
            if bad:
                v.append({"key": "invalid", "msg": "the matches of %s and %s have %s (%s)%s" % (a, b, bad, what, when)})
                break
            if (conf["matcher_type"] != "FLANN" or sc["guided"]) and x != alone[k][a, b]:
                v.append({"key": "differs", "msg": "%s and %s have %d matches, %d when matched alone (%s)%s" % (
                    a, b, len(x), len(alone[k][a, b]), what, when)})
                break
            if k == len(alone) - 1 and not sc["guided"] and conf["matcher_type"] == "BRUTEFORCE" and "matching_use_segmentation" not in conf:
                loose = must_ = matchable(ds, sc, conf, a, b, 1 + 1e-5)
                if "matching_use_filters" in conf:
                    loose, must_ = filtered(ds, sc, loose, a, b)
                x = {tuple(p) for p in x}
                if x - loose:
                    v.append({"key": "wrong", "msg": "%d of %d matches of %s and %s are not of unmasked features that are nearest to each other%s (%s)%s" % (
                        len(x - loose), len(x), a, b, ", off the watermark and not static" if "matching_use_filters" in conf else "", what, when)})
                    break
                ok = true_ones(ds, sc, n, must_, a, b)
                if len(ok) >= 20 and sc["static"] != 2:
                    good[0] += len(x & ok)
                    good[1] += len(ok)
        log.append(sorted((p, len(x)) for p, x in got.items()) if conf["matcher_type"] != "FLANN" else None)
    if good[1] >= 100 and good[0] < 0.6 * good[1]:  # one pair alone may be an unlucky choice of the robust estimation
        v.append({"key": "lost", "msg": "the matches keep %d of %d that are nearest and the same place of the scene (%s)" % (good[0], good[1], what)})
    return {"violations": v, "nontrivial": repr([sc["cfg"], sc["match"], sc["sel"], sc["ref"], sc["cand"], r["trace"], r["fshash"]])
            if total > 1 and (sc["processes"] > 1 or sc["again"]) else None,
            "trace": r["trace"], "stats": {"pairs": total, "matcher_" + conf["matcher_type"]: 1, "again": int(sc["again"]), "api": int(sc["api"])},
            "fired": cm.fired_counts(r), "sim_time": r["now"], "log": log}


def shrink(sc):
    yield from cm.shrink_mode(sc)
    for k, z in (("again", False), ("list", False), ("marks", None), ("static", 0), ("few", None), ("late", None), ("warm", False), ("sel", {}), ("memory", None), ("processes", 1), ("processes", 2), ("gran", None)):
        if sc[k] != z and not (k == "processes" and sc[k] < z):
            yield dict(sc, **{k: z})
    if sc["api"]:
        yield dict(sc, api=False, ref=None, cand=None, guided=False)
