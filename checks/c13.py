"""C13: tracks are the conflict-free connected groups of matched features."""
import gzip
import os
import pickle
import random

import numpy as np

from sim import simproc
from . import common as cm

ID = "C13"
BUDGET = {"quick": 30, "thorough": 400}
RULE = ("a run links generated matches into tracks, from the command line (possibly killed once or twice before) "
        "or through the API, with a random directory order, hash seed, order of the matches and side they are "
        "stored on; non-trivial when the model has a track; distinct by scene and file operations")
COMPONENTS = {"real": ["opensfm.actions.create_tracks", "opensfm.tracking", "opensfm.unionfind", "opensfm.dataset",
                       "opensfm.features", "C++ map (TracksManager, Observation)"],
              "stub": ["disk and process death at the libc boundary, directory order, hash seed"]}
ASSUMPTIONS = ["values of a saved observation are compared to the six digits of the tracks file"]


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 13)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        yield {"hs": r.choice(cm.HS), "n": r.randrange(2, 8), "m": r.choice([1, 3, 8, 8, 20, 60]),
               "pts": r.choice([1, 4, 12, 12, 40]), "wrong": r.choice([0, 0, 0.03, 0.15, 0.5]), "miss": r.choice([0, 0.2, 0.5, 0.8]),
               "both": r.choice([0, 0, 0.3]), "dup": r.choice([0, 0, 0.2]), "min": r.choice([2, 2, 3, 4]),
               "sem": r.choice(["no", "seg", "inst", "some"]), "list": r.choice([None, None, "all", "subset"]),
               "depths": r.choice([None, "flat", "radial"]), "std": r.choice([1.0, 0.1]), "api": r.random() < 0.4,
               "stale": r.random() < 0.3,
               "kills": [{"pos": r.random(), "kind": r.choice(["kill", "torn"]), "frac": r.choice([0, 0.4, 0.95])}
                         for _ in range(r.choice([0, 0, 1, 2]))],
               "dirseed": r.randrange(1, 1000), "seed": r.randrange(1 << 30)}


NAMES = ["a.jpg", "B.JPG", "c 1.png", "img_0001.jpg", "z.tif", "10.jpg", "9.jpg", "é.jpg"]


def world(sc):
    r = np.random.RandomState(sc["seed"] % (1 << 31))
    names = list(np.array(NAMES)[r.permutation(len(NAMES))[:sc["n"]]])
    F, where = {}, {}
    for im in names:
        m = sc["m"] if r.rand() < 0.7 else r.randint(1, sc["m"] + 1)
        F[im] = {"points": np.column_stack([r.uniform(-0.5, 0.5, (m, 2)), r.uniform(0.001, 0.05, m), r.uniform(-3, 3, m)]).astype(np.float32 if r.rand() < 0.5 else float),
                 "colors": r.randint(0, 256, (m, 3)).astype(np.float32 if r.rand() < 0.3 else np.uint8), "seg": None, "inst": None, "depths": None}
        if sc["sem"] in ("seg", "inst") or (sc["sem"] == "some" and r.rand() < 0.5):
            F[im]["seg"] = r.randint(0, 256, m).astype(np.uint8)
            if sc["sem"] != "seg":
                F[im]["inst"] = r.randint(0, 600, m).astype(np.int16)
        if sc["depths"]:
            d = r.uniform(0.1, 40, m)
            d[r.rand(m) < 0.2] = np.nan
            d[r.rand(m) < 0.1] = np.inf
            F[im]["depths"] = d
        where[im] = r.permutation(m)  # point -> feature
    matches = {im: {} for im in names}
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            if r.rand() < 0.15:
                continue
            k = min(sc["pts"], len(where[a]), len(where[b]))
            rows = [[where[a][p], where[b][p]] for p in range(k) if r.rand() >= sc["miss"]]
            rows = [[x, y if r.rand() >= sc["wrong"] else r.randint(len(where[b]))] for x, y in
                    [(x, min(y, len(where[b]) - 1)) for x, y in rows]]
            rows += [rows[r.randint(len(rows))] for _ in range(int(sc["dup"] * len(rows)))] if rows else []
            r.shuffle(rows)
            ab = np.array(rows, int).reshape(-1, 2)
            side = r.rand()
            if side < 0.5 or r.rand() < sc["both"]:
                matches[a][b] = ab
            if side >= 0.5 or r.rand() < sc["both"]:
                cut = len(ab) if r.rand() < 0.5 else len(ab) // 2
                matches[b][a] = ab[:cut, ::-1] if side < 0.5 else ab[:, ::-1]
    keep = list(names)
    if sc["list"] == "subset" and len(names) > 2:
        keep = names[:-1]
    nofile = {im for im in keep if not matches[im] and r.rand() < 0.7}
    return names, keep, F, matches, nofile


def model(keep, F, matches, minlen):
    """Groups by breadth-first search."""
    adj = {}
    for a in keep:
        for b, m in matches[a].items():
            if b in keep:
                for x, y in m.tolist():
                    adj.setdefault((a, x), set()).add((b, y))
                    adj.setdefault((b, y), set()).add((a, x))
    seen, out = set(), set()
    for s in adj:
        if s in seen:
            continue
        g, todo = {s}, [s]
        while todo:
            for y in adj[todo.pop()]:
                if y not in g:
                    g.add(y)
                    todo.append(y)
        seen |= g
        if len(g) >= minlen and len({i for i, _ in g}) == len(g):
            out.add(frozenset(g))
    return out


def make(ds, sc, names, keep, F, matches, nofile):
    r = random.Random(sc["seed"])
    for d in ("images", "features", "matches", "exif"):
        os.makedirs(ds + "/" + d)
    conf = {"min_track_length": sc["min"], "processes": 1}
    cm.write_config(ds, conf)
    for im in names:
        open(ds + "/images/" + im, "w").close()
        f = F[im]
        kw = {"segmentations": [], "instances": [], "segmentation_labels": []}
        if f["seg"] is not None:
            kw = {"segmentations": f["seg"], "instances": f["inst"] if f["inst"] is not None else [],
                  "segmentation_labels": ["l%d" % i for i in range(256)]}
        np.savez_compressed("%s/features/%s.features.npz" % (ds, im), points=f["points"], colors=f["colors"],
                            descriptors=np.zeros((len(f["points"]), 2), np.uint8), OPENSFM_FEATURES_VERSION=3, **kw)
        if im not in nofile:
            m = {b: matches[im][b] for b in r.sample(sorted(matches[im]), len(matches[im]))}
            with gzip.open("%s/matches/%s_matches.pkl.gz" % (ds, im), "wb") as g:
                pickle.dump(m, g)
    if sc["list"]:
        with open(ds + "/image_list.txt", "w") as g:
            g.write("".join("images/%s\n" % im for im in r.sample(keep, len(keep))))
    if sc["stale"]:
        with open(ds + "/tracks.csv", "w") as g:
            g.write("OPENSFM_TRACKS_VERSION_v2\nold.jpg\t0\t0\t0\t0\t0\t0\t0\t0\t-1\t-1\n")


def dump(tm):
    out = {}
    for t in tm.get_track_ids():
        for im, o in tm.get_track_observations(t).items():
            p = o.depth_prior
            out.setdefault(t, {})[im] = [o.id, [float(x) for x in o.point], o.scale, [int(x) for x in o.color], o.segmentation, o.instance,
                                         None if p is None else [p.value, p.std_deviation, p.is_radial]]
        out.setdefault(t, {})
    by_shot = {im: {t: o.id for t, o in tm.get_shot_observations(im).items()} for im in tm.get_shot_ids()}
    return out, by_shot


def cli(ds):
    from opensfm import dataset
    from opensfm.actions import create_tracks
    create_tracks.run_dataset(dataset.DataSet(ds))
    return True


def load(ds):
    from opensfm import dataset
    return dump(dataset.DataSet(ds).load_tracks_manager())


def run(sc, root):
    names, keep, F, matches, nofile = world(sc)
    want = model(keep, F, matches, sc["min"])
    ds = root + "/ds"
    make(ds, sc, names, keep, F, matches, nofile)
    v, rs = [], []

    def go(fn, faults=(), k=0):
        r = cm.must_report(simproc.run(fn, root, seed=sc["seed"] + k, dirseed=sc["dirseed"] + k, faults=list(faults)))
        rs.append(r)
        return r
    if sc["api"]:
        def body():
            from opensfm import tracking
            sem = {im: F[im] for im in keep}
            mm = {}
            for a in keep:
                for b, m in matches[a].items():
                    if b in keep:
                        mm[a, b] = m if sc["seed"] % 2 else [tuple(x) for x in m]
            items = sorted(mm.items())
            random.Random(sc["seed"]).shuffle(items)
            return dump(tracking.create_tracks_manager(
                {im: f["points"][:, :3] for im, f in sem.items()}, {im: f["colors"] for im, f in sem.items()},
                {im: f["seg"] for im, f in sem.items() if f["seg"] is not None},
                {im: f["inst"] for im, f in sem.items() if f["inst"] is not None}, dict(items), sc["min"],
                {im: f["depths"] for im, f in sem.items() if f["depths"] is not None}, sc["depths"] == "radial", sc["std"]))
        r = go(body)
    else:
        for j, k in enumerate(sc["kills"]):
            r = go(lambda: cli(ds), [{"at": int(k["pos"] * 14), "side": "m", "kind": k["kind"], "frac": k["frac"]}], j + 1)
        r = go(lambda: cli(ds), k=9)
        if r["outcome"] == "ok":
            r = go(lambda: load(ds), k=10)
    what = "%d images, minimum length %d%s" % (len(keep), sc["min"], ", API" if sc["api"] else ", %d kills before" % sum(x["outcome"] == "killed" for x in rs))
    ntr = None
    if r["outcome"] != "ok":
        v.append({"key": "fails:%s" % (r["info"][0] if r["outcome"] == "exc" else r["outcome"]),
                  "msg": "%s: %s %s" % (what, cm.outcome_str(r), (r["info"] or "")[-1][-500:] if r["outcome"] == "exc" else "")})
    else:
        tracks, by_shot = r["value"]
        groups = [frozenset((im, o[0]) for im, o in t.items()) for t in tracks.values()]
        ntr = len(want)
        if len(set(groups)) != len(groups):
            v.append({"key": "twice", "msg": "a group of features makes two tracks (%s)" % what})
        if set(groups) != want:
            v.append({"key": "groups", "msg": "%s: tracks missing %s, in excess %s" % (
                what, [sorted(x) for x in list(want - set(groups))[:2]], [sorted(x) for x in list(set(groups) - want)[:2]])})
        inv = {}
        for t, obs in tracks.items():
            for im, o in obs.items():
                inv.setdefault(im, {})[t] = o[0]
        if inv != by_shot:
            v.append({"key": "views", "msg": "the observations by track and by image differ (%s)" % what})
        bad = None
        for t, obs in tracks.items():
            for im, o in obs.items():
                f, i = F[im], o[0]
                if i >= len(f["points"]):
                    continue
                p = f["points"][i].astype(float)
                tol = 1e-12 if sc["api"] else 1e-5
                if not all(abs(x - y) <= tol * max(abs(y), 1e-30) for x, y in zip(o[1] + [o[2]], p[:3])):
                    bad = (im, i, "position %s, feature at %s" % (o[1] + [o[2]], p[:3].tolist()))
                if o[3] != [int(c) for c in f["colors"][i]]:
                    bad = (im, i, "colour")
                if o[4] != (-1 if f["seg"] is None else int(f["seg"][i])):
                    bad = (im, i, "segmentation %s" % o[4])
                if o[5] != (-1 if f["inst"] is None else int(f["inst"][i])):
                    bad = (im, i, "instance %s" % o[5])
                if sc["api"]:
                    d = None if f["depths"] is None else f["depths"][i]
                    exp = None if d is None or not np.isfinite(d) else [d, max(sc["std"] * d, sc["std"]), sc["depths"] == "radial"]
                    if o[6] != exp:
                        bad = (im, i, "depth prior %s for %s" % (o[6], exp))
        if bad:
            v.append({"key": "value:" + bad[2].split()[0], "msg": "the observation of feature %d in %s has another %s (%s)" % (bad[1], bad[0], bad[2], what)})
    return {"violations": v, "nontrivial": repr([sc["seed"], rs[-1]["fshash"]]) if ntr else None,
            "trace": rs[-1]["trace"], "stats": {"tracks": ntr or 0, "api": int(sc["api"]), "lifetimes": len(rs)},
            "fired": cm.fired_counts(*rs), "sim_time": sum(x["now"] for x in rs), "log": [[x["outcome"], x["fshash"]] for x in rs] + [sorted(map(sorted, want))[:5]]}


def shrink(sc):
    for s in cm.subsets(sc["kills"]):
        yield dict(sc, kills=s)
    for k, z in (("wrong", 0), ("miss", 0), ("both", 0), ("dup", 0), ("sem", "no"), ("list", None), ("depths", None),
                 ("stale", False), ("min", 2), ("m", 3), ("pts", 4), ("n", 3), ("n", 2)):
        if sc[k] != z and not (k in ("m", "pts", "n") and sc[k] < z):
            yield dict(sc, **{k: z})
