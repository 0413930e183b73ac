"""C19: which pairs of images get matched."""
import math
import os
import random

import numpy as np

from sim import simproc
from . import common as cm

ID = "C19"
BUDGET = {"quick": 35, "thorough": 600}
RULE = ("a run selects pairs for generated images (positions, times, cameras, features) with a random mix "
        "of selectors, then again with another order of the images, another hash seed being used by other "
        "runs, another schedule and another stream of random numbers; non-trivial when some but not all "
        "pairs are selected; distinct by images, selectors and result")
COMPONENTS = {"real": ["opensfm.pairs_selection", "opensfm.vlad", "opensfm.bow", "opensfm.feature_loader",
                       "opensfm.dataset", "opensfm.context", "C++ VLAD"],
              "stub": ["vocabularies (generated, the shipped large one is not in the tree)", "thread scheduler, "
                       "clock, randomness, order of directories, disk"]}
ASSUMPTIONS = ["candidates closer than 1% to the limit of a selector may go either way",
               "triangulation may add edges at random; edges whose circle is empty must be there"]
NW = 6


def prepare():
    import opensfm.pairs_selection, opensfm.dataset, opensfm.matching  # noqa


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 19)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        n = r.choice([1, 2, 3, 4, 6, 9, 14, 25])
        conf = {"matching_gps_distance": 0, "matching_gps_neighbors": 0}
        which = r.sample(["distance", "neighbors", "both", "time", "order", "graph", "bow", "vlad"], r.choice([0, 1, 1, 1, 2, 3]))
        for w in which:
            if w in ("distance", "both"):
                conf["matching_gps_distance"] = r.choice([5.0, 25.0, 80.0])
            if w in ("neighbors", "both"):
                conf["matching_gps_neighbors"] = r.choice([1, 2, 4, 30])
            if w == "time":
                conf["matching_time_neighbors"] = r.choice([1, 2, 5, 30])
            if w == "order":
                conf["matching_order_neighbors"] = r.choice([1, 2, 3, 5, 30])
            if w == "graph":
                conf["matching_graph_rounds"] = r.choice([1, 3])
            if w in ("bow", "vlad"):
                conf["matching_%s_neighbors" % w] = r.choice([1, 2, 4, 30])
                conf["matching_%s_other_cameras" % w] = r.random() < 0.4
                conf["matching_%s_gps_neighbors" % w] = r.choice([0, 0, 2, 5])
                conf["matching_%s_gps_distance" % w] = r.choice([0, 0, 30.0, 80.0])
        yield {"hs": r.choice(cm.HS), "n": n, "world": r.randrange(1 << 30), "conf": conf, "processes": r.choice([1, 2, 3]),
               "nogps": r.choice([0, 0, 0, 0.2]), "dup": r.choice([0, 0, 0.3]), "line": r.random() < 0.1,
               "gap": r.choice([0, 0, 0.2]), "parts": r.choice(["same", "same", "ref", "cand", "overlap", "apart"]),
               "modes": [cm.pick_mode(r, 600) for _ in range(2)], "shuffles": [r.randrange(1 << 30), r.randrange(1 << 30)],
               "dirseed": r.randrange(1, 100), "seed": r.randrange(1 << 20)}


# ---- the images ----------------------------------------------------------------

def world(sc):
    r = random.Random(sc["world"])
    imgs = ["%s%02d.jpg" % (r.choice("abc"), i) for i in range(sc["n"])]
    ex, xy, feats, words = {}, {}, {}, {}
    g = np.random.RandomState(sc["world"])
    voc = g.randint(0, 40, (NW, 4)).astype(np.float32)
    for i, im in enumerate(imgs):
        x, y = r.uniform(-60, 60), r.uniform(-60, 60)
        if sc["line"]:
            x, y = i * 10.0 + r.random(), 0.0
        if i and r.random() < sc["dup"]:
            x, y = xy[imgs[i - 1]]
        xy[im] = (x, y)
        ex[im] = {"camera": r.choice(["c1", "c1", "c2"]), "width": 64, "height": 48,
                  "capture_time": r.choice([1e9, 1.5e9]) + r.uniform(0, 1000.0),
                  "gps": {"latitude": 50 + y / 111229.0, "longitude": 10 + x / 71696.0, "altitude": r.uniform(0, 100)}}
        if r.random() < sc["nogps"]:
            ex[im]["gps"] = r.choice([{}, {"altitude": 3.0}])
        k = 0 if r.random() < sc["gap"] else r.randrange(12, 30)
        c = g.randint(0, NW, k)
        d = (voc[c] + g.rand(k, 4) * 4).astype(np.float32)
        feats[im] = d
        words[im] = np.stack([c, (c + 1) % NW], 1).astype(np.uint16) if k else np.zeros((0, 2), np.uint16)
    freq = g.randint(1, 50, NW).astype(np.float32)
    imgs.sort()
    ref, cand = list(imgs), list(imgs)
    if sc["parts"] != "same" and sc["n"] > 2:
        a = [im for im in imgs if r.random() < 0.5]
        b = [im for im in imgs if im not in a]
        c = [im for im in imgs if r.random() < 0.6]
        ref, cand = {"ref": (a, imgs), "cand": (imgs, a), "overlap": (a, c), "apart": (a, b)}[sc["parts"]]
    return imgs, list(ref), list(cand), ex, xy, feats, words, voc, freq


def make(ds, sc, w):
    imgs, ref, cand, ex, xy, feats, words, voc, freq = w
    os.makedirs(ds + "/features")
    os.makedirs(ds + "/images")
    for im in imgs:
        open(ds + "/images/" + im, "wb").close()
        k = len(feats[im])
        pts = np.zeros((k, 4), np.float32)
        pts[:, :2] = np.random.RandomState(1).rand(k, 2) - 0.5
        np.savez(ds + "/features/%s.features.npz" % im, points=pts, descriptors=feats[im].astype(np.float32),
                 colors=np.zeros((k, 3), np.uint8), segmentations=[], instances=[],
                 segmentation_labels=[], OPENSFM_FEATURES_VERSION=3)
        np.savez(ds + "/features/%s.words.npz" % im, words=words[im])
        cm.write_json("%s/exif/%s.exif" % (ds, im), ex[im])
    for f in ("bow", "vlad"):
        np.savez(ds + "/%s.npz" % f, words=voc, frequencies=freq)
    cm.write_config(ds, dict(sc["conf"], processes=sc["processes"], bow_file=ds + "/bow.npz", vlad_file=ds + "/vlad.npz",
                             feature_type="SIFT"))


# ---- the model -----------------------------------------------------------------

def near(ref, cand, dist, k, limit=None):
    """(must, may): pairs of each reference with its k nearest candidates within a distance."""
    must, may = set(), set()
    for a in ref:
        d = {c: dist(a, c) for c in cand if c != a}
        lo, hi = (lambda x: x * 0.99 - 0.005), (lambda x: x * 1.01 + 0.005)
        for c, x in d.items():
            if limit is not None and x > hi(limit):
                continue
            if sum(y <= hi(x) for y in d.values()) <= k and (limit is None or x < lo(limit)):
                must.add(frozenset((a, c)))
            # images at one place hide the image itself from its neighbours: one more may be taken
            if sum(y < lo(x) for y in d.values()) < k + (x < 0.01 or min(d.values()) < 0.01):
                may.add(frozenset((a, c)))
    return must, may


def similar(kind, sc, w, ref, cand, pre):
    imgs, _, _, ex, xy, feats, words, voc, freq = w
    c = sc["conf"]
    k = c["matching_%s_neighbors" % kind]
    hist = {}
    for im in imgs:
        if kind == "bow":
            if len(words[im]) > 8:
                h = np.bincount(words[im][:, 0], minlength=NW) * np.log(freq.sum() / freq)
                hist[im] = h / h.sum()
        elif len(feats[im]):
            v = np.zeros((NW, 4))
            for f in feats[im].astype(float):
                j = int(np.argmin(((voc - f) ** 2).sum(1)))
                v[j] += f - voc[j]
            v = np.sign(v.ravel()) * np.sqrt(np.abs(v.ravel()))
            hist[im] = v / np.linalg.norm(v)
    dist = (lambda a, b: np.abs(hist[a] - hist[b]).sum() * 1e3) if kind == "bow" else (
        lambda a, b: np.linalg.norm(hist[a] - hist[b]) * 1e3)
    must, may = set(), set()
    for a in ref:
        if a not in hist:
            if kind == "vlad":  # nothing is more similar than the rest
                may |= {frozenset((a, x)) for x in cand if x != a}
            continue
        cs = [x for x in cand if x in hist and x != a and (pre is None or frozenset((a, x)) in pre)]
        if kind == "vlad":  # images without features come last
            may |= {frozenset((a, x)) for x in cand if x not in hist and len(cs) <= 2 * k}
        for part in ([[x for x in cs if ex[x]["camera"] == ex[a]["camera"]], [x for x in cs if ex[x]["camera"] != ex[a]["camera"]]]
                     if c["matching_%s_other_cameras" % kind] else [cs]):
            m, p = near([a], part, dist, k)
            must |= m
            may |= p
    return must, may


def model(sc, w, ref, cand):
    """(must, may) over unordered pairs."""
    imgs, _, _, ex, xy, feats, words, voc, freq = w
    c = sc["conf"]
    g = lambda k: c.get("matching_" + k, 0)  # noqa: E731
    rc = set(ref) | set(cand)
    gps = all("latitude" in ex[x]["gps"] for x in rc)
    dist = lambda a, b: math.hypot(xy[a][0] - xy[b][0], xy[a][1] - xy[b][1])  # noqa: E731
    every = {frozenset((a, b)) for a in ref for b in cand if a != b}
    used = [g("time_neighbors"), g("order_neighbors"), g("bow_neighbors"), g("vlad_neighbors")] + (
        [g("gps_distance"), g("gps_neighbors"), g("graph_rounds")] if gps else [])
    if not any(used):
        return every, every
    must, may = set(), set()

    def add(x):
        must.update(x[0])
        may.update(x[1])
    if gps and (g("gps_distance") or g("gps_neighbors")):
        add(near(ref, cand, dist, g("gps_neighbors") or 10 ** 9, g("gps_distance") or None))
    if g("time_neighbors"):
        add(near(ref, cand, lambda a, b: abs(ex[a]["capture_time"] - ex[b]["capture_time"]), g("time_neighbors")))
    if g("order_neighbors"):
        n = (g("order_neighbors") + 1) // 2
        if ref == cand:
            s = {frozenset((ref[i], ref[j])) for i in range(len(ref)) for j in range(len(ref)) if 0 < abs(i - j) <= n}
            add((s, s))
        else:
            add((set(), every))
    if gps and g("graph_rounds") and len(cand) >= 4:
        m = set()
        for p in every:
            a, b = p
            mid = ((xy[a][0] + xy[b][0]) / 2, (xy[a][1] + xy[b][1]) / 2)
            rad = dist(a, b) / 2
            if rad > 0.1 and not sc["line"] and all(math.hypot(xy[z][0] - mid[0], xy[z][1] - mid[1]) > rad * 1.02 + 0.02 for z in rc - p) and not any(
                    dist(z, y) < 0.1 for z in p for y in rc if y != z):
                m.add(p)
        add((m, every))
    for kind in ("bow", "vlad"):
        if not g(kind + "_neighbors"):
            continue
        gn, gd = g(kind + "_gps_neighbors"), g(kind + "_gps_distance")
        pre = None
        if gn or gd:
            pm, pp = near(ref, cand, dist, gn or 10 ** 9, gd or None) if gps_all(ex, rc) else (set(), set())
            if pm != pp or ref != cand:
                add((set(), every))
                continue
            pre = pm
            if not pm:
                pre = None if kind == "vlad" else set()
        add(similar(kind, sc, w, ref, cand, pre))
    return must, may


def gps_all(ex, rc):
    return all("latitude" in ex[x]["gps"] for x in rc)


# ---- runs -----------------------------------------------------------------------

def select(ds, ref, cand):
    from opensfm import dataset, pairs_selection
    d = dataset.DataSet(ds)
    ex = {im: d.load_exif(im) for im in set(ref + cand)}
    return pairs_selection.match_candidates_from_metadata(ref, cand, ex, d, {})


def show(ps):
    return sorted(tuple(sorted(p)) for p in ps)[:4]


def run(sc, root):
    ds = root + "/ds"
    w = world(sc)
    imgs, ref, cand = w[:3]
    make(ds, sc, w)
    must, may = model(sc, w, ref, cand)
    v, lives, sizes = [], [], []
    for k in range(2):
        a, b = list(ref), list(cand)
        random.Random(sc["shuffles"][k]).shuffle(a)
        random.Random(sc["shuffles"][k] if ref == cand else sc["shuffles"][k] + 1).shuffle(b)
        if ref == cand:
            b = a  # as the command line does
        r = cm.must_report(simproc.run(lambda: select(ds, a, b), root, seed=sc["seed"] + k, dirseed=sc["dirseed"] + k,
                                       mode=sc["modes"][k]))
        lives.append(r)
        what = "%d references, %d candidates, %s" % (len(a), len(b), {x.replace("matching_", ""): y for x, y in sc["conf"].items() if y})
        if r["outcome"] != "ok":
            v.append({"key": "fails:%s" % (r["info"][0] if r["outcome"] == "exc" else r["outcome"]),
                      "msg": "selecting pairs fails (%s): %s" % (what, cm.outcome_str(r) + (r["info"][-1][-500:] if r["outcome"] == "exc" else ""))})
            break
        pairs, rep = r["value"]
        got = [frozenset(p) for p in pairs]
        sizes.append(len(got))
        if len(set(got)) != len(got) or any(len(p) != 2 for p in got):
            v.append({"key": "twice", "msg": "a pair is selected twice or is not a pair (%s)" % what})
        if any(p[0] not in ref for p in pairs):
            v.append({"key": "reference", "msg": "a pair does not start with a reference image (%s)" % what})
        if must - set(got):
            v.append({"key": "lacks", "msg": "not selected: %s (%s)" % (show(must - set(got)), what)})
        if set(got) - may:
            v.append({"key": "extra", "msg": "selected without reason: %s (%s)" % (show(set(got) - may), what)})
        if v:
            break
    every = len({frozenset((a, b)) for a in ref for b in cand if a != b})
    return {"violations": v, "nontrivial": repr([sc["world"], sc["conf"], sc["parts"]]) if sizes and 0 < sizes[0] < every else None,
            "trace": repr([x["trace"] for x in lives]),
            "stats": {"selections": len(lives), "pairs": sum(sizes), "exact": int(must == may),
                      **{"by_" + k.replace("matching_", ""): 1 for k, y in sc["conf"].items() if y}},
            "fired": cm.fired_counts(*lives), "sim_time": sum(x["now"] for x in lives),
            "log": [[x["outcome"], x["fshash"], sorted(map(sorted, x["value"][0])) if x["outcome"] == "ok" and not sc["conf"].get("matching_graph_rounds") else None] for x in lives]}


def shrink(sc):
    for k in sorted(sc["conf"]):
        if sc["conf"][k]:
            yield dict(sc, conf={a: b for a, b in sc["conf"].items() if a != k or k in ("matching_gps_distance", "matching_gps_neighbors")}
                       if k not in ("matching_gps_distance", "matching_gps_neighbors") else dict(sc["conf"], **{k: 0}))
    for n in (1, 2, 3, 4, 6, 9):
        if n < sc["n"]:
            yield dict(sc, n=n)
    for k, z in (("nogps", 0), ("dup", 0), ("gap", 0), ("line", False), ("parts", "same"), ("processes", 1)):
        if sc[k] != z:
            yield dict(sc, **{k: z})
    yield dict(sc, modes=[{"kind": "none", "seed": 0}] * 2)
