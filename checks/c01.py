"""C01: feature extraction is complete, schedule-independent and never hangs."""
import json
import os
import random

import numpy as np

from sim import simproc
from . import common as cm

ID = "C01"
BUDGET = {"quick": 50, "thorough": 900}
RULE = ("a run is one extraction over a generated dataset under one schedule and fault "
        "set; non-trivial when more than one thread ran and at least one pre-emption, "
        "stall or fault fired; distinct by (schedule trace, file-operation trace)")
COMPONENTS = {
    "real": ["opensfm.features_processing", "opensfm.features", "opensfm.dataset",
             "opensfm.io", "opensfm.masking", "opensfm.context.parallel_map", "joblib threading backend",
             "multiprocessing.pool.ThreadPool", "queue.Queue", "C++ features", "OpenCV"],
    "stub": ["thread scheduler, locks, clock", "disk faults at the libc boundary",
             "bag-of-words vocabulary (generated; the file is not in the repository)"],
}
ASSUMPTIONS = [
    "pre-emption only at executed lines/instructions of the repository's Python code, at lock "
    "operations and at file operations; a C call is atomic",
    "an injected fault may make extraction fail with an error; it may not make it hang or finish quietly incomplete",
]


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 1)
    i = 0
    while True:
        r = random.Random(rng.randrange(1 << 60))
        n = r.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 9])
        processes = r.choice([1, 1, 2, 2, 3, 4, 5, 8])
        sc = {
            "hs": r.choice(cm.HS), "wl": r.randrange(12), "n": n, "processes": processes,
            "read_processes": r.choice([1, 1, 2, 3, 4]),
            # "free": capacity planned from the memory the (simulated) machine reports
            "queue": r.choice([1, 1, 1, 2, 3, 10, 0]),
            "force": r.random() < 0.4,
            "done": sorted(r.sample(range(n), r.randrange(0, n))) if r.random() < 0.3 else [],
            "bake": r.random() < 0.25, "masks": r.random() < 0.3,
            "bad": [r.randrange(n)] if r.random() < 0.15 else [],
            "mode": cm.pick_mode(r, 1500), "gran": r.choice(cm.GRANS), "faults": [],
            "dirseed": r.randrange(1, 99), "seed": r.randrange(1 << 30),
        }
        # what one extraction is planned to need: from next to nothing to more than there is
        sc["size"] = r.choice([48, 48, 48, 48, 48, 2048, 4096, 8192])
        sc["words"] = r.random() < 0.2
        sc["wordless"] = [k for k in sc["done"] if r.random() < 0.6] if sc["words"] else []
        if r.random() < 0.25:
            sc["mode"]["stalls"] = [[r.randrange(20, 1500), r.choice([0.05, 30, 700, 5000])]
                                    for _ in range(r.randrange(1, 3))]
        if r.random() < 0.25:
            side = r.choice("rm")
            sc["faults"] = [{"at": r.randrange(0, 10 * n), "side": side, "kind": "err",
                             "errno": "EIO" if side == "r" else r.choice(["EIO", "ENOSPC"]),
                             "sticky": side == "m" and r.random() < 0.5}]
        i += 1
        yield sc


def make(root, sc):
    r = random.Random(sc["wl"])
    ds = root + "/ds"
    os.makedirs(ds + "/images")
    n = sc["n"]
    names = ["im%02d.png" % k for k in range(n)]
    w, h = 64, 48
    big = 1000.0
    q = sc["queue"] or 0
    # camera size chosen so that the planned capacity is sc["queue"]
    conf = {"feature_type": "ORB", "feature_process_size": sc["size"], "feature_min_frames": 20,
            "orb_fast_threshold" if False else "features_bake_segmentation": bool(sc["bake"]),
            "processes": sc["processes"], "read_processes": sc["read_processes"],
            "mem_ratio": 0.9, "matching_bow_neighbors": 0}
    conf["mem_ceiling"] = int(big)
    if sc["words"]:
        import numpy as np
        g = np.random.RandomState(sc["wl"])
        np.savez(root + "/words.npz", words=g.randint(0, 120, (30, 128)).astype(np.float32), frequencies=g.randint(1, 9, 30))
        conf.update(feature_type="HAHOG", feature_root=1, hahog_normalize_to_uchar=True, bow_file=root + "/words.npz",
                    bow_matcher_type="BruteForce", bow_words_to_match=5, matching_bow_neighbors=3, hahog_peak_threshold=1e-6)
    expected = big * 0.9 / 2
    per = expected / (q + 0.5) if q else expected * 2
    cw = 1000.0
    ch = per * 1024 * 1024 / 4 / cw
    cm.write_config(ds, conf)
    cm.write_json(ds + "/camera_models.json", {"cam": cm.camera_json(int(cw), int(ch))})
    for d in ("masks", "segmentations", "instances"):
        os.makedirs("%s/%s" % (ds, d))
    for k, nm in enumerate(names):
        img = cm.texture(r, h, w)
        p = "%s/images/%s" % (ds, nm)
        if k in sc["bad"]:
            with open(p, "wb") as f:
                f.write(b"not an image")
        else:
            cm.write_png(p, img)
        cm.write_json("%s/exif/%s.exif" % (ds, nm), cm.exif_dict(k, w, h, "cam"))
        if sc["masks"] and k % 2 == 0:
            import numpy as np
            m = np.zeros((h, w), "uint8")
            m[:, : w // 2 + k] = 255
            cm.write_png("%s/masks/%s.png" % (ds, nm), m)
        if sc["bake"]:
            import numpy as np
            seg = (np.arange(h * w).reshape(h, w) // 61 % (5 + k)).astype("uint8")
            cm.write_png("%s/segmentations/%s.png" % (ds, nm), seg)
            if k % 2:
                cm.write_png("%s/instances/%s.png" % (ds, nm), (seg * 3).astype("uint8"))
    return ds, names


def load_all(ds, names):
    """What a later stage reads back, in a fresh process."""
    import numpy as np
    from opensfm.dataset import DataSet
    data = DataSet(ds)
    out = {}
    for nm in names:
        if not data.features_exist(nm):
            out[nm] = None
            continue
        try:
            f = data.load_features(nm)
            s = f.semantic
            out[nm] = [f.points.tobytes().hex()[:4000], f.descriptors.tobytes().hex()[:4000],
                       f.colors.tobytes().hex()[:2000], len(f.points),
                       data.load_words(nm).tolist() if data.config["matching_bow_neighbors"] else None,
                       None if s is None else [s.segmentation.tobytes().hex(),
                                               None if s.instances is None else s.instances.tobytes().hex()]]
        except Exception as e:
            out[nm] = "unreadable: %s %s" % (type(e).__name__, e)
    return out


def reference(ds, names, bad, sc):
    """Sequential extraction, one image at a time, no queue and no threads."""
    from opensfm import features_processing as fp
    from opensfm.dataset import DataSet
    data = DataSet(ds)
    for k, nm in enumerate(names):
        if k in bad:
            continue
        img = data.load_image(nm)
        seg = ins = None
        if sc["bake"]:
            seg, ins = data.load_segmentation(nm), data.load_instances(nm)
        fp.detect(nm, img, seg, ins, data, True)
    return True


def extract(ds, names, force):
    from opensfm.dataset import DataSet
    from opensfm import features_processing as fp
    data = DataSet(ds)
    fp.run_features_processing(data, names, force)
    return True


def run(sc, root):
    import shutil
    ds, names = make(root, sc)
    v = []
    ref = cm.must_report(simproc.run(lambda: reference(ds, names, sc["bad"], sc), root,
                                     seed=sc["seed"]))
    if ref["outcome"] != "ok":
        return {"violations": [{"key": "single-image", "msg": "extraction of one image failed: " + cm.outcome_str(ref)}]}
    want = cm.must_report(simproc.run(lambda: load_all(ds, names), root))["value"]
    fd = ds + "/features"
    for k, nm in enumerate(names):
        p = "%s/%s.features.npz" % (fd, nm)
        if k not in sc["done"] and os.path.exists(p):
            os.unlink(p)
        p = "%s/%s.words.npz" % (fd, nm)
        if (k not in sc["done"] or k in sc["wordless"]) and os.path.exists(p):
            os.unlink(p)
    shutil.rmtree(ds + "/reports", ignore_errors=True)
    res = cm.must_report(simproc.run(
        lambda: extract(ds, names, sc["force"]), root, mode=sc["mode"], faults=sc["faults"],
        seed=sc["seed"], dirseed=sc["dirseed"], granularity=sc["gran"], max_steps=120000))
    disk_fault = any(f[0] not in () for f in res["fired"])
    excused = disk_fault or bool(sc["bad"])
    o = res["outcome"]
    long_stall = any(d >= 600 for _, d in sc["mode"].get("stalls", []))
    got = None
    if o in ("deadlock", "steplimit"):
        v.append({"key": "hang", "msg": "extraction never finishes (%s): %s" % (o, cm.stacks_str(res))})
    elif o == "crashed":
        v.append({"key": "crash", "msg": "process crashed"})
    elif o == "exc" and not excused and not (long_stall and res["info"][0] == "Full"):
        v.append({"key": "spurious-error", "msg": "extraction failed without cause: " + cm.outcome_str(res) + res["info"][2][-800:]})
    elif o == "ok":
        got = cm.must_report(simproc.run(lambda: load_all(ds, names), root))["value"]
        for nm in names:
            if got[nm] != want[nm] and names.index(nm) not in sc["bad"]:
                what = got[nm] if got[nm] is None or isinstance(got[nm], str) else "different content"
                v.append({"key": "incomplete" if not excused else "silent-failure",
                          "msg": "extraction reported success but features of %s are: %s" % (nm, what)})
                break
        for k, nm in enumerate(names):
            if v or k in sc["bad"] or k in sc["done"] and not sc["force"]:
                continue
            try:
                with np.load("%s/%s.features.npz" % (fd, nm)) as z:
                    n = len(z["points"])
                with open("%s/reports/features/%s.json" % (ds, nm), encoding="utf8") as f:
                    rep = json.load(f)
                if (rep["image"], rep["num_features"]) != (nm, n) or not rep["wall_time"] >= 0:
                    v.append({"key": "report", "msg": "%s has %d features, its report says %s" % (nm, n, rep)})
            except (OSError, ValueError, KeyError) as e:
                v.append({"key": "report", "msg": "no report of the features of %s: %s" % (nm, e)})
        if sc["bad"] and sc["processes"] >= 1:
            b = names[sc["bad"][0]]
            v.append({"key": "silent-failure", "msg": "unreadable image %s not reported; features: %s" % (b, str(got[b])[:80])})
    nt = None
    if res["threads"] > 1 and (res["npreempt"] or res["nstall"] or res["fired"]):
        nt = res["trace"] + res["fshash"]
    return {"violations": v, "nontrivial": nt, "trace": res["trace"],
            "stats": {"outcome_" + o: 1, "threads_max_%d" % min(res["threads"], 9): 1,
                      "queue_%s" % sc["queue"]: 1, "steps": res["steps"],
                      "images": len(names), "with_bad_image": int(bool(sc["bad"])),
                      "killed_by_fault": int(o == "exc")},
            "fired": cm.fired_counts(res), "sim_time": res["now"],
            "log": [o, res["steps"], res["nswitch"], round(res["now"], 6), res["trace"], res["fshash"],
                    cm.outcome_str(res)], "devs": res["devs"]}


def shrink(sc):
    yield from cm.shrink_mode(sc)
    for f in cm.subsets(sc["faults"]):
        yield dict(sc, faults=f)
    if sc["n"] > 1:
        for n in sorted({1, sc["n"] // 2, sc["n"] - 1}):
            yield dict(sc, n=n, done=[d for d in sc["done"] if d < n], wordless=[d for d in sc["wordless"] if d < n], bad=[b for b in sc["bad"] if b < n])
    for k, val in (("bake", False), ("masks", False), ("done", []), ("bad", []), ("force", True),
                   ("read_processes", 1), ("gran", "line"), ("queue", 10), ("words", False), ("wordless", []), ("size", 48)):
        if sc[k] != val:
            yield dict(sc, **{k: val})
    for p in range(1, sc["processes"]):
        yield dict(sc, processes=p)
