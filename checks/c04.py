"""C04: an interrupted pipeline, run again, ends as if it had never been interrupted."""
import json
import os
import random
import shutil

from sim import simproc
from . import common as cm
from . import pipeline as pl

ID = "C04"
BUDGET = {"quick": 60, "thorough": 1200}
RULE = ("a run kills one pipeline stage 1-3 times at chosen file operations (some kills tear the "
        "write under way), restarts it each time and compares the stage's files with an "
        "uninterrupted run; non-trivial when a kill fired; distinct by (stage, file operations, kill points)")
COMPONENTS = {"real": ["bin/opensfm_main.py and opensfm.commands", "all pipeline stages",
                       "opensfm.dataset", "opensfm.io", "C++ extensions", "OpenCV"],
              "stub": ["disk and process death at the libc boundary", "thread scheduler, clock, randomness"]}
ASSUMPTIONS = ["process death, not power loss: what reached the kernel survives",
               "the restarted stages run without faults once the planned kills are spent"]


def prepare():
    pl.prepare()


CFGS = [
    {"wl": 8, "n": 4}, {"wl": 2, "n": 3}, {"wl": 3, "n": 5},
    {"wl": 4, "n": 4, "conf": {"processes": 2, "read_processes": 2, "matcher_type": "BRUTEFORCE"}},
    {"wl": 5, "n": 3, "conf": {"depthmap_save_debug_files": True, "depthmap_method": "PATCH_MATCH", "processes": 3, "matcher_type": "BRUTEFORCE"}},
    {"wl": 6, "n": 4, "conf": {"undistorted_image_format": "jpg"}},
    {"wl": 11, "n": 4, "extras": ["masks", "seg"], "conf": {"processes": 2, "matcher_type": "BRUTEFORCE"}},
    {"wl": 8, "n": 4, "extras": ["bake", "gcp", "brown"]},
    {"wl": 6, "n": 4, "extras": ["rig", "gcp", "masks"]},
]
WEIGHT = ["extract_metadata"] * 2 + ["detect_features"] * 3 + ["match_features"] * 2 + \
    ["create_tracks"] + ["reconstruct"] + ["mesh"] + ["undistort"] * 3 + ["compute_depthmaps"] * 3


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 4)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        c = r.choice(CFGS)
        yield {"hs": r.choice(cm.HS), "cfg": c, "stage": r.choice(WEIGHT),
               "kills": [{"pos": r.random(), "kind": r.choice(["kill", "kill", "torn"]),
                          "frac": r.choice([0.0, 0.1, 0.5, 0.9, 0.999])}
                         for _ in range(r.choice([1, 1, 1, 2, 3]))],
               "resume": r.choice(["stage", "stage", "stage", "all"]),
               "mode": cm.pick_mode(r, 2000) if r.random() < 0.5 else {"kind": "none"},
               "dirseed": c["wl"] * 7 + 3, "seed": c["wl"] + 17}


@pl.guarded
def run(sc, root):
    st = sc["stage"]
    ds, base, ops = pl.setup(sc["cfg"], sc["hs"], root, st)
    owned = pl.OWNS[st]
    want = pl.state("%s/g_%s" % (base, st), owned)
    v, lives, log = [], [], []
    lastops = max(1, ops["m"])
    for k in sc["kills"]:
        f = {"at": int(k["pos"] * lastops), "kind": k["kind"], "frac": k["frac"]}
        res = pl.stage_run(ds, st, root, mode=sc["mode"], faults=[f], seed=sc["seed"], dirseed=sc["dirseed"])
        lives.append(res)
        log.append([res["outcome"], res["fired"][:1], res["fshash"]])
        if res["outcome"] not in ("killed", "ok"):
            break
    killed = sum(x["outcome"] == "killed" for x in lives)
    bad = [x for x in lives if x["outcome"] not in ("killed", "ok")]
    stages = [st] if sc["resume"] == "stage" else pl.STAGES[:pl.STAGES.index(st) + 1]
    if not bad:
        for s in stages:
            res = pl.stage_run(ds, s, root, mode={"kind": "none"}, seed=sc["seed"], dirseed=sc["dirseed"])
            lives.append(res)
            log.append([s, res["outcome"], res["fshash"]])
            if res["outcome"] != "ok":
                bad.append(res)
                break
    where = "; ".join("%s %s" % (x["fired"][0][1], x["fired"][0][2].split("/ds/")[-1])
                      for x in lives if x["fired"])
    if bad:
        v.append({"key": "cannot-resume:" + st, "msg": "after a crash (at %s) running %s again fails: %s %s" % (
            where, st, cm.outcome_str(bad[0]), (bad[0]["info"] or "")[-1][-700:] if bad[0]["outcome"] == "exc" else cm.stacks_str(bad[0]))})
    else:
        d = pl.diff(want, pl.state(ds, owned))
        if d:
            v.append({"key": "differs:%s:%s" % (st, pl.cls(d[0])),
                      "msg": "after a crash (at %s) and a re-run of %s: %s" % (where, "/".join(stages), "; ".join(d[:6]))})
    return {"violations": v, "nontrivial": st + repr([x["fshash"] for x in lives]) if killed else None,
            "trace": lives[0]["trace"],
            "stats": {"stage_" + st: 1, "lifetimes": len(lives), "kills": killed, "resume_" + sc["resume"]: 1,
                      "fault_points": ops["m"]},
            "fired": cm.fired_counts(*lives), "sim_time": sum(x["now"] for x in lives), "log": log}


def shrink(sc):
    for k in cm.subsets(sc["kills"]):
        if k:
            yield dict(sc, kills=k)
    if sc["resume"] != "stage":
        yield dict(sc, resume="stage")
    yield from cm.shrink_mode(sc)
    for i, k in enumerate(sc["kills"]):
        if k["kind"] != "kill":
            yield dict(sc, kills=sc["kills"][:i] + [dict(k, kind="kill")] + sc["kills"][i + 1:])
