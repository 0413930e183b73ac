"""One command of the command line, under file-operation faults, compared with its fault-free run."""
import fcntl
import json
import os
import pickle
import random
import shutil

from sim import simproc
from . import common as cm
from . import pipeline as pl

UTM = ["--proj", "+proj=utm +zone=32 +datum=WGS84"]
# command -> (arguments, files it writes); run on a dataset on which the pipeline is complete
EXTRA = {
    "bundle": ([], ["reconstruction.json"]),
    "export_ply": (["--point-num-views"], ["reconstruction.ply"]),
    "export_ply.depthmaps": (["--depthmaps", "--no-cameras"], ["reconstruction.ply", "undistorted/depthmaps/"]),
    "export_openmvs": ([], ["undistorted/openmvs/"]),
    "export_visualsfm": (["--points"], ["undistorted/reconstruction.nvm"]),
    "export_pmvs": ([], ["pmvs/"]),
    "export_pmvs.undistorted": (["--points", "--undistorted"], ["pmvs/"]),
    "export_bundler": ([], ["bundler/"]),
    "export_bundler.undistorted": (["--undistorted"], ["bundler/"]),
    "export_colmap": ([], ["colmap_export/"]),
    "export_colmap.binary": (["--binary"], ["colmap_export/"]),
    "export_geocoords.rec": (UTM + ["--reconstruction"], ["reconstruction.geocoords.json"]),
    "export_geocoords.images": (UTM + ["--image-positions"], ["image_geocoords.tsv"]),
    "export_geocoords.dense": (UTM + ["--dense"], ["undistorted/depthmaps/merged.geocoords.ply"]),
    "export_geocoords.matrix": (UTM + ["--transformation"], ["geocoords_transformation.txt"]),
    "extend_reconstruction": (["--output", "ext.json"], ["ext.json"]),
    "reconstruct_from_prior": (["--output", "prior.json"], ["prior.json"]),
    "create_submodels": ([], ["submodels/"]),
    "create_rig": (["pattern", json.dumps({"cam_a": "v0(?=0)|(?<=v)02", "cam_b": "v(?=01)|(?<=v0)1|(?<=v)03"})],
                   ["rig_cameras.json", "rig_assignments.json"]),
}
SLOW = {
    "compute_statistics": ([], ["stats/"]),
    "export_report": ([], ["stats/"]),
}
# side files every command may write
SIDE = ("reports/", "profile.log", ".tmp")
LAST = pl.STAGES[-1]


def names():
    return list(pl.STAGES) + sorted(EXTRA)


def spec(cmd):
    if cmd in pl.STAGES:
        return [], pl.OWNS[cmd]
    return (EXTRA.get(cmd) or SLOW[cmd])


def argv(cmd, ds):
    a, _ = spec(cmd)
    return [cmd.split(".")[0], ds] + a


def prepared(cfg, hs, root, cmd):
    """(dataset ready for cmd, its fault-free result {file: value}, operation counts)."""
    dirseed, seed = cfg["wl"] * 7 + 3, cfg["wl"] + 17
    if cmd in pl.STAGES:
        ds, base, ops = pl.setup(cfg, hs, root, cmd)
        return ds, pl.state("%s/g_%s" % (base, cmd), pl.OWNS[cmd]), ops
    base = pl.golden(cfg, hs, root, LAST)
    ds = root + "/ds"
    shutil.copytree("%s/g_%s" % (base, LAST), ds, symlinks=True)
    done = "%s/x_%s.pkl" % (base, cmd)
    with open(base + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(done):
            r = cm.must_report(simproc.run(lambda: pl.cli(*argv(cmd, ds)), root, seed=seed, dirseed=dirseed))
            if r["outcome"] != "ok":
                raise pl.FaultFreeFailure("%s fails on a complete dataset: %s %s" % (
                    cmd, cm.outcome_str(r), (r["info"] or "")[-1][-600:]))
            got = pl.state(ds, spec(cmd)[1])
            if not got:
                raise pl.FaultFreeFailure("%s wrote none of %s" % (cmd, spec(cmd)[1]))
            with open(done + ".t", "wb") as f:
                pickle.dump((got, {"m": r["m"], "r": r["r"]}), f)
            os.rename(done + ".t", done)
            shutil.rmtree(ds)
            shutil.copytree("%s/g_%s" % (base, LAST), ds, symlinks=True)
    with open(done, "rb") as f:
        want, ops = pickle.load(f)
    return ds, want, ops


def plan_with(faults, weight, seed, k, tier):
    from .c04 import CFGS
    rng = random.Random(seed * 7919 + k)
    cmds = list(weight)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        cmd = r.choice(cmds)
        # the extra commands all start from the end of the pipeline: few configurations, cheap starts
        c = r.choice(CFGS) if cmd in pl.STAGES else r.choice(CFGS[:1] if cmd == "create_rig" else CFGS[:2] + [CFGS[4], CFGS[8]])
        yield {"hs": r.choice(cm.HS), "cfg": c, "cmd": cmd, "faults": faults(r),
               "mode": cm.pick_mode(r, 2000) if r.random() < 0.3 else {"kind": "none"},
               "dirseed": c["wl"] * 7 + 3, "seed": c["wl"] + 17}


def execute(sc, root, oracle):
    """oracle(sc, first result, want, got, where) -> violations about the faulty run itself."""
    cmd = sc["cmd"]
    ds, want, ops = prepared(sc["cfg"], sc["hs"], root, cmd)
    owned = spec(cmd)[1]
    lives = []
    if sc.get("again"):  # not the first time that the command runs
        lives.append(cm.must_report(simproc.run(lambda: pl.cli(*argv(cmd, ds)), root, seed=sc["seed"], dirseed=sc["dirseed"])))
    before = cm.snapshot(ds)
    begun = pl.state(ds, owned)
    faults = []
    for f in sc["faults"]:
        n = max(1, ops[f["side"]])
        faults.append(dict(f, at=min(n - 1, int(f["pos"] * n))))
    go = lambda **kw: cm.must_report(simproc.run(  # noqa: E731
        lambda: pl.cli(*argv(cmd, ds)), root, seed=sc["seed"], dirseed=sc["dirseed"], **kw))
    r = go(mode=sc["mode"], faults=faults)
    got = pl.state(ds, owned)
    where = ", ".join("%s at %s %s" % (x[0], x[1], x[2].split("/ds/")[-1]) for x in r.get("fired", [])[:2])
    lives.append(r)
    v = []
    after = cm.snapshot(ds)
    changed = [k for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k)
               and not k.startswith(SIDE) and not k.endswith(".tmp")
               and not any(k == o or (o.endswith("/") and k.startswith(o)) for o in owned)]
    v += oracle(sc, r, want, got, where, changed)
    if not v and sc.get("recover", True) and r["outcome"] in ("ok", "exc", "killed"):
        r2 = go(mode={"kind": "none"})
        lives.append(r2)
        if r2["outcome"] != "ok":
            v.append({"key": "stuck:" + cmd, "msg": "after a fault (%s) %s fails again without one: %s %s" % (
                where, cmd, cm.outcome_str(r2), (r2["info"] or "")[-1][-500:] if r2["outcome"] == "exc" else "")})
        else:
            # bundling what is already bundled refines it further
            d = pl.diff(want, pl.state(ds, owned)) if cmd != "bundle" or got == begun else []
            if d:
                v.append({"key": "stuck:%s:%s" % (cmd, pl.cls(d[0])),
                          "msg": "after a fault (%s), running %s again leaves %s" % (where, cmd, "; ".join(d[:4]))})
    return {"violations": v,
            "nontrivial": cmd + repr([x["fshash"] for x in lives] + [r["fired"]]) if r["fired"] else None,
            "trace": r["trace"],
            "stats": {"cmd_" + cmd: 1, "end_" + r["outcome"]: 1, "lifetimes": len(lives)},
            "fired": cm.fired_counts(*lives), "sim_time": sum(x["now"] for x in lives),
            "log": [[x["outcome"], x["fshash"], x["fired"]] for x in lives]}


def hang(sc, r, where):
    if r["outcome"] in ("deadlock", "steplimit", "crashed"):
        return [{"key": "hang:" + sc["cmd"], "msg": "%s with %s does not end (%s): %s" % (
            sc["cmd"], where, r["outcome"], cm.stacks_str(r) if r["outcome"] != "crashed" else r.get("signal"))}]
    return []


def shrink(sc):
    for k in cm.subsets(sc["faults"]):
        if k:
            yield dict(sc, faults=k)
    if sc.get("again"):
        yield dict(sc, again=False)
    yield from cm.shrink_mode(sc)
    for i, k in enumerate(sc["faults"]):
        if k.get("sticky"):
            yield dict(sc, faults=sc["faults"][:i] + [dict(k, sticky=False)] + sc["faults"][i + 1:])


COMPONENTS = {"real": ["bin/opensfm_main.py and opensfm.commands", "all pipeline stages and exports",
                       "opensfm.dataset", "opensfm.io", "C++ extensions", "OpenCV", "sqlite (exports)"],
              "stub": ["disk and its errors at the libc boundary", "thread scheduler, clock, randomness"]}
