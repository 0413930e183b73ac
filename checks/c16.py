"""C16: a command gives the same result on the same data, whenever, wherever and however it is run."""
import fcntl
import json
import os
import random
import subprocess
import sys

import yaml

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import sched, simproc  # noqa: E402
from checks import cmdrun as cr  # noqa: E402
from checks import common as cm  # noqa: E402
from checks import pipeline as pl  # noqa: E402

ID = "C16"
BUDGET = {"quick": 60, "thorough": 1200}
prepare = pl.prepare
RULE = ("a run is one command on a dataset at some place, under a random schedule, directory order, hash seed, random seed, clock (with jumps) and number of "
        "workers, once or twice over its own result, compared with the result of the canonical run; distinct by command, dataset, trace of the schedule and file operations")
COMPONENTS = cr.COMPONENTS
ASSUMPTIONS = ["matches are brute force, pairs not from the triangulation of jittered positions (random by nature)", "files are compared as what they say: recorded times, row order of tracks "
               "and compression are not", "reconstruction, bundle adjustment and what follows from them in the same command are left out"]
# the commands whose result is a function of the data
CMDS = ["extract_metadata", "detect_features", "match_features", "match_features", "create_tracks", "mesh", "undistort", "compute_depthmaps"] + \
    [c for c in sorted(cr.EXTRA) if c not in ("bundle", "extend_reconstruction", "reconstruct_from_prior", "create_rig")]
BF = {"matcher_type": "BRUTEFORCE", "depthmap_method": "BRUTE_FORCE"}
CFGS = [
    {"wl": 8, "n": 4, "conf": BF}, {"wl": 3, "n": 5, "conf": BF},
    {"wl": 5, "n": 4, "conf": dict(BF, depthmap_save_debug_files=True, depthmap_resolution=40)},
    {"wl": 11, "n": 4, "extras": ["masks", "seg"], "conf": dict(BF, undistorted_image_format="jpg")},
    {"wl": 4, "n": 4, "extras": ["bake", "brown", "masks"], "conf": dict(BF, matching_gps_neighbors=2, matching_time_neighbors=2)},
    {"wl": 6, "n": 4, "extras": ["rig", "gcp", "masks"], "conf": dict(BF, matching_order_neighbors=2)},
    {"wl": 9, "n": 5, "conf": dict(BF, matching_gps_distance=9)},
]


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 16)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        cmd = r.choice(CMDS)
        c = r.choice(CFGS) if cmd in pl.STAGES else r.choice(CFGS[:2] + CFGS[3:4])
        yield {"hs": r.choice(cm.HS), "cfg": c, "cmd": cmd, "processes": r.choice([None, 1, 2, 3]) if cmd != "create_submodels" else None,
               "read_processes": r.choice([None, 1, 2, 4]) if cmd != "create_submodels" else None,
               "place": r.choice(["same", "same", "far"] + ([] if cmd[:13] == "export_colmap" else ["relative", "slash"])), "twice": r.random() < 0.25,
               "faults": [{"pos": r.random(), "kind": "jump", "side": r.choice("mr"), "by": r.choice([-86400.0, -3.0, 7200.0, 1e8])} for _ in range(r.choice([0, 0, 1, 2]))],
               "mode": cm.pick_mode(r, 2000) if r.random() < 0.6 else {"kind": "none"},
               "dirseed": r.randrange(1, 1 << 20), "seed": r.randrange(1 << 30)}


def canonical(cfg, root, cmd):
    """The result of cmd under hash seed 0, computed once by a process of its own (all stages, or all other commands)."""
    base = "%s/golden/%s_0" % (os.path.dirname(root), pl.cfg_key(cfg))
    os.makedirs(base, exist_ok=True)
    done = "%s/c16_%s" % (base, cmd)
    group = "stages" if cmd in pl.STAGES else "extra"
    with open("%s/c16lock_%s" % (base, group), "w") as lk:
        while not os.path.exists(done):
            try:
                fcntl.flock(lk, fcntl.LOCK_EX | fcntl.LOCK_NB)
            except BlockingIOError:
                sched.REAL["sleep"](0.05)
                continue
            if os.path.exists(done):
                break
            sub = root + "_g"
            os.makedirs(sub)
            cmds = [c for c in CMDS if (c in pl.STAGES) == (group == "stages")]
            try:
                p = subprocess.run([sys.executable, os.path.abspath(__file__), json.dumps([cfg, sub, list(dict.fromkeys(cmds))])],
                                   env=dict(os.environ, PYTHONHASHSEED="0"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            finally:
                subprocess.run(["rm", "-rf", sub, sub + "x"])
            txt = p.stdout.decode("utf8", "replace")
            if p.returncode:
                if "FAULTFREE:" in txt:
                    raise pl.FaultFreeFailure(txt.split("FAULTFREE:")[1][:700])
                raise RuntimeError(txt[-1500:])


def main():
    from sim import boot
    boot.boot()
    prepare()
    cfg, sub, cmds = json.loads(sys.argv[1])
    for c in cmds:
        x = sub + "x"
        os.mkdir(x)
        os.chdir(x)
        try:
            cr.prepared(cfg, 0, x, c)
        except pl.FaultFreeFailure as e:
            print("FAULTFREE:%s" % e)
            sys.exit(1)
        open("%s/golden/%s_0/c16_%s" % (os.path.dirname(sub), pl.cfg_key(cfg), c), "w").close()
        os.chdir("/")
        subprocess.run(["rm", "-rf", x])


@pl.guarded
def run(sc, root):
    cmd = sc["cmd"]
    canonical(sc["cfg"], root, cmd)
    ds, want, ops = cr.prepared(sc["cfg"], 0, root, cmd)
    owned = cr.spec(cmd)[1]
    with open(ds + "/config.yaml") as f:
        conf = yaml.safe_load(f)
    for k in ("processes", "read_processes"):
        if sc[k]:
            conf[k] = sc[k]
    cm.write_config(ds, conf)
    cwd, arg = root, ds
    if sc["place"] == "far":
        os.makedirs(root + "/other place/é")
        os.rename(ds, root + "/other place/é/data")
        ds = arg = root + "/other place/é/data"
    elif sc["place"] == "relative":
        arg = "ds"
    elif sc["place"] == "slash":
        arg = ds + "/"
    faults = [dict(f, at=min(max(1, ops[f["side"]]) - 1, int(f["pos"] * ops[f["side"]]))) for f in sc["faults"]]
    v, lives, log = [], [], []
    for k in range(2 if sc["twice"] else 1):
        def go():
            os.chdir(cwd)
            return pl.cli(*cr.argv(cmd, arg))
        r = cm.must_report(simproc.run(go, root, seed=sc["seed"] + k, dirseed=sc["dirseed"] + k, mode=sc["mode"] if not k else {"kind": "none"}, faults=faults if not k else []))
        lives.append(r)
        log.append([r["outcome"], r["fshash"], r["fired"]])
        if r["outcome"] != "ok":
            v.append({"key": "fails:" + cmd, "msg": "%s fails although nothing is wrong: %s %s" % (cmd, cm.outcome_str(r), r["info"][-1][-500:] if r["outcome"] == "exc" else cm.stacks_str(r))})
            break
        d = pl.diff(want, pl.state(ds, owned))
        if d:
            v.append({"key": "differs:%s:%s" % (cmd, pl.cls(d[0])), "msg": "%s%s gives another result under hash seed %d, %s workers, directory order %d, at %s: %s" % (
                cmd, " over its own result" if k else "", sc["hs"], sc["processes"], sc["dirseed"], sc["place"], "; ".join(d[:4]))})
            break
    return {"violations": v, "nontrivial": json.dumps([cmd, sc["cfg"]["wl"], sc["place"], [x["trace"] for x in lives], [x["fshash"] for x in lives]], default=str),
            "trace": lives[0]["trace"], "stats": {"cmd_" + cmd: 1, "lifetimes": len(lives), "place_" + sc["place"]: 1},
            "fired": cm.fired_counts(*lives), "sim_time": sum(x["now"] for x in lives), "log": log}


def shrink(sc):
    for k in cm.subsets(sc["faults"]):
        yield dict(sc, faults=k)
    if sc["twice"]:
        yield dict(sc, twice=False)
    if sc["place"] != "same":
        yield dict(sc, place="same")
    for k in ("processes", "read_processes"):
        if sc[k]:
            yield dict(sc, **{k: None})
    yield from cm.shrink_mode(sc)
    c = sc["cfg"]
    if sc["dirseed"] != c["wl"] * 7 + 3:
        yield dict(sc, dirseed=c["wl"] * 7 + 3)
    if sc["seed"] != c["wl"] + 17:
        yield dict(sc, seed=c["wl"] + 17)


if __name__ == "__main__":
    main()
