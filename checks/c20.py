"""C20: a command changes nothing but its own outputs, however it ends."""
import os
import random

from . import common as cm
from . import cmdrun as cr
from . import pipeline as pl

ID = "C20"
BUDGET = {"quick": 60, "thorough": 1200}
RULE = ("a run is one command, undisturbed or killed or hit by one or two failing read- or write-side file "
        "operations; every file it does not own is compared before and after; non-trivial when a fault fired "
        "or the command wrote something; distinct by (command, file operations, faults)")
COMPONENTS = cr.COMPONENTS
ASSUMPTIONS = ["reports/, profile.log and *.tmp may be written by every command"]
prepare = pl.prepare
shrink = cr.shrink
WEIGHT = cr.names() + ["undistort", "compute_depthmaps", "create_submodels", "create_submodels", "bundle", "mesh", "reconstruct"]


def faults(r):
    out = []
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        k = r.choice(["kill", "kill", "kill", "torn", "err", "err", "short"])
        side = "m" if k in ("torn", "short") else r.choice(["m", "m", "r"])
        f = {"pos": r.random(), "side": side, "kind": k, "frac": r.choice([0.0, 0.1, 0.9])}
        if k == "err":
            f.update(errno=r.choice(["ENOSPC", "EIO", "EDQUOT", "EACCES"] if side == "m" else ["EIO", "EACCES", "ENOMEM"]),
                     sticky=side == "m" and r.random() < 0.4)
        out.append(f)
    return out


def plan(tier, seed):
    for sc in cr.plan_with(faults, WEIGHT + (sorted(cr.SLOW) if tier == "thorough" else []), seed, 20, tier):
        again = random.Random(repr(sc)).random() < (0.6 if sc["cmd"] == "create_submodels" else 0.15)
        yield dict(sc, recover=False, again=again)


# what a command may also write; what several commands create when it is not there yet
MORE = {"create_rig": ("rig_calibration/", "rig_instances.json")}
ONCE = ("reference_lla.json",)


def beside(root):
    return cm.snapshot(root, skip=("ds/", "golden_ds/", ".tmp/"))


@pl.guarded
def run(sc, root):
    cmd = sc["cmd"]
    os.makedirs(root + "/beside")
    with open(root + "/beside/file.txt", "w") as f:
        f.write("not part of the dataset")
    start = beside(root)

    def oracle(sc, r, want, got, where, changed):
        v = []
        changed = [k for k in changed if not (cmd in MORE and k.startswith(MORE[cmd]))
                   and not (k in ONCE and k not in had)]
        near = pl.diff(start, beside(root))
        if changed or near:
            v.append({"key": "touched:%s:%s" % (cmd, pl.cls((changed or near)[0])),
                      "msg": "%s (%s; %s) changed %s" % (cmd, r["outcome"], where, ", ".join((changed + near)[:5]))})
        if r["outcome"] == "exc" and not r["fired"]:
            v.append({"key": "fails:" + cmd, "msg": "%s fails without a fault: %s" % (cmd, cm.outcome_str(r))})
        return v
    had = ()
    if cmd in pl.STAGES:
        had = os.listdir(pl.golden(sc["cfg"], sc["hs"], root, cmd) + "/" + pl.before(cmd))
    else:
        had = ONCE
    out = cr.execute(sc, root, oracle)
    if out["nontrivial"] is None:
        out["nontrivial"] = cmd + repr(out["log"])
    return out
