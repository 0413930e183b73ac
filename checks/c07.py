"""C07: data that cannot be read is never taken for missing or empty data."""
from . import common as cm
from . import cmdrun as cr
from . import pipeline as pl

ID = "C07"
BUDGET = {"quick": 60, "thorough": 1200}
RULE = ("a run is one command with one or two failing or short read-side file operations (some "
        "of kind EACCES or EIO), then the same command again without faults; non-trivial when a "
        "fault fired; distinct by (command, file operations, faults)")
COMPONENTS = cr.COMPONENTS
ASSUMPTIONS = ["reports/ and profile.log are by-products, not results",
               "the second run meets no faults"]
prepare = pl.prepare
shrink = cr.shrink
WEIGHT = cr.names() + ["detect_features", "match_features", "undistort", "undistort", "compute_depthmaps", "compute_depthmaps"]


def faults(r):
    return [{"pos": r.random(), "side": "r", "kind": "err", "errno": r.choice(["EIO", "EIO", "EACCES", "ENOMEM"])}
            for _ in range(r.choice([1, 1, 1, 2]))]


def plan(tier, seed):
    return cr.plan_with(faults, WEIGHT + (sorted(cr.SLOW) if tier == "thorough" else []), seed, 7, tier)


def oracle(sc, r, want, got, where, changed):
    v = cr.hang(sc, r, where)
    if r["outcome"] == "ok":
        d = pl.diff(want, got)
        if d:
            v.append({"key": "silent:%s:%s" % (sc["cmd"], pl.cls(d[0])),
                      "msg": "%s reported success although %s: %s" % (sc["cmd"], where, "; ".join(d[:4]))})
    return v


@pl.guarded
def run(sc, root):
    return cr.execute(sc, root, oracle)
