"""The command-line pipeline as simulated processes, and our own reader of what it leaves.

Each stage is one process lifetime running the real command runner.  Golden
stage boundaries (fault-free, same seeds) are built once per configuration and
shared by the runs of a worker pool.
"""
import csv
import fcntl
import gzip
import hashlib
import importlib.util
import io
import json
import os
import pickle
import re
import shutil
import sys
import zlib

import numpy as np

from sim import simproc
from . import common as cm
from . import scene

STAGES = ["extract_metadata", "detect_features", "match_features", "create_tracks",
          "reconstruct", "mesh", "undistort", "compute_depthmaps"]
# files a stage is responsible for (prefixes relative to the dataset)
OWNS = {
    "extract_metadata": ["exif/", "camera_models.json"],
    "detect_features": ["features/"],
    "match_features": ["matches/"],
    "create_tracks": ["tracks.csv"],
    "reconstruct": ["reconstruction.json", "reference_lla.json"],
    "mesh": ["reconstruction.meshed.json"],
    "undistort": ["undistorted/images/", "undistorted/reconstruction.json",
                  "undistorted/tracks.csv", "undistorted/undistorted_shot_ids.json",
                  "undistorted/masks/", "undistorted/segmentations/"],
    "compute_depthmaps": ["undistorted/depthmaps/"],
}
_main = None


class FaultFreeFailure(Exception):
    """A stage failed without any fault."""


def guarded(run):
    """Turns the failure of a fault-free stage into a violation."""
    def wrapped(sc, root):
        try:
            return run(sc, root)
        except FaultFreeFailure as e:
            return {"violations": [{"key": "fault-free-run-fails", "msg": str(e)}], "nontrivial": None}
    return wrapped


def cli(*argv):
    """What bin/opensfm does, in this process."""
    global _main
    if _main is None:
        spec = importlib.util.spec_from_file_location("opensfm_main", "/repo/bin/opensfm_main.py")
        _main = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_main)
    sys.argv = ["opensfm"] + list(argv)
    _main.main()
    return True


def args_of(stage, ds):
    return [stage, ds]


def stage_run(ds, stage, root, **kw):
    return cm.must_report(simproc.run(lambda: cli(*args_of(stage, ds)), root, **kw))


def prepare():
    import opensfm.commands  # noqa
    spec = importlib.util.spec_from_file_location("opensfm_main", "/repo/bin/opensfm_main.py")
    global _main
    _main = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(_main)


# ---- independent readers -------------------------------------------------

def _norm_json(x, drop=()):
    if isinstance(x, dict):
        return {k: _norm_json(v, drop) for k, v in sorted(x.items()) if k not in drop}
    if isinstance(x, list):
        return [_norm_json(v, drop) for v in x]
    return x


class _Unp(pickle.Unpickler):
    def find_class(self, module, name):
        if module.split(".")[0] in ("numpy", "collections") or module == "builtins":
            return super().find_class(module, name)
        raise pickle.UnpicklingError(module + "." + name)


def decode(rel, data):
    """bytes of a file -> comparable value; raises if unreadable."""
    if rel.endswith((".json", ".exif", ".geojson")):
        return _norm_json(json.loads(data.decode("utf8")), ("wall_time", "wall_times", "processing_time", "date", "steps_times"))
    if rel.endswith(".npz"):
        z = np.load(io.BytesIO(data), allow_pickle=True)
        out = {}
        for k in sorted(z.files):
            a = z[k]
            out[k] = (str(a.dtype), a.shape, hashlib.sha256(
                a.tobytes() if a.dtype != object else pickle.dumps(a.tolist())).hexdigest())
        return out
    if rel.endswith(".pkl.gz"):
        m = _Unp(io.BytesIO(gzip.decompress(data))).load()
        return {k: np.asarray(v).tolist() for k, v in sorted(m.items())}
    if rel.endswith(".csv"):
        rows = data.decode("utf8").split("\n")
        if rows[-1] != "":
            raise ValueError("truncated line")
        return (rows[0], sorted(rows[1:]))
    if rel.endswith((".png", ".jpg")):
        import cv2
        a = cv2.imdecode(np.frombuffer(data, np.uint8), cv2.IMREAD_UNCHANGED)
        if a is None:
            raise ValueError("not an image")
        return (a.shape, hashlib.sha256(a.tobytes()).hexdigest())
    if rel.endswith(".pdf"):
        if not data.startswith(b"%PDF") or b"%%EOF" not in data[-64:]:
            raise ValueError("incomplete")
        return "pdf"
    if rel.endswith(".db"):
        import sqlite3
        c = sqlite3.connect(":memory:")
        c.deserialize(data)
        return {t: sorted(repr(r) for r in c.execute("select * from " + t)) for (t,) in list(
            c.execute("select name from sqlite_master where type='table' order by name"))}
    return hashlib.sha256(data).hexdigest()


def state(ds, owned):
    """{relative path: decoded value or error} of the files with these prefixes."""
    out = {}
    for d, _, fs in os.walk(ds):
        for n in fs:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, ds)
            if rel.endswith((".tmp", ".npz.ply")) or not any(rel == o or (o.endswith("/") and rel.startswith(o)) for o in owned):
                continue
            with open(p, "rb") as f:
                b = f.read()
            if rel.endswith((".ini", ".mvs", ".nvm", ".txt", ".out")):
                if rel.endswith(".mvs"):  # strings follow their length; an absent mask is the current directory
                    b = re.sub(b".{8}" + re.escape(os.path.abspath(ds).encode()), b"$DS", b, flags=re.S)
                    b = re.sub(b".{8}" + re.escape(os.getcwd().encode()), b"$CWD", b, flags=re.S)
                    b = re.sub(b".{8}" + re.escape(os.path.dirname(os.path.abspath(ds)).encode()), b"$ROOT", b, flags=re.S)
                b = b.replace(os.path.abspath(ds).encode(), b"$DS")
            try:
                out[rel] = decode(rel, b)
            except Exception as e:
                out[rel] = "UNREADABLE %s: %s" % (type(e).__name__, str(e)[:80])
    return out


def diff(want, got):
    """First few differences, as text; empty if equal."""
    out = []
    for k in sorted(set(want) | set(got)):
        if k not in got:
            out.append("%s is missing" % k)
        elif k not in want:
            out.append("%s is unexpected" % k)
        elif want[k] != got[k]:
            g = got[k] if isinstance(got[k], str) and got[k].startswith("UNREADABLE") else "has different content"
            out.append("%s %s" % (k, g))
    return out


def cls(path):
    """A file path without what varies between runs (for violation keys)."""
    base = path.split(" ")[0]
    d, n = os.path.split(base)
    n = re.sub(r"v\d\d", "v", n)
    return (d + "/" if d else "") + n


# ---- golden states -------------------------------------------------------

def cfg_key(cfg):
    return "%08x" % zlib.crc32(json.dumps(cfg, sort_keys=True).encode())


def golden(cfg, hs, root, upto):
    """Directory holding g_<stage> trees; builds what is missing."""
    base = "%s/golden/%s_%s" % (os.path.dirname(root), cfg_key(cfg), hs)
    os.makedirs(base, exist_ok=True)
    with open(base + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        n = STAGES.index(upto)
        if os.path.exists("%s/g_%s" % (base, upto)):
            return base
        work = root + "/golden_ds"
        shutil.rmtree(work, ignore_errors=True)
        have = -1
        for i in range(n, -1, -1):
            if os.path.exists("%s/g_%s" % (base, STAGES[i])):
                shutil.copytree("%s/g_%s" % (base, STAGES[i]), work, symlinks=True)
                have = i
                break
        if have < 0:
            if not os.path.exists(base + "/g_"):
                scene.make(base + "/tmp_", cfg["wl"], cfg["n"], cfg.get("conf"), gps=cfg.get("gps", True), extras=cfg.get("extras", ()))
                os.rename(base + "/tmp_", base + "/g_")
            shutil.copytree(base + "/g_", work, symlinks=True)
        for i in range(have + 1, n + 1):
            r = stage_run(work, STAGES[i], root, seed=cfg["wl"] + 17,
                          dirseed=cfg["wl"] * 7 + 3, mode={"kind": "none"})
            if r["outcome"] != "ok":
                raise FaultFreeFailure("stage %s: %s %s" % (STAGES[i], cm.outcome_str(r), r["info"]))
            if STAGES[i] == "reconstruct":
                with open(work + "/reconstruction.json") as f:
                    if sum(len(x["shots"]) for x in json.load(f)) < 2:
                        raise FaultFreeFailure("the fault-free reconstruction is empty")
            shutil.copytree(work, "%s/tmp_%s" % (base, STAGES[i]), symlinks=True)
            # file-operation counts let the plans aim
            with open("%s/tmp_%s.ops" % (base, STAGES[i]), "w") as f:
                json.dump({"m": r["m"], "r": r["r"]}, f)
            os.rename("%s/tmp_%s.ops" % (base, STAGES[i]), "%s/ops_%s" % (base, STAGES[i]))
            os.rename("%s/tmp_%s" % (base, STAGES[i]), "%s/g_%s" % (base, STAGES[i]))
        shutil.rmtree(work, ignore_errors=True)
    return base


def before(stage):
    i = STAGES.index(stage)
    return "g_" + (STAGES[i - 1] if i else "")


def setup(cfg, hs, root, stage):
    """Copies the state before `stage` to root/ds; returns (ds, golden state after it, op counts)."""
    base = golden(cfg, hs, root, stage)
    ds = root + "/ds"
    shutil.copytree("%s/%s" % (base, before(stage)), ds, symlinks=True)
    with open("%s/ops_%s" % (base, stage)) as f:
        ops = json.load(f)
    return ds, base, ops
