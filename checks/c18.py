"""C18: every exported file says what the reconstruction says, in the format it is in."""
import gzip
import json
import os
import pickle
import random
import sqlite3
import struct

import numpy as np

from sim import simproc
from . import c09
from . import common as cm
from . import pipeline as pl
from .c15 import PANO, rot, unrot

ID = "C18"
BUDGET = {"quick": 45, "thorough": 600}
prepare = pl.prepare
RULE = ("a run exports a generated reconstruction (cameras, rigs, several reconstructions, portrait and landscape images, names, lists of images) with "
        "one command, possibly after runs that were killed or met a failing disk, and reads what it wrote with parsers of the documented formats; "
        "non-trivial when an image or point was exported; distinct by dataset, command and file operations")
COMPONENTS = {"real": ["bin/opensfm_main.py", "opensfm.commands", "opensfm.actions.export_*", "opensfm.io", "opensfm.dataset", "opensfm.types", "opensfm.geo",
                       "opensfm.matching (robust_match_fundamental)", "C++ map, geometry and the OpenMVS writer"],
              "stub": ["disk, process death, directory order, hash seed, random numbers"]}
ASSUMPTIONS = ["images of fisheye cameras are not exported to formats without fisheye cameras", "image positions in pixels may be off by one pixel",
               "geographic coordinates are the linear approximation of the projection, judged within 5 cm near the reference"]
CMDS = ["ply", "ply.depthmaps", "visualsfm", "openmvs", "pmvs", "pmvs.und", "bundler", "bundler.und", "colmap", "colmap", "colmap.bin", "colmap.bin", "geocoords"]
UND = ("visualsfm", "openmvs", "pmvs.und", "bundler.und", "ply.depthmaps")
KINDS = {"colmap": ["perspective", "brown", "fisheye", "fisheye_opencv"], "bundler": ["perspective", "brown"],
         "ply": ["perspective", "brown", "fisheye", "spherical"], "geocoords": ["perspective", "brown", "spherical"]}


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 18)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        cmd = r.choice(CMDS)
        kinds = ["perspective"] if cmd in UND else KINDS.get(cmd.split(".")[0], ["perspective"])
        yield {"hs": r.choice(cm.HS), "cmd": cmd, "n": r.randrange(2, 8), "ncam": r.choice([1, 2, 3]), "pts": r.choice([0, 3, 30]) if cmd[:6] != "colmap" else 40,
               "kinds": [r.choice(kinds) for _ in range(3)], "recs": 1 if cmd in UND else r.choice([1, 1, 2]), "rig": r.random() < 0.3, "ident": r.random() < 0.3,
               "outside": r.choice([0, 0, 1]), "list": r.random() < 0.4, "points": r.random() < 0.7, "masks": r.random() < 0.5, "uni": r.random() < 0.3,
               "flags": [r.random() < 0.5 for _ in range(4)], "size": r.choice([1000, 60]), "paths": r.random() < 0.3, "nomatch": r.random() < 0.2, "shuffle": r.random() < 0.4,
               "lives": [{"pos": r.random(), "kind": r.choice(["kill", "torn", "err", "err"]), "side": r.choice("mmr"),
                          "errno": r.choice(["EIO", "ENOSPC"]), "frac": r.choice([0, 0.5, 0.9])} for _ in range(r.choice([0, 0, 0, 1, 2]))],
               "dirseed": r.randrange(1, 1000), "seed": r.randrange(1 << 30)}


def camera(r, kind):
    w, h = r.choice([(64, 48), (48, 64), (60, 60), (80, 42)])
    c = {"projection_type": kind, "width": w, "height": h}
    if kind in PANO:
        c["width"], c["height"] = 80, 40
    elif kind in ("brown", "fisheye_opencv"):
        c.update(focal_x=r.uniform(0.7, 0.9), focal_y=r.uniform(0.7, 0.9), c_x=r.uniform(-0.03, 0.03), c_y=r.uniform(-0.03, 0.03), k1=-0.05, k2=0.02, k3=0.01)
        c.update({"p1": 0.002, "p2": -0.003} if kind == "brown" else {"k4": 0.004})
    else:
        c.update(focal=r.uniform(0.7, 0.9), k1=r.uniform(-0.08, 0.08), k2=0.01)
    return c


class World:
    pass


def world(sc):
    r = random.Random(sc["seed"])
    g = np.random.RandomState(sc["seed"] % (1 << 31))
    W = World()
    und = sc["cmd"] in UND
    W.cams = {"cam %d" % i if not und else "c%d" % i: camera(r, sc["kinds"][i]) for i in range(sc["ncam"])}
    if und:
        for c in W.cams.values():
            c["k1"] = c["k2"] = 0.0
    cn = sorted(W.cams)
    ext = ".jpg.jpg" if und else ".jpg"
    names = ["%s%02d%s" % ("é" if sc["uni"] and i % 2 else "im", (i * 7) % 11, ext) for i in range(sc["n"] + sc["outside"])]
    W.outside = names[sc["n"]:]
    W.all = list(names)
    inside = names[:sc["n"]]
    r.shuffle(inside)
    cut = max(1, len(inside) * 2 // 3) if sc["recs"] == 2 else len(inside)
    groups = [x for x in (inside[:cut], inside[cut:]) if x]
    W.ref = dict(zip(("latitude", "longitude", "altitude"), c09.HOME))
    W.cam = {nm: r.choice(cn) for nm in names}
    W.recs, W.poses = [], []
    for k, ns in enumerate(groups):
        P, insts, rigc = {}, {}, {}
        for j, nm in enumerate(ns):
            R = np.eye(3) if sc["ident"] and j == 0 else rot(g.randn(3))
            P[nm] = (R, g.uniform(-30, 30, 3))
        if sc["rig"] and len(ns) >= 2:
            a, b = ns[:2]
            v = g.randn(3) * 0.3
            rigc = {"r0": {"rotation": [0.0] * 3, "translation": [0.0] * 3}, "r1": {"rotation": v.tolist(), "translation": g.randn(3).tolist()}}
            Ra, ta = P[a][0], -P[a][0] @ P[a][1]
            Rb, tb = rot(v) @ Ra, rot(v) @ ta + rigc["r1"]["translation"]
            P[b] = (Rb, -Rb.T @ tb)
            insts["rig"] = {"rotation": unrot(Ra).tolist(), "translation": ta.tolist(), "rig_camera_ids": {a: "r0", b: "r1"}}
            for nm in ns[2:]:
                rigc[W.cam[nm]] = {"rotation": [0.0] * 3, "translation": [0.0] * 3}
                insts[nm] = {"rotation": unrot(P[nm][0]).tolist(), "translation": (-P[nm][0] @ P[nm][1]).tolist(), "rig_camera_ids": {nm: W.cam[nm]}}
        W.poses.append(P)
        shots = {nm: {"rotation": unrot(P[nm][0]).tolist(), "translation": (-P[nm][0] @ P[nm][1]).tolist(), "camera": W.cam[nm]} for nm in ns}
        rec = {"cameras": {c: W.cams[c] for c in sorted({W.cam[nm] for nm in ns} | set(cn if k == 0 else []))}, "shots": shots, "points": {}, "reference_lla": W.ref}
        if insts:
            rec["rig_instances"], rec["rig_cameras"] = insts, rigc
        W.recs.append(rec)
    # tracks: an image sees a translated copy of the same pattern
    pat = g.uniform(-0.2, 0.2, (sc["pts"] + 4, 2))
    shift = {nm: g.uniform(-0.1, 0.1, 2) for nm in names}
    W.feats, W.obs, W.rows = {}, {}, []
    where = {}
    for nm in names:
        idx = g.permutation(len(pat))[: max(1, int(len(pat) * 0.9))]
        W.feats[nm] = (pat[idx] + shift[nm]).astype(np.float32)
        where[nm] = {int(p): f for f, p in enumerate(idx)}
    for p in range(sc["pts"]):
        tid = str(3 * p + 2)
        seen = [nm for nm in names if p in where[nm]]
        if len(seen) < 2:
            continue
        for nm in seen:
            x, y = W.feats[nm][where[nm][p]]
            W.rows.append([nm, tid, where[nm][p], float(x), float(y), 0.004] + [int(c) for c in g.randint(0, 256, 3)] + [-1, -1])
            W.obs.setdefault(tid, {})[nm] = (where[nm][p], float(x), float(y))
        for k, rec in enumerate(W.recs):
            if sum(nm in rec["shots"] for nm in seen) >= 2 and g.rand() < 0.85:
                rec["points"][tid] = {"coordinates": g.uniform(-40, 40, 3).tolist(), "color": [float(c) for c in g.randint(0, 256, 3)]}
    W.matches = {}
    for i, a in enumerate(sorted(names)):
        for b in sorted(names)[i + 1:]:
            m = [[where[a][p], where[b][p]] for p in range(len(pat)) if p in where[a] and p in where[b]]
            W.matches[a, b] = np.array(m, int).reshape(-1, 2)
    W.colour = {nm: [int(c) for c in g.choice([40, 90, 140, 190, 240], 3)] for nm in names}
    W.listed = [nm for nm in W.all if g.rand() < 0.6] if sc["list"] and sc["cmd"].split(".")[0] in ("visualsfm", "openmvs", "pmvs") else None
    W.depth = {}
    return W


def make(ds, sc, W):
    g = np.random.RandomState((sc["seed"] + 1) % (1 << 31))
    r = random.Random(sc["seed"] + 1)
    und = sc["cmd"] in UND
    os.makedirs(ds + "/images")
    cm.write_config(ds, {"feature_process_size": sc["size"], "processes": 1})
    cm.write_json(ds + "/reference_lla.json", W.ref)
    cm.write_json(ds + "/camera_models.json", W.cams)
    u = ds + "/undistorted" if und or sc["cmd"] == "geocoords" else ds
    os.makedirs(u + "/images", exist_ok=True)
    if u != ds:
        os.makedirs(u + "/depthmaps")
    for nm in W.all:
        c = W.cams[W.cam[nm]]
        img = np.zeros((c["height"], c["width"], 3), np.uint8)
        img[:] = W.colour[nm][::-1]
        if und:
            cm.write_jpg("%s/images/%s" % (u, nm), img, 98)
            cm.write_jpg("%s/images/%s" % (ds, nm[:-4]), img, 98)
        else:
            cm.write_jpg("%s/images/%s" % (ds, nm), img, 98)
        cm.write_json("%s/exif/%s.exif" % (ds, nm), dict(cm.exif_dict(0, c["width"], c["height"], W.cam[nm]), projection_type=c["projection_type"]))
    if sc["shuffle"]:
        with open(ds + "/image_list.txt", "w", encoding="utf8") as f:
            f.write("".join("images/%s\n" % nm for nm in r.sample([x[:-4] for x in W.all] if und else W.all, len(W.all))))
    rows = list(W.rows)
    r.shuffle(rows)
    with open(u + "/tracks.csv" if und else ds + "/tracks.csv", "w") as f:
        f.write("OPENSFM_TRACKS_VERSION_v2\n" + "".join("\t".join("%.9g" % v if isinstance(v, float) else str(v) for v in t) + "\n" for t in rows))
    cm.write_json((u if und else ds) + "/reconstruction.json", W.recs)
    if sc["cmd"] == "ply.depthmaps":
        cm.write_json(ds + "/reconstruction.json", W.recs)
        with open(ds + "/tracks.csv", "w") as f:
            f.write("OPENSFM_TRACKS_VERSION_v2\n" + "".join("\t".join(map(str, t)) + "\n" for t in rows))
        for nm in W.recs[0]["shots"]:
            c = W.cams[W.cam[nm]]
            for t in ("clean", "raw"):
                if g.rand() < 0.8:
                    d = g.uniform(2, 20, (c["height"] // 4, c["width"] // 4)).astype(np.float32)
                    d[g.rand(*d.shape) < 0.3] = 0
                    np.savez_compressed("%s/depthmaps/%s.%s.npz" % (u, nm, t), depth=d)
                    W.depth[nm, t] = d
    if und and sc["masks"]:
        os.makedirs(u + "/masks")
        for nm in W.all[::2]:
            c = W.cams[W.cam[nm]]
            cm.write_png("%s/masks/%s.png" % (u, nm), np.full((c["height"], c["width"]), 255, np.uint8))
    if sc["cmd"] == "geocoords":
        W.dense = np.column_stack([g.uniform(-50, 50, (6, 3)).round(3), [[0, 0, 1]] * 6, g.randint(0, 256, (6, 3)), g.randint(0, 9, (6, 1))])
        head = ["ply", "format ascii 1.0", "element vertex 6"] + ["property float " + a for a in ("x", "y", "z", "nx", "ny", "nz")] + \
            ["property uchar " + a for a in ("diffuse_red", "diffuse_green", "diffuse_blue", "class")] + ["end_header"]
        with open(u + "/depthmaps/merged.ply", "w") as f:
            f.write("\n".join(head) + "\n" + "".join(" ".join(["%.3f" % v for v in t[:6]] + ["%d" % v for v in t[6:]]) + "\n" for t in W.dense))
    if sc["cmd"].startswith("colmap"):
        os.makedirs(ds + "/features")
        os.makedirs(ds + "/matches")
        for nm in W.all:
            f = W.feats[nm]
            np.savez_compressed("%s/features/%s.features.npz" % (ds, nm), points=np.column_stack([f, np.full(len(f), 0.01), np.zeros(len(f))]).astype(np.float32),
                                descriptors=np.zeros((len(f), 8), np.uint8), colors=np.zeros((len(f), 3)), segmentations=[], instances=[], segmentation_labels=[],
                                OPENSFM_FEATURES_VERSION=3)
        by = {nm: {} for nm in W.all}
        for (a, b), m in W.matches.items():
            k = g.randint(3)
            if sc["nomatch"] and g.rand() < 0.3:
                W.matches[a, b] = m[:0]
                continue
            if k != 1:
                by[a][b] = m
            if k != 0:
                by[b][a] = m[:, ::-1].copy()
        for nm, d in by.items():
            with gzip.open("%s/matches/%s_matches.pkl.gz" % (ds, nm), "wb") as f:
                pickle.dump(d, f)
    if W.listed is not None:
        with open(ds + "/list.txt", "w") as f:
            f.write("\n".join(W.listed) + "\n")


def argv(sc, ds, root):
    c = sc["cmd"].split(".")[0]
    a = ["export_" + c, ds]
    fl = sc["flags"]
    if c == "ply":
        a += [o for o, y in zip(("--no-cameras", "--no-points", "--point-num-views"), fl) if y] + (["--depthmaps"] if sc["cmd"] == "ply.depthmaps" else [])
    elif c in ("visualsfm", "pmvs") and sc["points"]:
        a += ["--points"]
    if sc["cmd"].endswith(".und"):
        a += ["--undistorted"]
    if sc["cmd"].endswith(".bin"):
        a += ["--binary"]
    if c == "geocoords":
        a += ["--proj", "+proj=utm +zone=32 +datum=WGS84"] + [o for o, y in zip(GEO, geo_flags(sc)) if y]
        if sc["paths"] and sum(geo_flags(sc)) == 1:
            a += ["--output", "geo.out"]
    if c == "bundler" and sc["paths"]:
        a += ["--list_path", root + "/lists", "--bundle_path", root + "/bundles"]
    if c == "pmvs" and sc["paths"]:
        a += ["--output", root + "/pm"]
    if sc["list"] and c in ("visualsfm", "openmvs", "pmvs"):
        a += ["--image_list", ds + "/list.txt"]
    return a


GEO = ("--transformation", "--image-positions", "--reconstruction", "--dense")


def geo_flags(sc):
    return sc["flags"] if any(sc["flags"]) else [True] + sc["flags"][1:]


# ---- judges -------------------------------------------------------------------

class Wrong(Exception):
    pass


def need(ok, key, msg):
    if not ok:
        raise Wrong(key, msg)


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (not a.size or bool(np.all(np.abs(a - b) <= tol)))


def read_ply(path):
    with open(path, encoding="utf8") as f:
        ls = f.read().split("\n")
    need(ls[0] == "ply" and "end_header" in ls, "ply", "no PLY header in " + os.path.basename(path))
    k = ls.index("end_header")
    n = [int(x.split()[-1]) for x in ls[:k] if x.startswith("element vertex")]
    props = [x.split()[-1] for x in ls[:k] if x.startswith("property")]
    rows = [x.split() for x in ls[k + 1:] if x]
    need(n == [len(rows)], "ply", "the header says %s vertices, there are %d" % (n, len(rows)))
    need(all(len(x) == len(props) for x in rows), "ply", "the header names %d properties, rows have %s values" % (len(props), sorted({len(x) for x in rows})))
    return props, rows


def same_rows(got, want, tol, key, what):
    """Two sets of rows of numbers, in any order."""
    need(len(got) == len(want), key, "%d %s instead of %d" % (len(got), what, len(want)))
    if not len(want):
        return
    got, want = np.array(got, float), np.array(want, float)
    need(got.shape == want.shape, key, "%s have %s values instead of %s" % (what, got.shape, want.shape))
    free = np.ones(len(got), bool)
    for w in want:
        d = np.abs(got - w).max(1)
        d[~free] = np.inf
        k = int(np.argmin(d))
        need(d[k] <= tol, key, "%s lack %s, nearest is %s" % (what, np.round(w, 4).tolist(), np.round(got[k], 4).tolist()))
        free[k] = False


def j_ply(sc, W, ds, root):
    nc, npt, nv, _ = sc["flags"]
    props, rows = read_ply(ds + "/reconstruction.ply")
    rec = W.recs[0]
    want = []
    if not npt:
        for t, p in rec["points"].items():
            n = len(W.obs[t])
            want.append(p["coordinates"] + p["color"] + ([n] if nv else []))
    if not nc:
        for nm, (R, c) in W.poses[0].items():
            for ax in range(3):
                for s in np.linspace(0, 2, 10):
                    want.append((c + s * R[ax]).tolist() + [255.0 * (k == ax) for k in range(3)] + ([0] if nv else []))
    need(props[:3] == ["x", "y", "z"] and [x.split("_")[-1] for x in props[3:6]] == ["red", "green", "blue"], "ply", "properties %s" % props)
    same_rows(rows, want, 1e-3, "vertices", "vertices")
    if sc["cmd"] == "ply.depthmaps":
        for nm in rec["shots"]:
            for t in ("clean", "raw"):
                p = "%s/undistorted/depthmaps/%s.%s.ply" % (ds, nm, t)
                d = W.depth.get((nm, t))
                if d is None:
                    need(not os.path.exists(p), "depth-ply", "%s exists without a depthmap" % os.path.basename(p))
                    continue
                need(os.path.exists(p), "depth-ply", "%s is missing" % os.path.basename(p))
                _, rows = read_ply(p)
                R, c = W.poses[0][nm]
                f = W.cams[W.cam[nm]]["focal"] * max(d.shape)
                ys, xs = np.nonzero(d)
                need(len(rows) == len(ys), "depth-ply", "%d points for %d depths" % (len(rows), len(ys)))
                b = (np.array([[float(v) for v in x[:3]] for x in rows]).reshape(-1, 3) - c) @ R.T
                px = b[:, :2] / b[:, 2:] * f + [d.shape[1] / 2, d.shape[0] / 2]
                need(near(b[:, 2], d[ys, xs], 1e-3) and near(px, np.column_stack([xs, ys]), 1.01), "depth-ply", "points of %s are not where its depths are" % nm)
                need(near([[float(v) for v in x[3:6]] for x in rows], np.array([W.colour[nm]] * len(rows)).reshape(-1, 3), 8), "depth-colour", "points of %s have other colours" % nm)
    return len(want)


def size(W, nm):
    c = W.cams[W.cam[nm]]
    return c["width"], c["height"]


def pixel(W, nm, x, y, centre=True):
    w, h = size(W, nm)
    return np.array([x, y]) * max(w, h) + (np.array([w, h]) / 2 if centre else 0)


def shown(sc, W, k=0):
    return [nm for nm in W.recs[k]["shots"] if W.listed is None or nm in W.listed]


def qrot(q):
    w, x, y, z = np.asarray(q, float) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def j_visualsfm(sc, W, ds, root):
    with open(ds + "/undistorted/reconstruction.nvm", encoding="utf8") as f:
        ls = f.read().split("\n")
    need(ls[0] == "NVM_V3", "nvm", "no NVM header")
    k = 1
    while not ls[k].strip():
        k += 1
    n = int(ls[k])
    cams = [x.split() for x in ls[k + 1:k + 1 + n]]
    want = shown(sc, W)
    need(n == len(want) and all(len(x) == 11 for x in cams), "nvm-images", "%d images instead of %d" % (n, len(want)))
    ids = [os.path.basename(x[0]) for x in cams]
    need(sorted(ids) == sorted(want), "nvm-images", "images %s instead of %s" % (ids, want))
    for x, nm in zip(cams, ids):
        need(os.path.exists(ds + "/undistorted/" + x[0]), "nvm-path", "there is no image %s" % x[0])
        v = np.array([float(a) for a in x[1:]])
        need(abs(v[0] - W.cams[W.cam[nm]]["focal"] * max(size(W, nm))) < 1e-3, "nvm-focal", "the focal of %s is %s" % (nm, v[0]))
        R, c = W.poses[0][nm]
        need(near(qrot(v[1:5]), R, 1e-5) and near(v[5:8], c, 1e-4), "nvm-pose", "the pose of %s is %s" % (nm, v[1:8]))
    k += 1 + n
    while k < len(ls) and not ls[k].strip():
        k += 1
    m = int(ls[k])
    pts = [x.split() for x in ls[k + 1:k + 1 + m]]
    exp = {}
    if sc["points"]:
        for t, p in W.recs[0]["points"].items():
            o = {nm: v for nm, v in W.obs[t].items() if nm in want}
            if len(o) > 1:
                exp[t] = (p, o)
    need(m == len(exp), "nvm-points", "%d points instead of %d" % (m, len(exp)))
    for x in pts:
        v = [float(a) for a in x]
        t = [t for t, (p, o) in exp.items() if near(p["coordinates"], v[:3], 1e-4)]
        need(len(t) == 1, "nvm-points", "no point at %s" % v[:3])
        p, o = exp.pop(t[0])
        need(near(v[3:6], p["color"], 0.5), "nvm-colour", "the colour of %s" % t)
        need(len(v) == 7 + 4 * int(v[6]) and int(v[6]) == len(o), "nvm-measurements", "%s has %d measurements instead of %d" % (t, v[6], len(o)))
        for q in range(int(v[6])):
            i, fid, px, py = v[7 + 4 * q:11 + 4 * q]
            nm = ids[int(i)]
            need(nm in o and o[nm][0] == int(fid), "nvm-measurements", "point %s is measured in %s as feature %d" % (t, nm, fid))
            need(near([px, py], pixel(W, nm, *o[nm][1:]), 1.01), "nvm-pixel", "point %s is measured at %s in %s, not at %s" % (t, (px, py), nm, pixel(W, nm, *o[nm][1:])))
    return n + m


def j_bundler(sc, W, ds, root):
    d = ds + "/bundler"
    lp, bp = (root + "/lists", root + "/bundles") if sc["paths"] else (d, d)
    got = sorted(x for x in os.listdir(bp) if x.endswith(".out") and x.startswith("bundle"))
    need(got == ["bundle_r%03d.out" % k for k in range(len(W.recs))], "bundler", "files %s for %d reconstructions" % (got, len(W.recs)))
    for k, rec in enumerate(W.recs):
        with open("%s/list_r%03d.out" % (lp, k), encoding="utf8") as f:
            names = f.read().split("\n")
        names = [x for x in names if x]
        need(set(names) == (set(rec["shots"]) if sc["cmd"].endswith("und") else set(W.all)) and len(set(names)) == len(names), "bundler-list", "the list is %s" % names)
        with open("%s/bundle_r%03d.out" % (bp, k), encoding="utf8") as f:
            ls = f.read().split("\n")
        need(ls[0].startswith("# Bundle file v0.3"), "bundler", "no header")
        n, m = map(int, ls[1].split())
        need((n, m) == (len(names), len(rec["points"])), "bundler", "%d cameras and %d points instead of %d and %d" % (n, m, len(names), len(rec["points"])))
        for i, nm in enumerate(names):
            b = np.array([[float(a) for a in x.split()] for x in ls[2 + 5 * i:7 + 5 * i]])
            if nm not in rec["shots"]:
                need(not b.any(), "bundler-camera", "%s, not reconstructed, has a camera" % nm)
                continue
            c = W.cams[W.cam[nm]]
            R, cen = W.poses[k][nm]
            F = np.diag([1.0, -1, -1])
            need(near(b[0], [c.get("focal", c.get("focal_x")) * max(size(W, nm)), c["k1"], c["k2"]], 1e-4), "bundler-camera", "%s has camera %s" % (nm, b[0]))
            need(near(b[1:4], F @ R, 1e-6) and near(b[4], F @ -R @ cen, 1e-4), "bundler-pose", "%s has pose %s" % (nm, b[1:].tolist()))
        exp = dict(rec["points"])
        for q in range(m):
            a = ls[2 + 5 * n + 3 * q:5 + 5 * n + 3 * q]
            X, col, v = [[float(y) for y in x.split()] for x in a]
            t = [t for t, p in exp.items() if near(p["coordinates"], X, 1e-4)]
            need(len(t) == 1, "bundler-points", "no point at %s" % X)
            p = exp.pop(t[0])
            need(near(col, p["color"], 0.5), "bundler-colour", "the colour of %s is %s" % (t, col))
            o = {nm: y for nm, y in W.obs[t[0]].items() if nm in rec["shots"]}
            need(len(v) == 1 + 4 * int(v[0]) and int(v[0]) == len(o), "bundler-views", "%s has %d views instead of %d" % (t, v[0], len(o)))
            for j in range(int(v[0])):
                i, fid, x, y = v[1 + 4 * j:5 + 4 * j]
                nm = names[int(i)]
                need(nm in o and o[nm][0] == int(fid), "bundler-views", "%s is seen in %s as %d" % (t, nm, fid))
                need(near([x, -y], pixel(W, nm, *o[nm][1:], centre=False), 1.01), "bundler-pixel", "%s is at %s in %s" % (t, (x, y), nm))
    return n + m


def j_pmvs(sc, W, ds, root):
    import cv2
    base = root + "/pm" if sc["paths"] else ds + "/pmvs"
    tot = 0
    for k, rec in enumerate(W.recs):
        d = "%s/recon%d" % (base, k)
        want = shown(sc, W, k)
        txt = sorted(os.listdir(d + "/txt"))
        need(txt == ["%08d.txt" % i for i in range(len(want))], "pmvs-images", "%s for %d images" % (txt, len(want)))
        need(sorted(os.listdir(d + "/visualize")) == [x[:-4] + ".jpg" for x in txt], "pmvs-images", "images %s" % os.listdir(d + "/visualize"))
        who = []
        for x in txt:
            with open(d + "/txt/" + x) as f:
                ls = [y for y in f.read().split("\n") if y]
            need(ls[0].lstrip("# ").strip() == "CONTOUR" and len(ls) == 4, "pmvs-camera", "%s reads %s" % (x, ls[:1]))
            P = np.array([[float(v) for v in y.split()] for y in ls[1:]])
            img = cv2.imread(d + "/visualize/" + x[:-4] + ".jpg")
            h, w = img.shape[:2]
            hit = []
            for nm in want:
                R, c = W.poses[k][nm]
                fw, fh = size(W, nm)
                s = min(1.0, sc["size"] / max(fw, fh)) if sc["size"] > 0 else 1
                if abs(w - fw * s) > 1 or abs(h - fh * s) > 1:
                    continue
                f = W.cams[W.cam[nm]]["focal"] * max(w, h)
                Q = np.array([[f, 0, w / 2], [0, f, h / 2], [0, 0, 1]]) @ np.column_stack([R, -R @ c])
                if near(P[:, :3], Q[:, :3], 1) and near(P[:, 3], Q[:, 3], 40):
                    hit.append(nm)
            need(len(hit) == 1 and hit[0] not in who, "pmvs-camera", "%s is the camera of %s" % (x, hit))
            who.append(hit[0])
            need(near(img[h // 2, w // 2, ::-1], W.colour[hit[0]], 10), "pmvs-colour", "the image of %s has colour %s instead of %s" % (hit[0], img[h // 2, w // 2, ::-1], W.colour[hit[0]]))
        with open(d + "/vis.dat") as f:
            ls = [x.split() for x in f.read().split("\n") if x]
        need(ls[0] == ["VISDATA"] and ls[1] == [str(len(want))], "pmvs-vis", "vis.dat starts %s" % ls[:2])
        vis = {int(x[0]): sorted(map(int, x[2:])) for x in ls[2:]}
        need(all(len(x) == 2 + int(x[1]) for x in ls[2:]) and sorted(vis) == list(range(len(want))), "pmvs-vis", "vis.dat lists %s" % sorted(vis))
        for i, nm in enumerate(who):
            co = sorted(j for j, b in enumerate(who) if b != nm and any(nm in o and b in o for o in W.obs.values()))
            need(vis[i] == co, "pmvs-vis", "%s is covisible with %s instead of %s" % (nm, vis[i], co))
        with open(d + "/pmvs_txt") as f:
            o = dict(x.split(" ", 1) for x in f.read().split("\n") if x)
        need(o.get("timages") == "-1 0 %d" % len(want), "pmvs-options", "timages %s" % o.get("timages"))
        tot += len(want)
    return tot


class Reader:
    def __init__(self, path):
        with open(path, "rb") as f:
            self.b = f.read()
        self.k = 0

    def __call__(self, fmt):
        v = struct.unpack_from("<" + fmt, self.b, self.k)
        self.k += struct.calcsize("<" + fmt)
        return v if len(v) > 1 else v[0]

    def text(self, n=None):
        if n is None:
            n = self.b.index(b"\0", self.k) - self.k
            s = self.b[self.k:self.k + n]
            self.k += n + 1
        else:
            s = self.b[self.k:self.k + n]
            self.k += n
        return s.decode("utf8")

    def end(self, what):
        need(self.k == len(self.b), "trailing", "%s has %d bytes too many" % (what, len(self.b) - self.k))


def j_openmvs(sc, W, ds, root):
    u = ds + "/undistorted"
    r = Reader(u + "/openmvs/scene.mvs")
    need(r.text(4) == "MVSI" and r("I") == 6, "mvs", "no MVS header")
    r("I")
    plats = []
    for _ in range(r("Q")):
        name = r.text(r("Q"))
        cams = []
        for _ in range(r("Q")):
            a, b = r.text(r("Q")), r.text(r("Q"))
            cams.append((r("2I"), np.array(r("9d")).reshape(3, 3), np.array(r("9d")).reshape(3, 3), r("3d")))
        plats.append((name, cams, [(np.array(r("9d")).reshape(3, 3), np.array(r("3d"))) for _ in range(r("Q"))]))
    images = [(r.text(r("Q")), r.text(r("Q")), r("4I")) for _ in range(r("Q"))]
    verts = [(r("3f"), [r("If")[0] for _ in range(r("Q"))]) for _ in range(r("Q"))]
    for _ in range(5):
        need(r("Q") == 0, "mvs", "unexpected lists")
    r("16d")
    r("9d6d")
    r.end("scene.mvs")
    want = shown(sc, W)
    ids = [os.path.basename(x[0]) for x in images]
    need(sorted(ids) == sorted(want), "mvs-images", "images %s instead of %s" % (ids, want))
    for (path, mask, (pl_, ci, po, _)), nm in zip(images, ids):
        need(path == os.path.abspath(u + "/images/" + nm), "mvs-path", "%s is at %s" % (nm, path))
        m = os.path.abspath("%s/masks/%s.png" % (u, nm))
        need(mask == (m if os.path.exists(m) else ""), "mvs-mask", "the mask of %s is '%s'" % (nm, mask))
        name, cams, poses = plats[pl_]
        (w, h), K, R0, c0 = cams[ci]
        c = W.cams[W.cam[nm]]
        f = c["focal"] * max(size(W, nm))
        need((w, h) == size(W, nm) and near(K, [[f, 0, (w - 1) / 2], [0, f, (h - 1) / 2], [0, 0, 1]], 0.51), "mvs-camera", "%s has camera %s %s" % (nm, (w, h), K.tolist()))
        R, cen = W.poses[0][nm]
        need(near(R0 @ poses[po][0], R, 1e-6) and near(poses[po][1] + poses[po][0].T @ c0, cen, 1e-4), "mvs-pose", "%s has another pose" % nm)
    exp = {t: (p["coordinates"], sorted(nm for nm in W.obs[t] if nm in want)) for t, p in W.recs[0]["points"].items()}
    exp = {t: x for t, x in exp.items() if x[1]}
    need(len(verts) == len(exp), "mvs-points", "%d points instead of %d" % (len(verts), len(exp)))
    for X, vs in verts:
        t = [t for t, (c, _) in exp.items() if near(c, X, 1e-3)]
        need(len(t) == 1, "mvs-points", "no point at %s" % (X,))
        need(sorted(ids[i] for i in vs) == exp.pop(t[0])[1], "mvs-views", "point %s is seen in %s" % (t, [ids[i] for i in vs]))
    return len(ids)


MODELS = {"RADIAL": (3, 5), "RADIAL_FISHEYE": (9, 5), "FULL_OPENCV": (6, 12), "OPENCV_FISHEYE": (5, 8)}


def colmap_camera(c):
    s, w, h = max(c["width"], c["height"]), c["width"], c["height"]
    t = c["projection_type"]
    if t in ("perspective", "fisheye"):
        return ("RADIAL" if t == "perspective" else "RADIAL_FISHEYE"), [c["focal"] * s, w / 2, h / 2, c["k1"], c["k2"]]
    p = [c["focal_x"] * s, c["focal_y"] * s, w / 2 + s * c["c_x"], h / 2 + s * c["c_y"], c["k1"], c["k2"]]
    return ("FULL_OPENCV", p + [c["p1"], c["p2"], c["k3"], 0, 0, 0]) if t == "brown" else ("OPENCV_FISHEYE", p + [c["k3"], c["k4"]])


def j_colmap(sc, W, ds, root):
    d = ds + "/colmap_export"
    db = sqlite3.connect(d + "/colmap_database.db")
    need(db.execute("pragma integrity_check").fetchone()[0] == "ok", "colmap-db", "the database is damaged")
    cams = {i: (m, w, h, np.frombuffer(p)) for i, m, w, h, p, _ in db.execute("select camera_id, model, width, height, params, prior_focal_length from cameras")}
    images = {i: (n, c) for i, n, c in db.execute("select image_id, name, camera_id from images")}
    need(sorted(n for n, _ in images.values()) == sorted(W.all), "colmap-images", "the database has images %s" % sorted(images.values()))
    need(len(cams) == len(W.cams), "colmap-cameras", "%d cameras instead of %d" % (len(cams), len(W.cams)))
    byname = {n: i for i, (n, _) in images.items()}

    def camera_ok(nm, model, w, h, params, what, tol):
        c = W.cams[W.cam[nm]]
        name, want = colmap_camera(c)
        need((model in (name, MODELS[name][0])) and (w, h) == size(W, nm) and near(params, want, tol), "colmap-camera",
             "the camera of %s in %s is %s %s %s instead of %s %s" % (nm, what, model, (w, h), list(params), name, want))
    for i, (nm, c) in images.items():
        camera_ok(nm, *cams[c], what="the database", tol=1e-6)
    for i, rows, cols, data in db.execute("select image_id, rows, cols, data from keypoints"):
        nm = images[i][0]
        k = np.frombuffer(data, np.float32).reshape(rows, cols)
        f = W.feats[nm]
        need(rows == len(f) and near(k[:, :2], [pixel(W, nm, *p) for p in f], 1.01), "colmap-keypoints", "the keypoints of %s are not its features" % nm)
    need(db.execute("select count(*) from keypoints").fetchone()[0] == len(W.all), "colmap-keypoints", "images without keypoints")
    seen = set()
    for pid, rows, cols, data in db.execute("select pair_id, rows, cols, data from matches"):
        b = pid % (2 ** 31 - 1)
        a = images[(pid - b) // (2 ** 31 - 1)][0]
        b = images[b][0]
        m = {tuple(x) for x in np.frombuffer(data, np.uint32).reshape(rows, cols).tolist()}
        want = {tuple(x) for x in W.matches[a, b].tolist()} if (a, b) in W.matches else {(y, x) for x, y in W.matches[b, a].tolist()}
        need(m <= want, "colmap-matches", "%s and %s have matches that are not theirs: %s" % (a, b, sorted(m - want)[:3]))
        need(len(m) >= 0.8 * len(want), "colmap-matches", "%s and %s have %d of their %d matches" % (a, b, len(m), len(want)))
        seen.add(tuple(sorted((a, b))))
    want = {p for p, m in W.matches.items() if len(m) >= 15}
    need(want <= seen, "colmap-matches", "the pairs %s have no matches" % sorted(want - seen)[:3])
    db.close()
    # the model
    if sc["cmd"] == "colmap":
        C, I, P = {}, {}, {}
        for x in text(d + "/cameras.txt"):
            w = x.split()
            C[int(w[0])] = (w[1], int(w[2]), int(w[3]), [float(v) for v in w[4:]])
        ls = text(d + "/images.txt")
        need(len(ls) % 2 == 0, "colmap-text", "images.txt has %d lines" % len(ls))
        for x, y in zip(ls[::2], ls[1::2]):
            w, v = x.split(), [float(a) for a in y.split()]
            need(len(w) == 10 and len(v) % 3 == 0, "colmap-text", "images.txt: %s" % x)
            I[int(w[0])] = ([float(a) for a in w[1:8]], int(w[8]), w[9], np.array(v).reshape(-1, 3))
        for x in text(d + "/points3D.txt"):
            v = [float(a) for a in x.split()]
            need(len(v) % 2 == 0 and len(v) >= 8 and v[0] not in P, "colmap-text", "points3D.txt: %s" % x)
            P[int(v[0])] = (v[1:4], v[4:7], [(int(a), int(b)) for a, b in zip(v[8::2], v[9::2])])
        tol = 2e-6
    else:
        C, I, P = {}, {}, {}
        r = Reader(d + "/cameras.bin")
        for _ in range(r("Q")):
            i, m, w, h = r("IiQQ")
            n = {x[0]: x[1] for x in MODELS.values()}[m]
            C[i] = (m, w, h, r("%dd" % n))
        r.end("cameras.bin")
        r = Reader(d + "/images.bin")
        for _ in range(r("Q")):
            i, q, c, nm = r("I"), r("7d"), r("I"), r.text()
            I[i] = (list(q), c, nm, np.array([r("ddq") for _ in range(r("Q"))]).reshape(-1, 3))
        r.end("images.bin")
        r = Reader(d + "/points3D.bin")
        for _ in range(r("Q")):
            i, X, col, e = r("Q"), r("3d"), r("3B"), r("d")
            need(i not in P, "colmap-text", "two points %d" % i)
            P[i] = (X, col, [r("II") for _ in range(r("Q"))])
        r.end("points3D.bin")
        tol = 1e-9
    shots = {nm: (k, s) for k, rec in enumerate(W.recs) for nm, s in rec["shots"].items()}
    need(sorted(x[2] for x in I.values()) == sorted(shots), "colmap-model-images", "the model has images %s instead of %s" % ([x[2] for x in I.values()], sorted(shots)))
    for i, (qt, c, nm, pts) in I.items():
        need(byname[nm] == i, "colmap-ids", "%s is image %d in the model, %d in the database" % (nm, i, byname[nm]))
        need(c == images[i][1] and c in C, "colmap-ids", "%s has camera %d" % (nm, c))
        camera_ok(nm, *C[c], what="the model", tol=tol)
        R, cen = W.poses[shots[nm][0]][nm]
        need(abs(np.linalg.norm(qt[:4]) - 1) < 1e-4 and near(qrot(qt[:4]), R, 1e-5) and near(qt[4:], -R @ cen, 1e-4), "colmap-pose", "%s has pose %s" % (nm, qt))
    exp = [(k, t, p) for k, rec in enumerate(W.recs) for t, p in rec["points"].items()]
    need(len(P) == len(exp), "colmap-points", "%d points instead of %d" % (len(P), len(exp)))
    back = 0
    for i, (X, col, tr) in P.items():
        hit = [e for e in exp if near(e[2]["coordinates"], X, 1e-5)]
        need(len(hit) == 1, "colmap-points", "no point at %s" % (X,))
        k, t, p = hit[0]
        need(near(col, p["color"], 0.5), "colmap-colour", "point %s has colour %s" % (t, col))
        o = {nm: y for nm, y in W.obs[t].items() if nm in W.recs[k]["shots"]}
        need(len(tr) == len(o) and {images[a][0] for a, _ in tr} == set(o), "colmap-track", "point %s is seen in %s instead of %s" % (t, tr, sorted(o)))
        for a, f in tr:
            nm = images[a][0]
            need(f < len(I[a][3]) and int(I[a][3][f][2]) == i, "colmap-track", "point %d is said to be keypoint %d of %s, which is %s" % (
                i, f, nm, I[a][3][f].tolist() if f < len(I[a][3]) else "not there"))
            need(near(I[a][3][f][:2], pixel(W, nm, *o[nm][1:]), 1.01), "colmap-track", "point %s is at %s in %s" % (t, I[a][3][f], nm))
            back += 1
    need(back == sum(int((x[3][:, 2] >= 0).sum()) for x in I.values()), "colmap-track", "images name points that do not name them")
    with open(d + "/project.ini", encoding="utf8") as f:
        o = dict(x.split("=", 1) for x in f.read().split("\n") if x)
    need(o.get("database_path") == d + "/colmap_database.db" and o.get("image_path") == ds + "/images", "colmap-ini", "project.ini says %s" % o)
    return len(I)


def text(path):
    with open(path, encoding="utf8") as f:
        s = f.read()
    ls = s.split("\n")
    return [x for x in (ls[:-1] if ls[-1] == "" else ls) if not x.startswith("#")]


def j_geocoords(sc, W, ds, root):
    import pyproj
    proj = pyproj.Proj("+proj=utm +zone=32 +datum=WGS84")

    def geo(p):
        la, lo, al = c09.to_lla(np.asarray(p, float))
        e, n = proj(lo, la)
        return np.array([e, n, al])
    fl = geo_flags(sc)
    out = "geo.out" if sc["paths"] and sum(fl) == 1 else None
    if fl[0]:
        with open("%s/%s" % (ds, out or "geocoords_transformation.txt")) as f:
            A = np.array([[float(v) for v in x.split()] for x in f.read().split("\n") if x])
        need(A.shape == (4, 4) and near(A[3], [0, 0, 0, 1], 0), "geo-matrix", "the transformation is %s" % A.tolist())
        for p in ([0, 0, 0], [30, 0, 0], [0, -30, 0], [5, 9, 30]):
            need(near((A @ (p + [1]))[:3], geo(p), 0.05), "geo-matrix", "%s is taken to %s instead of %s" % (p, (A @ (p + [1]))[:3], geo(p)))
    if fl[1]:
        ls = text("%s/%s" % (ds, out or "image_geocoords.tsv"))
        need(ls[0].split("\t") == ["Image", "X", "Y", "Z"], "geo-images", "the header is %s" % ls[0])
        got = {x.split("\t")[0]: [float(v) for v in x.split("\t")[1:]] for x in ls[1:]}
        want = {nm: geo(c) for P in W.poses for nm, (R, c) in P.items()}
        need(sorted(got) == sorted(want) and len(ls) - 1 == len(want), "geo-images", "images %s" % sorted(got))
        for nm in want:
            need(near(got[nm], want[nm], 0.05), "geo-images", "%s is at %s instead of %s" % (nm, got[nm], want[nm]))
    if fl[2]:
        with open("%s/%s" % (ds, out or "reconstruction.geocoords.json"), encoding="utf8") as f:
            recs = json.load(f)
        need(len(recs) == len(W.recs), "geo-rec", "%d reconstructions" % len(recs))
        for x, rec, P in zip(recs, W.recs, W.poses):
            need(sorted(x["shots"]) == sorted(rec["shots"]) and sorted(x["points"]) == sorted(rec["points"]), "geo-rec", "other images or points")
            for t, p in rec["points"].items():
                need(near(x["points"][t]["coordinates"], geo(p["coordinates"]), 0.05), "geo-rec", "point %s is at %s" % (t, x["points"][t]["coordinates"]))
            for nm, (R, c) in P.items():
                R2 = rot(x["shots"][nm]["rotation"])
                c2 = -R2.T @ x["shots"][nm]["translation"]
                need(near(c2, geo(c), 0.1), "geo-rec", "%s is at %s instead of %s" % (nm, c2, geo(c)))
                a = geo(c + 20 * R[2]) - geo(c)
                need(R2[2] @ a / np.linalg.norm(a) > 0.9999, "geo-rec", "%s looks another way" % nm)
    if fl[3]:
        props, rows = read_ply("%s/%s" % (ds, out or "undistorted/depthmaps/merged.geocoords.ply"))
        need(len(rows) == len(W.dense), "geo-dense", "%d points" % len(rows))
        for x, y in zip(rows, W.dense):
            v = [float(a) for a in x]
            need(near(v[:3], geo(y[:3]), 0.05) and near(v[3:6], y[3:6], 0.03) and near(v[6:], y[6:], 0), "geo-dense", "%s became %s" % (y.tolist(), v))
    return sum(fl)


JUDGE = {"ply": j_ply, "visualsfm": j_visualsfm, "openmvs": j_openmvs, "pmvs": j_pmvs, "bundler": j_bundler, "colmap": j_colmap, "geocoords": j_geocoords}


def run(sc, root):
    W = world(sc)
    ds = root + "/ds"
    make(ds, sc, W)
    args = argv(sc, ds, root)
    v, rs, n = [], [], 0
    for j, k in enumerate(list(sc["lives"]) + [None]):
        faults = []
        if k:
            fk = {"at": int(k["pos"] * {"m": 12, "r": 20 + 3 * sc["n"]}[k["side"]]), "side": k["side"], "kind": k["kind"], "frac": k["frac"]}
            if k["kind"] == "err":
                fk["errno"] = "EIO" if k["side"] == "r" else k["errno"]
            elif k["side"] == "r":
                fk["kind"] = "kill"
            faults = [fk]
        r = cm.must_report(simproc.run(lambda: pl.cli(*args), root, faults=faults, seed=sc["seed"] % 1000 + j, dirseed=sc["dirseed"] + j, wall=120))
        rs.append(r)
        what = "%s, run %d of %d" % (" ".join([args[0]] + args[2:]).replace(root, "~"), j + 1, len(sc["lives"]) + 1)
        if (k is None or not r["fired"]) and r["outcome"] != "ok":
            v.append({"key": "fails:%s" % (r["info"][0] if r["outcome"] == "exc" else r["outcome"]),
                      "msg": "%s: %s %s" % (what, cm.outcome_str(r), (r["info"] or "")[-1][-500:] if r["outcome"] == "exc" else "")})
            break
        if r["outcome"] == "ok":
            try:
                n = JUDGE[args[0][7:]](sc, W, ds, root)
            except Wrong as e:
                v.append({"key": e.args[0], "msg": "%s (%s%s)" % (e.args[1], what, ", a failing disk" if r["fired"] else "")})
                break
            except Exception as e:
                v.append({"key": "unreadable:" + args[0], "msg": "%s: %s (%s%s)" % (type(e).__name__, e, what, ", a failing disk" if r["fired"] else "")})
                break
    return {"violations": v, "nontrivial": repr([sc["cmd"], sc["seed"], rs[-1]["fshash"]]) if n else None, "trace": rs[-1]["trace"],
            "stats": {"exported": n, "lifetimes": len(rs), "cmd_" + sc["cmd"]: 1},
            "fired": cm.fired_counts(*rs), "sim_time": sum(x["now"] for x in rs), "log": [[x["outcome"], x["fshash"]] for x in rs]}


def shrink(sc):
    for s in cm.subsets(sc["lives"]):
        yield dict(sc, lives=s)
    for k, z in (("n", 2), ("n", 3), ("pts", 3), ("ncam", 1), ("recs", 1), ("rig", False), ("ident", False), ("outside", 0), ("list", False), ("points", False),
                 ("masks", False), ("uni", False), ("size", 1000), ("paths", False), ("nomatch", False), ("shuffle", False)):
        if sc[k] != z and not (k in ("n", "pts") and sc[k] < z):
            yield dict(sc, **{k: z})
    for i in range(4):
        if sc["flags"][i]:
            yield dict(sc, flags=sc["flags"][:i] + [False] + sc["flags"][i + 1:])
    for i in range(3):
        if sc["kinds"][i] != "perspective":
            yield dict(sc, kinds=sc["kinds"][:i] + ["perspective"] + sc["kinds"][i + 1:])
