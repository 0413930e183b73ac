"""C15: the undistorted dataset shows what pinhole cameras at the same places would have seen."""
import json
import os
import random

import numpy as np

from sim import simproc
from . import common as cm
from . import pipeline as pl

ID = "C15"
BUDGET = {"quick": 40, "thorough": 500}
prepare = pl.prepare
RULE = ("a run generates a reconstruction with its images, masks, segmentations and tracks, undistorts it, possibly "
        "after runs that were killed or met a failing disk, under a random schedule of the workers; non-trivial when an "
        "image was undistorted; distinct by scene and schedule")
COMPONENTS = {"real": ["bin/opensfm_main.py", "opensfm.commands", "opensfm.actions.undistort", "opensfm.undistort", "opensfm.dataset",
                       "opensfm.io", "opensfm.types", "opensfm.context (joblib)", "C++ geometry and map", "OpenCV, Pillow"],
              "stub": ["disk, worker processes (threads of the simulator), process death, directory order, hash seed"]}
ASSUMPTIONS = ["a pixel may show any value found within 1.5 pixels (more where an image is shrunk) of where the camera model puts it",
               "pixels within 2 pixels of the border of the original are not judged"]
KINDS = ["perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62", "spherical", "equirectangular", "simple_radial", "dual"]
PANO = ("spherical", "equirectangular")
FIVE = ("perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62")


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 15)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        yield {"hs": r.choice(cm.HS), "n": r.randrange(1, 6), "cams": [r.choice(KINDS[:7]) if r.random() < 0.95 else r.choice(KINDS[7:])
                                                                     for _ in range(r.choice([1, 1, 2, 3]))],
               "fmt": r.choice(["png", "png", "jpg", "tif"]), "max": r.choice([10000, 10000, 100000, 40, 23]),
               "dres": r.choice([16, 24, 33]), "procs": r.choice([1, 2, 3, 4]), "pix": r.choice(["rgb", "rgb", "gray", "rgba", "16", "mix"]),
               "gone": r.choice([0, 0, 0.3]), "masks": r.choice([0, 0.5, 1]), "seg": r.choice([0, 0.5, 1]), "tracks": r.choice([True, True, True, False]),
               "rig": r.random() < 0.3, "recs": r.choice([1, 1, 2, 3]), "name": r.random() < 0.25, "out": r.choice([None, None, "u2"]),
               "skip": r.random() < 0.15, "list": r.random() < 0.2, "other": r.random() < 0.3, "ref": r.random() < 0.6,
               "lives": [{"pos": r.random(), "kind": r.choice(["kill", "torn", "err", "err"]), "side": r.choice("mmr"),
                          "errno": r.choice(["EIO", "ENOSPC"]), "frac": r.choice([0, 0.5, 0.9])} for _ in range(r.choice([0, 0, 1, 1, 2]))],
               "mode": cm.pick_mode(r, 2000), "dirseed": r.randrange(1, 1000), "seed": r.randrange(1 << 30)}


# ---- the world -----------------------------------------------------------

def rot(v):
    """Rotation matrix of an angle axis vector."""
    v = np.asarray(v, float)
    a = np.linalg.norm(v)
    if a < 1e-12:
        return np.eye(3)
    x, y, z = v / a
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K


def unrot(R):
    import cv2
    return cv2.Rodrigues(R)[0].ravel()


def camera(r, kind):
    w, h = r.choice([(64, 48), (48, 64), (60, 60), (81, 54)])
    if kind in PANO:
        w = r.choice([64, 96, 128, 200])
        h = w // 2
    c = {"projection_type": kind, "width": w * r.choice([1, 1, 1, 3]), "height": h}
    c["height"] = h * (c["width"] // w)
    u = r.uniform
    if kind in ("perspective", "fisheye"):
        c.update(focal=u(0.6, 1.2), k1=r.choice([0.0, u(-0.3, 0.2)]), k2=r.choice([0.0, u(-0.05, 0.1)]))
    elif kind == "dual":
        c.update(focal=u(0.6, 1.2), k1=0.01, k2=0.0, transition=0.5)
    elif kind not in PANO:
        f = u(0.6, 1.2)
        c.update(focal_x=f, focal_y=f * r.choice([1.0, u(0.9, 1.1)]), c_x=u(-0.05, 0.05), c_y=u(-0.05, 0.05), k1=u(-0.3, 0.2))
        if kind != "simple_radial":
            c.update(k2=u(-0.05, 0.1), k3=u(-0.03, 0.03))
        if kind in ("brown", "fisheye62"):
            c.update(p1=u(-0.03, 0.03), p2=u(-0.03, 0.03))
        if kind in ("fisheye_opencv", "fisheye62"):
            c.update(k4=u(-0.02, 0.02))
        if kind == "fisheye62":
            c.update(k5=u(-0.01, 0.01), k6=u(-0.01, 0.01))
    return c, (w, h)


def picture(rng, w, h, kind):
    """A smooth picture, without a repeated value where the model matters; periodic in x."""
    x, y = np.meshgrid((np.arange(w) + 0.5) / w, (np.arange(h) + 0.5) / h)
    ch = []
    for k in range({"gray": 1, "rgba": 4}.get(kind, 3)):
        a, b = rng.uniform(0, 6.3, 2)
        fx, fy = [(1, 1), (2, 1), (1, 2), (2, 2)][k]
        ch.append(130 + 60 * np.sin(2 * np.pi * fx * x + a) + 60 * np.sin(np.pi * fy * y * 1.3 + b))
    im = np.dstack(ch)
    if kind == "gray":
        im = im[:, :, 0]
    if kind == "16":
        return np.round(im * 240).astype(np.uint16)
    return np.round(im).astype(np.uint8)


def labels(rng, w, h, values):
    """Blocks of labels, as a segmentation has."""
    import cv2
    a = np.array(values, np.uint8)[rng.randint(0, len(values), (max(2, h // 12), max(2, w // 12)))]
    return cv2.resize(a, (w, h), interpolation=cv2.INTER_NEAREST)


def world(sc):
    r = random.Random(sc["seed"])
    rng = np.random.RandomState(sc["seed"] % (1 << 31))
    cams, sizes = {}, {}
    for i, k in enumerate(sc["cams"]):
        cid = "cam %d" % i
        cams[cid], sizes[cid] = camera(r, k)
    recs, files = [], {}
    exts = ["jpg", "png", "tif", "JPG"]
    for j in range(sc["recs"]):
        shots, rigc, rigi = {}, {}, {}
        for i in range(sc["n"]):
            cid = sorted(cams)[rng.randint(len(cams))]
            kind = cams[cid]["projection_type"]
            pix = r.choice(["rgb", "gray", "rgba", "16"]) if sc["pix"] == "mix" else sc["pix"]
            e = r.choice(exts)
            if pix in ("16", "rgba") and e.lower() == "jpg":
                e = "png"
            sid = "r%d_%s.%s" % (j, "éabcdef"[i], e)
            s = {"rotation": rng.uniform(-2, 2, 3).tolist(), "translation": rng.uniform(-9, 9, 3).tolist(), "camera": cid,
                 "orientation": 1 + i % 8, "capture_time": 1.5e9 + 3 * i, "gps_dop": 4.0, "gps_position": rng.uniform(-5, 5, 3).tolist(), "skey": "s%d" % i}
            if r.random() < 0.3:
                s["compass"] = {"angle": 10.0 * i, "accuracy": 2.5}
            shots[sid] = s
            w, h = sizes[cid]
            f = {"img": picture(rng, w, h, pix), "kind": kind, "pix": pix, "ext": e, "mask": None, "seg": None, "gone": bool(files) and r.random() < sc["gone"]}
            if r.random() < sc["masks"]:
                f["mask"] = labels(rng, *(sizes[cid] if r.random() < 0.7 else (w * 2, h * 2)), values=[0, 255])
            if r.random() < sc["seg"]:
                f["seg"] = labels(rng, w, h, values=[1, 7, 30, 77, 130, 200])
            files[sid] = f
        ids = list(shots)
        if sc["rig"] and len(ids) >= 2:
            for k in range(0, len(ids) - 1, 2):
                R, t = rot(rng.uniform(-2, 2, 3)), rng.uniform(-9, 9, 3)
                inst = {"rotation": unrot(R).tolist(), "translation": t.tolist(), "rig_camera_ids": {}}
                for q, sid in enumerate(ids[k:k + 2]):
                    rc = "rc%d" % q
                    if rc not in rigc:
                        rigc[rc] = {"rotation": rng.uniform(-1, 1, 3).tolist(), "translation": rng.uniform(-1, 1, 3).tolist()}
                    Rc, tc = rot(rigc[rc]["rotation"]), np.array(rigc[rc]["translation"])
                    shots[sid].update(rotation=unrot(Rc @ R).tolist(), translation=(Rc @ t + tc).tolist())
                    inst["rig_camera_ids"][sid] = rc
                rigi["inst%d" % k] = inst
            if len(ids) % 2:
                sid = ids[-1]
                rigc[shots[sid]["camera"]] = {"rotation": [0.0] * 3, "translation": [0.0] * 3}
                rigi[sid] = {"rotation": shots[sid]["rotation"], "translation": shots[sid]["translation"],
                             "rig_camera_ids": {sid: shots[sid]["camera"]}}
        rec = {"cameras": cams, "shots": shots, "biases": {},
               "points": {str(3 * p): {"coordinates": rng.uniform(-9, 9, 3).tolist(), "color": [float(x) for x in rng.randint(0, 256, 3)]}
                          for p in range(rng.randint(0, 6))}}
        if rigi:
            rec.update(rig_cameras=rigc, rig_instances=rigi)
        if sc["ref"]:
            rec["reference_lla"] = {"latitude": 40.0 + j, "longitude": -3.5, "altitude": 100.25}
        recs.append(rec)
    tracks = []
    for sid in files:
        if r.random() < 0.15:
            continue
        for t in range(rng.randint(0, 9)):
            if files[sid]["kind"] in PANO:
                p = [rng.uniform(-0.5, 0.5), rng.uniform(-0.24, 0.24)]
            else:
                p = rng.uniform(-0.5, 0.5, 2).tolist()
            tracks.append([sid, str(t), rng.randint(0, 500)] + ["%g" % x for x in p] + ["%g" % rng.uniform(0.001, 0.01)]
                          + [int(x) for x in rng.randint(0, 256, 3)] + [int(rng.randint(-1, 9)), int(rng.randint(-1, 9))])
    return cams, recs, files, tracks


def make(ds, sc, cams, recs, files, tracks):
    import cv2
    r = random.Random(sc["seed"] + 1)
    img = "pictures" if sc["list"] else "images"
    for d in (img, "masks", "segmentations"):
        os.makedirs(ds + "/" + d)
    cm.write_config(ds, {"processes": sc["procs"], "read_processes": 1, "undistorted_image_format": sc["fmt"],
                         "undistorted_image_max_size": sc["max"], "depthmap_resolution": sc["dres"]})
    cm.write_json(ds + "/camera_models.json", cams)
    rn, tn = ("rec2.json", "tr2.csv") if sc["name"] else ("reconstruction.json", "tracks.csv")
    cm.write_json(ds + "/" + rn, recs)
    if sc["tracks"]:
        r.shuffle(tracks)
        with open(ds + "/" + tn, "w") as g:
            g.write("OPENSFM_TRACKS_VERSION_v2\n" + "".join("\t".join(map(str, t)) + "\n" for t in tracks))
    for sid, f in files.items():
        if not f["gone"]:
            ok, buf = cv2.imencode("." + f["ext"].lower(), f["img"], [cv2.IMWRITE_JPEG_QUALITY, 98])
            with open("%s/%s/%s" % (ds, img, sid), "wb") as g:
                g.write(buf.tobytes())
        if f["mask"] is not None:
            cm.write_png("%s/masks/%s.png" % (ds, sid), f["mask"])
        if f["seg"] is not None:
            s = f["seg"]
            cm.write_png("%s/segmentations/%s.png" % (ds, sid), s if len(sid) % 2 else np.dstack([s * 0, s * 0, s]))  # label in red
    if sc["other"]:
        cm.write_png("%s/%s/unused.png" % (ds, img), picture(np.random.RandomState(1), 20, 20, "rgb"))
    if sc["list"]:
        with open(ds + "/image_list.txt", "w") as g:
            g.write("".join("%s/%s\n" % (img, x) for x in sorted(files) if not files[x]["gone"]))


# ---- the model -----------------------------------------------------------

def project(c, b):
    """Bearings (n,3) to normalized coordinates, after doc/source/geometry.rst."""
    x, y, z = b.T
    k = c["projection_type"]
    K = [c.get("k%d" % i, 0.0) for i in range(1, 7)]
    if k in PANO:
        return np.column_stack([np.arctan2(x, z), -np.arctan2(-y, np.hypot(x, z))]) / (2 * np.pi)
    if k in ("perspective", "brown"):
        a, b = x / z, y / z
    else:
        q = np.hypot(x, y)
        th = np.arctan2(q, z)
        s = np.where(q > 1e-9, th / np.maximum(q, 1e-9), 1.0)
        a, b = x * s, y * s
    r2 = a * a + b * b
    d = 1 + sum(kk * r2 ** (i + 1) for i, kk in enumerate(K))
    p1, p2 = c.get("p1", 0.0), c.get("p2", 0.0)
    u = d * a + 2 * p1 * a * b + p2 * (r2 + 2 * a * a)
    v = d * b + 2 * p2 * a * b + p1 * (r2 + 2 * b * b)
    if "focal" in c:
        return np.column_stack([c["focal"] * u, c["focal"] * v])
    return np.column_stack([c["focal_x"] * u + c["c_x"], c["focal_y"] * v + c["c_y"]])


def pinhole(c):
    f = c["focal"] if "focal" in c else (c["focal_x"] + c["focal_y"]) / 2
    return {"projection_type": "perspective", "width": c["width"], "height": c["height"], "focal": f, "k1": 0.0, "k2": 0.0}


def ext(s, fmt):
    return s if s.endswith("." + fmt) else "%s.%s" % (s, fmt)


FACES = ["front", "left", "back", "right", "top", "bottom"]


def check_pixels(c, got, src, rel, nearest, sc, tol):
    """First pixel of `got` whose value is nowhere near its place in `src`; None if all agree.
    rel: rotation from the view to the original (views of a panorama only)."""
    import cv2
    h, w = src.shape[:2]
    pano = c["projection_type"] in PANO
    dw, dh = (sc["dres"], sc["dres"]) if pano else (w, h)
    f = sc["max"] / float(max(dw, dh))
    ow, oh = (int(round(dw * f)), int(round(dh * f))) if f < 1 else (dw, dh)
    if got.shape[:2] != (oh, ow):
        return "the size is %dx%d instead of %dx%d" % (got.shape[1], got.shape[0], ow, oh), 0
    if got.ndim != src.ndim or (got.ndim == 3 and got.shape[2] != src.shape[2]):
        return "the shape is %s, original %s" % (got.shape, src.shape), 0
    xs, ys = np.meshgrid((np.arange(ow) + 0.5) * dw / ow, (np.arange(oh) + 0.5) * dh / oh)
    big = max(dw, dh)
    uv = np.column_stack([(xs.ravel() - dw / 2) / big, (ys.ravel() - dh / 2) / big])
    foc = 0.5 if pano else pinhole(c)["focal"]
    b = np.column_stack([uv / foc, np.ones(len(uv))])
    if pano:
        b = b @ rel.T
    p = project(c, b)
    bigs = max(w, h)
    sx, sy = p[:, 0] * bigs + w / 2 - 0.5, p[:, 1] * (2 * h if pano else bigs) + h / 2 - 0.5
    shrink = max(dw / ow, 1) if not pano else max(w / (4.0 * dw), 1) * 1.5 + (w / (4.0 * dw)) * (dw / ow)
    k = 1 + int(np.ceil(shrink * (1 if not pano else 1.2)))
    m = k + 1
    pad = cv2.copyMakeBorder(src, 0, 0, m, m, cv2.BORDER_WRAP) if pano else src
    off = m if pano else 0
    ker = np.ones((2 * k + 1, 2 * k + 1), np.uint8)
    ix, iy = np.round(sx).astype(int), np.round(sy).astype(int)
    inside = (sy >= m) & (sy <= h - 1 - m)
    if pano:  # not where a pixel spans many columns
        inside &= 1.5 * w / (np.pi * ow * np.maximum(np.cos((sy - h / 2 + 0.5) / h * np.pi), 1e-9)) + shrink <= k + 0.5
    else:
        inside &= (sx >= m) & (sx <= w - 1 - m)
    outside = np.zeros(len(p), bool) if pano else ((sx < -1.5 - shrink) | (sy < -1.5 - shrink) | (sx > w + 0.5 + shrink) | (sy > h + 0.5 + shrink))
    g = got.reshape(ow * oh, -1).astype(int)
    n = int(inside.sum())
    jx = np.clip(ix + off, 0, pad.shape[1] - 1)
    jy = np.clip(iy, 0, h - 1)
    if nearest:
        ok = np.zeros((len(p), g.shape[1]), bool)
        for dy in range(-k, k + 1):
            for dx in range(-k, k + 1):
                ok |= g == pad[np.clip(jy + dy, 0, h - 1), np.clip(jx + dx, 0, pad.shape[1] - 1)].reshape(len(p), -1)
        bad = inside & ~ok.all(1)
    else:
        lo = cv2.erode(pad, ker).reshape(pad.shape[0], pad.shape[1], -1)[jy, jx].astype(int)
        hi = cv2.dilate(pad, ker).reshape(pad.shape[0], pad.shape[1], -1)[jy, jx].astype(int)
        bad = inside & ((g < lo - tol) | (g > hi + tol)).any(1)
    bad |= outside & (abs(g) > (tol if tol < 12 or tol > 99 else 70)).any(1)
    # the odd pixel at a sharp edge of a lossy file is not a displaced image
    if bad.sum() > (0 if tol < 5 or nearest else 3):
        i = int(np.argmax(bad))
        return "%d of %d pixels, the first (%d, %d) is %s where the original has %s at (%.1f, %.1f)" % (
            bad.sum(), len(p), i % ow, i // ow, g[i].tolist(), np.ravel(pad[jy[i], jx[i]]).tolist() if inside[i] else "nothing", sx[i], sy[i]), n
    return None, n


def near(a, b, tol=1e-8):
    return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= tol * (1 + np.abs(np.asarray(b, float)))))


def judge(ds, sc, cams, recs, files, tracks, ridx, what):
    import cv2
    v = []

    def bad(key, msg):
        v.append({"key": key, "msg": "%s (%s)" % (msg, what)})
    out = ds + "/" + (sc["out"] or "undistorted")
    rec = recs[ridx]
    listed = {s for s in files if not files[s]["gone"]}
    left = {s: x for s, x in rec["shots"].items() if s in listed and cams[x["camera"]]["projection_type"] in FIVE + PANO}
    try:
        with open(out + "/reconstruction.json") as f:
            [u] = json.load(f)
        with open(out + "/undistorted_shot_ids.json") as f:
            ids = json.load(f)
    except Exception as e:
        bad("unreadable", "undistorted reconstruction: %s: %s" % (type(e).__name__, e))
        return v, 0
    wantids = {}
    for s, x in left.items():
        if cams[x["camera"]]["projection_type"] in PANO:
            wantids[s] = [ext("%s_perspective_view_%s" % (s, n), sc["fmt"]) for n in FACES]
        else:
            wantids[s] = [ext(s, sc["fmt"])]
    if {k: sorted(x) for k, x in ids.items()} != {k: sorted(x) for k, x in wantids.items()}:
        bad("shot-ids", "undistorted_shot_ids is %s instead of %s" % (ids, wantids))
        return v, 0
    flat = {n: s for s, x in wantids.items() for n in x}
    if set(u["shots"]) != set(flat):
        bad("shots", "shots are %s instead of %s" % (sorted(u["shots"]), sorted(flat)))
        return v, 0
    rels = {}
    for n, s in flat.items():
        a, b, c = u["shots"][n], rec["shots"][s], cams[rec["shots"][s]["camera"]]
        want = pinhole(c) if c["projection_type"] in FIVE else {
            "projection_type": "perspective", "width": sc["dres"], "height": sc["dres"], "focal": 0.5, "k1": 0.0, "k2": 0.0}
        uc = u["cameras"].get(a["camera"])
        if uc is None or uc.get("projection_type") != "perspective" or set(uc) != set(want) or not near(
                [uc[k] for k in sorted(want) if k != "projection_type"], [want[k] for k in sorted(want) if k != "projection_type"]):
            bad("camera:" + c["projection_type"], "the camera of %s is %s instead of %s" % (n, uc, want))
        Ra, Rb = rot(a["rotation"]), rot(b["rotation"])
        if c["projection_type"] in FIVE:
            if not near(Ra, Rb, 1e-7) or not near(a["translation"], b["translation"], 1e-7):
                bad("pose", "the pose of %s is not the one of %s" % (n, s))
        else:
            if not near(Ra.T @ np.array(a["translation"]), Rb.T @ np.array(b["translation"]), 1e-6):
                bad("pose", "%s is not at the place of %s" % (n, s))
            rels[n] = Rb @ Ra.T
        for k in ("orientation", "capture_time", "gps_dop", "gps_position", "skey", "compass"):
            if (k in a) != (k in b) or (k in b and a[k] != b[k] and not near(
                    [a[k]] if not isinstance(a[k], dict) else sorted(a[k].values()), [b[k]] if not isinstance(b[k], dict) else sorted(b[k].values()))
                    if k != "skey" else a.get(k) != b.get(k)):
                bad("metadata", "%s of %s is %r instead of %r" % (k, n, a.get(k), b.get(k)))
    for s in left:
        if len(wantids[s]) == 6 and not v:
            axes = sorted(tuple(np.round(rels[n][:, 2], 6) + 0.0) for n in wantids[s])
            if axes != sorted([(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]):
                bad("views", "the views of %s look along %s" % (s, axes))
    if {k: (p["coordinates"], p["color"]) for k, p in u["points"].items()} != {k: (p["coordinates"], p["color"]) for k, p in rec["points"].items()}:
        bad("points", "the points differ: %d of %d" % (len(u["points"]), len(rec["points"])))
    if sc["ref"] and not near([u.get("reference_lla", {}).get(k, 1e9) for k in ("latitude", "longitude", "altitude")],
                              [rec["reference_lla"][k] for k in ("latitude", "longitude", "altitude")]):
        bad("reference", "the reference is %s instead of %s" % (u.get("reference_lla"), rec["reference_lla"]))
    # tracks
    have = os.path.exists(out + "/tracks.csv")
    if have != bool(sc["tracks"]):
        bad("tracks-file", "tracks.csv %s" % ("appeared" if have else "is missing"))
    elif have:
        with open(out + "/tracks.csv") as f:
            head, *rows = f.read().split("\n")
        got = {}
        for row in rows:
            if row:
                t = row.split("\t")
                got[t[0], t[1]] = (int(t[2]), [float(x) for x in t[3:6]], [int(x) for x in t[6:11]])
        want, maybe = {}, {}
        for t in tracks:
            s = t[0]
            if s not in left:
                continue
            o = (t[2], [float(x) for x in t[3:6]], t[6:11])
            if s not in rels and len(wantids[s]) == 1:
                want[wantids[s][0], t[1]] = o
            else:
                lon, lat = 2 * np.pi * o[1][0], -2 * np.pi * o[1][1]
                d = np.array([np.cos(lat) * np.sin(lon), -np.sin(lat), np.cos(lat) * np.cos(lon)])
                for n in wantids[s]:
                    if n not in rels:
                        continue
                    q = rels[n].T @ d
                    if q[2] > 1e-6:
                        p = 0.5 * q[:2] / q[2]
                        m = np.max(np.abs(p))
                        if m <= 0.5 + 1e-6:
                            (maybe if m > 0.5 - 1e-6 else want)[n, t[1]] = (o[0], [p[0], p[1], o[1][2]], o[2])
        for k in sorted(set(got) | set(want)):
            if k not in got:
                bad("tracks-lost", "the observation %s is missing" % (k,))
                break
            e = want.get(k) or maybe.get(k)
            if e is None:
                bad("tracks-extra", "the observation %s is unexpected: %s" % (k, got[k]))
                break
            if got[k][0] != e[0] or not np.allclose(got[k][1], e[1], rtol=2e-5, atol=2e-6) or got[k][2] != e[2]:
                bad("tracks-value", "the observation %s is %s instead of %s" % (k, got[k], e))
                break
    # images
    n = 0
    for kind in ("img", "mask", "seg"):
        d = "%s/%s" % (out, {"img": "images", "mask": "masks", "seg": "segmentations"}[kind])
        want = {} if sc["skip"] else {m + ("" if kind == "img" else ".png"): m for m, s in flat.items() if files[s][kind] is not None}
        there = {x for x in os.listdir(d) if not x.endswith(".tmp")} if os.path.isdir(d) else set()
        if there != set(want):
            bad("files:" + kind, "%s: missing %s, in excess %s" % (os.path.basename(d), sorted(set(want) - there)[:3], sorted(there - set(want))[:3]))
        for fn in sorted(there & set(want)):
            m = want[fn]
            s = flat[m]
            c = cams[rec["shots"][s]["camera"]]
            with open(d + "/" + fn, "rb") as f:
                a = cv2.imdecode(np.frombuffer(f.read(), np.uint8), cv2.IMREAD_UNCHANGED)
            if a is None:
                bad("unreadable", "%s is not an image" % fn)
                continue
            src = files[s][kind]
            tol = 2
            if kind == "img":
                if sc["fmt"] == "jpg":
                    if src.dtype == np.uint16:
                        src = (src >> 8).astype(np.uint8)
                    src = src[:, :, :3] if src.ndim == 3 else src
                    tol = 14
                elif files[s]["ext"].lower() == "jpg":
                    tol = 10
                if src.dtype == np.uint16:
                    tol = 500
                if a.dtype != src.dtype:
                    bad("depth", "%s has %s values, the original %s" % (fn, a.dtype, src.dtype))
                    continue
            if m not in rels and c["projection_type"] in PANO:
                continue
            msg, k = check_pixels(c, a, src, rels.get(m), kind != "img", sc, tol)
            n += k > 0
            if msg:
                bad("pixels:%s:%s" % (kind, "pano" if m in rels else c["projection_type"]), "%s of %s: %s" % (kind, m, msg))
    return v, n


def run(sc, root):
    cams, recs, files, tracks = world(sc)
    ds = root + "/ds"
    make(ds, sc, cams, recs, files, tracks)
    ridx = sc["seed"] % sc["recs"]
    args = ["undistort", ds]
    if sc["name"]:
        args += ["--reconstruction", "rec2.json", "--tracks", "tr2.csv"]
    if ridx or sc["seed"] % 3 == 0:
        args += ["--reconstruction-index", str(ridx)]
    if sc["out"]:
        args += ["--output", sc["out"]]
    if sc["skip"]:
        args += ["--skip-images"]
    v, rs, imgs = [], [], 0
    base = "%d images of %s, %d workers" % (sc["n"], "/".join(sc["cams"]), sc["procs"])
    nops = {"m": 12 + 8 * sc["n"], "r": 20 + 8 * sc["n"]}
    for j, k in enumerate(list(sc["lives"]) + [None]):
        faults = []
        if k:
            fk = {"at": int(k["pos"] * nops[k["side"]]), "side": k["side"], "kind": k["kind"], "frac": k["frac"]}
            if k["kind"] == "err":
                fk["errno"] = "EIO" if k["side"] == "r" else k["errno"]
            elif k["side"] == "r":
                fk["kind"] = "kill"
            faults = [fk]
        r = cm.must_report(simproc.run(lambda: pl.cli(*args), root, mode=sc["mode"] if sc["procs"] > 1 else None,
                                       faults=faults, seed=sc["seed"] % 1000 + j, dirseed=sc["dirseed"] + j, wall=120))
        rs.append(r)
        what = "%s, run %d of %d" % (base, j + 1, len(sc["lives"]) + 1)
        if k is None or not r["fired"]:
            if r["outcome"] != "ok":
                v.append({"key": "fails:%s" % (r["info"][0] if r["outcome"] == "exc" else r["outcome"]),
                          "msg": "%s: %s %s" % (what, cm.outcome_str(r), (r["info"] or "")[-1][-500:] if r["outcome"] == "exc" else cm.stacks_str(r) if r["outcome"] == "deadlock" else "")})
                break
        if r["outcome"] in ("deadlock", "steplimit", "crashed"):
            v.append({"key": r["outcome"], "msg": "%s: %s after %s" % (what, cm.stacks_str(r), r["fired"])})
            break
        if r["outcome"] == "ok":
            w, imgs = judge(ds, sc, cams, recs, files, tracks, ridx, what + (", a failing disk" if r["fired"] else ""))
            v += w
            if w:
                break
    return {"violations": v, "nontrivial": repr([sc["seed"], rs[-1]["fshash"], rs[-1]["nswitch"]]) if imgs else None, "trace": rs[-1]["trace"],
            "stats": {"images": imgs, "lifetimes": len(rs), "panoramas": sum(k in PANO for k in sc["cams"])},
            "fired": cm.fired_counts(*rs), "sim_time": sum(x["now"] for x in rs), "log": [[x["outcome"], x["fshash"]] for x in rs]}


def shrink(sc):
    for s in cm.subsets(sc["lives"]):
        yield dict(sc, lives=s)
    for k, z in (("n", 1), ("n", 2), ("recs", 1), ("procs", 1), ("rig", False), ("name", False), ("out", None), ("skip", False), ("list", False),
                 ("other", False), ("gone", 0), ("masks", 0), ("seg", 0), ("tracks", False), ("ref", False), ("max", 10000), ("fmt", "png"), ("pix", "rgb")):
        if sc[k] != z and not (k == "n" and sc[k] < z):
            yield dict(sc, **{k: z})
    if len(sc["cams"]) > 1:
        for c in sc["cams"]:
            yield dict(sc, cams=[c])
    yield from cm.shrink_mode(sc)
