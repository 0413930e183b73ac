"""A small ray-cast scene: two textured planes seen from a row of cameras.

Everything here is written by us with plain file writes; nothing goes through
the code under test.
"""
import os
import random

import numpy as np

from . import common as cm

W, H, FOCAL = 192, 144, 0.9


def _texture(r, n=256):
    import cv2
    t = np.zeros((n, n, 3), "float32")
    for k, a in ((8, 0.25), (24, 0.35), (64, 0.4)):
        t += a * cv2.resize(r.randint(0, 256, (k, k, 3)).astype("float32"), (n, n),
                            interpolation=cv2.INTER_NEAREST)
    for _ in range(120):
        c = tuple(int(x) for x in r.randint(0, 256, 3))
        p = tuple(int(x) for x in r.randint(0, n, 2))
        if r.rand() < 0.5:
            cv2.circle(t, p, int(r.randint(2, 8)), c, -1)
        else:
            q = (p[0] + int(r.randint(3, 14)), p[1] + int(r.randint(3, 14)))
            cv2.rectangle(t, p, q, c, -1)
    return t


def poses(n, rig=False):
    """Camera centres and rotations (world to camera), looking at +z."""
    out = []
    if rig:  # pairs of images with the same relative pose
        for i in range(n):
            out.append((np.eye(3), np.array([1.0 * (i // 2 - (n / 2 - 1) / 2), 0.1 * (i // 2), 0.05 * (i // 2)])
                        + (i % 2) * np.array([0.45, 0.15, 0.1])))
        return out
    for i in range(n):
        c = np.array([0.55 * (i - (n - 1) / 2), 0.15 * (i % 2), 0.1 * (i % 3)])
        a = -0.12 * c[0]
        R = np.array([[np.cos(a), 0, np.sin(a)], [0, 1, 0], [-np.sin(a), 0, np.cos(a)]])
        out.append((R, c))
    return out


def render(seed, n, w=W, h=H, focal=FOCAL, rig=False, at=None, depths=None):
    """Images of the scene; `at` gives other poses, `depths` receives the depth of each pixel."""
    import cv2
    r = np.random.RandomState(seed)
    planes = [  # point, u axis, v axis, size
        (np.array([-6.0, -5, 6.0]), np.array([12.0, 0, 1.5]), np.array([0, 10.0, 0])),
        (np.array([-1.9, -1.1, 3.6]), np.array([1.7, 0, -0.6]), np.array([0, 2.0, 0.4])),
        (np.array([0.35, -1.2, 3.0]), np.array([1.5, 0, 0.9]), np.array([0, 1.5, 0.0])),
    ]
    tex = [_texture(r) for _ in planes]
    big = max(w, h)
    xs, ys = np.meshgrid((np.arange(w) + 0.5 - w / 2) / big, (np.arange(h) + 0.5 - h / 2) / big)
    rays = np.dstack([xs / focal, ys / focal, np.ones_like(xs)]).reshape(-1, 3)
    imgs = []
    for R, c in at or poses(n, rig):
        d = rays @ R  # R^T ray
        best = np.full(len(d), 1e9)
        col = np.zeros((len(d), 3), "float32")
        for (p, u, v), t in zip(planes, tex):
            nrm = np.cross(u, v)
            s = ((p - c) @ nrm) / (d @ nrm)
            x = c + d * s[:, None] - p
            a = x @ u / (u @ u)
            b = x @ v / (v @ v)
            ok = (s > 0) & (s < best) & (a >= 0) & (a < 1) & (b >= 0) & (b < 1)
            best[ok] = s[ok]
            smp = cv2.remap(t, (a * t.shape[1]).astype("float32").reshape(h, w),
                            (b * t.shape[0]).astype("float32").reshape(h, w), cv2.INTER_LINEAR)
            col[ok] = smp.reshape(-1, 3)[ok]
        if depths is not None:
            depths.append(np.where(best < 1e8, best, 0).reshape(h, w))
        imgs.append(np.clip(col.reshape(h, w, 3), 0, 255).astype("uint8"))
    return imgs


CONF = {"feature_type": "HAHOG", "feature_process_size": W, "feature_min_frames": 300,
        "feature_root": 1, "matching_bow_neighbors": 0, "matching_gps_neighbors": 0,
        "matching_gps_distance": 0, "matching_time_neighbors": 0, "processes": 1, "read_processes": 1,
        "depthmap_resolution": 48, "depthmap_num_matching_views": 2,
        "depthmap_min_patch_sd": 0.5, "depthmap_min_consistent_views": 2,
        "undistorted_image_max_size": 10000, "undistorted_image_format": "png",
        "bundle_interval": 999999, "depthmap_patchmatch_iterations": 2,
        "depthmap_num_neighbors": 3}


def make(ds, seed, n, conf=None, gps=True, extras=()):
    """extras: masks, seg (segmentations, one label ignored), bake (segmentations and instances baked
    into the features), gcp (ground control points), rig (pairs of images), brown (camera type)."""
    os.makedirs(ds + "/images")
    names = ["v%02d.png" % i for i in range(n)]
    rig = "rig" in extras
    for nm, img in zip(names, render(seed, n, rig=rig)):
        cm.write_png(ds + "/images/" + nm, img)
    conf = dict(CONF, **(conf or {}))
    ps = poses(n, rig)
    over = {}
    for i, nm in enumerate(names):
        c = ps[i][1]
        over[nm] = {"gps": {"latitude": 50.0 + c[2] * 9e-6, "longitude": 10.0 + c[0] * 1.4e-5,
                            "altitude": 2.0 + c[1], "dop": 5.0},
                    "capture_time": 1500000000.0 + 10 * (i // 2 if rig else i), "focal_ratio": FOCAL,
                    "camera": "cam"}
        if not gps:
            over[nm].pop("gps")
    cm.write_json(ds + "/exif_overrides.json", over)
    cam = cm.camera_json(W, H, FOCAL)
    if "brown" in extras:
        cam = {"projection_type": "brown", "width": W, "height": H, "focal_x": FOCAL, "focal_y": FOCAL,
               "c_x": 0.0, "c_y": 0.0, "k1": 0.0, "k2": 0.0, "k3": 0.0, "p1": 0.0, "p2": 0.0}
    cm.write_json(ds + "/camera_models_overrides.json", {"cam": cam})
    if "masks" in extras:
        os.makedirs(ds + "/masks")
        for i, nm in enumerate(names):
            if i % 3 != 2:
                m = np.full((H, W), 255, np.uint8)
                m[: H // 5, (17 * i) % W:] = 0
                cm.write_png(ds + "/masks/" + nm + ".png", m)
    if "seg" in extras or "bake" in extras:
        for k in ["segmentations"] + (["instances"] if "bake" in extras else []):
            os.makedirs(ds + "/" + k)
            for i, nm in enumerate(names):
                m = np.full((H, W), 3, np.uint8)
                m[-H // 6:, (29 * i) % W:] = 7
                m[:, :W // 8] = 1 + i
                cm.write_png("%s/%s/%s.png" % (ds, k, nm), m)
    if "seg" in extras:
        conf["segmentation_ignore_values"] = [7]
    if "bake" in extras:
        conf["features_bake_segmentation"] = True
    if "gcp" in extras:
        pts = []
        for k, X in enumerate(np.array([[-1.0, -0.5, 4.2], [0.6, -0.4, 3.4], [1.0, 0.2, 3.6], [-0.4, 0.6, 5.0], [0.1, -0.9, 5.5]])):
            obs = []
            for (R, c), nm in zip(ps, names):
                x = R @ (X - c)
                p = [FOCAL * x[0] / x[2], FOCAL * x[1] / x[2]]
                if abs(p[0]) < 0.5 and abs(p[1]) < 0.37:
                    obs.append({"shot_id": nm, "projection": p})
            pts.append({"id": "g%d" % k, "observations": obs, "position": {
                "latitude": 50.0 + X[2] * 9e-6, "longitude": 10.0 + X[0] * 1.4e-5, "altitude": 2.0 + X[1]}})
        cm.write_json(ds + "/ground_control_points.json", {"points": pts})
    if rig:
        cm.write_json(ds + "/rig_cameras.json", {
            "left": {"rotation": [0.0, 0.0, 0.0], "translation": [0.0, 0.0, 0.0]},
            "right": {"rotation": [0.0, 0.0, 0.0], "translation": [-0.45, -0.15, -0.1]}})
        cm.write_json(ds + "/rig_assignments.json", {
            "pair%d" % k: [[names[2 * k], "left"]] + ([[names[2 * k + 1], "right"]] if 2 * k + 1 < n else [])
            for k in range((n + 1) // 2)})
    cm.write_config(ds, conf)
    return names
