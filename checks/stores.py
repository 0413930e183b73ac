"""Every kind of file a dataset can save, as a table of (make a value, save it, load it).

A value is plain nested lists, dicts, numbers and strings made from a seed.
save() builds the library's objects from it and calls the public save API;
load() calls the public load API and reads the objects' attributes back into a
plain value.  Neither goes through the library's own converters.
"""
import json
import math
import os
import random

import numpy as np

from . import common as cm

IMAGES = ["im1.jpg", "b 2.png", "c\u00e9.jpg"]
W, H = 64, 48
PARAMS = {
    "perspective": ["focal", "k1", "k2"],
    "brown": ["focal", "aspect_ratio", "c_x", "c_y", "k1", "k2", "k3", "p1", "p2"],
    "fisheye": ["focal", "k1", "k2"],
    "fisheye_opencv": ["focal", "aspect_ratio", "c_x", "c_y", "k1", "k2", "k3", "k4"],
    "fisheye62": ["focal", "aspect_ratio", "c_x", "c_y", "k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2"],
    "fisheye624": ["focal", "aspect_ratio", "c_x", "c_y", "k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2",
                   "s0", "s1", "s2", "s3"],
    "simple_radial": ["focal", "aspect_ratio", "c_x", "c_y", "k1"],
    "radial": ["focal", "aspect_ratio", "c_x", "c_y", "k1", "k2"],
    "dual": ["transition", "focal", "k1", "k2"],
    "spherical": [],
}


# ---- values ---------------------------------------------------------------

def fl(r, s=1.0):
    return r.choice([r.uniform(-s, s), r.gauss(0, s / 3), round(r.uniform(-s, s), 3), 0.0])


def name(r, pre):
    return pre + r.choice(["", "1", " x", "_\u00fc", "-7", ".a", "/q"]) + str(r.randrange(10))


def v_camera(r, cid):
    t = r.choice(sorted(PARAMS))
    c = {"type": t, "width": r.randrange(1, 5000), "height": r.randrange(1, 5000)}
    for p in PARAMS[t]:
        c[p] = r.uniform(0.3, 2.0) if p in ("focal", "aspect_ratio") else \
            r.uniform(0.1, 0.9) if p == "transition" else fl(r, 0.1)
    return c


def mk_camera(cid, c):
    from opensfm import pygeometry as pg
    C, t = pg.Camera, c["type"]
    g = c.get
    pp = np.array([g("c_x", 0), g("c_y", 0)])
    if t == "perspective":
        cam = C.create_perspective(g("focal"), g("k1"), g("k2"))
    elif t == "brown":
        cam = C.create_brown(g("focal"), g("aspect_ratio"), pp, np.array([g("k1"), g("k2"), g("k3"), g("p1"), g("p2")]))
    elif t == "fisheye":
        cam = C.create_fisheye(g("focal"), g("k1"), g("k2"))
    elif t == "fisheye_opencv":
        cam = C.create_fisheye_opencv(g("focal"), g("aspect_ratio"), pp, np.array([g("k%d" % i) for i in range(1, 5)]))
    elif t == "fisheye62":
        cam = C.create_fisheye62(g("focal"), g("aspect_ratio"), pp,
                                 np.array([g("k%d" % i) for i in range(1, 7)] + [g("p1"), g("p2")]))
    elif t == "fisheye624":
        cam = C.create_fisheye624(g("focal"), g("aspect_ratio"), pp,
                                  np.array([g("k%d" % i) for i in range(1, 7)] + [g("p1"), g("p2")] +
                                           [g("s%d" % i) for i in range(4)]))
    elif t == "radial":
        cam = C.create_radial(g("focal"), g("aspect_ratio"), pp, np.array([g("k1"), g("k2")]))
    elif t == "simple_radial":
        cam = C.create_simple_radial(g("focal"), g("aspect_ratio"), pp, g("k1"))
    elif t == "dual":
        cam = C.create_dual(g("transition"), g("focal"), g("k1"), g("k2"))
    else:
        cam = C.create_spherical()
    cam.id, cam.width, cam.height = cid, c["width"], c["height"]
    return cam


def see_camera(cam):
    t = cam.projection_type
    c = {"type": t, "width": cam.width, "height": cam.height}
    for p in PARAMS[t]:
        c[p] = float(cam.principal_point["c_x c_y".split().index(p)]) if p in ("c_x", "c_y") else float(getattr(cam, p))
    return c


def v_cameras(r):
    return {name(r, "v2 cam"): v_camera(r, "") for _ in range(r.randrange(0, 4))}


def mk_cameras(v):
    return {k: mk_camera(k, c) for k, c in v.items()}


def see_cameras(d):
    out = {}
    for k, c in d.items():
        assert c.id == k
        out[k] = see_camera(c)
    return out


def v_pose(r):
    return {"r": [r.uniform(-1.5, 1.5) for _ in range(3)], "t": [fl(r, 100) for _ in range(3)]}


def mk_pose(v):
    from opensfm import pygeometry as pg
    return pg.Pose(np.array(v["r"]), np.array(v["t"]))


def see_pose(p):
    return {"r": [float(x) for x in p.rotation], "t": [float(x) for x in p.translation]}


def v_meta(r):
    m = {}
    opts = {"orientation": lambda: r.randrange(1, 9), "capture_time": lambda: 1.5e9 + r.random() * 1e6,
            "gps_accuracy": lambda: r.uniform(0.1, 20), "gps_position": lambda: [fl(r, 50) for _ in range(3)],
            "gravity_down": lambda: [fl(r) for _ in range(3)], "compass_angle": lambda: r.uniform(0, 360),
            "compass_accuracy": lambda: r.uniform(0, 20), "sequence_key": lambda: name(r, "seq")}
    for k in sorted(opts):
        if r.random() < 0.5:
            m[k] = opts[k]()
    return m


META = ["orientation", "capture_time", "gps_accuracy", "gps_position", "gravity_down",
        "compass_angle", "compass_accuracy", "sequence_key"]


def mk_meta(v):
    from opensfm import pymap
    m = pymap.ShotMeasurements()
    for k, x in v.items():
        getattr(m, k).value = np.array(x) if isinstance(x, list) else x
    return m


def see_meta(m):
    out = {}
    for k in META:
        a = getattr(m, k)
        if a.has_value:
            x = a.value
            out[k] = [float(y) for y in x] if hasattr(x, "__len__") and not isinstance(x, str) else x
    return out


def v_shot(r, cam):
    s = {"camera": cam, "meta": v_meta(r), "scale": r.choice([1.0, r.uniform(0.1, 9)]),
         "merge_cc": r.choice([0, r.randrange(9)]),
         "cov": [[fl(r) for _ in range(6)] for _ in range(6)] if r.random() < 0.5 else None,
         "mesh": ([[fl(r, 9) for _ in range(3)] for _ in range(4)],
                  [[0.0, 1.0, 2.0], [1.0, 2.0, 3.0]]) if r.random() < 0.5 else ([], [])}
    return s


def v_reconstruction(r):
    cams = {name(r, "cam"): v_camera(r, "") for _ in range(r.randrange(1, 4))}
    ck = sorted(cams)
    rec = {"cameras": cams,
           "biases": {c: {"r": [fl(r) for _ in range(3)], "t": [fl(r, 9) for _ in range(3)],
                          "s": r.uniform(0.5, 2)} for c in ck},
           "rig_cameras": {}, "instances": {}, "shots": {}, "pano": {}, "points": {}, "reference": None}
    for i in range(r.randrange(0, 3)):
        rec["rig_cameras"]["rc%d" % i] = v_pose(r)
    n = 0
    for i in range(r.randrange(0, 5)):
        pose = v_pose(r)
        if rec["rig_cameras"] and r.random() < 0.5:
            iid = "inst %d" % i
            rec["instances"][iid] = {"pose": pose, "shots": {}}
            for rc in sorted(rec["rig_cameras"])[:r.randrange(1, 3)]:
                s = "s%d.jpg" % n
                n += 1
                rec["instances"][iid]["shots"][s] = rc
                rec["shots"][s] = v_shot(r, r.choice(ck))
        else:
            s = "s%d\u00e9.jpg" % n
            n += 1
            rec["shots"][s] = v_shot(r, r.choice(ck))
            rec["instances"][s] = {"pose": pose, "shots": {s: None}}
    for i in range(r.randrange(0, 2)):
        rec["pano"]["p%d" % i] = dict(v_shot(r, r.choice(ck)), pose=v_pose(r))
    for i in range(r.randrange(0, 6)):
        rec["points"][str(r.randrange(1000))] = {"x": [fl(r, 1e3) for _ in range(3)],
                                                 "c": [float(r.randrange(256)) for _ in range(3)]}
    if r.random() < 0.7:
        rec["reference"] = [r.uniform(-80, 80), r.uniform(-179, 179), r.choice([0.0, 12.5])]
    return rec


def mk_shot(shot, s):
    shot.metadata = mk_meta(s["meta"])
    shot.scale = s["scale"]
    shot.merge_cc = s["merge_cc"]
    if s["cov"] is not None:
        shot.covariance = np.array(s["cov"])
    if s["mesh"][0]:
        shot.mesh.vertices = s["mesh"][0]
        shot.mesh.faces = s["mesh"][1]


def see_shot(shot):
    return {"camera": shot.camera.id, "meta": see_meta(shot.metadata), "scale": float(shot.scale),
            "merge_cc": int(shot.merge_cc),
            "cov": np.asarray(shot.covariance).tolist() or None,
            "mesh": ([[float(y) for y in x] for x in shot.mesh.vertices],
                     [[float(y) for y in x] for x in shot.mesh.faces])}


def mk_reconstruction(v):
    from opensfm import geo, pygeometry, pymap, types
    rec = types.Reconstruction()
    for k, c in v["cameras"].items():
        rec.add_camera(mk_camera(k, c))
    for k, b in v["biases"].items():
        rec.set_bias(k, pygeometry.Similarity(np.array(b["r"]), np.array(b["t"]), b["s"]))
    for k, p in v["rig_cameras"].items():
        rec.add_rig_camera(pymap.RigCamera(mk_pose(p), k))
    for k, i in v["instances"].items():
        if list(i["shots"].values()) == [None]:
            rec.create_shot(k, v["shots"][k]["camera"], mk_pose(i["pose"]))
        else:
            ri = rec.add_rig_instance(pymap.RigInstance(k))
            rec.rig_instances[k].pose = mk_pose(i["pose"])
            for s, rc in i["shots"].items():
                rec.create_shot(s, v["shots"][s]["camera"], rig_camera_id=rc, rig_instance_id=k)
            rec.rig_instances[k].pose = mk_pose(i["pose"])
    for k, s in v["shots"].items():
        mk_shot(rec.shots[k], s)
    for k, s in v["pano"].items():
        mk_shot(rec.create_pano_shot(k, s["camera"], mk_pose(s["pose"])), s)
    for k, p in v["points"].items():
        rec.create_point(k, p["x"]).color = p["c"]
    if v["reference"]:
        rec.reference = geo.TopocentricConverter(*v["reference"])
    return rec


def see_reconstruction(rec, v=None):
    out = {"cameras": see_cameras({k: c for k, c in rec.cameras.items()}), "biases": {}, "rig_cameras": {},
           "instances": {}, "shots": {}, "pano": {}, "points": {}}
    for k, b in rec.biases.items():
        out["biases"][k] = {"r": [float(x) for x in b.rotation], "t": [float(x) for x in b.translation],
                            "s": float(b.scale)}
    auto = set()
    for k, i in rec.rig_instances.items():
        out["instances"][k] = {"pose": see_pose(i.pose), "shots": dict(i.rig_camera_ids)}
    for k, rc in rec.rig_cameras.items():
        out["rig_cameras"][k] = see_pose(rc.pose)
    for k, s in rec.shots.items():
        out["shots"][k] = dict(see_shot(s), pose=see_pose(s.pose))
    for k, s in rec.pano_shots.items():
        out["pano"][k] = dict(see_shot(s), pose=see_pose(s.pose))
    for k, p in rec.points.items():
        out["points"][k] = {"x": [float(y) for y in p.coordinates], "c": [float(y) for y in p.color]}
    out["reference"] = [rec.reference.lat, rec.reference.lon, rec.reference.alt] if rec.reference else None
    return out


def want_reconstruction(v):
    """What a reader must see: the plain value with the poses of the shots composed."""
    def rot(r):
        import cv2
        return cv2.Rodrigues(np.array(r))[0]

    def vec(R):
        import cv2
        return cv2.Rodrigues(R)[0].ravel()

    out = json.loads(json.dumps(v))
    out["reference"] = v["reference"] or [0.0, 0.0, 0.0]
    for k, s in v["pano"].items():  # a panoramic shot brings its own one-shot rig
        c = "panoshot_" + s["camera"]
        out["rig_cameras"].setdefault(c, {"r": [0.0] * 3, "t": [0.0] * 3})
        out["instances"]["panoshot_" + k] = {"pose": s["pose"], "shots": {k: c}}
    for k, i in v["instances"].items():
        Ri, ti = rot(i["pose"]["r"]), np.array(i["pose"]["t"])
        for s, rc in i["shots"].items():
            if rc is None:
                c = v["shots"][s]["camera"]
                out["instances"][k]["shots"][s] = c
                out["rig_cameras"].setdefault(c, {"r": [0.0] * 3, "t": [0.0] * 3})
                p = i["pose"]
            else:
                q = v["rig_cameras"][rc]
                Rc = rot(q["r"])
                p = {"r": vec(Rc @ Ri).tolist(), "t": (Rc @ ti + np.array(q["t"])).tolist()}
            out["shots"][s]["pose"] = p
    return out


def v_tracks(r):
    t = {}
    for i in range(r.randrange(0, 8)):
        t[str(r.randrange(100))] = {
            s: [round(r.uniform(-0.5, 0.5), r.choice([2, 4, 6])), fl(r, 0.5), r.uniform(0.0005, 0.02),
                r.randrange(256), r.randrange(256), r.randrange(256), r.randrange(100000),
                r.choice([-1, r.randrange(255)]), r.choice([-1, r.randrange(70)])]
            for s in r.sample(["a.jpg", "b 1.png", "c\u00e9.jpg", "d"], r.randrange(1, 4))}
    return t


def mk_tracks(v):
    from opensfm import pymap
    tm = pymap.TracksManager()
    for t, obs in v.items():
        for s, o in obs.items():
            tm.add_observation(s, t, pymap.Observation(*o))
    return tm


def see_tracks(tm):
    out = {}
    for t in tm.get_track_ids():
        out[t] = {s: [float(o.point[0]), float(o.point[1]), float(o.scale)] + [int(x) for x in o.color] +
                  [o.id, o.segmentation, o.instance] for s, o in tm.get_track_observations(t).items()}
    return out


def v_json(r, depth=0):
    u = r.random()
    if depth < 2 and u < 0.5:
        return {name(r, "k"): v_json(r, depth + 1) for _ in range(r.randrange(1, 5))}
    if depth < 2 and u < 0.65:
        return [v_json(r, depth + 1) for _ in range(r.randrange(4))]
    return r.choice([None, True, r.randrange(1 << 40), fl(r, 1e5), name(r, "s"), "\n\t\"'", 1e-300, 0.1 + 0.2])


def v_dict(r):
    return {name(r, "k"): v_json(r, 1) for _ in range(r.randrange(1, 6))}


def v_gcp(r):
    out = []
    for i in range(r.randrange(0, 4)):
        p = {"id": "g%d" % i, "lla": None, "obs": [[s, [fl(r, 0.5), fl(r, 0.5)]]
                                                   for s in r.sample(IMAGES, r.randrange(0, 3))]}
        if r.random() < 0.7:
            p["lla"] = {"latitude": r.uniform(-80, 80), "longitude": r.uniform(-170, 170)}
            if r.random() < 0.6:
                p["lla"]["altitude"] = fl(r, 100)
        out.append(p)
    return out


def mk_gcp(v):
    from opensfm import pymap
    out = []
    for p in v:
        g = pymap.GroundControlPoint()
        g.id = p["id"]
        if p["lla"]:
            g.lla = p["lla"]
            g.has_altitude = "altitude" in p["lla"]
        for s, xy in p["obs"]:
            o = pymap.GroundControlPointObservation()
            o.shot_id = s
            o.projection = np.array(xy)
            g.add_observation(o)
        out.append(g)
    return out


def see_gcp(gs):
    return [{"id": g.id, "lla": dict(g.lla) or None,
             "obs": [[o.shot_id, [float(x) for x in o.projection]] for o in g.observations]} for g in gs]


def arr(r, shape, dtype):
    g = np.random.RandomState(r.randrange(1 << 30))
    if np.dtype(dtype).kind == "f":
        return g.uniform(-2, 2, shape).astype(dtype)
    i = np.iinfo(dtype)
    return g.randint(max(0, i.min), min(i.max, 60000) + 1, shape).astype(dtype)


def A(a):
    a = np.asarray(a)
    return {"shape": list(a.shape), "v": a.astype(object).ravel().tolist() if a.dtype.kind in "US" else
            [float(x) for x in a.ravel()]}


class Store:
    conf = {}
    tol = 1e-9
    stable = True  # saving what was loaded changes nothing

    def __init__(self, key, files, value, save, load, want=None, tol=1e-9, conf=None, undist=False, big=False):
        self.key, self._files, self.value = key, files, value
        self.save, self.load = save, load
        self.want = want or (lambda v: v)
        self.tol, self.conf = tol, conf or {}

    def files(self, i):
        return [f.replace("%", IMAGES[i % len(IMAGES)]) for f in self._files]


def im(i):
    return IMAGES[i % len(IMAGES)]


def v_features(r):
    n = r.choice([1, 3, 40])
    sem = r.choice([None, "seg", "both"])
    return {"n": n, "seed": r.randrange(1 << 30), "sem": sem, "dtype": "uint8"}


def _feat(v):
    r = random.Random(v["seed"])
    n = v["n"]
    pts = arr(r, (n, 4), "float32")
    desc = arr(r, (n, 8), "uint8")
    col = arr(r, (n, 3), "uint8")
    seg = arr(r, (n,), "uint8") if v["sem"] else None
    ins = arr(r, (n,), "int16") if v["sem"] == "both" else None
    labels = ["road", "sk\u00fd"] if v["sem"] else None
    return pts, desc, col, seg, ins, labels


def save_features(ds, i, v):
    from opensfm import features
    pts, desc, col, seg, ins, labels = _feat(v)
    sem = features.SemanticData(seg, ins, labels) if labels else None
    ds.save_features(im(i), features.FeaturesData(pts, desc.astype(np.float32), col, sem))


def load_features(ds, i):
    f = ds.load_features(im(i))
    s = f.semantic
    return {"points": A(f.points), "desc": A(f.descriptors), "col": A(f.colors),
            "seg": A(s.segmentation) if s else None,
            "ins": A(s.instances) if s and s.instances is not None else None,
            "labels": [str(x) for x in s.labels] if s else None}


def want_features(v):
    pts, desc, col, seg, ins, labels = _feat(v)
    return {"points": A(pts), "desc": A(desc), "col": A(col), "seg": None if seg is None else A(seg),
            "ins": None if ins is None else A(ins), "labels": labels}


def v_matches(r):
    return {"seed": r.randrange(1 << 30), "to": {name(r, "x"): r.choice([0, 1, 12, 200]) for _ in range(r.randrange(0, 4))}}


def _matches(v):
    r = random.Random(v["seed"])
    return {k: arr(r, (n, 2), "int64") if n else np.array([]) for k, n in sorted(v["to"].items())}


def v_img(r, ch=3):
    return {"seed": r.randrange(1 << 30), "h": r.choice([1, 7, 24]), "w": r.choice([1, 8, 33]), "ch": ch}


def _img(v):
    shape = (v["h"], v["w"]) + ((v["ch"],) if v["ch"] else ())
    return arr(random.Random(v["seed"]), shape, "uint8")


def v_depth(r):
    return {"seed": r.randrange(1 << 30), "h": r.choice([1, 6, 20]), "w": r.choice([2, 9])}


def _depth(v):
    r = random.Random(v["seed"])
    h, w = v["h"], v["w"]
    return [arr(r, (h, w), "float32"), arr(r, (h, w, 3), "float32"), arr(r, (h, w), "float32"),
            arr(r, (h, w), "int32"), ["n%d\u00e9.jpg" % i for i in range(r.randrange(1, 4))]]


def v_cloud(r):
    return {"seed": r.randrange(1 << 30), "n": r.choice([0, 1, 30])}


def _cloud(v):
    r = random.Random(v["seed"])
    n = v["n"]
    return [arr(r, (n, 3), "float32"), arr(r, (n, 3), "float32"), arr(r, (n, 3), "uint8"), arr(r, (n,), "uint8")]


def tl(x):
    return json.loads(json.dumps(x))


def v_rigassign(r):
    return {"i%d" % i: [["s%d_%d" % (i, j), "rc%d" % j] for j in range(r.randrange(1, 3))] for i in range(r.randrange(0, 4))}


def ud(ds):
    return ds.undistorted_dataset()


def md(ds):
    from opensfm.large import metadataset
    return metadataset.MetaDataSet(ds.data_path)


def gm(ds):
    from annotation_gui_gcp.lib import gcp_manager
    return gcp_manager.GroundControlPointManager(ds.data_path)


def v_annot(r):
    out = {}
    for i in range(r.randrange(0, 4)):
        out[str(i)] = {"obs": [[s, [fl(r, 0.5) for _ in range(r.choice([2, 2, 3]))], r.uniform(0.001, 0.1)]
                               for s in r.sample(IMAGES, r.randrange(0, 3))],
                       "geo": r.choice([None, {"latitude": r.uniform(-80, 80), "longitude": 5.25,
                                               "horizontal_std": 0.5, "measured_at": 1600000000,
                                               "altitude": r.choice([None, 3.5])}])}
    return out


def save_annot(ds, i, v):
    m = gm(ds)
    from annotation_gui_gcp.lib import gcp_manager as G
    for k, p in v.items():
        assert m.add_point() == k
        for s, xy, prec in p["obs"]:
            m.add_point_observation(k, s, tuple(xy), prec)
        if p["geo"]:
            m.points[k].geodetic_measurement = G.GeodeticMeasurement.from_dict(p["geo"])
    m.write_to_file(None)


def load_annot(ds, i):
    m = gm(ds)
    m.load_from_file(None)
    out = {}
    for k, p in m.points.items():
        obs = []
        for o in p.observations:
            if hasattr(o, "normalized_x"):
                obs.append([o.image_id, [o.normalized_x, o.normalized_y], o.normalized_precision])
            else:
                obs.append([o.image_id, [o.x, o.y, o.z], o.precision])
        g = p.geodetic_measurement
        out[k] = {"obs": obs, "geo": None if g is None else {
            "latitude": g.latitude, "longitude": g.longitude, "horizontal_std": g.horizontal_std,
            "measured_at": g.measured_at, "altitude": g.altitude}}
    return out


def S(*a, **k):
    return Store(*a, **k)


def refl(ds, i):
    c = ds.load_reference()
    return [c.lat, c.lon, c.alt]


def save_ref(ds, i, v):
    from opensfm import geo
    ds.save_reference(geo.TopocentricConverter(*v))


def load_ply(ds, i):
    with open(ds.data_path + "/reconstruction.ply", encoding="utf8") as f:
        ls = f.read().split("\n")
    n = [int(x.split()[-1]) for x in ls if x.startswith("element vertex")][0]
    body = ls[ls.index("end_header") + 1:]
    assert body[-1] == "" and len(body) == n + 1, "truncated"
    return sorted([float(y) for y in x.split()] for x in body[:-1])


def save_words(ds, i, v):
    ds.save_words(im(i), arr(random.Random(v["seed"]), (v["h"], v["w"]), "uint16").astype(int))


def save_clusters(ds, i, v):
    n = v["n"]
    r = random.Random(v["seed"])
    md(ds).save_clusters(np.array(["i%d" % k for k in range(n)]).reshape(n, 1), arr(r, (n, 2), "float32"),
                         arr(r, (n,), "uint8").reshape(n, 1), arr(r, (2, 2), "float32"))


def want_clusters(v):
    n = v["n"]
    r = random.Random(v["seed"])
    return [A(np.array(["i%d" % k for k in range(n)])), A(arr(r, (n, 2), "float32")), A(arr(r, (n,), "uint8")),
            A(arr(r, (2, 2), "float32"))]


SVEC = lambda r: [r.uniform(-80, 80), r.uniform(-179, 179), r.choice([0.0, 12.5, -3.0])]
STORES = [
    S("exif", ["exif/%.exif"], v_dict, lambda d, i, v: d.save_exif(im(i), v), lambda d, i: d.load_exif(im(i))),
    S("features", ["features/%.features.npz"], v_features, save_features, load_features, want_features),
    S("words", ["features/%.words.npz"], v_img, save_words, lambda d, i: A(d.load_words(im(i))),
      lambda v: A(arr(random.Random(v["seed"]), (v["h"], v["w"]), "uint16"))),
    S("matches", ["matches/%_matches.pkl.gz"], v_matches, lambda d, i, v: d.save_matches(im(i), _matches(v)),
      lambda d, i: {k: A(x) for k, x in d.load_matches(im(i)).items()},
      lambda v: {k: A(x) for k, x in _matches(v).items()}),
    S("tracks", ["tracks.csv"], v_tracks, lambda d, i, v: d.save_tracks_manager(mk_tracks(v)),
      lambda d, i: see_tracks(d.load_tracks_manager()), tol=1e-6),
    S("reconstruction", ["reconstruction.json"], lambda r: [v_reconstruction(r) for _ in range(r.randrange(0, 3))],
      lambda d, i, v: d.save_reconstruction([mk_reconstruction(x) for x in v], minify=bool(len(v) % 2)),
      lambda d, i: [see_reconstruction(x) for x in d.load_reconstruction()],
      lambda v: [want_reconstruction(x) for x in v], tol=1e-6),
    S("reference", ["reference_lla.json"], SVEC, save_ref, refl),
    S("camera_models", ["camera_models.json"], v_cameras, lambda d, i, v: d.save_camera_models(mk_cameras(v)),
      lambda d, i: see_cameras(d.load_camera_models())),
    S("camera_overrides", ["camera_models_overrides.json"], v_cameras,
      lambda d, i, v: d.save_camera_models_overrides(mk_cameras(v)),
      lambda d, i: see_cameras(d.load_camera_models_overrides())),
    S("exif_overrides", ["exif_overrides.json"], v_dict, lambda d, i, v: d.save_exif_overrides(v),
      lambda d, i: d.load_exif_overrides()),
    S("rig_cameras", ["rig_cameras.json"], lambda r: {"rc%d" % i: v_pose(r) for i in range(r.randrange(0, 4))},
      lambda d, i, v: d.save_rig_cameras({k: _rc(k, p) for k, p in v.items()}),
      lambda d, i: {k: see_pose(c.pose) for k, c in d.load_rig_cameras().items() if k.startswith("rc")}),
    S("rig_assignments", ["rig_assignments.json"], v_rigassign, lambda d, i, v: d.save_rig_assignments(v),
      lambda d, i: tl(d.load_rig_assignments())),
    S("report", ["reports/sub/r.txt"], lambda r: {"t": json.dumps(v_json(r)) + "\u00e9\n"},
      lambda d, i, v: d.save_report(v["t"], "sub/r.txt"), lambda d, i: {"t": d.load_report("sub/r.txt")}),
    S("ply", ["reconstruction.ply"], v_reconstruction,
      lambda d, i, v: d.save_ply(mk_reconstruction(v), None, None, no_cameras=True), load_ply,
      lambda v: sorted(p["x"] + p["c"] for p in v["points"].values()), tol=1e-6),
    S("gcp", ["ground_control_points.json"], v_gcp, lambda d, i, v: d.save_ground_control_points(mk_gcp(v)),
      lambda d, i: see_gcp(d.load_ground_control_points())),
    S("annotations", ["ground_control_points.json"], v_annot, save_annot, load_annot),
    S("undistorted_ids", ["undistorted/undistorted_shot_ids.json"],
      lambda r: {name(r, "s"): [name(r, "u") for _ in range(r.randrange(3))] for _ in range(3)},
      lambda d, i, v: ud(d).save_undistorted_shot_ids(v), lambda d, i: ud(d).load_undistorted_shot_ids()),
    S("undistorted_image", ["undistorted/images/%.png"], v_img,
      lambda d, i, v: ud(d).save_undistorted_image(im(i) + ".png", _img(v)),
      lambda d, i: A(ud(d).load_undistorted_image(im(i) + ".png")), lambda v: A(_img(v))),
    S("undistorted_mask", ["undistorted/masks/%.png"], lambda r: v_img(r, 0),
      lambda d, i, v: ud(d).save_undistorted_mask(im(i), _img(v)),
      lambda d, i: A(np.squeeze(np.atleast_3d(ud(d).load_undistorted_mask(im(i))), 2)), lambda v: A(_img(v))),
    S("undistorted_segmentation", ["undistorted/segmentations/%.png"], lambda r: v_img(r, 0),
      lambda d, i, v: ud(d).save_undistorted_segmentation(im(i), _img(v)),
      lambda d, i: A(ud(d).load_undistorted_segmentation(im(i))), lambda v: A(_img(v))),
    S("undistorted_tracks", ["undistorted/tracks.csv"], v_tracks,
      lambda d, i, v: ud(d).save_undistorted_tracks_manager(mk_tracks(v)),
      lambda d, i: see_tracks(ud(d).load_undistorted_tracks_manager()), tol=1e-6),
    S("undistorted_reconstruction", ["undistorted/reconstruction.json"],
      lambda r: [v_reconstruction(r) for _ in range(r.randrange(0, 3))],
      lambda d, i, v: ud(d).save_undistorted_reconstruction([mk_reconstruction(x) for x in v]),
      lambda d, i: [see_reconstruction(x) for x in ud(d).load_undistorted_reconstruction()],
      lambda v: [want_reconstruction(x) for x in v], tol=1e-6),
    S("point_cloud", ["undistorted/depthmaps/merged.ply"], v_cloud,
      lambda d, i, v: ud(d).save_point_cloud(*_cloud(v)),
      lambda d, i: [A(x) for x in ud(d).load_point_cloud()], lambda v: [A(x) for x in _cloud(v)], tol=1.1e-3),
    S("raw_depthmap", ["undistorted/depthmaps/%.raw.npz"], v_depth,
      lambda d, i, v: ud(d).save_raw_depthmap(im(i), *_depth(v)),
      lambda d, i: [A(x) for x in ud(d).load_raw_depthmap(im(i))], lambda v: [A(x) for x in _depth(v)]),
    S("clean_depthmap", ["undistorted/depthmaps/%.clean.npz"], v_depth,
      lambda d, i, v: ud(d).save_clean_depthmap(im(i), *_depth(v)[:3]),
      lambda d, i: [A(x) for x in ud(d).load_clean_depthmap(im(i))], lambda v: [A(x) for x in _depth(v)[:3]]),
    S("pruned_depthmap", ["undistorted/depthmaps/%.pruned.npz"], v_cloud,
      lambda d, i, v: ud(d).save_pruned_depthmap(im(i), *_cloud(v)),
      lambda d, i: [A(x) for x in ud(d).load_pruned_depthmap(im(i))], lambda v: [A(x) for x in _cloud(v)]),
    S("image_list", ["submodels/image_list_with_gps.tsv"],
      lambda r: [[name(r, "i"), r.uniform(-80, 80), fl(r, 170)] for _ in range(r.randrange(0, 5))],
      lambda d, i, v: md(d).create_image_list(v), lambda d, i: tl(list(md(d).images_with_gps()))),
    S("clusters", ["submodels/clusters.npz"], lambda r: {"seed": r.randrange(1 << 30), "n": r.randrange(1, 9)},
      save_clusters, lambda d, i: [A(x) for x in md(d).load_clusters()], want_clusters),
    S("clusters_neighbors", ["submodels/clusters_with_neighbors.npz"],
      lambda r: [["i%d" % k for k in range(r.randrange(1, 5))] for _ in range(r.randrange(1, 4))],
      lambda d, i, v: md(d).save_clusters_with_neighbors(v),
      lambda d, i: [[str(x) for x in c] for c in md(d).load_clusters_with_neighbors()]),
    S("clusters_geojson", ["submodels/clusters.geojson"], v_dict,
      lambda d, i, v: md(d).save_clusters_geojson(v), lambda d, i: _js(d, "submodels/clusters.geojson")),
    S("neighbors_geojson", ["submodels/clusters_with_neighbors.geojson"], v_dict,
      lambda d, i, v: md(d).save_cluster_with_neighbors_geojson(v),
      lambda d, i: _js(d, "submodels/clusters_with_neighbors.geojson")),
]
BY = {s.key: s for s in STORES}
PER_IMAGE = [s.key for s in STORES if "%" in s._files[0]]


def _js(d, rel):
    with open(os.path.join(d.data_path, rel), encoding="utf8") as f:
        return json.load(f)


def _rc(k, p):
    from opensfm import pymap
    return pymap.RigCamera(mk_pose(p), k)


def value(key, seed):
    return BY[key].value(random.Random(seed * 31 + 7))


def make(ds):
    """The surroundings the loaders need, written by us."""
    os.makedirs(ds + "/images")
    for n in IMAGES:
        cm.write_png(os.path.join(ds, "images", n), np.zeros((H, W, 3), np.uint8))
        cm.write_json(os.path.join(ds, "exif", n + ".exif"), st_exif())
    cm.write_json(ds + "/camera_models.json", {"v2 cam": cm.camera_json(W, H)})
    os.makedirs(ds + "/features")
    os.makedirs(ds + "/undistorted")


def fixture():
    """{file: (key, image, value)} that make() leaves."""
    out = {"exif/%s.exif" % n: ("exif", i, st_exif()) for i, n in enumerate(IMAGES)}
    out["camera_models.json"] = ("camera_models", 0, {"v2 cam": {
        "type": "perspective", "width": W, "height": H, "focal": 0.85, "k1": 0.0, "k2": 0.0}})
    return out


def st_exif():
    return cm.exif_dict(1, W, H, "v2 cam")


def dataset(path):
    from opensfm import dataset as d
    return d.DataSet(path)


def prepare():
    import sys
    if "/repo" not in sys.path:
        sys.path.insert(0, "/repo")
    import opensfm.dataset, opensfm.large.metadataset, opensfm.rig  # noqa
    import annotation_gui_gcp.lib.gcp_manager  # noqa
    from opensfm import geo, pygeometry, pymap, types  # noqa


def differ(a, b, tol, path=""):
    """First difference between two plain values, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return "%s/%s only in the %s" % (path, k, "loaded" if k in b else "saved")
            d = differ(a[k], b[k], tol, "%s/%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d items became %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, tol, "%s/%d" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return None if a == b and type(a) == type(b) else "%s: %r became %r" % (path, a, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol * max(1.0, abs(a))):
            return None
        return "%s: %r became %r" % (path, a, b)
    return "%s: %r became %r" % (path, a, b)
