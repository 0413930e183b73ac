"""C10: a reconstruction stays consistent under any history of edits, copies, saves and loads."""
import os
import random

import numpy as np

from sim import simproc
from . import common as cm

ID = "C10"
BUDGET = {"quick": 30, "thorough": 400}
RULE = ("a run is a history of edits (cameras, rigs, shots, points, observations), copies, transfers between "
        "reconstructions, saves and loads over one to three process lifetimes, some killed in a save; every view is "
        "compared to a plain model after every edit; non-trivial when there were observations and a removal, "
        "copy or load; distinct by history and file operations")
COMPONENTS = {"real": ["C++ Map, Shot, Landmark, RigInstance", "opensfm.types", "opensfm.io", "opensfm.dataset"],
              "stub": ["disk and process death at the libc boundary"]}
ASSUMPTIONS = ["an image has one observation per feature and belongs to one rig position, as the pipeline makes them",
               "observing a point again may keep the first or the last observation",
               "rig cameras without images and rig instances without images may stay or go"]
RIG = {"r%d_%s" % (i, c): ("r%d" % i, c) for i in range(3) for c in ("left", "right", "top")}
SINGLE = ["s%d.jpg" % i for i in range(5)]
PANOS = ["p0", "p1"]
CAMS = ["c0", "c1", "c2"]


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 10)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        lives = [{"ops": [op(r) for _ in range(r.choice([8, 20, 45]))] + r.choice([[], [["save", 0], ["load", r.randrange(3)]]]),
                  "kill": {"at": r.randrange(0, 8), "kind": r.choice(["kill", "torn"]), "frac": r.choice([0, 0.3, 0.97])}
                  if r.random() < 0.3 else None} for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.7:
            lives[0]["ops"] = start(r) + lives[0]["ops"]
        if r.random() < 0.5:  # a shot transferred again, after its data changed
            life = r.choice(lives)
            s, k = r.choice(SINGLE[:4] + list(RIG)[:5]), [r.randrange(3) for _ in range(3)]
            n = r.randrange(len(life["ops"]) + 1)
            life["ops"][n:n] = [data_of(r, k[0], s), ["addshot", k[0], k[1], s], data_of(r, k[0], s), ["addshot", k[0], k[1], s], ["copy", k[1], k[2], r.random() < 0.5]]
        yield {"hs": r.choice(cm.HS), "lives": lives, "dirseed": r.randrange(1, 100), "seed": r.randrange(1 << 20)}


def u(r, a, b):
    """A number of [a, b], often one that is special."""
    x = r.random()
    return 0.0 if x < 0.12 and a <= 0 else float(b) if x < 0.16 else r.uniform(a, b)


def pose(r):
    x = r.random()
    return ([0.0] * 3 if x < 0.1 else [u(r, -2, 2) for _ in range(3)]) + (
        [0.0] * 3 if 0.06 < x < 0.16 else [u(r, -9, 9) for _ in range(3)])


def ob(r, s, p, again):
    return [u(r, -0.5, 0.5), u(r, -0.5, 0.5), r.uniform(0.001, 0.1), r.randrange(256), r.randrange(256), r.randrange(256),
            int(p) * 3 + 1 + (1000 if again else 0), r.choice([-1, 5]), r.choice([-1, 600])]


def meta(r):
    m = {}
    if r.random() < 0.7:
        m["capture_time"] = u(r, 0, 2e9)
    if r.random() < 0.6:
        m["gps_position"] = [u(r, -99, 99) for _ in range(3)]
    if r.random() < 0.6:
        m["gps_accuracy"] = u(r, 0, 20)
    if r.random() < 0.4:
        m["compass_angle"] = u(r, 0, 360)
    if r.random() < 0.4:
        m["compass_accuracy"] = u(r, 0, 30)
    if r.random() < 0.3:
        m["orientation"] = r.randrange(0, 9)
    if r.random() < 0.3:
        m["sequence_key"] = r.choice(["", "k", "é"])
    if r.random() < 0.3:
        m["gravity_down"] = [u(r, -1, 1), 0.9, u(r, -1, 1)]
    if r.random() < 0.3:
        m["opk_angles"] = [u(r, -180, 180) for _ in range(3)]
    if r.random() < 0.3:
        m["opk_accuracy"] = u(r, 0, 5)
    if r.random() < 0.3:
        m["attributes"] = {x: r.choice(["", "v", "é 1"]) for x in r.sample(["a", "b", "c"], r.randrange(1, 3))}
    return m


def data_of(r, k, s):
    cov = [[u(r, -1, 1) for _ in range(6)] for _ in range(6)] if r.random() < 0.5 else None
    mesh = [[[u(r, -9, 9) for _ in range(3)] for _ in range(4)], [[0, 1, 2], [1, 2, 3]]] if r.random() < 0.4 else None
    return ["meta", k, s, meta(r), r.randrange(5), u(r, 0, 3), cov, mesh]


def op(r):
    x = r.random()
    k = r.choice([0, 0, 0, 0, 1, 2])  # which reconstruction
    p = str(r.randrange(9))
    s = r.choice(SINGLE[:4] + list(RIG)[:5])
    if x < 0.10:
        return ["shot", k, r.choice(SINGLE), r.choice(CAMS), pose(r) if r.random() < 0.8 else None]
    if x < 0.18:
        i = r.choice(["r0", "r1", "r2"])
        return ["rig", k, i, [[n, r.choice(CAMS), RIG[n][1], pose(r)] for n in sorted(RIG) if RIG[n][0] == i and r.random() < 0.7], pose(r)]
    if x < 0.25:
        return ["rmshot", k, s]
    if x < 0.28:
        return [r.choice(["pano", "pano", "rmpano"]), k, r.choice(PANOS), r.choice(CAMS), pose(r)]
    if x < 0.38:
        return ["point", k, p, [u(r, -9, 9) for _ in range(3)], [int(u(r, 0, 255)) for _ in range(3)] if r.random() < 0.7 else None]
    if x < 0.43:
        return ["rmpoint", k, p, r.random() < 0.5]
    if x < 0.62:
        return ["obs", k, [[x, q, ob(r, x, q, r.random() < 0.2)] for x, q in
                           [(r.choice(SINGLE[:4] + list(RIG)[:5]), str(r.randrange(9))) for _ in range(r.choice([1, 3, 8]))]], r.random() < 0.4]
    if x < 0.67:
        return ["rmobs", k, s, p]
    if x < 0.69:
        return ["clean", k, r.randrange(0, 4)]
    if x < 0.70:
        return ["clear", k]
    if x < 0.74:
        return ["setpose", k, s, pose(r)]
    if x < 0.77:
        return ["setrig", k, r.choice(["left", "right", "top"]), pose(r)]
    if x < 0.83:
        if r.random() < 0.2:
            return ["bias", k, r.choice(CAMS), pose(r), r.uniform(0.5, 2)]
        return data_of(r, k, s if r.random() < 0.8 else r.choice(PANOS))
    if x < 0.86:
        return ["copy", k, r.randrange(3), r.random() < 0.5]
    if x < 0.90:
        return ["addshot", k, r.randrange(3), s]
    if x < 0.92:
        return ["addpoint", k, r.randrange(3), p]
    if x < 0.93:
        return ["ref", k, [u(r, -80, 80), u(r, -170, 170), u(r, -50, 500)]]
    if x < 0.945:
        return ["corr", k, [[x, q, ob(r, x, q, False)] for x, q in [(r.choice(SINGLE + list(RIG)), str(r.randrange(11))) for _ in range(6)]]]
    if x < 0.97:
        return ["save", k]
    return ["load", k]


def start(r):
    """Something to edit."""
    ops = [["shot", 0, s, r.choice(CAMS), pose(r)] for s in r.sample(SINGLE[:4], r.randrange(1, 4))]
    ops += [["point", 0, str(p), [u(r, -9, 9) for _ in range(3)], None] for p in range(r.randrange(3, 9))]
    for i in r.sample(["r0", "r1", "r2"], r.randrange(0, 3)):
        ops.append(["rig", 0, i, [[n, r.choice(CAMS), RIG[n][1], pose(r)] for n in sorted(RIG) if RIG[n][0] == i], pose(r)])
    ops.append(["pano", 0, r.choice(PANOS), r.choice(CAMS), pose(r)])
    r.shuffle(ops)
    return ops


# ---- the model ------------------------------------------------------------------------

def rot(v):
    v = np.asarray(v, float)
    a = np.linalg.norm(v)
    if a < 1e-12:
        return np.eye(3)
    x, y, z = v / a
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K


def P(p):
    return (rot(p[:3]), np.array(p[3:], float))


IDENT = (np.eye(3), np.zeros(3))


def mul(a, b):
    return (a[0] @ b[0], a[0] @ b[1] + a[1])


def inv(a):
    return (a[0].T, -a[0].T @ a[1])


def empty():
    return {"cams": {}, "rc": {}, "inst": {}, "shots": {}, "panos": {}, "pts": {}, "obs": {}, "ref": None}


def dup(m, obs=True):
    return {"ref": m["ref"], "cams": dict(m["cams"]), "rc": dict(m["rc"]), "inst": dict(m["inst"]),
            "shots": {k: dict(x) for k, x in m["shots"].items()}, "panos": {k: dict(x) for k, x in m["panos"].items()},
            "pts": {k: dict(x) for k, x in m["pts"].items()}, "obs": {k: list(x) for k, x in m["obs"].items()} if obs else {}}


def pose_of(m, s):
    x = m["shots"][s]
    return mul(m["rc"][x["rc"]], m["inst"][x["inst"]])


def new_shot(cam, rc, inst):
    return {"cam": cam, "rc": rc, "inst": inst, "meta": {}, "cc": 0, "scale": 1.0, "cov": None, "mesh": None}


def step(ms, o, disk):
    """Applies one edit to the models; False when the edit has to be refused."""
    m = ms[o[1]]
    if o[0] == "shot":
        m["cams"].setdefault(o[3], 0)
        if o[2] in m["shots"]:
            return False
        m["rc"].setdefault(o[3], IDENT)
        m["shots"][o[2]] = new_shot(o[3], o[3], o[2])
        m["inst"].setdefault(o[2], IDENT)
        if o[4] is not None:
            m["inst"][o[2]] = P(o[4])
    elif o[0] == "rig":
        if any(n in m["shots"] for n, _, _, _ in o[3]):
            return False
        for n, c, rc, p in o[3]:
            m["cams"].setdefault(c, 0)
            m["rc"].setdefault(rc, P(p))
            m["shots"][n] = new_shot(c, rc, o[2])
        m["inst"][o[2]] = P(o[4])
    elif o[0] == "rmshot":
        if o[2] not in m["shots"]:
            return False
        del m["shots"][o[2]]
        m["obs"] = {k: x for k, x in m["obs"].items() if k[0] != o[2]}
    elif o[0] == "pano":
        m["cams"].setdefault(o[3], 0)
        if o[2] in m["panos"]:
            return False
        m["panos"][o[2]] = dict(new_shot(o[3], None, None), pose=P(o[4]))
    elif o[0] == "rmpano":
        if o[2] not in m["panos"]:
            return False
        del m["panos"][o[2]]
    elif o[0] == "point":
        if o[2] in m["pts"]:
            return False
        m["pts"][o[2]] = {"xyz": o[3], "rgb": o[4] or [255, 0, 0]}
    elif o[0] == "rmpoint":
        if o[2] not in m["pts"]:
            return False
        del m["pts"][o[2]]
        m["obs"] = {k: x for k, x in m["obs"].items() if k[1] != o[2]}
    elif o[0] in ("obs", "corr"):
        for s, p, x in o[2]:
            if s in m["shots"] and p in m["pts"]:
                old = m["obs"].get((s, p))
                m["obs"][s, p] = [y for y in (old or [])] + [x]
    elif o[0] == "rmobs":
        if (o[2], o[3]) not in m["obs"]:
            return False
        del m["obs"][o[2], o[3]]
    elif o[0] == "clean":
        n = {}
        for s, p in m["obs"]:
            n[p] = n.get(p, 0) + 1
        gone = {p for p in m["pts"] if n.get(p, 0) < o[2]}
        for p in gone:
            del m["pts"][p]
        m["obs"] = {k: x for k, x in m["obs"].items() if k[1] not in gone}
    elif o[0] == "clear":
        m["pts"], m["obs"] = {}, {}
    elif o[0] == "setpose":
        if o[2] not in m["shots"]:
            return False
        m["inst"][m["shots"][o[2]]["inst"]] = P(o[3])
    elif o[0] == "setrig":
        if o[2] in m["rc"]:
            m["rc"][o[2]] = P(o[3])
    elif o[0] == "meta":
        x = m["panos" if o[2] in PANOS else "shots"]
        if o[2] not in x:
            return False
        x[o[2]].update(meta=o[3], cc=o[4], scale=o[5])
        x[o[2]].update({"cov": o[6]} if o[6] else {})
        x[o[2]].update({"mesh": o[7]} if o[7] else {})
    elif o[0] == "ref":
        m["ref"] = o[2]
    elif o[0] == "save":
        m["ref"] = m["ref"] or [1.5, 2.5, 3.5]
    elif o[0] == "bias":
        if o[2] not in m["cams"]:
            return False
        m["cams"][o[2]] = [o[3], o[4]]
    elif o[0] == "copy":
        ms[o[2]] = t = dup(m, o[3])
        t["rc"] = {k: x for k, x in t["rc"].items() if k in {y["rc"] for y in t["shots"].values()}}
        t["inst"] = {k: x for k, x in t["inst"].items() if k in {y["inst"] for y in t["shots"].values()}}
    elif o[0] == "addshot":
        t = ms[o[2]]
        if o[3] not in m["shots"] or o[1] == o[2]:
            return None
        x = m["shots"][o[3]]
        p = pose_of(m, o[3])
        for n, y in m["shots"].items():
            if y["inst"] == x["inst"]:
                t["cams"].setdefault(y["cam"], 0)
                t["rc"].setdefault(y["rc"], m["rc"][y["rc"]])
                if n not in t["shots"] or n == o[3]:
                    keep = t["shots"].get(n, y)
                    t["shots"][n] = dict(y, cam=keep["cam"], rc=keep["rc"])
        t["inst"][x["inst"]] = mul(inv(t["rc"][t["shots"][o[3]]["rc"]]), p)
    elif o[0] == "addpoint":
        t = ms[o[2]]
        if o[3] not in m["pts"] or o[1] == o[2]:
            return None
        if o[3] in t["pts"]:
            return False
        t["pts"][o[3]] = dict(m["pts"][o[3]])
    elif o[0] == "load":
        ms[o[1]] = dup(disk, False) if disk else empty()
    return True


# ---- the real thing ----------------------------------------------------------------------

def focal(cam, k):
    return 0.5 + 0.1 * int(cam[1:])


def do(rec, o, recs, d, wfd, had):
    from opensfm import geo, pygeometry, pymap, types
    import copy as cp

    def pz(p):
        return pygeometry.Pose(np.array(p[:3]), np.array(p[3:]))

    def camera(c):
        if c not in rec.cameras:
            x = pygeometry.Camera.create_perspective(focal(c, 0), 0.01, -0.02)
            x.id, x.width, x.height = c, 640, 480
            rec.add_camera(x)
    if o[0] == "shot":
        camera(o[3])
        rec.create_shot(o[2], o[3], None if o[4] is None else pz(o[4]))
    elif o[0] == "rig":
        if any(n in rec.shots for n, _, _, _ in o[3]):
            raise RuntimeError("not tried")
        if o[2] not in rec.rig_instances:
            rec.add_rig_instance(pymap.RigInstance(o[2]))
        for n, c, rc, p in o[3]:
            camera(c)
            if rc not in rec.rig_cameras:
                rec.add_rig_camera(pymap.RigCamera(pz(p), rc))
            rec.create_shot(n, c, None, rc, o[2])
        rec.rig_instances[o[2]].pose = pz(o[4])
    elif o[0] == "rmshot":
        rec.remove_shot(o[2])
    elif o[0] == "pano":
        camera(o[3])
        rec.create_pano_shot(o[2], o[3], pz(o[4]))
    elif o[0] == "rmpano":
        rec.remove_pano_shot(o[2])
    elif o[0] == "point":
        pt = rec.create_point(o[2], np.array(o[3]))
        if o[4]:
            pt.color = o[4]
    elif o[0] == "rmpoint":
        if o[3] and o[2] in rec.points:
            rec.map.remove_landmark(rec.points[o[2]])
        else:
            rec.remove_point(o[2])
    elif o[0] == "obs":
        for s, p, x in o[2]:
            if s in rec.shots and p in rec.points:
                if o[3]:
                    rec.map.add_observation(rec.shots[s], rec.points[p], pymap.Observation(*x))
                else:
                    rec.add_observation(s, p, pymap.Observation(*x))
            else:
                try:
                    rec.add_observation(s, p, pymap.Observation(*x))
                    raise AssertionError("observing %s in %s, which is not there, works" % (p, s))
                except RuntimeError:
                    pass
    elif o[0] == "corr":
        tm = pymap.TracksManager()
        for s, p, x in o[2]:
            tm.add_observation(s, p, pymap.Observation(*x))
        rec.add_correspondences_from_tracks_manager(tm)
    elif o[0] == "rmobs":
        rec.remove_observation(o[2], o[3])
    elif o[0] == "clean":
        rec.map.clean_landmarks_below_min_observations(o[2])
    elif o[0] == "clear":
        rec.map.clear_observations_and_landmarks()
    elif o[0] == "setpose":
        if o[2] not in rec.shots:
            raise RuntimeError("not tried")
        rec.rig_instances[rec.shots[o[2]].rig_instance_id].pose = pz(o[3])
    elif o[0] == "setrig":
        if o[2] in rec.rig_cameras:
            rec.rig_cameras[o[2]].pose = pz(o[3])
    elif o[0] == "meta":
        have = rec.pano_shots if o[2] in PANOS else rec.shots
        s = have[o[2]] if o[2] in have else None
        if s is None:
            raise RuntimeError("not tried")
        x = pymap.ShotMeasurements()
        for k, val in o[3].items():
            if k == "attributes":
                x.attributes = val
            else:
                getattr(x, k).value = np.array(val) if isinstance(val, list) else val
        s.metadata = x
        s.merge_cc, s.scale = o[4], o[5]
        if o[6]:
            s.covariance = np.array(o[6])
        if o[7]:
            s.mesh.vertices, s.mesh.faces = o[7]
    elif o[0] == "ref":
        rec.reference = geo.TopocentricConverter(*o[2])
    elif o[0] == "bias":
        rec.set_bias(o[2], pygeometry.Similarity(np.array(o[3][:3]), np.array(o[3][3:]), o[4]))
    elif o[0] == "copy":
        recs[o[2]] = cp.deepcopy(rec, {"copy_observations": o[3]})
    elif o[0] == "addshot":
        if o[3] in rec.shots and o[1] != o[2]:
            recs[o[2]].add_shot(rec.shots[o[3]])
    elif o[0] == "addpoint":
        if o[3] in rec.points and o[1] != o[2]:
            recs[o[2]].add_point(rec.points[o[3]])
    elif o[0] == "save":
        if not had:
            rec.reference = geo.TopocentricConverter(1.5, 2.5, 3.5)
        d.save_reconstruction([rec])
        os.write(wfd, b"s")
    elif o[0] == "load":
        recs[o[1]] = d.load_reconstruction()[0] if d.reconstruction_exists() else types.Reconstruction()


def seen(o):
    return [float(o.point[0]), float(o.point[1]), o.scale] + [int(c) for c in o.color] + [o.id, o.segmentation, o.instance]


def near(p, q, tol=1e-8):
    R = np.asarray(p.get_rotation_matrix())
    return np.abs(R - q[0]).max() < tol and np.abs(np.asarray(p.translation) - q[1]).max() < tol * 1e3


def audit_data(s, h, x):
    if h.merge_cc != x["cc"] or h.scale != x["scale"]:
        return "shot-data", "%s has component %s, scale %s" % (s, h.merge_cc, h.scale)
    for k in ("capture_time", "gps_position", "gps_accuracy", "compass_angle", "compass_accuracy", "orientation", "sequence_key", "gravity_down",
              "opk_angles", "opk_accuracy", "attributes"):
        a = getattr(h.metadata, k)
        if k == "attributes":
            a = dict(a) or None
        else:
            a = (list(a.value) if k in ("gps_position", "gravity_down", "opk_angles") else a.value) if a.has_value else None
        if a != x["meta"].get(k):
            return "metadata", "%s of %s is %s, not %s" % (k, s, a, x["meta"].get(k))
    cov = np.asarray(h.covariance)
    if (cov.tolist() if cov.size else None) != x["cov"]:
        return "covariance", "the covariance of %s is %s, not %s" % (s, cov.tolist(), x["cov"])
    mesh = [[list(a) for a in h.mesh.vertices], [list(a) for a in h.mesh.faces]]
    if (mesh if mesh[0] or mesh[1] else None) != x["mesh"]:
        return "mesh", "the mesh of %s is %s, not %s" % (s, mesh, x["mesh"])


def audit(rec, m):
    if set(rec.cameras.keys()) != set(m["cams"]) or any(rec.cameras[c].focal != focal(c, 0) or rec.cameras[c].id != c for c in m["cams"]):
        return "cameras", "cameras %s, not %s" % (sorted(rec.cameras.keys()), sorted(m["cams"]))
    for c, x in m["cams"].items():
        b = rec.biases[c]
        rt, sc = x if x else ([0.0] * 6, 1.0)
        if np.abs(np.asarray(b.get_rotation_matrix()) - rot(rt[:3])).max() > 1e-8 or \
                np.abs(np.asarray(b.translation) - rt[3:]).max() > 1e-8 or abs(b.scale - sc) > 1e-9:
            return "bias", "the bias of %s is %s %s %s, not %s" % (c, b.rotation, b.translation, b.scale, x)
    for what, view, mine in (("shots", rec.shots, m["shots"]), ("pano-shots", rec.pano_shots, m["panos"]), ("points", rec.points, m["pts"])):
        if set(view.keys()) != set(mine) or len(view) != len(mine):
            return what, "%s %s, not %s" % (what, sorted(view.keys()), sorted(mine))
    if m["ref"] and [rec.reference.lat, rec.reference.lon, rec.reference.alt] != m["ref"]:
        return "reference", "the reference is %s %s %s, not %s" % (rec.reference.lat, rec.reference.lon, rec.reference.alt, m["ref"])
    used = {}
    for s, x in m["shots"].items():
        h = rec.shots[s]
        used.setdefault(x["inst"], {})[s] = x["rc"]
        if h.id != s or h.camera.id != x["cam"] or h.rig_camera_id != x["rc"] or h.rig_instance_id != x["inst"]:
            return "shot", "%s has camera %s, rig camera %s, instance %s" % (s, h.camera.id, h.rig_camera_id, h.rig_instance_id)
        if not near(h.pose, pose_of(m, s)):
            return "pose", "the pose of %s is %s %s, not %s" % (s, h.pose.rotation, h.pose.translation, pose_of(m, s))
        bad = audit_data(s, h, x)
        if bad:
            return bad
    for i in list(rec.rig_instances.keys()):
        ri = rec.rig_instances[i]
        pano = i.startswith("panoshot_")
        want = ({i[9:]} & set(m["panos"])) if pano else set(used.get(i, {}))
        if set(ri.keys()) != want or set(ri.shots.keys()) != want or (not pano and ri.rig_camera_ids != used.get(i, {})):
            return "rig-instance", "instance %s lists %s with %s, not %s" % (i, sorted(ri.keys()), ri.rig_camera_ids, used.get(i, sorted(want)))
    for i in used:
        if i not in rec.rig_instances or not near(rec.rig_instances[i].pose, m["inst"][i]):
            return "rig-instance", "instance %s is missing or elsewhere" % i
        for rc in used[i].values():
            if rc not in rec.rig_cameras or not near(rec.rig_cameras[rc].pose, m["rc"][rc]):
                return "rig-camera", "rig camera %s is missing or elsewhere" % rc
    for s, x in m["panos"].items():
        if rec.pano_shots[s].camera.id != x["cam"] or not near(rec.pano_shots[s].pose, x["pose"]):
            return "pano-shot", "pano shot %s has another camera or pose" % s
        bad = audit_data(s, rec.pano_shots[s], x)
        if bad:
            return bad
    by_p, by_s = {}, {}
    for (s, p), x in m["obs"].items():
        by_p.setdefault(p, {})[s] = x
        by_s.setdefault(s, {})[p] = x
    for p, x in m["pts"].items():
        h = rec.points[p]
        if h.id != p or np.abs(np.asarray(h.coordinates) - x["xyz"]).max() > 1e-9:
            return "point", "point %s is at %s, not %s" % (p, h.coordinates, x["xyz"])
        if [int(c) for c in h.color] != x["rgb"]:
            return "point-colour", "point %s has colour %s, not %s" % (p, list(h.color), x["rgb"])
        got = {sh.id: f for sh, f in h.get_observations().items()}
        if set(got) != set(by_p.get(p, {})) or h.number_of_observations() != len(got):
            return "point-views", "point %s is seen in %s, not %s" % (p, sorted(got), sorted(by_p.get(p, {})))
        for s, f in got.items():
            if f not in [y[6] for y in by_p[p][s]]:
                return "point-feature", "point %s in %s is feature %s, not %s" % (p, s, f, by_p[p][s])
            lm = rec.shots[s].get_observation_landmark(f)
            if lm is None or lm.id != p:
                return "feature-point", "feature %d of %s shows %s, not %s" % (f, s, lm.id if lm else None, p)
            a, b = seen(rec.shots[s].get_observation(f)), seen(rec.shots[s].get_landmark_observation(h))
            if a != b or a not in by_p[p][s] or a[6] != f:
                return "observation", "%s in %s is observed as %s and %s, not %s" % (p, s, a, b, by_p[p][s])
            for y in by_p[p][s]:
                if y[6] != f and rec.shots[s].get_observation_landmark(y[6]) is not None:
                    return "stale-feature", "%s keeps feature %d for %s beside feature %d" % (s, y[6], p, f)
    for s in m["shots"]:
        got = sorted(x.id for x in rec.shots[s].get_valid_landmarks())
        if got != sorted(by_s.get(s, {})):
            return "shot-views", "%s sees points %s, not %s" % (s, got, sorted(by_s.get(s, {})))
        for f in range(0, 36):
            lm = rec.shots[s].get_observation_landmark(f)
            if lm is not None and not any(y[6] == f for y in by_s.get(s, {}).get(lm.id, [])):
                return "stale-feature", "%s still has feature %d" % (s, f)
    tm = rec.map.to_tracks_manager()
    got = {(s, t) for t in tm.get_track_ids() for s in tm.get_track_observations(t)}
    if got != set(m["obs"]):
        return "tracks", "as tracks: %s, not %s" % (sorted(got), sorted(m["obs"]))
    return None


def play(ds, ops, disk, wfd):
    from opensfm import dataset, types
    d = dataset.DataSet(ds)
    recs = [types.Reconstruction() for _ in range(3)]
    ms = [empty() for _ in range(3)]
    if disk:
        recs[0], ms[0] = d.load_reconstruction()[0], dup(disk, False)
    nobs = nrm = 0
    for n, o in enumerate(ops):
        had = ms[o[1]]["ref"]
        ok = step(ms, o, disk)
        try:
            do(recs[o[1]], o, recs, d, wfd, had)
            refused = False
        except (RuntimeError, IndexError, KeyError) as e:
            refused, err = True, "%s: %s" % (type(e).__name__, e)
        if refused and ok is not False:
            return ["refused:" + o[0], "%s fails: %s" % (o[:4], err), n]
        if ok is False and not refused:
            return ["accepted:" + o[0], "%s is accepted although it cannot be done" % (o[:4],), n]
        if o[0] == "save":
            disk = dup(ms[o[1]], False)
        nobs += sum(len(m["obs"]) for m in ms)
        nrm += o[0] in ("rmshot", "rmpoint", "rmobs", "copy", "load", "clean")
        for k in range(3):
            bad = audit(recs[k], ms[k])
            if bad:
                return ["%s:%s" % (bad[0], o[0]), "after %s, reconstruction %d: %s" % (repr(o)[:200], k, bad[1]), n]
    return [None, None, len(ops), nobs if nrm else 0]


def run(sc, root):
    ds = root + "/ds"
    os.makedirs(ds + "/images")
    open(ds + "/images/a.jpg", "w").close()
    cm.write_config(ds, {})
    v, rs, log, disk, nt = [], [], [], None, 0
    for n, life in enumerate(sc["lives"]):
        k = life["kill"]
        faults = [{"at": k["at"], "side": "m", "kind": k["kind"], "frac": k["frac"]}] if k else []
        rp, wp = os.pipe()
        r = cm.must_report(simproc.run(lambda: play(ds, life["ops"], disk, wp), root, seed=sc["seed"] + n,
                                       dirseed=sc["dirseed"], faults=faults))
        os.close(wp)
        done = len(os.read(rp, 4096))
        os.close(rp)
        rs.append(r)
        log.append([r["outcome"], r["fshash"], done])
        if r["outcome"] == "ok":
            if r["value"][0]:
                v.append({"key": r["value"][0], "msg": "edit %d of lifetime %d: %s" % (r["value"][2], n, r["value"][1][:900])})
                break
            nt += r["value"][3]
        elif r["outcome"] != "killed":
            v.append({"key": "fails:%s" % (r["info"][0] if r["outcome"] == "exc" else r["outcome"]),
                      "msg": "%s %s" % (cm.outcome_str(r), (r["info"] or "")[-1][-600:] if r["outcome"] == "exc" else r["info"])})
            break
        ms = [empty() for _ in range(3)]
        if disk:
            ms[0] = dup(disk, False)
        c, maybe = 0, None
        for o in life["ops"]:
            step(ms, o, disk)
            if o[0] == "save":
                if c < done:
                    disk = dup(ms[o[1]], False)
                    c += 1
                else:
                    maybe = dup(ms[o[1]], False)
                    break
        if maybe and r["outcome"] == "killed":
            def probe():
                from opensfm import dataset
                d = dataset.DataSet(ds)
                if not d.reconstruction_exists():
                    return None
                rec = d.load_reconstruction()[0]
                return [audit(rec, x) if x is not None else ["absent", ""] for x in (maybe, disk)]
            r = cm.must_report(simproc.run(probe, root, seed=3, dirseed=1))
            rs.append(r)
            if r["outcome"] != "ok":
                v.append({"key": "torn", "msg": "after a kill in a save the reconstruction does not load: %s" % cm.outcome_str(r)})
                break
            if r["value"] is None:
                if disk is not None:
                    v.append({"key": "vanished", "msg": "after a kill in a save the reconstruction is gone"})
                    break
            elif r["value"][0] is None:
                disk = maybe
            elif r["value"][1] is not None:
                v.append({"key": "mixed", "msg": "after a kill in a save: neither new (%s) nor old (%s)" % tuple(r["value"])})
                break
    return {"violations": v, "nontrivial": repr([sc["lives"], [x["fshash"] for x in rs]]) if nt else None,
            "trace": repr([sc["lives"], [x["fshash"] for x in rs]]), "stats": {"edits": sum(len(x["ops"]) for x in sc["lives"]), "lifetimes": len(rs)},
            "fired": cm.fired_counts(*rs), "sim_time": sum(x["now"] for x in rs), "log": log}


def shrink(sc):
    for s in cm.subsets(sc["lives"]):
        if s:
            yield dict(sc, lives=s)
    for i, l in enumerate(sc["lives"]):
        def put(**d):
            return dict(sc, lives=sc["lives"][:i] + [dict(l, **d)] + sc["lives"][i + 1:])
        if l["kill"]:
            yield put(kill=None)
        for s in cm.subsets(l["ops"]):
            yield put(ops=s)
        for j, o in enumerate(l["ops"]):
            if o[0] in ("obs", "corr"):
                for s in cm.subsets(o[2]):
                    if s:
                        yield put(ops=l["ops"][:j] + [o[:2] + [s] + o[3:]] + l["ops"][j + 1:])
