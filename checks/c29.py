"""C29: the mesh of an image is a surface through its border and the reconstructed points it sees."""
import json
import os
import random

import numpy as np

from sim import simproc
from . import c09
from . import common as cm
from . import pipeline as pl
from . import c15
from .c15 import PANO, rot, unrot

ID = "C29"
BUDGET = {"quick": 35, "thorough": 400}
prepare = pl.prepare
RULE = ("a run meshes a generated reconstruction (cameras of several models, rigs, several components, points in no image, wrong observations, an earlier mesh), possibly "
        "after runs that were killed or met a failing disk, and reads reconstruction.meshed.json; non-trivial when a mesh has a reconstructed point; distinct by dataset and file operations")
COMPONENTS = {"real": ["bin/opensfm_main.py", "opensfm.commands.mesh", "opensfm.actions.mesh", "opensfm.mesh", "opensfm.io", "opensfm.dataset", "opensfm.types",
                       "C++ map and geometry", "scipy.spatial"],
              "stub": ["disk, process death, directory order, hash seed, random numbers"]}
ASSUMPTIONS = ["no reconstructed point is behind an image that observes it or within 0.0001 of its border, no two are in one direction"]
KINDS = ["perspective", "perspective", "brown", "simple_radial", "radial", "fisheye", "fisheye_opencv", "spherical", "equirectangular"]
FLAT = ("perspective", "brown", "simple_radial", "radial")


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 29)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        yield {"hs": r.choice(cm.HS), "n": r.randrange(1, 6), "kinds": [r.choice(KINDS) for _ in range(2)], "pts": r.choice([0, 1, 2, 4, 12, 40, 150]), "recs": r.choice([1, 1, 2]),
               "rig": r.random() < 0.3, "stale": r.random() < 0.3, "size": r.choice([[640, 480], [480, 640], [500, 500], [640, 360]]), "far": r.random() < 0.3,
               "lives": [{"pos": r.random(), "kind": r.choice(["kill", "torn", "err", "err"]), "side": r.choice("mmr"), "errno": r.choice(["EIO", "ENOSPC"]),
                          "frac": r.choice([0, 0.5, 0.9])} for _ in range(r.choice([0, 0, 0, 1, 2]))], "dirseed": r.randrange(1, 1000), "seed": r.randrange(1 << 30)}


def camera(r, kind, size):
    c = {"projection_type": kind, "width": size[0], "height": size[1]}
    if kind in PANO:
        c.update(width=200, height=100)
    elif kind in ("brown", "fisheye_opencv", "simple_radial", "radial"):
        c.update(focal_x=r.uniform(0.7, 0.9), focal_y=r.uniform(0.7, 0.9), c_x=r.uniform(-0.05, 0.05), c_y=r.uniform(-0.05, 0.05), k1=r.uniform(-0.05, 0.05))
        if kind != "simple_radial":
            c["k2"] = r.uniform(-0.01, 0.01)
        if kind in ("brown", "fisheye_opencv"):
            c["k3"] = 0.003
        c.update({"brown": {"p1": 0.002, "p2": -0.003}, "fisheye_opencv": {"k4": 0.004}}.get(kind, {}))
    else:
        c.update(focal=r.uniform(0.6, 0.9), k1=r.uniform(-0.05, 0.05), k2=r.uniform(-0.01, 0.01))
    return c


def project(c, b):
    return c15.project(dict(c, projection_type="brown") if c["projection_type"] in FLAT else c, b)


def half(c):
    return c["width"] / 2 / max(c["width"], c["height"]), c["height"] / 2 / max(c["width"], c["height"])


def world(sc):
    r = random.Random(sc["seed"])
    g = np.random.RandomState(sc["seed"] % (1 << 31))
    cams = {"c%d" % i: camera(r, k, sc["size"]) for i, k in enumerate(sc["kinds"])}
    names = ["%s%02d.jpg" % (r.choice(["im", "é"]), (7 * i) % 31) for i in range(sc["n"] * sc["recs"])]
    recs, rows, want = [], [], {}
    for k in range(sc["recs"]):
        mine = names[k * sc["n"]:(k + 1) * sc["n"]]
        P = {nm: (rot(g.randn(3) * 0.15), g.uniform(-2, 2, 3)) for nm in mine}
        cam = {nm: r.choice(sorted(cams)) for nm in mine}
        insts, rigc = {}, {}
        if sc["rig"] and len(mine) >= 2:
            a, b = mine[:2]
            v = g.randn(3) * 0.1
            rigc = {"r0": {"rotation": [0.0] * 3, "translation": [0.0] * 3}, "r1": {"rotation": v.tolist(), "translation": (g.randn(3) * 0.3).tolist()}}
            Ra, ta = P[a][0], -P[a][0] @ P[a][1]
            Rb, tb = rot(v) @ Ra, rot(v) @ ta + rigc["r1"]["translation"]
            P[b] = (Rb, -Rb.T @ tb)
            insts["rig"] = {"rotation": unrot(Ra).tolist(), "translation": ta.tolist(), "rig_camera_ids": {a: "r0", b: "r1"}}
            for nm in mine[2:]:
                rigc[cam[nm]] = {"rotation": [0.0] * 3, "translation": [0.0] * 3}
                insts[nm] = {"rotation": unrot(P[nm][0]).tolist(), "translation": (-P[nm][0] @ P[nm][1]).tolist(), "rig_camera_ids": {nm: cam[nm]}}
        shots = {nm: {"rotation": unrot(P[nm][0]).tolist(), "translation": (-P[nm][0] @ P[nm][1]).tolist(), "camera": cam[nm]} for nm in mine}
        points = {}
        for t in range(sc["pts"]):
            x = g.uniform(-1, 1, 3) * [5, 4, 3] + [0, 0, 9]
            if sc["far"] and t % 3 == 0:
                x *= 6
            if g.rand() < 0.3:
                x[:2] *= 2.5
            tid = str(1000 * k + 3 * t + 1)
            if g.rand() < 0.85:
                points[tid] = {"coordinates": x.tolist(), "color": [float(c) for c in g.randint(0, 256, 3)]}
            for nm in mine:
                c, b = cams[cam[nm]], P[nm][0] @ (x - P[nm][1])
                u = project(c, b[None])[0]
                dx, dy = half(c)
                if g.rand() < 0.25 or b[2] < 0.5 or c["projection_type"] in FLAT and (min(abs(abs(u[0]) - dx), abs(abs(u[1]) - dy)) < 1e-4 or max(abs(b[:2])) > 1.2 * b[2]):
                    continue
                inside = abs(u[0]) < dx and abs(u[1]) < dy
                if not inside and g.rand() < 0.5:
                    continue
                o = u if inside else g.uniform(-0.3, 0.3, 2)  # a wrong observation of a point outside of the image
                rows.append([nm, tid, len(rows), float(o[0]), float(o[1]), 0.004] + [int(q) for q in g.randint(0, 256, 3)] + [-1, -1])
                if tid in points and (inside or c["projection_type"] not in FLAT):
                    want.setdefault(nm, {})[tid] = x
        rec = {"cameras": {c: cams[c] for c in sorted(set(cam.values()))}, "shots": shots, "points": points,
               "reference_lla": dict(zip(("latitude", "longitude", "altitude"), c09.HOME))}
        if insts:
            rec["rig_instances"], rec["rig_cameras"] = insts, rigc
        recs.append((rec, P, cam))
    return cams, recs, rows, want, names


def solid(a, b, c):
    """The angle under which the origin sees a triangle."""
    a, b, c = (v / np.linalg.norm(v) for v in (a, b, c))
    return 2 * abs(np.arctan2(np.dot(a, np.cross(b, c)), 1 + a @ b + b @ c + c @ a))


def mesh_wrong(c, R, o, pts, V, F):
    """What is wrong with a mesh of an image of camera c, turned by R, at o, that sees the points pts."""
    V = np.array(V, float).reshape(-1, 3)
    kind = c["projection_type"]
    border = 4 if kind in FLAT else 8 if kind in PANO else 21
    if len(V) != border + len(pts):
        return "%d vertices for %d points and %d of the border" % (len(V), len(pts), border)
    left = [np.array(x) for x in pts.values()]
    for x in V[border:]:
        d = [np.abs(x - y).max() for y in left]
        if not d or min(d) > 1e-6:
            return "vertex %s is no point the image sees" % x
        left.pop(int(np.argmin(d)))
    local = (V - o) @ R.T
    if any(i != int(i) for f in F for i in f):
        return "faces %s" % F[:3]
    F = [[int(i) for i in f] for f in F]
    if any(len(f) != 3 or len(set(f)) != 3 or min(f) < 0 or max(f) >= len(V) for f in F):
        return "faces %s of %d vertices" % ([f for f in F if len(set(f)) != 3 or min(f) < 0 or max(f) >= len(V)][:3], len(V))
    if not F:
        return "no triangle"
    edges = {}
    for f in F:
        for i in range(3):
            e = tuple(sorted((f[i], f[i - 1])))
            edges[e] = edges.get(e, 0) + 1
    lone = [e for e, n in edges.items() if n == 1]
    if max(edges.values()) > 2:
        return "an edge of %d triangles" % max(edges.values())
    unused = set(range(border, len(V))) - {i for f in F for i in f}
    if unused:
        return "points in no triangle: %d" % len(unused)
    if kind in FLAT:
        dx, dy = half(c)
        corners = np.array([[-dx, -dy], [-dx, dy], [dx, dy], [dx, -dy]])
        f = (c["focal"], c["focal"]) if "focal" in c else (c["focal_x"], c["focal_y"])
        rays = np.column_stack([(corners[:, 0] - c.get("c_x", 0.0)) / f[0], (corners[:, 1] - c.get("c_y", 0.0)) / f[1], np.ones(4)])
        order = []
        for ray in rays:
            d = [np.abs(local[i] / local[i][2] - ray).max() if local[i][2] > 0 else 9 for i in range(4)]
            if min(d) > 1e-6:
                return "no vertex is seen in a corner of the image: %s" % (local[:4] / local[:4, 2:]).round(4).tolist()
            order.append(int(np.argmin(d)))
        pix = np.vstack([corners[np.argsort(order)], project(c, local[4:])]) if len(pts) else corners[np.argsort(order)]
        area = sum(abs(np.linalg.det([pix[b] - pix[a], pix[d] - pix[a]])) / 2 for a, b, d in F)
        if abs(area - 4 * dx * dy) > 1e-6 or len(lone) != 4 or any(max(e) >= 4 for e in lone):
            return "the triangles cover %.6f of an image of %.6f" % (area, 4 * dx * dy)
        for i in range(4):
            deep = [local[j][2] for t in F if i in t for j in t if j >= 4]
            d = np.mean(deep) if deep else 50.0
            if abs(local[i][2] - d) > 1e-6 * max(1, d):
                return "a corner is %.4f deep, the points it is joined to %.4f" % (local[i][2], d)
    else:
        if kind in PANO:
            if lone:
                return "the surface around the panorama has holes"
            if abs(sum(solid(*local[f]) for f in F) - 4 * np.pi) > 1e-6 * 4 * np.pi:
                return "the surface around the panorama covers %.4f of 4 pi" % sum(solid(*local[f]) for f in F)
            if np.abs(np.abs(local[:8]) - 0.3 / np.sqrt(3)).max() > 1e-6 or len({tuple(np.sign(x)) for x in local[:8]}) != 8:
                return "the cube around the camera is %s" % local[:8].round(3).tolist()
        else:
            if any(max(e) >= 20 for e in lone):
                return "a hole in the surface that is not at its border"
            if np.abs(np.linalg.norm(local[:21], axis=1) - 30).max() > 1e-6 or np.abs(local[:20, 2]).max() > 1e-6 or np.abs(local[20] - [0, 0, 30]).max() > 1e-6:
                return "the border of the surface is %s" % local[:21].round(2).tolist()
            if abs(sum(solid(*local[f]) for f in F) - 2 * np.pi) > 0.35:
                return "the surface covers %.4f of 2 pi" % sum(solid(*local[f]) for f in F)
    return None


def judge(recs, rows, want, path):
    with open(path, encoding="utf8") as f:
        got = json.load(f)
    if [sorted(x["shots"]) for x in got] != [sorted(x[0]["shots"]) for x in recs]:
        return "content", "components have images %s" % [sorted(x["shots"]) for x in got]
    seen = {t[0] for t in rows}
    for x, (rec, P, cam) in zip(got, recs):
        if set(x["points"]) != set(rec["points"]) or any(np.abs(np.array(x["points"][t]["coordinates"]) - p["coordinates"]).max() > 1e-9 for t, p in rec["points"].items()):
            return "content", "the points are not those of the reconstruction"
        for nm, s in x["shots"].items():
            if s["camera"] != cam[nm] or np.abs(rot(s["rotation"]) - P[nm][0]).max() > 1e-6 or np.abs(np.array(s["translation"]) + P[nm][0] @ P[nm][1]).max() > 1e-6:
                return "content", "pose or camera of %s changed" % nm
            if nm in seen and ("vertices" not in s or "faces" not in s):
                return "missing", "%s has no mesh" % nm
            if nm not in seen:
                continue
            bad = mesh_wrong(rec["cameras"][cam[nm]], P[nm][0], P[nm][1], want.get(nm, {}), s["vertices"], s["faces"])
            if bad:
                return "mesh", "%s (%s): %s" % (nm, rec["cameras"][cam[nm]]["projection_type"], bad)
    return None


@pl.guarded
def run(sc, root):
    cams, recs, rows, want, names = world(sc)
    ds = root + "/ds"
    os.makedirs(ds + "/images")
    r = random.Random(sc["seed"] + 1)
    cm.write_config(ds, {"processes": 1})
    cm.write_json(ds + "/reference_lla.json", recs[0][0]["reference_lla"])
    cm.write_json(ds + "/camera_models.json", cams)
    for nm in names:
        with open("%s/images/%s" % (ds, nm), "wb") as f:
            f.write(b"not read")
    out = []
    for rec, P, cam in recs:
        rec = json.loads(json.dumps(rec))
        if sc["stale"]:
            for s in list(rec["shots"].values())[::2]:
                s.update(vertices=[[0, 0, 1], [0, 1, 1], [1, 0, 1]], faces=[[0, 1, 2]])
        out.append(rec)
    cm.write_json(ds + "/reconstruction.json", out)
    r.shuffle(rows)
    with open(ds + "/tracks.csv", "w", encoding="utf8") as f:
        f.write("OPENSFM_TRACKS_VERSION_v2\n" + "".join("\t".join("%.9g" % v if isinstance(v, float) else str(v) for v in t) + "\n" for t in rows))
    if sc["stale"]:
        cm.write_json(ds + "/reconstruction.meshed.json", [])
    v, rs, good = [], [], 0
    for j, k in enumerate(list(sc["lives"]) + [None]):
        faults = []
        if k:
            fk = {"at": int(k["pos"] * {"m": 8, "r": 14}[k["side"]]), "side": k["side"], "kind": k["kind"], "frac": k["frac"]}
            if k["kind"] == "err":
                fk["errno"] = "EIO" if k["side"] == "r" else k["errno"]
            elif k["side"] == "r":
                fk["kind"] = "kill"
            faults = [fk]
        res = cm.must_report(simproc.run(lambda: pl.cli("mesh", ds), root, faults=faults, seed=sc["seed"] % 1000 + j, dirseed=sc["dirseed"] + j, wall=120))
        rs.append(res)
        what = "run %d of %d%s" % (j + 1, len(sc["lives"]) + 1, ", a failing disk" if res["fired"] else "")
        if not res["fired"] and res["outcome"] != "ok":
            v.append({"key": "fails:%s" % (res["info"][0] if res["outcome"] == "exc" else res["outcome"]),
                      "msg": "mesh, %s: %s %s" % (what, cm.outcome_str(res), (res["info"] or "")[-1][-500:] if res["outcome"] == "exc" else "")})
            break
        if res["outcome"] == "ok":
            try:
                bad = judge(recs, rows, want, ds + "/reconstruction.meshed.json")
            except Exception as e:
                bad = ("unreadable", "%s: %s" % (type(e).__name__, e))
            if bad:
                v.append({"key": bad[0], "msg": "%s (%s)" % (bad[1], what)})
                break
            good += 1
    pts = sum(len(x) for x in want.values())
    return {"violations": v, "nontrivial": repr([sc["seed"], rs[-1]["fshash"]]) if good and pts else None, "trace": rs[-1]["trace"],
            "stats": {"points_in_meshes": pts, "lifetimes": len(rs)}, "fired": cm.fired_counts(*rs), "sim_time": sum(x["now"] for x in rs),
            "log": [[x["outcome"], x["fshash"]] for x in rs]}


def shrink(sc):
    for s in cm.subsets(sc["lives"]):
        yield dict(sc, lives=s)
    for k, z in (("n", 1), ("n", 2), ("pts", 0), ("pts", 1), ("pts", 4), ("recs", 1), ("rig", False), ("stale", False), ("far", False)):
        if sc[k] != z and not (k in ("n", "pts") and sc[k] < z):
            yield dict(sc, **{k: z})
    for i in range(2):
        if sc["kinds"][i] != "perspective":
            yield dict(sc, kinds=sc["kinds"][:i] + ["perspective"] + sc["kinds"][i + 1:])
