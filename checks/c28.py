"""C28: ground control points mean what their files say, and a reconstruction obeys them.

Each scenario writes a dataset of a known scene with control points in gcp_list.txt (several projections), ground_control_points.json
or both, and positions of the images that are right, absent, or off by a constant; loads the control points, reconstructs (or bundles)
in one or more process lifetimes with kills and disk errors, and compares with the truth what was loaded, the reference chosen, and
where the images and points of the reconstruction are.
"""
import json
import os
import random
import shutil

import numpy as np

from checks import c09, c15
from checks import common as cm
from checks import pipeline as pl
from sim import simproc

ID = "C28"
BUDGET = {"quick": 45, "thorough": 600}
RULE = ("a run loads control points and reconstructs a generated dataset in one or more process lifetimes; non-trivial when images were "
        "reconstructed with control points; distinct by dataset, what the disk holds in the end and schedule")
COMPONENTS = {"real": ["opensfm.io and opensfm.dataset (control points, reference)", "opensfm.align", "opensfm.actions.reconstruct and bundle", "opensfm.reconstruction",
                       "C++ map, geometry, sfm and bundle (with a stand-in for Ceres, see DESIGN.md)", "pyproj"],
              "stub": ["disk at the libc boundary, worker processes (threads of the simulator), process death, directory order, hash seed, random numbers"]}
ASSUMPTIONS = ["control points and positions that are used are exact, widely spread, and each control point that counts is seen well by its images"]
HASHSEEDS = cm.HS
HEADS = {"WGS84": ["WGS84", "WGS84  "], "utm": ["WGS84 UTM 32N", "wgs84 utm 32n", "WGS84 UTM 32"],
         "proj": ["+proj=utm +zone=32 +north +ellps=WGS84 +datum=WGS84 +units=m +no_defs", "+proj=utm +zone=33 +datum=WGS84 +units=m"],
         "merc": ["+proj=merc +a=6378137 +b=6378137 +units=m +no_defs"], "epsg": ["EPSG:32632", "epsg:32633"]}


def prepare():
    pl.prepare()
    import pyproj  # noqa
    import opensfm.actions.reconstruct  # noqa
    import opensfm.actions.bundle  # noqa


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 28)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        gps = r.choice(["right", "none", "none", "off", "off", "some"])
        yield {"hs": r.choice(cm.HS), "cmd": r.choice(["inc", "inc", "inc", "tri", "bundle", "load", "load"]) if gps in ("right", "off") else r.choice(["inc", "inc", "load"]),
               "n": r.choice([5, 6, 8]), "kind": r.choice(["perspective", "perspective", "brown", "fisheye", "spherical"]), "ncam": r.choice([1, 1, 2]), "rig": gps == "right" and r.random() < 0.2,
               "gps": gps, "off": r.choice(["compensate", "nogps"]), "use": r.random() < 0.85, "noise": r.choice([0, 0, 1e-4]),
               "gcps": r.choice([4, 6, 9, 14]), "files": r.choice(["json", "list", "list", "both"]), "head": r.choice(sorted(HEADS)), "style": r.randrange(1 << 20),
               "flat": r.choice([0, 0, 0, 0.4, 1]), "single": r.choice([0, 0, 0.3]), "blank": r.choice([0, 0, 2]), "dop": r.choice([0, 1, 1]), "method": r.choice(["auto", "auto", "naive"]),
               "procs": r.choice([1, 1, 2]), "local": r.choice([3, 3, 0]), "interval": r.choice([999999, 1]),
               "lives": [{"pos": r.random(), "kind": r.choice(["kill", "kill", "torn", "err"]), "side": r.choice("mrr"), "errno": r.choice(["EIO", "ENOSPC"]), "frac": r.choice([0, 0.5])}
                         for _ in range(r.choice([0, 0, 0, 1, 2]))],
               "mode": cm.pick_mode(r, 2000), "dirseed": r.randrange(1, 1000), "seed": r.randrange(1 << 30)}


class W:
    pass


def world(sc):
    w = W()
    full = {"clusters": 1, "orphans": 0, "three": False, "multi": False, "pts": 160, "out": 0}
    w.cams, w.rigc, w.shots, w.insts, w.truth, w.tracks = c09.world(dict(full, **{k: sc[k] for k in ("seed", "kind", "ncam", "rig", "n", "noise")}))
    r = random.Random(sc["seed"] + 7)
    seen = {}
    for t in w.tracks:
        seen.setdefault(t[1], []).append(t)
    # control points: scene points seen by three images or more, spread over the scene
    ids = sorted(t for t in seen if len(seen[t]) >= 3)
    pick, left = [], list(ids)
    while left and len(pick) < sc["gcps"]:
        best = r.choice(left) if not pick else max(left, key=lambda t: min(np.linalg.norm(w.truth[t] - w.truth[p]) for p in pick))
        pick.append(best)
        left.remove(best)
    w.gcps = []
    for k, t in enumerate(pick):
        X = w.truth[t]
        obs = []
        for x in seen[t]:
            s = w.shots[x[0]]
            obs.append([x[0], c15.project(w.cams[s["cam"]], (s["R"] @ (X - s["c"]))[None])[0]])
        g = {"id": "p %d" % k, "lla": [float(v) for v in c09.to_lla(X)], "obs": obs, "alt": True, "true": X,
             "list": sc["files"] == "list" or sc["files"] == "both" and k % 2 == 0, "full": True}
        if r.random() < sc["flat"]:
            g["alt"], g["full"] = False, False
        elif k >= 4 and r.random() < sc["single"]:
            g["obs"], g["full"] = obs[:1], False
        w.gcps.append(g)
    for k in range(sc["blank"]):
        g = dict(w.gcps[k % len(w.gcps)], id="blank%d" % k, full=False, list=False)
        if k % 2 == 0:
            g["lla"] = None
        else:
            g["obs"] = [["nosuch.jpg", np.array([0.1, 0.2])]] if r.random() < 0.5 else []
            g["list"] = sc["files"] != "json" and bool(g["obs"])
        w.gcps.append(g)
    if not sc["use"]:  # points that are not used may say anything
        for g in w.gcps:
            if g["lla"]:
                g["lla"] = [g["lla"][0] + 0.001, g["lla"][1] - 0.002, g["lla"][2] + 50]
            g["full"] = False
    r.shuffle(w.gcps)
    return w


def astray(sc, x):
    """Where the device of the images says x is."""
    r = random.Random(sc["style"])
    if r.random() < 0.3 or sc["cmd"] == "tri":
        return x + np.array([3.0, -2.0, 11.0])
    R = c15.rot([r.uniform(-0.05, 0.05), r.uniform(-0.05, 0.05), r.uniform(-0.5, 0.5)])
    return r.choice([0.9, 0.95, 1.1]) * R @ x + [r.uniform(-60, 60), r.uniform(-60, 60), r.uniform(-30, 90)]


def make(ds, sc, w):
    r = random.Random(sc["seed"] + 8)
    full = {"procs": sc["procs"], "robust": False, "filter": False, "optcam": False, "partial": False, "local": sc["local"], "interval": sc["interval"], "retri": 1.2,
            "bias": sc["gps"] == "off" and sc["off"] == "compensate", "nogps": 0, "gps": 0, "gcp": 0, "part": 0, "io": True, "seed": sc["seed"], "cmd": sc["cmd"]}
    w.ref = c09.make(ds, full, w.cams, w.rigc, w.shots, w.insts, w.truth, w.tracks)
    cfg = {"bundle_use_gps": not (sc["gps"] == "off" and sc["off"] == "nogps"), "bundle_use_gcp": sc["use"], "align_method": sc["method"]}
    with open(ds + "/config.yaml", "a") as f:
        f.write("".join("\n%s: %s" % (k, json.dumps(v)) for k, v in cfg.items()) + "\n")
    w.gps = {}
    names = sorted(w.shots)
    for nm in names:
        p = "%s/exif/%s.exif" % (ds, nm)
        with open(p, encoding="utf8") as f:
            e = json.load(f)
        c = astray(sc, w.shots[nm]["c"]) if sc["gps"] == "off" else w.shots[nm]["c"]
        e.pop("gps", None)
        if sc["gps"] != "none" and not (sc["gps"] == "some" and (names.index(nm) % 2)):
            la, lo, al = [float(x) for x in c09.to_lla(c)]
            e["gps"] = {"latitude": la, "longitude": lo, "altitude": al, "dop": r.choice([0.5, 5.0, 9.0]) if sc["dop"] else 15.0}
            if e["gps"]["dop"] == 5.0 and r.random() < 0.5 and sc["cmd"] == "load":
                del e["gps"]["dop"]
            w.gps[nm] = e["gps"]
        cm.write_json(p, e)
    # the files of the control points
    q = random.Random(sc["style"])
    w.expect = []
    if any(g["list"] for g in w.gcps):
        import pyproj
        head = q.choice(HEADS[sc["head"]])
        kind = sc["head"]
        if kind != "WGS84":
            crs = "+proj=utm +zone=32 +datum=WGS84 +units=m" if kind == "utm" else head
            tr = pyproj.Transformer.from_crs("EPSG:4326", crs, always_xy=True)
        lines = []
        for k, g in enumerate(x for x in w.gcps if x["list"]):
            la, lo, al = g["lla"]
            x, y = (lo, la) if kind == "WGS84" else tr.transform(lo, la)
            geo = "%.12f %.12f %s" % (x, y, "%.6f" % al if g["alt"] else q.choice(["NaN", "nan"]))
            for o in g["obs"]:
                s = w.shots.get(o[0])
                cw, ch = (w.cams[s["cam"]]["width"], w.cams[s["cam"]]["height"]) if s else (640, 480)
                lines.append([k, "%s %.9f %.9f %s" % (geo, o[1][0] * max(cw, ch) + cw / 2 - 0.5, o[1][1] * max(cw, ch) + ch / 2 - 0.5, o[0]), o, g])
        if q.random() < 0.6:
            q.shuffle(lines)
        text, done = ([] if q.random() < 0.7 else ["# control points", ""]) + [head], {}
        for k, l, o, g in lines:
            if q.random() < 0.1:
                text.append(q.choice(["", "# a comment", "   "]))
            text.append(l.replace(" ", q.choice(["\t", "  "])) if q.random() < 0.2 else l + (" name extra" if q.random() < 0.2 else ""))
            if o[0] in w.shots:
                done.setdefault(k, {"lla": g["lla"], "alt": g["alt"], "obs": [], "id": None})["obs"].append(o)
        w.expect = list(done.values())
        with open(ds + "/gcp_list.txt", "w", encoding="utf8") as f:
            f.write("\n".join(text) + q.choice(["", "\n"]))
    js = [g for g in w.gcps if not g["list"]]
    if js:
        ps = []
        for g in js:
            p = {"id": g["id"], "observations": [{"shot_id": o[0], "projection": [float(x) for x in o[1]]} for o in g["obs"]]}
            if g["lla"]:
                p["position"] = dict(zip(("latitude", "longitude", "altitude"), g["lla"]))
                if not g["alt"]:
                    del p["position"]["altitude"]
            ps.append(p)
            w.expect.append({"lla": g["lla"], "alt": g["alt"], "obs": g["obs"], "id": g["id"]})
        cm.write_json(ds + "/ground_control_points.json", {"points": ps})


def load(ds):
    from opensfm import dataset
    out = []
    for g in dataset.DataSet(ds).load_ground_control_points():
        out.append({"id": g.id, "lla": dict(g.lla), "alt": bool(g.has_altitude), "obs": [[o.shot_id, [float(x) for x in o.projection]] for o in g.observations]})
    return out


def judge_load(w, got):
    v = []
    if len(got) != len(w.expect):
        return [{"key": "points", "msg": "the files hold %d control points, %d are loaded" % (len(w.expect), len(got))}]
    for e, g in zip(w.expect, got):
        if e["id"] is not None and g["id"] != e["id"]:
            v.append({"key": "id", "msg": "control point %s is loaded as %s" % (e["id"], g["id"])})
        if (e["lla"] is not None) != bool(g["lla"]):
            v.append({"key": "position", "msg": "a control point %s a position is loaded with %s" % ("with" if e["lla"] else "without", g["lla"])})
        elif e["lla"]:
            d = [abs(g["lla"]["latitude"] - e["lla"][0]) * 111e3, abs(g["lla"]["longitude"] - e["lla"][1]) * 75e3]
            if max(d) > 1e-2:
                v.append({"key": "position", "msg": "a control point at %s is loaded at %s" % (e["lla"], g["lla"])})
            if g["alt"] != e["alt"] or e["alt"] and abs(g["lla"]["altitude"] - e["lla"][2]) > 1e-5:
                v.append({"key": "altitude", "msg": "a control point of altitude %s is loaded as %s" % (e["lla"][2] if e["alt"] else "unknown", g)})
        if [o[0] for o in e["obs"]] != [o[0] for o in g["obs"]]:
            v.append({"key": "observations", "msg": "the observations in %s are loaded as in %s" % ([o[0] for o in e["obs"]], [o[0] for o in g["obs"]])})
        elif any(np.abs(np.array(a[1]) - b[1]).max() > 1e-8 for a, b in zip(e["obs"], g["obs"])):
            v.append({"key": "pixels", "msg": "observations %s are loaded as %s" % (e["obs"], g["obs"])})
    ids = [g["id"] for g in got]
    if len(set(ids)) != len(ids):
        v.append({"key": "id", "msg": "two control points have the same id: %s" % ids})
    return v[:3]


def judge(ds, sc, w):
    v, stat = [], {}
    with open(ds + "/reference_lla.json") as f:
        ref = json.load(f)
    if w.ref is None:
        ws = [(1 / max(0.01, g.get("dop", 15)), g) for g in w.gps.values()]
        if not ws:
            ws = [(1, {"latitude": e["lla"][0], "longitude": e["lla"][1]}) for e in w.expect if e["lla"]]
        t = sum(x[0] for x in ws)
        for k in ("latitude", "longitude"):
            m = sum(x[0] * x[1][k] for x in ws) / t if t else 0
            if abs(ref[k] - m) > 1e-9:
                v.append({"key": "reference", "msg": "the reference has %s %.9f, the positions a mean of %.9f" % (k, ref[k], m)})
        if ref["altitude"] != 0:
            v.append({"key": "reference", "msg": "the reference has altitude %s" % ref["altitude"]})
    with open(ds + "/" + ("out.json" if sc["cmd"] == "bundle" else "reconstruction.json"), encoding="utf8") as f:
        recs = json.load(f)
    rec = max(recs, key=lambda x: len(x["shots"])) if recs else {"shots": {}}
    stat["images"] = len(rec["shots"])
    if len(rec["shots"]) < len(w.shots) or v:
        if c09.expected({"clusters": 1}, (w.cams, w.rigc, w.shots, w.insts, w.truth, w.tracks)) and not v:
            v.append({"key": "lost", "msg": "only %d of %d images are reconstructed together" % (len(rec["shots"]), len(w.shots))})
        return v, stat
    Q, o = c09.frame(ref)
    P = {nm: (c15.rot(s["rotation"]), np.array(s["translation"])) for nm, s in rec["shots"].items()}
    cen = {nm: -R.T @ t for nm, (R, t) in P.items()}
    full = [g for g in w.gcps if g["full"]]
    right = sc["gps"] == "right" or sc["gps"] == "some" and sum(1 for _ in w.gps) >= 4
    if sc["gps"] == "some" and sc["rig"]:
        right = False
    T = np.array([g["true"] for g in full] + ([w.shots[nm]["c"] for nm in w.gps] if right else []))
    # a plane of its own
    spread = np.linalg.svd(T - T.mean(0), compute_uv=False)[1] / len(T) ** 0.5 if len(T) >= 3 else 0
    stat["spread"] = float(spread)
    flat = any(g["lla"] and not g["alt"] and g["obs"] for g in w.gcps) and sc["use"]
    if spread < 1:
        return v, stat
    if sc["gps"] == "off" and not (sc["use"] and len(full) >= 4):
        return v, stat
    if any(not g["full"] and g["obs"] and not sc["use"] for g in w.gcps) and not right:
        return v, stat
    d = max(np.linalg.norm(cen[nm] - (Q @ s["c"] + o)) for nm, s in w.shots.items())
    a = max(c09.angle(P[nm][0], s["R"] @ Q.T) for nm, s in w.shots.items())
    stat["frame"] = 1
    stat["err"] = [float(d), float(a)]
    loose = sc["rig"] or len(full) < 4
    if d > (0.6 if loose else 0.12) or a > (10 if loose else 1.2):
        v.append({"key": "frame", "msg": "images are up to %.3f m and %.2f degrees from where %s say" % (
            d, a, " and ".join((["the control points"] if full else []) + (["their positions"] if right else [])))})
    pts = [np.linalg.norm(np.array(p["coordinates"]) - (Q @ w.truth[k] + o)) for k, p in rec["points"].items()]
    if not loose and pts and np.percentile(pts, 80) > 0.15:
        v.append({"key": "points-off", "msg": "points are %.3f m from where they should be" % np.percentile(pts, 80)})
    if sc["gps"] == "off" and sc["off"] == "compensate" and sc["cmd"] != "bundle":
        for nm, gps in w.gps.items():
            b = rec.get("biases", {}).get(w.shots[nm]["cam"])
            if not b:
                v.append({"key": "bias", "msg": "no bias of camera %s is saved" % w.shots[nm]["cam"]})
                break
            x = Q @ astray(sc, w.shots[nm]["c"]) + o
            y = b["scale"] * c15.rot(b["rotation"]) @ x + b["translation"]
            if len(w.gps) >= 5 and sc["ncam"] == 1 and np.linalg.norm(y - cen[nm]) > 0.5:
                v.append({"key": "bias", "msg": "the bias takes the position of %s to %.3f m from where it is" % (nm, np.linalg.norm(y - cen[nm]))})
                break
    return v, stat


def run(sc, root):
    ds = root + "/ds"
    w = world(sc)
    make(ds, sc, w)
    v, rs, stat, log = [], [], {}, []
    out = root + "/loaded.json"

    def job():
        got = load(ds)
        with open(out, "w") as f:
            json.dump(got, f)
        if sc["cmd"] != "load":
            pl.cli(*{"inc": ["reconstruct", ds], "tri": ["reconstruct", ds, "--algorithm", "triangulation"],
                     "bundle": ["bundle", ds, "--input", "in.json", "--output", "out.json"]}[sc["cmd"]])
        else:
            from opensfm import dataset
            dataset.DataSet(ds).init_reference()
        return True

    for n, k in enumerate(sc["lives"] + [None]):
        faults = []
        if k:
            fk = {"at": int(k["pos"] * {"m": 14 if sc["cmd"] != "load" else 4, "r": 30 + 4 * len(w.shots)}[k["side"]]), "side": k["side"], "kind": k["kind"], "frac": k["frac"]}
            if k["kind"] == "err":
                fk["errno"] = "EIO" if k["side"] == "r" else k["errno"]
            elif k["side"] == "r":
                fk["kind"] = "kill"
            faults = [fk]
        if os.path.exists(out):
            os.remove(out)
        res = cm.must_report(simproc.run(job, root, mode=sc["mode"] if sc["procs"] > 1 else None, faults=faults, seed=sc["seed"] % 1000 + n, dirseed=sc["dirseed"] + n, wall=120))
        rs.append(res)
        log.append([res["outcome"], res["fshash"], res["fired"]])
        what = "%s, images' positions %s%s, %d control points (run %d of %d)" % (sc["cmd"], sc["gps"], "" if sc["use"] else ", control points switched off", len(w.gcps), n + 1, len(sc["lives"]) + 1)
        if os.path.exists(out):
            try:
                with open(out) as f:
                    got = json.load(f)
            except ValueError:
                got = None
            if got is not None:
                v += judge_load(w, got)
        if res["outcome"] == "ok":
            if sc["cmd"] != "load":
                try:
                    b, stat = judge(ds, sc, w)
                except (KeyError, TypeError, ValueError, OSError, IndexError) as e:
                    b = [{"key": "unreadable", "msg": "the results cannot be read: %r" % e}]
                v += b
            else:
                stat = {"images": 1}
        elif not res["fired"] or res["outcome"] not in ("exc", "killed"):
            v.append({"key": "fails:" + str((res["info"] or [""])[0]), "msg": "%s %s" % (cm.outcome_str(res), (res["info"] or "")[-1][-600:])})
        if v:
            v = [dict(x, msg=what + ": " + x["msg"]) for x in v[:3]]
            break
    return {"violations": v, "nontrivial": repr([sc["seed"], rs[-1]["fshash"], rs[-1]["nswitch"]]) if stat.get("images") else None, "trace": repr([sc["seed"], [x["fshash"] for x in rs]]),
            "stats": {"images": stat.get("images", 0), "frames": stat.get("frame", 0), "lifetimes": len(rs), "cmd_" + sc["cmd"]: 1, "gcps": len(w.gcps)},
            "fired": cm.fired_counts(*rs), "sim_time": sum(x["now"] for x in rs), "log": log + [stat.get("err")]}


def shrink(sc):
    for s in cm.subsets(sc["lives"]):
        yield dict(sc, lives=s)
    for k, z in (("n", 5), ("procs", 1), ("rig", False), ("noise", 0), ("ncam", 1), ("kind", "perspective"), ("gcps", 4), ("flat", 0), ("single", 0), ("blank", 0), ("dop", 0),
                 ("files", "json"), ("head", "WGS84"), ("local", 3), ("interval", 999999), ("use", True), ("cmd", "load"), ("method", "auto")):
        if sc[k] != z:
            yield dict(sc, **{k: z})
    yield from cm.shrink_mode(sc)
