"""C12: the annotation tool's points, its views and its file hold exactly what the user's actions leave."""
import itertools
import json
import os
import random
import sys
import types

from sim import simproc
from . import common as cm

ID = "C12"
BUDGET = {"quick": 30, "thorough": 400}
RULE = ("a run is a history of requests to the annotation server (add, select, delete, annotate, clear, save, load; some "
        "handled by two or three request threads at once) over one to three lifetimes with kills and disk errors; the "
        "manager, what every view was last sent, the file and what a reconstruction loads from it are compared to a "
        "model; non-trivial when an observation was placed or loaded; distinct by history, schedule and file operations")
COMPONENTS = {"real": ["annotation_gui_gcp.lib (Gui, GroundControlPointManager, views, Flask routes)", "Flask request handling",
                       "opensfm.dataset / opensfm.io ground control points"],
              "stub": ["browser (requests through Flask's test client, one thread per concurrent request)", "rasterio and magic",
                       "disk and process death at the libc boundary", "thread scheduling and clock"]}
ASSUMPTIONS = ["concurrent requests are correct when some order of them explains the answers and the state",
               "analysis buttons (a separate program) are not run"]
IMAGES = ["a.jpg", "b.jpg", "c d.jpg", "é.png", "e.jpg"]
CAD = "model.FBX"
FILE = "ground_control_points.json"


def prepare():
    ra = types.ModuleType("rasterio")
    ra.warp = types.ModuleType("rasterio.warp")
    # an invertible stand-in for the reprojection
    ra.warp.transform = lambda a, b, x, y, z: ([v / 8 for v in x], [v / 4 for v in y], [v / 2 for v in z])
    mg = types.ModuleType("magic")
    mg.Magic = object
    sys.modules.update({"rasterio": ra, "rasterio.warp": ra.warp, "magic": mg})
    import flask.testing  # noqa
    import flask.json  # noqa
    from annotation_gui_gcp.lib import GUI, gcp_manager, image_manager  # noqa
    import logging
    logging.getLogger("gui").disabled = True
    with flask.Flask("gui").test_client() as c:
        c.get("/")


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 12)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        lives = []
        for _ in range(r.choice([1, 2, 2, 3])):
            ops = [op(r) for _ in range(r.choice([4, 10, 20]))]
            u = r.random()
            f = []
            if u < 0.35:
                f = [{"at": r.randrange(0, 6), "side": "m", "kind": r.choice(["kill", "torn"]), "frac": r.choice([0, 0.4, 0.95])}]
            elif u < 0.6:
                side = r.choice("mr")
                f = [{"at": r.randrange(0, 8 if side == "m" else 60), "side": side, "kind": "err",
                      "errno": r.choice(["EIO", "ENOSPC"]) if side == "m" else r.choice(["EIO", "EMFILE"]), "frac": r.choice([0, 0.5]),
                      "sticky": r.random() < 0.3}]
            lives.append({"ops": ops, "faults": f, "hs": None, "resave": r.random() < 0.15})
        yield {"hs": r.choice(cm.HS), "lives": lives, "initial": initial(r), "cad": r.random() < 0.4, "reconstruct": r.random() < 0.5,
               "split": r.randrange(0, 5), "mode": cm.pick_mode(r), "dirseed": r.randrange(1, 100), "seed": r.randrange(1 << 20)}


def position(r):
    p = {"latitude": r.uniform(-60, 60), "longitude": r.uniform(-180, 180)}
    if r.random() < 0.6:
        p["altitude"] = r.uniform(-10, 3000)
    if r.random() < 0.4:
        p["measured_at"] = r.randrange(1 << 30)
    if r.random() < 0.4:
        p["horizontal_std"] = r.uniform(0.01, 5)
        if "altitude" in p:
            p["vertical_std"] = r.uniform(0.01, 5)
    for k in p:
        if r.random() < 0.12:  # sea level, the equator, a position taken as exact
            p[k] = 0 if k == "measured_at" else 0.0
    return p


def initial(r):
    if r.random() < 0.25:
        return None
    pts = []
    for i in r.sample(["0", "1", "my_gcp", "é 2", "7"], r.randrange(0, 5)):
        p = {"id": i, "observations": []}
        if r.random() < 0.7:
            p["position"] = position(r)
        for im in r.sample(IMAGES, r.randrange(0, 4)):
            o = {"shot_id": im, "projection": [r.uniform(-0.5, 0.5), r.uniform(-0.5, 0.5)]}
            if r.random() < 0.5:
                o["precision"] = r.uniform(1e-3, 1e-2)
            p["observations"].append(o)
        if r.random() < 0.2:
            o = {"shot_id": CAD, "point": [r.uniform(-9, 9) for _ in range(3)]}
            if r.random() < 0.5:
                o["precision"] = r.uniform(1, 100)
            p["observations"].append(o)
        pts.append(p)
    return pts


def one(r):
    u = r.random()
    if u < 0.15:
        return ["addCP"]
    if u < 0.3:
        return ["select", r.randrange(8)]
    if u < 0.37:
        return ["delCP"]
    if u < 0.67:
        return ["put", r.randrange(5), [r.uniform(-0.5, 0.5), r.uniform(-0.5, 0.5)], r.uniform(1e-3, 1e-2), r.random() < 0.9]
    if u < 0.75:
        return ["clear", r.randrange(5), r.random() < 0.9]
    if u < 0.8:
        return ["cad", [r.uniform(-9, 9) for _ in range(3)]]
    if u < 0.82:
        return ["cadclear"]
    if u < 0.92:
        return ["save"]
    return ["load"] if u < 0.96 else ["init", r.randrange(4)]


def op(r):
    return ["par", [one(r) for _ in range(r.choice([2, 2, 3]))]] if r.random() < 0.25 else one(r)


# ---- model: {id: {"geo": dict or None, "obs": [[image, coords, precision]]}} -------

def parse(pts):
    out = {}
    for p in pts:
        g = p.get("position")
        out[p["id"]] = {"geo": dict({"horizontal_std": 100}, **{k: v for k, v in g.items() if v is not None}) if g else None,
                        "obs": sorted([o["shot_id"], list(o.get("projection") or o["point"]),
                                       o.get("precision", 0.004 if "projection" in o else None)] for o in p.get("observations", []))}
    return out


def drop(st, pid, image):
    p = st["points"][pid]
    # with a model open, annotating an image may forget the point's position
    loose = bool(st.get("cad")) and image != CAD or p.get("loose", False)
    return dict(st["points"], **{pid: {"geo": p["geo"], "obs": [o for o in p["obs"] if o[0] != image], "loose": loose}})


def step(st, o, tag):
    """The states one request may leave; [] stands for a refusal."""
    c = st["curr"]
    k = o[0]
    if k == "init":
        return st
    if k == "addCP":
        return dict(st, points=dict(st["points"], **{tag: {"geo": None, "obs": []}}), curr=tag)
    if k == "select":
        return dict(st, curr=o[1])
    if k == "delCP":
        return dict(st, points={i: p for i, p in st["points"].items() if i != c}, curr=None) if c else st
    if k in ("put", "clear", "cad", "cadclear"):
        if c is None or c not in st["points"] or (k in ("put", "clear") and o[1] != c and not (
                st.get("alias") and c[0] == "\0" and o[1] not in st["points"])):
            return st
        image = CAD if k.startswith("cad") else o[2]
        pts = drop(st, c, image)
        if k in ("put", "cad"):
            pts[c]["obs"] = sorted(pts[c]["obs"] + [[image, o[3], o[4]]])
            if k == "cad":
                x, y, z = o[3]
                y, z = -z, y
                # through the stand-in transform, scale 4, offset 1 2 3
                pts[c]["geo"] = {"longitude": (x + 1) / 4 / 8, "latitude": (y + 2) / 4 / 4, "altitude": (z + 3) / 4 / 2,
                                 "horizontal_std": 100, "measured_at": "now"}
        return dict(st, points=pts)
    if k == "save":
        return dict(st, file=st["points"])
    if k == "load":
        return dict(st, points=st["file"]) if st["file"] is not None else None
    raise AssertionError(o)


def same_point(a, b):
    ga, gb = a["geo"], b["geo"]
    if ga and gb and ga.get("measured_at") == "now":
        ga, gb = [{k: v for k, v in g.items() if k != "measured_at"} for g in (ga, gb)]
    return (ga == gb or a.get("loose") and not gb) and a["obs"] == b["obs"]


def match(st, actual, known):
    """Renames the model's new points to the ids seen; None when they differ."""
    tags = [i for i in st["points"] if i.startswith("\0")]
    extra = [i for i in actual["points"] if i not in st["points"]]
    if len(tags) != len(extra):
        return None
    for perm in itertools.permutations(extra):
        ren = dict(zip(tags, perm))
        pts = {ren.get(i, i): p for i, p in st["points"].items()}
        if set(pts) != set(actual["points"]) or not all(same_point(pts[i], actual["points"][i]) for i in pts):
            continue
        if ren.get(st["curr"], st["curr"]) != actual["curr"]:
            # a selection that a load left dangling, or a new point deleted again
            if not (st["curr"] and st["curr"] not in st["points"]):
                continue
        f = st["file"]
        if f is not None:
            f = {ren.get(i, i): actual["points"].get(ren.get(i, i), p) if i in ren and p == st["points"].get(i) else p for i, p in f.items()}
        return dict(st, points=actual["points"], curr=actual["curr"], file=f)
    return None


# ---- the tool ----------------------------------------------------------------------

class Tool:
    def __init__(self, ds, split, cad):
        import flask
        from pathlib import Path
        from annotation_gui_gcp.lib.GUI import Gui
        from annotation_gui_gcp.lib.gcp_manager import GroundControlPointManager
        from annotation_gui_gcp.lib.image_manager import ImageManager
        self.app = flask.Flask("gui")
        self.app.logger.disabled = True
        seqs = {"s1": IMAGES[:split], "s2": IMAGES[split:4]}
        self.seqs = [v for v in seqs.values()]
        self.cad = cad
        self.gm = GroundControlPointManager(ds)
        self.gui = Gui(self.app, self.gm, ImageManager(seqs, ds), {}, [Path(ds + "/cad/" + CAD)] if cad else [])

    def state(self):
        return {"points": parse(self.gm.points_to_json()), "curr": self.gui.curr_point}

    def resolve(self, o):
        """The request as the browser would make it of what it shows now."""
        ids = sorted(self.gm.points)
        if o[0] == "select":
            return ["select", ids[o[1] % len(ids)]] if ids else ["init", 0]
        if o[0] == "put":
            return ["put", self.gui.curr_point if o[4] or not ids else ids[0], IMAGES[o[1]], o[2], o[3]]
        if o[0] == "clear":
            return ["clear", self.gui.curr_point if o[2] or not ids else ids[0], IMAGES[o[1]]]
        if o[0] in ("cad", "cadclear") and not self.cad:
            return ["init", 0]
        if o[0] == "cad":
            return ["cad", None, None, o[1], 100]
        return o

    def send(self, o):
        k = o[0]
        if k in ("put", "clear"):
            n = [i for i, s in enumerate(self.seqs) if o[2] in s]
            url = "/sequence_view_%d" % (n[0] + 1) if n else "/current_cp_view"
            d = {"event": "remove_point_observation", "point_id": o[1], "image_id": o[2]}
            if k == "put":
                d.update(event="add_or_update_point_observation", xy=o[3], norm_precision=o[4])
        elif k == "cad":
            url, d = "/cad_view_1", {"event": "add_or_update_point_observation", "xyz": o[3]}
        elif k == "cadclear":
            url, d = "/cad_view_1", {"event": "remove_point_observation"}
        elif k == "select":
            url, d = "/tools", {"event": "select_cp", "point_id": o[1]}
        elif k == "init":
            url, d = ["/tools", "/sequence_view_1", "/sequence_view_2", "/current_cp_view"][o[1]], {"event": "init"}
        else:
            url, d = "/tools", {"event": k, "data": {}}
        return self.app.test_client().post(url + "/postdata", json=d).status_code

    def shown(self):
        """What each view was last sent."""
        out = {}
        for v in self.gui.sequence_views + self.gui.cad_views + [self.gui.tools_view]:
            last = None
            while not v.eventQueue.empty():
                last = v.eventQueue.get()
            out[v.route_prefix] = json.loads(last.split("data: ", 1)[1]) if last else None
        return out

    def audit(self, st):
        pts = st["points"]
        seen = self.shown()
        for url, d in seen.items():
            if d is None:
                return "silent", "%s was sent nothing" % url
            if d["selected_point"] != st["curr"]:
                return "selection", "%s shows point %s as selected, not %s" % (url, d["selected_point"], st["curr"])
        if parse(seen["/tools"]["points"]) != pts:
            return "list", "the list shows %s, not %s" % (parse(seen["/tools"]["points"]), pts)
        for n, s in enumerate(self.seqs + [None]):
            d = seen["/sequence_view_%d" % (n + 1) if s is not None else "/current_cp_view"]
            if s is None:
                s = sorted({o[0] for o in pts[st["curr"]]["obs"]} - {CAD}) if st["curr"] in pts else []
                if set(d["points"]) - {CAD} != set(s):
                    return "finder", "images listed for the selected point: %s, not %s" % (sorted(d["points"]), s)
            elif set(d["points"]) != set(s):
                return "images", "images %s, not %s" % (sorted(d["points"]), s)
            if set(d["colors"]) != set(pts):
                return "colours", "colours of %s for points %s" % (sorted(d["colors"]), sorted(pts))
            for im in s:
                want = {i: o[1] + [o[2]] for i, p in pts.items() for o in p["obs"] if o[0] == im}
                if d["points"][im] != want:
                    return "image", "%s shows %s, not %s" % (im, d["points"][im], want)
        if self.cad:
            want = {i: [o[1], o[2]] for i, p in pts.items() for o in p["obs"] if o[0] == CAD}
            got = {i: [a["coordinates"], a["precision"]] for i, a in seen["/cad_view_1"]["annotations"].items()}
            if got != want:
                return "model", "the model shows %s, not %s" % (got, want)
        return None


def on_disk(ds):
    p = ds + "/" + FILE
    return parse(json.load(open(p))["points"]) if os.path.exists(p) else None


def play(ds, life, sc, file, n, wfd, faulty):
    """One lifetime of the server; file is the model's file."""
    import threading
    fired = simproc.lib  # the fault log lives outside: requests that fail under a fault are judged leniently
    del fired
    t = Tool(ds, sc["split"], sc["cad"])
    st = {"points": dict(file or {}), "curr": None, "file": file, "cad": sc["cad"]}
    if t.state() != {"points": st["points"], "curr": None}:
        return ["start", "the tool starts with %s, not %s" % (t.state(), st["points"]), -1]
    nobs = sum(len(p["obs"]) for p in st["points"].values())
    for k, o in enumerate(life["ops"]):
        batch = [t.resolve(x) for x in (o[1] if o[0] == "par" else [o])]
        if any(x[0] == "save" for x in batch):
            os.write(wfd, (json.dumps([st["points"], batch]) + "\n").encode())
        res = {}

        def go(i):
            res[i] = t.send(batch[i])
        if len(batch) == 1:
            go(0)
        else:
            ths = [threading.Thread(target=go, args=(i,)) for i in range(len(batch))]
            for x in ths:
                x.start()
            for x in ths:
                x.join()
        actual = t.state()
        ok = None
        why = []
        for alias, perm in itertools.product([False, True], itertools.permutations(range(len(batch)))):
            # alias: a point deleted and made anew meanwhile may have the same id
            s, good = dict(st, alias=alias), True
            for i in perm:
                new = step(s, batch[i], "\0%d" % i)
                dangling = s["curr"] and s["curr"] not in s["points"]
                if res[i] != 200:
                    if batch[i][0] in ("save", "load") and (faulty or new is None) or dangling and batch[i][0] in ("put", "clear", "cad", "cadclear"):
                        # a refused request leaves the points as they were; a failed save may have reached the disk
                        continue
                    good = False
                    break
                if new is None:
                    good = False
                    break
                s = new
            if good:
                ok = match(s, actual, st)
                if ok:
                    break
            why.append(s)
        if not ok:
            return ["state", "%s -> %s left %s, not %s (before: %s)" % (batch, res, actual, why[:1], st), k]
        if any(x[0] == "addCP" for x in batch) and len(ok["points"]) < len(st["points"]) and not any(x[0] in ("delCP", "load") for x in batch):
            return ["reused", "a new point took the id of an existing one", k]
        nobs += sum(x[0] in ("put", "cad") for x in batch)
        failed_save = any(x[0] == "save" and res[i] != 200 for i, x in enumerate(batch))
        disk = None
        if any(x[0] == "save" for x in batch):
            try:
                disk = on_disk(ds)
            except ValueError as e:
                return ["unreadable", "after a save (%s) the file does not parse: %s" % (res, e), k]
            except OSError:
                if not faulty:
                    raise
                disk = "?"
            if disk != "?":
                opts = [ok["file"]] + ([ok["points"], st["points"], st["file"]] if failed_save else [])
                if len(batch) > 1:
                    # the order that explains the points need not be the only one: any state passed through will do
                    for alias, perm in itertools.product([False, True], itertools.permutations(range(len(batch)))):
                        s = dict(st, alias=alias)
                        for i in perm:
                            s = step(s, batch[i], "\0%d" % i) or s
                            opts.append(s["points"])
                if not any(like(disk, x, st) for x in opts):
                    return ["file", "after %s -> %s the file has %s, not %s" % (batch, res, disk, opts[:2]), k]
                ok["file"] = disk
            os.write(wfd, (json.dumps(["done", disk]) + "\n").encode())
        st = ok
        if 200 in res.values():
            bad = t.audit(actual)
            if bad:
                return ["view:" + bad[0], "after %s -> %s: %s" % (batch, res, bad[1]), k]
    return [None, None, len(life["ops"]), nobs, st["file"]]


def like(disk, pts, before):
    if disk is None or pts is None:
        return disk is pts
    return match({"points": pts, "curr": None, "file": None}, {"points": disk, "curr": None}, before) is not None


def reads(ds):
    """What a reconstruction takes from the file."""
    from opensfm import dataset
    out = {}
    for g in dataset.DataSet(ds).load_ground_control_points():
        out[g.id] = [dict(g.lla) if g.lla else None, g.has_altitude,
                     sorted([o.shot_id, [float(x) for x in o.projection]] for o in g.observations if not o.shot_id == CAD)]
    return out


def resave(ds):
    from opensfm import dataset
    d = dataset.DataSet(ds)
    d.save_ground_control_points(d.load_ground_control_points())


def judge_reads(got, file):
    for i in set(got) | set(file):
        if i not in got or i not in file:
            return "points %s for %s" % (sorted(got), sorted(file))
        g = file[i]["geo"]
        lla, alt, obs = got[i]
        for k in ("latitude", "longitude", "altitude"):
            if (g or {}).get(k) is not None and (lla or {}).get(k) != g[k]:
                return "point %s at %s, not %s" % (i, lla, g)
        if bool(lla) != bool(g) or (g and alt != ("altitude" in g)):
            return "point %s at %s (altitude %s), not %s" % (i, lla, alt, g)
        want = [o[:2] for o in file[i]["obs"] if o[0] != CAD]
        if obs != want:
            return "point %s observed %s, not %s" % (i, obs, want)
    return None


def run(sc, root):
    ds = root + "/ds"
    os.makedirs(ds + "/images")
    for i in IMAGES:
        open(ds + "/images/" + i, "w").close()
    cm.write_config(ds, {})
    os.makedirs(ds + "/exif")
    for k, i in enumerate(IMAGES):
        cm.write_json(ds + "/exif/%s.exif" % i, cm.exif_dict(k, 640, 480, "cam", gps={"latitude": 10.0, "longitude": 20.0, "altitude": 30.0, "dop": 5.0} if k % 2 else None))
    cm.write_json(ds + "/reference_lla.json", {"latitude": 10.0, "longitude": 20.0, "altitude": 30.0})
    if sc["cad"]:
        os.makedirs(ds + "/cad")
        open(ds + "/cad/" + CAD, "w").close()
        cm.write_json(ds + "/cad/model.json", {"scale": 4, "crs": "x", "offset": [1, 2, 3]})
    if sc["initial"] is not None:
        cm.write_json(ds + "/" + FILE, {"points": sc["initial"]})
    file = parse(sc["initial"]) if sc["initial"] is not None else None
    v, rs, log, nt = [], [], [], 0
    for n, life in enumerate(sc["lives"]):
        rp, wp = os.pipe()
        m = cm.with_seed(sc["mode"], n) if hasattr(cm, "with_seed") else sc["mode"]
        r = cm.must_report(simproc.run(lambda: play(ds, life, sc, file, n, wp, bool(life["faults"])), root, mode=m,
                                       seed=sc["seed"] + n, dirseed=sc["dirseed"], faults=life["faults"], granularity="line"))
        os.close(wp)
        notes = b""
        while True:
            b = os.read(rp, 1 << 20)
            if not b:
                break
            notes += b
        os.close(rp)
        notes = [json.loads(x) for x in notes.decode().splitlines()]
        rs.append(r)
        log.append([r["outcome"], r["fshash"], r["trace"], r["value"] and r["value"][0]])
        if r["outcome"] == "ok":
            if r["value"][0]:
                v.append({"key": r["value"][0], "msg": "request %d of lifetime %d: %s" % (r["value"][2], n, r["value"][1][:900])})
                break
            nt += r["value"][3]
        elif r["outcome"] == "exc" and life["faults"] and r["info"][0] == "OSError" and not notes:
            pass  # the disk failed at the start
        elif r["outcome"] != "killed":
            v.append({"key": "fails:%s" % (r["info"][0] if r["outcome"] == "exc" else r["outcome"]),
                      "msg": "lifetime %d: %s %s" % (n, cm.outcome_str(r), (r["info"] or "")[-1][-700:])})
            break
        # the file between lifetimes
        try:
            disk = on_disk(ds)
        except ValueError as e:
            v.append({"key": "torn", "msg": "after %s the file does not parse: %s" % (cm.outcome_str(r), e)})
            break
        opts = [file]
        for x in notes:
            if x[0] == "done":
                if x[1] != "?":
                    opts = [x[1]]
            else:
                pts, batch = x
                for perm in itertools.permutations(range(len(batch))):
                    s = None
                    opts.append(pts)
                    for alias, c in itertools.product([False, True], [None] + list(pts)):
                        s = {"points": pts, "curr": c, "file": None, "cad": sc["cad"], "alias": alias}
                        for i in perm:
                            s = step(s, batch[i], "\0%d" % i) or s
                            opts.append(s["points"])
        if not any(like(disk, x, {"points": {}}) for x in opts):
            v.append({"key": "lost", "msg": "after %s of lifetime %d the file has %s, not %s" % (cm.outcome_str(r), n, disk, opts[-2:])})
            break
        file = disk
        if file is None:
            continue
        if life["resave"] and all(o[0] != CAD for p in file.values() for o in p["obs"]):
            r = cm.must_report(simproc.run(lambda: resave(ds), root, seed=5, dirseed=sc["dirseed"]))
            rs.append(r)
            new = on_disk(ds) if r["outcome"] == "ok" else None
            strip = lambda f: {i: [{k: x for k, x in (p["geo"] or {}).items() if k in ("latitude", "longitude", "altitude")},
                                   [o[:2] for o in p["obs"]]] for i, p in f.items()}
            if new is None or strip(new) != strip(file):
                v.append({"key": "resave", "msg": "loaded and saved by the reconstruction side: %s gives %s for %s" % (cm.outcome_str(r), new, file)})
                break
            file = new
        r = cm.must_report(simproc.run(lambda: reads(ds), root, seed=4, dirseed=sc["dirseed"]))
        rs.append(r)
        bad = cm.outcome_str(r) + repr(r["info"])[-500:] if r["outcome"] != "ok" else judge_reads(r["value"], file)
        if bad:
            v.append({"key": "reconstruction", "msg": "a reconstruction reads %s" % bad})
            break
    return {"violations": v, "nontrivial": repr([sc["initial"], sc["lives"], [x["fshash"] + x["trace"] for x in rs]]) if nt else None,
            "trace": repr([sc["lives"], [x["fshash"] + x["trace"] for x in rs]]),
            "stats": {"requests": sum(len(x["ops"]) for x in sc["lives"]), "lifetimes": len(sc["lives"]),
                      "preemptions": sum(x["npreempt"] for x in rs)},
            "fired": cm.fired_counts(*rs), "sim_time": sum(x["now"] for x in rs), "log": log}


def shrink(sc):
    for s in cm.subsets(sc["lives"]):
        if s:
            yield dict(sc, lives=s)
    if sc["initial"]:
        for s in cm.subsets(sc["initial"]):
            yield dict(sc, initial=s)
        for i, p in enumerate(sc["initial"]):
            if p["observations"]:
                yield dict(sc, initial=sc["initial"][:i] + [dict(p, observations=[])] + sc["initial"][i + 1:])
    if sc["cad"]:
        yield dict(sc, cad=False)
    for i, l in enumerate(sc["lives"]):
        def put(**d):
            return dict(sc, lives=sc["lives"][:i] + [dict(l, **d)] + sc["lives"][i + 1:])
        if l["faults"]:
            yield put(faults=[])
        if l["resave"]:
            yield put(resave=False)
        for s in cm.subsets(l["ops"]):
            yield put(ops=s)
        for j, o in enumerate(l["ops"]):
            if o[0] == "par":
                for x in o[1]:
                    yield put(ops=l["ops"][:j] + [x] + l["ops"][j + 1:])
                for s in cm.subsets(o[1]):
                    if len(s) > 1:
                        yield put(ops=l["ops"][:j] + [["par", s]] + l["ops"][j + 1:])
    yield from cm.shrink_mode(sc)
