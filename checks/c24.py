"""C24: extract_metadata says of every image what its tags and the overrides say.

Each scenario writes JPEG and PNG images whose EXIF and XMP segments are made byte by byte here, with tags that are
good, missing, empty or that divide by zero, overrides of metadata and of camera models, and a configuration; it runs
extract_metadata in one or more process lifetimes with kills and disk faults, with images, metadata files and overrides
changed in between, and computes from the tags what the metadata and the cameras must be.
"""
import datetime
import json
import os
import random
import struct

import numpy as np

from checks import common as cm
from checks import pipeline as pl
from sim import simproc

ID = "C24"
BUDGET = {"quick": 40, "thorough": 600}
RULE = ("a run extracts the metadata of a generated dataset in one or more process lifetimes, killed or failing at a random file "
        "operation, with images, metadata and overrides edited between them; non-trivial when a run reported success; distinct by "
        "the tags and what the disk holds in the end")
COMPONENTS = {"real": ["opensfm.actions.extract_metadata", "opensfm.exif", "opensfm.sensors", "opensfm.dataset", "opensfm.io", "exifread", "xmltodict",
                       "C++ geometry (cameras)"],
              "stub": ["disk at the libc boundary", "clock, randomness"]}
ASSUMPTIONS = ["tags have the type of the EXIF standard", "orientation and yaw, pitch, roll angles (OPK) are read but the angles are not judged"]
prepare = pl.prepare

BASE = datetime.datetime(1970, 1, 1)
MAKES = [("Canon", "Canon EOS 5D"), ("Canon", "EOS 40D"), ("NIKON CORPORATION", "NIKON D90"), ("GoPro", "HERO8 Black"), ("GoPro", "HERO3+"), ("Garmin", "VIRB"),
         ("Sony", "NoSuch-1"), ("unknown", "unknown"), (None, None), ("Apple", "iPhone 6"), ("Apple ", " iPhone 6")]


# ---- writing -----------------------------------------------------------------------

def ifd(entries, base, end):
    """TIFF directory at offset `base`; entries: (tag, type, values)."""
    size = {2: 1, 3: 2, 4: 4, 5: 8, 1: 1}
    entries = sorted(entries)
    data = b""
    at = base + 2 + 12 * len(entries) + 4
    out = struct.pack(end + "H", len(entries))
    for tag, typ, vals in entries:
        if typ == 2:
            raw = vals.encode() + b"\0"
            n = len(raw)
        elif typ == 5:
            raw = b"".join(struct.pack(end + "II", *v) for v in vals)
            n = len(vals)
        else:
            raw = b"".join(struct.pack(end + {1: "B", 3: "H", 4: "I"}[typ], v) for v in vals)
            n = len(vals)
        assert len(raw) == n * size[typ]
        if len(raw) <= 4:
            field = raw.ljust(4, b"\0")
        else:
            field = struct.pack(end + "I", at + len(data))
            data += raw + b"\0" * (len(raw) % 2)
        out += struct.pack(end + "HHI", tag, typ, n) + field
    return out + struct.pack(end + "I", 0) + data


def tiff(main, exif, gps, end):
    head = {"<": b"II*\0", ">": b"MM\0*"}[end] + struct.pack(end + "I", 8)
    for _ in range(2):  # the places of the directories depend on their own sizes only
        m = list(main)
        a = len(ifd(m + [(0x8769, 4, [0])] * bool(exif) + [(0x8825, 4, [0])] * bool(gps), 8, end)) + 8
        e = ifd(exif, a, end) if exif else b""
        g = ifd(gps, a + len(e), end) if gps else b""
        if exif:
            m.append((0x8769, 4, [a]))
        if gps:
            m.append((0x8825, 4, [a + len(e)]))
    return head + ifd(m, 8, end) + e + g


def segment(marker, payload):
    return b"\xff" + bytes([marker]) + struct.pack(">H", len(payload) + 2) + payload


def jpeg(w, h, exif, xmp):
    import cv2
    img = np.full((h, w, 3), 90, np.uint8)
    raw = cv2.imencode(".jpg", img)[1].tobytes()
    out = raw[:2]
    if exif is not None:
        out += segment(0xE1, b"Exif\0\0" + exif)
    if xmp is not None:
        out += segment(0xE1, b"http://ns.adobe.com/xap/1.0/\0" + xmp)
    return out + raw[2:]


# ---- tags --------------------------------------------------------------------------

def rat(x, den):
    return (int(round(x * den)), den)


def image(r, brown):
    """The bytes of an image, its extension, and what its tags say."""
    kind = r.choice(["jpg"] * 6 + ["bare", "png"])
    w, h = r.choice([(16, 12), (12, 16), (20, 20)])
    d = {"pixels": (w, h), "exif_size": None, "make": "unknown", "model": "unknown", "projection_type": "perspective",
         "orientation": 1, "gps": {}, "capture_time": 0.0, "f35": None, "f": None, "unit": None, "res": None}
    if kind == "png":
        import cv2
        return cv2.imencode(".png", np.full((h, w, 3), 90, np.uint8))[1].tobytes(), ".png", d
    if kind == "bare":
        return jpeg(w, h, None, None), ".jpg", d
    main, ex, gps = [], [], []
    make, model = r.choice([m for m in MAKES if not (brown and m[0] in ("GoPro", "Garmin"))])
    if make is not None:
        main += [(0x10F, 2, make), (0x110, 2, model)]
        d["make"], d["model"] = make, model
        if r.random() < 0.15:
            ex += [(0xA433, 2, "Zeiss"), (0xA434, 2, "Planar %d" % r.randrange(2))]
            d["make"], d["model"] = "Zeiss", ex[-1][2]
    if r.random() < 0.8:
        s = r.choice([(4000, 3000), (3000, 4000), (640, 480), (4000, 3000)])
        if r.random() < 0.7:
            ex += [(0xA002, r.choice([3, 4]), [s[0]]), (0xA003, r.choice([3, 4]), [s[1]])]
            d["exif_size"] = s
            if r.random() < 0.3:
                main += [(0x100, 4, [123]), (0x101, 4, [99])]
        else:
            main += [(0x100, 4, [s[0]]), (0x101, 4, [s[1]])]
            d["exif_size"] = s
    if r.random() < 0.6:
        d["orientation"] = r.choice([1, 1, 3, 6, 8, 0])
        main.append((0x112, 3, [d["orientation"]]))
        d["orientation"] = d["orientation"] or 1
    x = r.random()
    if x < 0.5:
        v = r.choice([0, 28, 35, 50, 16, 23, 20, 15])
        ex.append((0xA405, 3, [v]))
        d["f35"] = v
    if r.random() < 0.6:
        v = r.choice([(24, 1), (42, 10), (5015, 1000), (0, 0), (0, 1)])
        ex.append((0x920A, 5, [v]))
        d["f"] = v[0] / v[1] if v[1] else None
    if r.random() < 0.4:
        unit = r.choice([1, 2, 3, 4, 5])
        px, py = (r.choice([(0, 0), (0, 1), rat(r.choice([4438.35, 1000.5]) / {1: 1, 2: 1, 3: 2.54, 4: 25.4, 5: 25400}[unit], 100000)]) for _ in "xy")
        ex += [(0xA20E, 5, [px]), (0xA20F, 5, [py]), (0xA210, 3, [unit])]
        d["unit"], d["res"] = unit, [p[0] / p[1] if p[1] else None for p in (px, py)]
    # position
    x = r.random()
    if x < 0.75:
        v = {}
        for t, ref, lim in ((1, "NS", 89), (3, "EW", 179)):
            neg = r.random() < 0.5
            parts = (r.randrange(lim), r.randrange(60), r.choice([0, 12.25, 59.9999, 33.333]))
            q = [(parts[0], 1), (parts[1], 1), rat(parts[2], 10000)]
            if r.random() < 0.2:  # minutes with decimals
                q = [(parts[0], 1), rat(parts[1] + 0.125, 1000), (0, 1)]
            bad = r.choice(["den", "gone", "short"]) if r.random() < 0.12 else None
            if bad == "den":
                q[r.randrange(3)] = (r.choice([0, 1]), 0)
            if bad == "short":
                q = q[:r.choice([1, 2])]
            if bad != "gone":
                gps.append((t + 1, 5, q))
            if r.random() < 0.9:
                gps.append((t, 2, ref[neg]))
            else:
                neg = False
            v[t] = None if bad else (-1 if neg else 1) * (q[0][0] + q[1][0] / q[1][1] / 60 + q[2][0] / q[2][1] / 3600)
        if None not in v.values():
            d["gps"].update(latitude=v[1], longitude=v[3])
    if r.random() < 0.5:
        q = r.choice([(1234, 10), (88, 1), (20000, 1), (5, 0), (0, 1)])
        gps.append((6, 5, [q]))
        a = q[0] / q[1] if q[1] else None
        if r.random() < 0.6:
            below = r.choice([0, 1])
            gps.append((5, 1, [below]))
            if below and a:
                a = -a
        if a is not None:
            d["gps"]["altitude"] = min(a, 10000)
    if r.random() < 0.4:
        q = r.choice([(25, 10), (7, 1), (0, 0)])
        gps.append((11, 5, [q]))
        if q[1]:
            d["gps"]["dop"] = q[0] / q[1]
    # time
    times = []
    if r.random() < 0.35:
        day = r.choice(["2020:05:17", "2019:12:31", "", "2020:13:45"])
        t = [(r.randrange(24), 1), (r.randrange(60), 1), r.choice([(15, 1), (59500, 1000), (0, 1), (3, 0)])]
        gps += [(7, 5, t), (29, 2, day)]
        if day not in ("", "2020:13:45") and t[2][1]:
            times.append((datetime.datetime.strptime(day, "%Y:%m:%d") - BASE).total_seconds() + t[0][0] * 3600 + t[1][0] * 60 + t[2][0] / t[2][1])
    for where, tag, sub, off in ((ex, 0x9003, 0x9291, 0x9011), (ex, 0x9004, 0x9292, 0x9012), (main, 0x132, 0x9290, 0x9010)):
        if r.random() < 0.45:
            t = "%04d:%02d:%02d %02d:%02d:%02d" % (r.choice([2015, 2021]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60))
            bad = r.random() < 0.25
            where.append((tag, 2, r.choice(["", "    :  :     :  :  ", "0000:00:00 00:00:00"]) if bad else t))
            s = 0.0
            if r.random() < 0.4:
                q = r.choice(["5", "05", "123", "000001"])
                ex.append((sub, 2, q))
                s = float("0." + q)
            o = 0
            if r.random() < 0.5:
                q = r.choice(["+00:00", "+05:30", "-03:30", "+02:00", "-08:00", "   :  ", "junk", "+12:45", "-00:30"])
                ex.append((off, 2, q))
                if q[0] in "+-":
                    o = (1 if q[0] == "+" else -1) * (int(q[1:3]) * 3600 + int(q[4:6]) * 60)
            if not bad:
                times.append((datetime.datetime.strptime(t, "%Y:%m:%d %H:%M:%S") - BASE).total_seconds() + s - o)
    d["capture_time"] = times[0] if times else 0.0
    xmp = None
    if r.random() < 0.3:
        nl = r.choice(["", "\n  "])
        attr, body = "", ""
        if r.random() < 0.5:
            d["projection_type"] = r.choice(["equirectangular", "spherical"])
            body = "<GPano:ProjectionType>%s</GPano:ProjectionType>" % d["projection_type"]
        if r.random() < 0.6:
            la, lo, al = (round(r.uniform(-m, m), 6) for m in (80, 170, 500))
            attr = r.choice([' drone-dji:Latitude="%+f" drone-dji:Longitude="%+f" drone-dji:AbsoluteAltitude="%+.2f"', ' drone-dji:Latitude="%f" drone-dji:Longitude="%f" drone-dji:AbsoluteAltitude="%.2f"']) % (la, lo, al)
            d["gps"].update(latitude=float("%f" % la), longitude=float("%f" % lo), altitude=float("%.2f" % al))
        for space, off in (("drone-dji:Gimbal%sDegree", 90), ("Camera:%s", 0)):  # the latter wins
            if r.random() < 0.5:
                ypr = [round(r.uniform(-180, 180), 1), round(r.uniform(-130, 10), 1) + 90 - off, round(r.choice([0, 0, r.uniform(-40, 40)]), 1)]
                ypr = [r.choice([x, x, x, 0.0, 90.0 - off * (j == 1)]) if j < 2 else x for j, x in enumerate(ypr)]
                text = ["%+.1f" % x for x in ypr]
                left = r.random()
                if left < 0.15:
                    text[r.randrange(3)] = "junk"
                names = ["Yaw", "Pitch", "Roll"]
                if left > 0.85:
                    names.pop(r.randrange(3))
                attr += "".join(' %s="%s"' % (space % n, text[("Yaw", "Pitch", "Roll").index(n)]) for n in names)
                if len(names) == 3:
                    d["ypr"] = None if "junk" in text else [ypr[0], round(ypr[1], 1) + off, ypr[2]]
        xmp = ('<?xpacket begin="" id="W5M0MpCehiHzreSzNTczkc9d"?>%s<x:xmpmeta xmlns:x="adobe:ns:meta/">%s<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">%s'
               '<rdf:Description rdf:about="DJI Meta Data" xmlns:drone-dji="http://www.dji.com/drone-dji/1.0/" xmlns:Camera="http://pix4d.com/camera/1.0" xmlns:GPano="http://ns.google.com/photos/1.0/panorama/"%s>%s%s</rdf:Description>%s</rdf:RDF>%s'
               '</x:xmpmeta>' % (nl, nl, nl, attr, nl, body, nl, nl)).encode()
    return jpeg(w, h, tiff(main, ex, gps, r.choice("<>")), xmp), ".jpg", d


def metadata(d, name, conf, sensors):
    """What extract_metadata must say of an image."""
    w, h = d["exif_size"] if d["exif_size"] and conf.get("use_exif_size", True) else d["pixels"]
    focal = 0.0
    if d["f35"]:
        focal = d["f35"] / 36.0
    elif d["f"]:
        width = None
        per = {2: 25.4, 3: 10, 4: 1, 5: 0.001}.get(d["unit"])
        if per and d["res"][0] is not None:
            p = d["res"][0] or d["res"][1]
            width = w / p * per if p else None
        if not width:
            width = sensors.get(("%s %s" % (d["make"].strip(), (d["model"].replace(d["make"], "") if d["make"] != "unknown" else d["model"]).strip())).strip().lower())
        if width:
            focal = d["f"] / width
    model, proj = d["model"], d["projection_type"]
    if conf.get("unknown_camera_models_are_different") and model in ("", "unknown"):
        model = "unknown_" + name
    proj = conf.get("default_projection_type") or proj
    short = model.replace(d["make"], "") if d["make"] != "unknown" else model
    cam = " ".join(["v2", d["make"].strip(), short.strip(), str(w), str(h), proj, str(float(focal))[:6]]).lower()
    return {"make": d["make"], "model": model, "width": w, "height": h, "projection_type": proj, "focal_ratio": focal, "orientation": d["orientation"],
            "capture_time": d["capture_time"], "gps": d["gps"], "camera": cam}


HARD = {("gopro", "hero8 black"): {"projection_type": "brown", "focal_x": 0.47720253548498875, "focal_y": 0.4776476227437118, "c_x": -0.0017664444590190724,
                                   "c_y": 0.006393052002726844, "k1": -0.004417272934201867, "k2": 0.0026456102958567146, "k3": 0.0, "p1": 0.0, "p2": 0.0},
        ("garmin", "virb"): {"focal": 0.57, "k1": -0.30, "k2": 0.06}}

FOCAL = {("gopro", 20): (0.625, -0.37, 0.28), ("gopro", 15): (0.466, -0.195, 0.030), ("gopro", 23): (0.71875, -0.38, 0.24), ("gopro", 16): (0.5, -0.39, 0.22)}


def camera(m, conf):
    """The camera that metadata make, as saved."""
    hard = HARD.get((m["make"].strip().lower(), m["model"].strip().lower()))
    short = FOCAL.get((m["make"].strip().lower(), int(round(m["focal_ratio"] * 36))))
    if not hard and short:
        hard = dict(zip(("focal", "k1", "k2"), short))
    f = m["focal_ratio"] or conf.get("default_focal_prior", 0.85)
    pt = m["projection_type"]
    if hard and "projection_type" in hard:
        c = dict(hard)
    elif hard and pt in ("perspective", "fisheye"):
        c = dict(hard, projection_type=pt)
    elif pt == "perspective" or pt == "fisheye":
        c = {"projection_type": pt, "focal": f, "k1": 0.0, "k2": 0.0}
    elif pt == "brown":
        c = {"projection_type": pt, "focal_x": f, "focal_y": f, "c_x": 0.0, "c_y": 0.0, "k1": 0.0, "k2": 0.0, "k3": 0.0, "p1": 0.0, "p2": 0.0}
    else:
        c = {"projection_type": "spherical"}
    return dict(c, width=m["width"], height=m["height"])


# ---- the run -----------------------------------------------------------------------

def plan(tier, seed):
    rng = random.Random(seed * 7919 + 24)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        conf = {}
        for k, p, vals in (("use_exif_size", 0.3, [False]), ("unknown_camera_models_are_different", 0.3, [True]), ("default_focal_prior", 0.3, [0.7]),
                           ("default_projection_type", 0.25, ["brown", "fisheye", "perspective"])):
            if r.random() < p:
                conf[k] = r.choice(vals)
        yield {"hs": r.choice(cm.HS), "n": r.randrange(1, 9), "conf": conf,
               "lives": [{"pos": r.random(), "kind": r.choice(["kill", "kill", "torn", "err", "none"]), "side": r.choice("mr"), "errno": r.choice(["EIO", "ENOSPC"]),
                          "frac": r.choice([0, 0.5, 0.9]), "edit": r.choice([None, "add", "drop", "over", "cams"])} for _ in range(r.choice([0, 0, 1, 2]))],
               "over": r.random() < 0.4, "cams": r.choice([None, None, "all", "one"]), "dirseed": r.randrange(1, 1000), "seed": r.randrange(1 << 30)}


def overrides(r, names):
    out = {}
    for nm in r.sample(names, r.randrange(1, len(names) + 1)):
        out[nm] = r.choice([{"gps": {"latitude": 1.5, "longitude": -2.25, "altitude": 30.125, "dop": 3}}, {"capture_time": 1234567890.123}, {"orientation": 3},
                            {"camera": "my cam"}, {"focal_ratio": 0.9171717}, {"make": "Override", "gps": {}}])
    if r.random() < 0.3:
        out["nosuch.jpg"] = {"orientation": 8}
    return out


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return abs(a - b) <= 1e-9 * max(1, abs(a))
    if isinstance(a, str) and isinstance(b, str) and a != b and a[:3] == b[:3] == "v2 ":  # a camera: the focal ratio, cut to six characters, may be rounded
        (a, x), (b, y) = (s.rpartition(" ")[::2] for s in (a, b))
        return a == b and abs(float(x) - float(y)) < 2e-3 * max(1, abs(float(y)))
    return a == b


def wrong(got, want):
    return ", ".join("%s is %r instead of %r" % (k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if not same(got.get(k), want.get(k)))[:300]


def turned(opk, d):
    """What is wrong with the angles saved of an image whose tags give yaw, pitch and roll."""
    ypr = d.get("ypr") if "latitude" in d["gps"] and "longitude" in d["gps"] else None
    if (opk is None) != (ypr is None):
        return "angles %s, tags say yaw, pitch, roll %s" % (opk, ypr)
    if ypr is None:
        return None
    turn = lambda axis, deg: rotation(np.eye(3)[axis], np.radians(deg))
    body = turn(2, ypr[0]) @ turn(1, ypr[1]) @ turn(0, ypr[2])  # columns: the body's front, right and under side in north, east, down
    front, right, under = (np.array([c[1], c[0], -c[2]]) for c in body.T)
    got = turn(0, opk["omega"]) @ turn(1, opk["phi"]) @ turn(2, opk["kappa"])  # columns: right, up and backwards of the image in east, north, up
    off = np.degrees(np.abs(got - np.array([right, front, -under]).T).max())
    return None if off < 1e-3 else "angles %s turn the image %.3f degrees away from yaw, pitch, roll %s" % (opk, off, ypr)


def rotation(k, t):
    x = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(t) * x + (1 - np.cos(t)) * x @ x


def load(p):
    with open(p) as f:
        return json.load(f)


@pl.guarded
def run(sc, root):
    r = random.Random(sc["seed"])
    with open("/repo/opensfm/data/sensor_data.json") as f:
        sensors = {k.lower(): v for k, v in json.load(f).items()}
    ds = root + "/ds"
    os.makedirs(ds + "/images")
    cm.write_config(ds, sc["conf"])
    imgs = {}

    def add():
        raw, ext, d = image(random.Random(r.randrange(1 << 60)), sc["conf"].get("default_projection_type") == "brown")
        nm = r.choice(["img%d", "b %d", "é%d", "IMG_%04d"]) % len(imgs) + ext
        with open(ds + "/images/" + nm, "wb") as f:
            f.write(raw)
        imgs[nm] = d

    for _ in range(sc["n"]):
        add()
    over, cams, versions = {}, {}, {nm: [] for nm in imgs}

    def set_over():
        over.clear()
        over.update(overrides(r, sorted(imgs)))
        cm.write_json(ds + "/exif_overrides.json", over)

    def set_cams(how):
        cams.clear()
        if how == "all":
            cams["all"] = {"projection_type": "fisheye", "width": 100, "height": 80, "focal": 0.61, "k1": 0.01, "k2": -0.02}
        else:
            nm = r.choice(sorted(imgs))
            cams[metadata(imgs[nm], nm, sc["conf"], sensors)["camera"]] = {"projection_type": "perspective", "width": 100, "height": 80, "focal": 0.61, "k1": 0.01, "k2": -0.02}
            cams["another"] = {"projection_type": "perspective", "width": 7, "height": 8, "focal": 0.5, "k1": 0.0, "k2": 0.0}
        cm.write_json(ds + "/camera_models_overrides.json", cams)

    if sc["over"]:
        set_over()
    if sc["cams"]:
        set_cams(sc["cams"])
    v, rs, good = [], [], 0

    def want(nm):
        return dict(metadata(imgs[nm], nm, sc["conf"], sensors), **over.get(nm, {}))

    for j, k in enumerate(list(sc["lives"]) + [None]):
        if k and k["kind"] != "none":
            fk = {"at": int(k["pos"] * {"m": 6 + 5 * len(imgs), "r": 12 + 6 * len(imgs)}[k["side"]]), "side": k["side"], "kind": k["kind"], "frac": k["frac"]}
            if k["kind"] == "err":
                fk["errno"] = "EIO" if k["side"] == "r" else k["errno"]
            elif k["side"] == "r":
                fk["kind"] = "kill"
            faults = [fk]
        else:
            faults = []
        before = {nm: load("%s/exif/%s.exif" % (ds, nm)) for nm in imgs if os.path.exists("%s/exif/%s.exif" % (ds, nm))}
        for nm in imgs:
            if nm not in before:
                versions[nm] = []
            versions[nm].append(want(nm))
        res = cm.must_report(simproc.run(lambda: pl.cli("extract_metadata", ds), root, faults=faults, seed=sc["seed"] % 1000 + j, dirseed=sc["dirseed"] + j, wall=120))
        rs.append(res)
        what = "run %d of %d%s" % (j + 1, len(sc["lives"]) + 1, ", a failing disk" if res["fired"] else "")
        if not res["fired"] and res["outcome"] != "ok":
            v.append({"key": "fails:%s" % (res["info"][0] if res["outcome"] == "exc" else res["outcome"]),
                      "msg": "extract_metadata, %s: %s %s" % (what, cm.outcome_str(res), (res["info"] or "")[-1][-500:] if res["outcome"] == "exc" else "")})
            break
        for nm in sorted(imgs):
            p = "%s/exif/%s.exif" % (ds, nm)
            if not os.path.exists(p):
                if res["outcome"] == "ok":
                    v.append({"key": "missing", "msg": "%s has no metadata (%s)" % (nm, what)})
                continue
            got = load(p)
            b = before.get(nm)
            if b is None:
                bad = turned(got.pop("opk", None), imgs[nm])
                if bad:
                    v.append({"key": "attitude", "msg": "metadata of %s: %s (%s)" % (nm, bad, what)})
            ok = [b] if b is not None else [versions[nm][-1]]
            if not any(same(got, x) for x in ok):
                v.append({"key": "exif", "msg": "metadata of %s: %s (%s)" % (nm, wrong(got, ok[0]), what)})
        if v:
            break
        if res["outcome"] == "ok":
            good += 1
            model = {}
            for nm in sorted(imgs):
                m = load("%s/exif/%s.exif" % (ds, nm))
                if m["camera"] not in model:
                    model[m["camera"]] = camera(m, sc["conf"])
            if "all" in cams:
                model = {c: cams["all"] for c in model}
            else:
                model.update(cams)
            got = load(ds + "/camera_models.json")
            if set(got) != set(model):
                v.append({"key": "cameras", "msg": "camera models %s instead of %s (%s)" % (sorted(set(got) - set(model)), sorted(set(model) - set(got)), what)})
                break
            bad = [c for c in sorted(got) if not same(got[c], model[c])]
            if bad:
                v.append({"key": "camera", "msg": "camera %s: %s (%s)" % (bad[0], wrong(got[bad[0]], model[bad[0]]), what)})
                break
        if k and k["edit"]:
            if k["edit"] == "add":
                add()
                versions[list(imgs)[-1]] = []
            elif k["edit"] == "drop":
                for nm in sorted(imgs):
                    if r.random() < 0.5 and os.path.exists("%s/exif/%s.exif" % (ds, nm)):
                        os.remove("%s/exif/%s.exif" % (ds, nm))
            elif k["edit"] == "over":
                set_over()
            else:
                set_cams(r.choice(["all", "one"]))
    return {"violations": v, "nontrivial": repr([sc["seed"], sc["conf"], rs[-1]["fshash"]]) if good else None, "trace": rs[-1]["trace"],
            "stats": {"images": len(imgs), "lifetimes": len(rs), "successes": good}, "fired": cm.fired_counts(*rs), "sim_time": sum(x["now"] for x in rs),
            "log": [[x["outcome"], x["fshash"]] for x in rs]}


def shrink(sc):
    for s in cm.subsets(sc["lives"]):
        yield dict(sc, lives=s)
    for k in list(sc["conf"]):
        yield dict(sc, conf={a: b for a, b in sc["conf"].items() if a != k})
    for k, z in (("n", 1), ("n", 3), ("over", False), ("cams", None)):
        if sc[k] != z and not (k == "n" and sc[k] < z):
            yield dict(sc, **{k: z})
