"""Shared pieces of the checks: tiny datasets, fault planning, shrinking."""
import json
import os
import random
import zlib

from sim import simproc

HS = (0, 1, 7, 4242)
GRANS = ("line", "line", "line", "instr")


def rng_of(*parts):
    return random.Random(zlib.crc32(repr(parts).encode()) * 1000003 + 17)


def pick_mode(rng, horizon=3000):
    """A schedule strategy (swarm style: strategy and its knobs vary per run)."""
    u = rng.random()
    seed = rng.randrange(1 << 30)
    if u < 0.45:
        return {"kind": "walk", "seed": seed, "p": rng.choice([0.002, 0.01, 0.05, 0.2, 0.6])}
    if u < 0.9:
        return {"kind": "pct", "seed": seed, "depth": rng.randrange(0, 6),
                "horizon": rng.choice([200, 1000, horizon, 3 * horizon])}
    return {"kind": "none", "seed": seed}


def texture(rng, h, w, channels=3):
    import numpy as np
    r = np.random.RandomState(rng.randrange(1 << 30))
    import cv2
    img = r.randint(0, 256, (h // 4 + 1, w // 4 + 1, channels)).astype("uint8")
    img = cv2.resize(img, (w, h), interpolation=cv2.INTER_NEAREST)
    img = (img.astype("float32") * 0.8 + r.randint(0, 50, img.shape)).astype("uint8")
    return img


def write_png(path, img):
    """Bytes written by us, not through the code under test."""
    import cv2
    ok, buf = cv2.imencode(".png", img)
    assert ok
    with open(path, "wb") as f:
        f.write(buf.tobytes())


def write_jpg(path, img, q=90):
    import cv2
    ok, buf = cv2.imencode(".jpg", img, [cv2.IMWRITE_JPEG_QUALITY, q])
    assert ok
    with open(path, "wb") as f:
        f.write(buf.tobytes())


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(obj, f)


def write_config(path, conf):
    import yaml
    with open(os.path.join(path, "config.yaml"), "w") as f:
        yaml.safe_dump(conf, f)


def exif_dict(i, w, h, camera, gps=None, **kw):
    d = {"make": "m", "model": "x", "width": w, "height": h,
         "projection_type": "perspective", "focal_ratio": 0.85,
         "orientation": 1, "capture_time": 1500000000.0 + 10 * i, "skey": "s",
         "camera": camera}
    if gps:
        d["gps"] = gps
    d.update(kw)
    return d


def camera_json(w, h, focal=0.85):
    return {"projection_type": "perspective", "width": w, "height": h,
            "focal": focal, "k1": 0.0, "k2": 0.0}


def outcome_str(res):
    o = res["outcome"]
    if o == "exc":
        return "exc:%s: %s" % (res["info"][0], res["info"][1][:160])
    return o


def stacks_str(res, n=4):
    out = []
    for tid, st, fr in res.get("info") or []:
        keep = [x for x in fr if "opensfm" in x or "queue.py" in x or "joblib" in x or "pool.py" in x][:n]
        out.append("T%d[%s] %s" % (tid, st, " < ".join(x.replace("opensfm/", "") for x in keep)))
    return "; ".join(out)


def fired_counts(*results):
    c = {}
    for r in results:
        for f in r.get("fired", []):
            c[f[0]] = c.get(f[0], 0) + 1
        if r.get("npreempt"):
            c["preemption"] = c.get("preemption", 0) + r["npreempt"]
        if r.get("nstall"):
            c["stalled_thread"] = c.get("stalled_thread", 0) + r["nstall"]
        if r.get("njump"):
            c["clock_jump"] = c.get("clock_jump", 0) + r["njump"]
    return c


def must_report(res):
    """Outcomes that are errors of the machinery, not of the code."""
    if res["outcome"] in ("harness", "walltimeout"):
        raise RuntimeError("harness: %s" % (res,))
    if res.get("escapes"):
        raise RuntimeError("escape: %r" % (res["escapes"][:5],))
    return res


def snapshot(root, skip=()):
    """{relative path: bytes} of a tree (symlinks as their target text)."""
    out = {}
    for d, ds, fs in os.walk(root):
        ds.sort()
        for n in sorted(fs) + [x for x in ds if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            if any(rel.startswith(s) for s in skip):
                continue
            if os.path.islink(p):
                out[rel] = "-> " + os.readlink(p)
            else:
                with open(p, "rb") as f:
                    out[rel] = f.read()
    return out


def subsets(xs):
    """ddmin-style smaller lists, biggest cuts first."""
    n = len(xs)
    if n == 0:
        return
    yield []
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield xs[:i] + xs[i + k:]
        k //= 2


def shrink_mode(sc, key="mode"):
    m = sc.get(key)
    if not m:
        return
    if m["kind"] != "none":
        yield dict(sc, **{key: {"kind": "none", "seed": 0, "stalls": m.get("stalls", []),
                                "jumps": m.get("jumps", [])}})
    for f in ("stalls", "jumps", "devs"):
        if m.get(f):
            for s in subsets(m[f]):
                yield dict(sc, **{key: dict(m, **{f: s})})
