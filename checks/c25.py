"""C25: the viewer serves the files of its dataset, all of them, whole, and no others.

Each scenario writes a folder tree (a dataset with reconstructions at several depths, images, links, odd names; secrets beside it),
lets several request threads send WSGI requests to the viewer's server with plain, conditional, partial and hostile paths while a
writer replaces, adds and removes files, under read errors, and compares every answer with what was on the disk meanwhile.
"""
import json
import os
import random
import sys
import threading
from urllib.parse import quote, unquote

from sim import simproc
from . import common as cm

ID = "C25"
BUDGET = {"quick": 30, "thorough": 400}
RULE = ("a run is a history of requests by one to three clients against the viewer's server while a writer replaces, adds and removes "
        "files of the dataset, with read errors; non-trivial when a file was served; distinct by requests, schedule and file operations")
COMPONENTS = {"real": ["viewer.server (Flask routes)", "Flask, werkzeug request handling"],
              "stub": ["HTTP transport (WSGI requests made here, one thread per client)", "disk errors at the libc boundary", "thread scheduling and clock"]}
ASSUMPTIONS = ["links inside the dataset are followed, as submodels need it", "directories whose listing fails are not judged"]
SECRET = b"SECRET not of the dataset"
RECS = ["reconstruction.json", "reconstruction.meshed.json", "submodels/submodel_0000/reconstruction.json", "undistorted/reconstruction.json",
        "old runs/reconstruction \u00e9 1.json", "reconstruction_2.json", "a/b/c/my_reconstruction.json"]
FILES = ["config.yaml", "camera_models.json", "exif/a.jpg.exif", "reports/tracks.json", "reconstruction.json.bak", "a/b/reconstruction.txt", "images.json",
         "undistorted/images/a.jpg.tif", "tracks.csv", "%41.txt", "..hidden/x.txt"]
IMAGES = ["a.jpg", "b c.png", "\u00e9.jpg", "a+b.jpg", "x..y.jpg"]


def prepare():
    sys.path.insert(0, "/repo")
    import werkzeug.test  # noqa
    import flask.json  # noqa
    from viewer import server
    server.app.logger.disabled = True
    for p in ("/items", "/", "/nosuch"):
        ask(p)


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 25)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        n = r.choice([1, 1, 2, 3])
        writes = [[r.choice(["replace", "replace", "add", "remove", "grow"]), r.random(), r.randrange(100000, 1000000)] for _ in range(r.choice([0, 0, 1, 3, 6]))]
        fl = []
        for _ in range(r.choice([0, 0, 1, 2])):
            fl.append({"at": r.randrange(0, 60), "side": "r", "kind": "err", "errno": r.choice(["EIO", "EMFILE", "EACCES"]), "sticky": False})
        yield {"hs": r.choice(cm.HS), "recs": [r.random() < 0.6 for _ in RECS], "seed": r.randrange(1 << 30), "linked": r.random() < 0.3, "none": r.random() < 0.04,
               "where": r.choice(["ds", "ds", "ds/submodels/submodel_0000", "my data/ds \u00e9", "ds/old/ds"]), "slash": r.random() < 0.2,
               "clients": [[req(r) for _ in range(r.choice([2, 5, 9]))] for _ in range(n)], "writes": writes, "faults": fl,
               "mode": cm.pick_mode(r) if n > 1 or writes else {"kind": "none"}, "dirseed": r.randrange(1, 100)}


def req(r):
    u = r.random()
    opt = r.choice(["", "", "", "head", "range", "etag", "etag", "etag"])
    if u < 0.2:
        return ["items", r.random() < 0.5]
    if u < 0.45:
        return ["data", r.random(), opt]
    if u < 0.6:
        return ["image", r.random(), opt]
    if u < 0.7:
        return ["missing", r.choice(["/data/nosuch.json", "/data/images", "/data/", "/image/nosuch.jpg", "/image/", "/data/images/", "/image/..", "/image/.", "/data/exif/nosuch",
                                     "/image/sub/a.jpg", "/data/a.jpg", "/image/config.yaml", "/data/config.yaml/x", "/nosuch"])]
    if u < 0.75:
        return ["own", r.choice(["/", "/index.html", "/README.md"])]
    up = "../" * r.choice([1, 1, 2, 3, 8])
    return ["hostile", r.choice(["/data/%sPARENT/secret.json" % up, "/data/%ssecret.txt" % up, "/data/images/../%ssecret.txt" % up, "/data/./%ssecret.txt" % up, "/data//ABS/secret.txt",
                                 "/data/%s../ds-private/reconstruction.json" % up, "/data/../DSNAME-private/reconstruction.json", "/image/../%ssecret.txt" % up, "/image/..\\..\\secret.txt",
                                 "/data/..\\secret.txt", "/%ssecret.txt" % up, "//ABS/secret.txt", "/data/ABS/secret.txt", "/image/ABS/secret.txt", "/data/exif/../../secret.txt",
                                 "/data/exif/..//..//secret.txt", "/data/..", "/data/../", "/data/../DSNAME-private", "/data/\0/../../secret.txt", "/data/nosuch/../../secret.txt",
                                 "/image/../../secret.txt", "/data/images/../../DSNAME-private/reconstruction.json"])]


# ---- the tree ----------------------------------------------------------------------

def body(path, salt):
    r = random.Random("%s %s" % (path, salt if salt % 3 == 0 else 0))  # most versions are as long as the first
    return (json.dumps({"of": path, "salt": salt}) + "x" * r.choice([0, 10, 10, 3000, 20000, 20000, 200000])).encode()


def make(root, sc):
    ds = root + "/" + sc["where"]
    files = {}
    for p in [x for x, k in zip(RECS, sc["recs"]) if k] + FILES:
        files[p] = body(p, 100000)
    pics = ds + "/images" if not sc["linked"] else root + "/pics"
    for p, b in files.items():
        os.makedirs(os.path.dirname(ds + "/" + p), exist_ok=True)
        with open(ds + "/" + p, "wb") as f:
            f.write(b)
    os.makedirs(pics)
    for p in IMAGES:
        b = body("images/" + p, 100000)
        with open(pics + "/" + p, "wb") as f:
            f.write(b)
        files["images/" + p] = b
    if sc["linked"]:
        os.symlink(os.path.relpath(pics, ds), ds + "/images")
    for p in ("secret.txt", "secret.json", os.path.dirname(sc["where"]) + "/secret.txt", os.path.dirname(sc["where"]) + "/secret.json", "ds-private/reconstruction.json",
              sc["where"] + "-private/reconstruction.json"):
        os.makedirs(os.path.dirname(os.path.normpath(root + "/" + p)), exist_ok=True)
        with open(root + "/" + p, "wb") as f:
            f.write(SECRET)
    return ds, files


# ---- requests ------------------------------------------------------------------------

def ask(path, headers=None, method="GET"):
    """A request whose path reaches the application as it is."""
    from viewer import server
    import werkzeug.test as t
    env = t.EnvironBuilder(path="/", method=method, headers=headers or {}).get_environ()
    env["PATH_INFO"] = path.encode("utf8").decode("latin1")
    env["REQUEST_URI"] = env["RAW_URI"] = quote(path)
    try:
        it, status, hd = t.run_wsgi_app(server.app, env, buffered=True)
        return int(status.split()[0]), b"".join(it), dict((k.lower(), v) for k, v in hd)
    except OSError as e:  # the answer broke off: no success
        return -1, repr(e).encode(), {}


def play(ds, root, sc, files):
    from viewer import server
    server.datapath = None if sc["none"] else os.path.abspath(ds + ("/" if sc["slash"] else ""))
    versions = {p: [b] for p, b in files.items()}  # what each path held, newest last; None: absent
    log, served = [], []
    bad = []
    faulty = bool(sc["faults"])
    clock = [2e9]
    tags = {}  # what a browser keeps: the last answer and its tag

    pending = set()  # being written: the version before may still be there

    def now():
        return {p: len(v) - 1 - (p in pending) for p, v in versions.items()}

    def could(p, since):
        v = versions.get(p, [None])
        return v[since.get(p, 0):] if p in versions else [None]

    def wrong(key, msg):
        bad.append([key, msg])

    def judge_file(rq, p, opt):
        url = "/data/" + p if rq == "data" else "/image/" + p[len("images/"):]
        since = now()
        h, method = {}, "GET"
        if opt == "range":
            h["Range"] = "bytes=3-8"
        if opt == "head":
            method = "HEAD"
        tag = None
        if opt == "etag":
            if url not in tags:
                code, b, hd = ask(url)
                if code != 200 or not hd.get("etag"):
                    return
                tags[url] = (b, hd["etag"])
                since = now()
            tag = tags[url]
            h["If-None-Match"] = tag[1]
        code, b, hd = ask(url, h, method)
        may = could(p, since)
        log.append([url, opt, code, len(b)])
        if code in (500, -1):
            if not faulty and len(may) == 1:
                wrong("fails", "GET %s answers %s %s" % (url, code, b[:100]))
        elif code == 404:
            if sc["none"] or None in may or faulty:
                return
            wrong("lost", "%s %s answers 404 though it is in the dataset" % (method, url))
        elif sc["none"]:
            wrong("none", "%s answers %s without a dataset" % (url, code))
        elif code == 304:
            if tag is None or tag[0] not in may:
                wrong("stale", "%s is 'not modified' though it was" % url)
        elif code in (200, 206):
            if method == "GET" and code == 200 and hd.get("etag"):
                tags[url] = (b, hd["etag"])
            served.append(p)
            want = [x[3:9] if code == 206 else x for x in may if x is not None]
            if code == 206 and opt != "range":
                wrong("partial", "%s answers a part" % url)
            if opt == "head":
                if not want:
                    wrong("ghost", "HEAD %s answers %s though there is no file" % (url, code))
                elif len(may) == 1 and int(hd.get("content-length", -1)) != len(want[0]):
                    wrong("head", "HEAD %s says %s bytes, not %s" % (url, hd.get("content-length"), len(want[0])))
                return
            if b not in want and not (opt == "range" and len(may) > 1):
                wrong("bytes", "%s %s answers %d bytes (%s...), not those of the file (%s)" % (url, opt, len(b), b[:60], [len(x) for x in want]))
        else:
            wrong("status", "%s answers %s" % (url, code))

    def client(ops):
        for o in ops:
            if bad:
                return
            since = now()
            if o[0] == "items":
                code, b, hd = ask("/items")
                if code != 200:
                    if not faulty:
                        wrong("items", "/items answers %s" % code)
                    continue
                items = json.loads(b)["items"]
                got = [x["name"] for x in items]
                log.append(["items", len(got)])
                if sc["none"]:
                    if got:
                        wrong("items", "items without a dataset: %s" % got)
                    continue
                if faulty:
                    got = [x for x in got if x not in versions or None in could(x, since)] + sorted(x for x in versions if x in RECS and None not in could(x, since))
                must = sorted(p for p in versions if p in RECS and None not in could(p, since))
                may = {p for p in versions if p in RECS and any(x is not None for x in could(p, since))}
                if not set(must) <= set(got) <= may or len(set(got)) != len(got):
                    wrong("items", "/items lists %s, not %s" % (got, must))
                elif not faulty and got != sorted(got):
                    wrong("items-order", "/items lists %s" % got)
                for x in items:
                    if x.get("type") != "RECONSTRUCTION" or x.get("url") != ["data/" + x["name"]]:
                        wrong("items-url", "item %s" % x)
                if o[1] and not faulty:
                    for x in items:
                        if x["name"] in versions:
                            judge_file("data", unquote(quote(x["url"][0]))[len("data/"):], "")
            elif o[0] in ("data", "image"):
                ps = sorted(p for p in versions if p.startswith("images/") == (o[0] == "image"))
                judge_file(o[0], ps[int(o[1] * len(ps))], o[2])
            elif o[0] == "missing":
                code, b, hd = ask(o[1])
                log.append([o[1], code])
                if code not in (404, 308, 301, 405) and not (faulty and code in (500, -1)) and not (sc["none"] and code == 500):
                    wrong("missing", "%s answers %s %s" % (o[1], code, b[:80]))
            elif o[0] == "own":
                code, b, hd = ask(o[1])
                f = "/repo/viewer/" + (o[1][1:] or "index.html")
                if code == 200 and b != OWN[f] or code != 200 and not faulty:
                    wrong("own", "%s answers %s, %d bytes" % (o[1], code, len(b)))
            else:
                p = o[1].replace("PARENT", os.path.basename(os.path.dirname(ds))).replace("DSNAME", os.path.basename(ds)).replace("ABS", root[1:])
                code, b, hd = ask(p)
                log.append([o[1], code])
                if SECRET in b:
                    wrong("outside", "GET %s answers %s with a file outside the dataset" % (o[1], code))
                elif code == 200 and b not in [x for v in versions.values() for x in v]:
                    wrong("outside", "GET %s answers 200 with %s" % (o[1], b[:80]))
                for _ in range(3):  # where a redirect leads
                    if code in (301, 302, 308) and "location" in hd:
                        p = unquote(hd["location"].split("localhost", 1)[-1])
                        code, b, hd = ask(p)
                        if SECRET in b:
                            wrong("outside", "GET %s leads to a file outside the dataset" % o[1])

    def writer():
        for kind, pos, salt in sc["writes"]:
            ps = sorted(versions)
            p = ps[int(pos * len(ps))]
            path = ds + "/" + p
            if kind == "add":
                p = RECS[int(pos * len(RECS))]
                path = ds + "/" + p
                if versions.get(p, [None])[-1] is not None:
                    kind = "replace"
                else:
                    os.makedirs(os.path.dirname(path), exist_ok=True)
            if kind == "remove" and versions[p][-1] is not None:
                pending.add(p)
                versions[p].append(None)
                os.unlink(path)
                pending.discard(p)
                continue
            if kind == "remove" or kind == "grow":
                kind = "replace"
            new = body(p, salt)
            pending.add(p)
            versions.setdefault(p, [None]).append(new)  # from now on either
            with open(path + ".tmp", "wb") as f:
                f.write(new)
            clock[0] += 1  # the grain of the real clock of files would make two versions look the same
            os.utime(path + ".tmp", (clock[0], clock[0]))
            os.replace(path + ".tmp", path)
            pending.discard(p)

    ths = [threading.Thread(target=client, args=(c,)) for c in sc["clients"]] + [threading.Thread(target=writer)] * bool(sc["writes"])
    if len(ths) == 1:
        client(sc["clients"][0])
    else:
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    return {"bad": bad[:3], "served": len(served), "log": log}


OWN = {}


def run(sc, root):
    for f in ("index.html", "README.md"):
        with open("/repo/viewer/" + f, "rb") as g:
            OWN["/repo/viewer/" + f] = g.read()
    ds, files = make(root, sc)
    r = cm.must_report(simproc.run(lambda: play(ds, root, sc, files), root, mode=sc["mode"], faults=sc["faults"], seed=sc["seed"], dirseed=sc["dirseed"],
                                   allow=["/repo/viewer"]))
    v = []
    if r["outcome"] != "ok":
        v.append({"key": "ends:" + (r["info"][0] if r["outcome"] == "exc" else r["outcome"]), "msg": "%s %s" % (cm.outcome_str(r), (r["info"] or "")[-1][-500:])})
    else:
        v += [{"key": k, "msg": m} for k, m in r["value"]["bad"]]
    return {"violations": v, "nontrivial": repr([sc["clients"], r["trace"], r["fshash"]]) if r["outcome"] == "ok" and r["value"]["served"] else None,
            "trace": repr([r["trace"], r["fshash"]]), "stats": {"requests": sum(map(len, sc["clients"])), "writes": len(sc["writes"])},
            "fired": cm.fired_counts(r), "sim_time": r["now"], "log": [r["outcome"], r["value"] if r["outcome"] == "ok" else None, r["fired"]]}


def shrink(sc):
    for i in range(len(sc["clients"])):
        if len(sc["clients"]) > 1:
            yield dict(sc, clients=sc["clients"][:i] + sc["clients"][i + 1:])
        for s in cm.subsets(sc["clients"][i]):
            yield dict(sc, clients=sc["clients"][:i] + [s] + sc["clients"][i + 1:])
    for s in cm.subsets(sc["writes"]):
        yield dict(sc, writes=s)
    for s in cm.subsets(sc["faults"]):
        yield dict(sc, faults=s)
    for k, x in (("linked", False), ("where", "ds"), ("slash", False)):
        if sc[k] != x:
            yield dict(sc, **{k: x})
    yield from cm.shrink_mode(sc)
