"""C11: a tracks manager answers as the plain set of its observations, over lifetimes."""
import os
import random

from sim import simproc
from . import common as cm

ID = "C11"
BUDGET = {"quick": 30, "thorough": 400}
RULE = ("a run is a history of operations on the tracks of a dataset (add, replace, remove, subset, merge, save, "
        "load, text of older versions) over one to three process lifetimes, some killed in a save, with every query "
        "compared to a dictionary after each operation; non-trivial when an observation was queried after a save, "
        "merge or subset; distinct by history and file operations")
COMPONENTS = {"real": ["C++ TracksManager and Observation", "opensfm.tracking", "opensfm.dataset", "opensfm.io"],
              "stub": ["disk and process death at the libc boundary"]}
ASSUMPTIONS = ["saved numbers keep the six digits of the text format; depth priors are not part of it",
               "whether an image or track stays listed after its last observation was removed is not judged"]
SHOTS = ["a.jpg", "b.jpg", "c d.jpg", "é.png", "10", "9"]


def plan(tier, seed):
    rng = random.Random(seed * 7919 + 11)
    while True:
        r = random.Random(rng.randrange(1 << 60))
        ns, nt = r.randrange(1, 7), r.choice([1, 3, 8, 20])
        lives = []
        for _ in range(r.choice([1, 1, 2, 3])):
            ops = [op(r, ns, nt) for _ in range(r.choice([3, 10, 25]))]
            lives.append({"ops": ops, "kill": {"n": r.randrange(1, 4), "at": r.randrange(0, 9), "kind": r.choice(["kill", "torn"]),
                                               "frac": r.choice([0, 0.3, 0.97])} if r.random() < 0.4 else None})
        yield {"hs": r.choice(cm.HS), "lives": lives, "dirseed": r.randrange(1, 100), "seed": r.randrange(1 << 20)}


def obs(r):
    big = r.random() < 0.2
    return [r.uniform(-0.6, 0.6) * (1e-7 if big else 1), r.uniform(-0.6, 0.6), r.choice([0.0, r.uniform(1e-3, 0.1), 12.5]),
            r.randrange(256), r.randrange(256), r.randrange(256), r.randrange(12) if r.random() < 0.8 else r.randrange(1 << 31),
            r.choice([-1, -1, 0, 7, 255]), r.choice([-1, -1, 0, 600])]


def op(r, ns, nt):
    u = r.random()
    s, t = r.choice(SHOTS[:ns]), str(r.randrange(nt))
    if u < 0.45:
        return ["addmany", [[r.choice(SHOTS[:ns]), str(r.randrange(nt)), obs(r)] for _ in range(r.choice([1, 2, 6, 15]))]]
    if u < 0.6:
        return ["remove", s, t]
    if u < 0.7:
        return ["sub", [str(r.randrange(nt + 2)) for _ in range(r.randrange(0, nt + 2))], [r.choice(SHOTS) for _ in range(r.randrange(0, ns + 2))]]
    if u < 0.78:
        return ["merge", [[[r.choice(SHOTS[:ns]), str(r.randrange(nt)), obs(r)] for _ in range(r.choice([0, 1, 5, 10]))]
                          for _ in range(r.choice([0, 1, 2]))], r.random() < 0.5]
    if u < 0.88:
        return ["save", r.choice([None, None, "other.csv"])]
    if u < 0.94:
        return ["load", r.choice([None, None, "other.csv"])]
    if u < 0.97:
        return ["legacy", r.randrange(2)]
    return ["malformed", r.choice(["short", "long", "word", "version"]), r.random(), r.randrange(3)]


def r6(x):
    return float("%.6g" % x)


def rounded(o):
    return [r6(x) for x in o[:3]] + o[3:]


# ---- comparing ---------------------------------------------------------------------

def of(o):
    return [float(o.point[0]), float(o.point[1]), o.scale] + [int(c) for c in o.color] + [o.id, o.segmentation, o.instance]


def audit(tm, m, r):
    """First difference between the manager and the model {(shot, track): obs}."""
    from opensfm import tracking
    shots, tracks = {}, {}
    for (s, t), o in m.items():
        shots.setdefault(s, {})[t] = o
        tracks.setdefault(t, {})[s] = o
    gs, gt = tm.get_shot_ids(), tm.get_track_ids()
    if len(set(gs)) != len(gs) or len(set(gt)) != len(gt) or tm.num_shots() != len(gs) or tm.num_tracks() != len(gt):
        return "ids", "images %s, tracks %s, counted %d and %d" % (gs, gt, tm.num_shots(), tm.num_tracks())
    if set(shots) - set(gs) or set(tracks) - set(gt):
        return "ids", "images %s listed for %s, tracks %s for %s" % (gs, sorted(shots), gt, sorted(tracks))
    for s in gs:
        got = {t: of(o) for t, o in tm.get_shot_observations(s).items()}
        if got != shots.get(s, {}):
            return "by-image", "%s observes %s, not %s" % (s, got, shots.get(s, {}))
    for t in gt:
        got = {s: of(o) for s, o in tm.get_track_observations(t).items()}
        if got != tracks.get(t, {}):
            return "by-track", "track %s has %s, not %s" % (t, got, tracks.get(t, {}))
    for s in r.sample(SHOTS, 2):
        for t in [str(r.randrange(22)), "x"] + r.sample(sorted(tracks), min(2, len(tracks))):
            try:
                got = of(tm.get_observation(s, t))
            except RuntimeError:
                got = None
            if got != m.get((s, t)):
                return "observation", "%s in %s is %s, not %s" % (t, s, got, m.get((s, t)))
    pairs = {}
    ks = sorted(shots)
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            c = set(shots[a]) & set(shots[b])
            if c:
                pairs[a, b] = c
    key = lambda a, b: (a, b) if a.encode() < b.encode() else (b, a)
    want = {key(a, b): len(c) for (a, b), c in pairs.items()}
    got = tm.get_all_pairs_connectivity()
    if got != want:
        return "pairs", "pair counts %s, not %s" % (got, want)
    g = tracking.as_weighted_graph(tm)
    if {key(a, b): d["weight"] for a, b, d in g.edges(data=True)} != want or set(g.nodes()) != set(gs):
        return "graph", "weighted graph %s for %s" % (list(g.edges(data=True)), want)
    ts, ss = r.sample(sorted(tracks), r.randrange(len(tracks) + 1)), r.sample(ks, r.randrange(len(ks) + 1))
    if ts or ss:
        got = tm.get_all_pairs_connectivity(ss, ts)
        w = {}
        for (a, b), c in pairs.items():
            k = len([t for t in c if not ts or t in ts])
            if k and (not ss or (a in ss and b in ss)):
                w[key(a, b)] = k
        if got != w:
            return "pairs-of", "pair counts %s for %s %s, not %s" % (got, ss, ts, w)
    mc = r.choice([1, 1, 2, 3])
    com = tracking.all_common_tracks_with_features(tm, mc)
    if {k: set(x[0]) for k, x in com.items()} != {key(a, b): c for (a, b), c in pairs.items() if len(c) >= mc}:
        return "common", "common tracks %s" % {k: x[0] for k, x in com.items()}
    for (a, b), (tt, p1, p2) in com.items():
        if len(set(tt)) != len(tt) or p1.tolist() != [m[a, t][:2] for t in tt] or p2.tolist() != [m[b, t][:2] for t in tt]:
            return "common-points", "points of the common tracks of %s and %s" % (a, b)
    for (a, b), c in list(pairs.items())[:2]:
        tt, p1, p2 = tracking.common_tracks(tm, b, a)
        if set(tt) != c or len(tt) != len(c) or p1.tolist() != [m[b, t][:2] for t in tt] or p2.tolist() != [m[a, t][:2] for t in tt]:
            return "common-of", "common tracks of %s and %s" % (b, a)
    return None


def groups(ms):
    """Tracks of several managers joined by a shared feature: [[(manager, track)]]."""
    own = {}
    for i, m in enumerate(ms):
        for (s, t), o in m.items():
            own.setdefault((s, o[6]), set()).add((i, t))
    adj = {}
    for c in own.values():
        for x in c:
            adj.setdefault(x, set()).update(c)
    seen, out = set(), []
    for x in adj:
        if x not in seen:
            g, todo = {x}, [x]
            while todo:
                for y in adj[todo.pop()]:
                    if y not in g:
                        g.add(y)
                        todo.append(y)
            seen |= g
            out.append(g)
    return out


def audit_merge(tm, ms):
    got = {t: {s: of(o) for s, o in tm.get_track_observations(t).items()} for t in tm.get_track_ids()}
    want = []
    for g in groups(ms):
        c = {}
        for i, t in g:
            for (s, u), o in ms[i].items():
                if u == t:
                    c.setdefault(s, []).append(o)
        want.append(c)
    if len(got) != len(want):
        return "merged into %d tracks, not %d" % (len(got), len(want))
    left = list(want)
    for t, x in got.items():
        for w in left:
            if set(w) == set(x) and all(x[s] in w[s] for s in w):
                left.remove(w)
                break
        else:
            return "merged track %s (%s) joins no connected tracks" % (t, x)
    return None


def text(m, version):
    """A tracks file as an older release wrote it."""
    out = ["OPENSFM_TRACKS_VERSION_v1"] if version == 1 else []
    for (s, t), o in m.items():
        f = [s, t, str(o[6]), "%.6g" % o[0], "%.6g" % o[1]] + (["%.6g" % o[2]] if version == 1 else []) + [str(c) for c in o[3:6]]
        out.append("\t".join(f))
    return "".join(x + "\n" for x in out)


def apply_model(m, o, files):
    """What an operation makes of the model; files is what is saved."""
    if o[0] == "addmany":
        m = dict(m)
        for s, t, x in o[1]:
            m[s, t] = list(x)
    elif o[0] == "remove":
        m = {k: x for k, x in m.items() if k != (o[1], o[2])}
    elif o[0] == "sub":
        m = {k: x for k, x in m.items() if k[1] in o[1] and k[0] in o[2]}
    elif o[0] == "load":
        m = files.get(o[1], m)
    elif o[0] == "legacy":
        m = {k: [r6(x[0]), r6(x[1]), r6(x[2]) if o[1] else 0.0] + x[3:7] + [-1, -1] for k, x in m.items()}
    return m


def play(ds, ops, files, r, wfd):
    from opensfm import dataset, pymap
    d = dataset.DataSet(ds)
    TM = pymap.TracksManager

    def build(entries):
        tm = TM()
        for s, t, x in entries:
            tm.add_observation(s, t, pymap.Observation(*x))
        return tm
    tm, m = TM(), {}
    if files.get(None):
        tm, m = d.load_tracks_manager(), files[None]
    files = dict(files)
    saved = 0
    for n, o in enumerate(ops):
        new = apply_model(m, o, files)
        if o[0] == "addmany":
            for s, t, x in o[1]:
                tm.add_observation(s, t, pymap.Observation(*x))
        elif o[0] == "remove":
            try:
                tm.remove_observation(o[1], o[2])
            except RuntimeError:
                if (o[1], o[2]) in m:
                    raise
        elif o[0] == "sub":
            old = tm
            tm = tm.construct_sub_tracks_manager(o[1], o[2])
            bad = audit(old, m, r)
            if bad:
                return ["source:" + bad[0], "after taking a subset, the source: " + bad[1], n]
        elif o[0] == "merge":
            ms, tms = [m], [tm]
            for e in o[1]:
                ms.append({(s, t): list(x) for s, t, x in e})
                tms.append(build(e))
            j = TM.merge_tracks_manager(tms if len(tms) > 1 or o[2] else [])
            bad = audit_merge(j, ms if len(tms) > 1 or o[2] else [])
            if bad:
                return ["merge", bad, n]
            if o[2] and len(tms) == 1:
                tm = j
                new = {(s, t): of(x) for t in j.get_track_ids() for s, x in j.get_track_observations(t).items()}
                return [None, None, n, saved]  # ids are chosen by the merge: the history ends here
        elif o[0] == "save":
            d.save_tracks_manager(tm, o[1])
            files[o[1]] = {k: rounded(x) for k, x in m.items()}
            saved += 1
            os.write(wfd, b"s")
        elif o[0] == "load":
            if d.tracks_exists(o[1]) != (o[1] in files):
                return ["exists", "tracks_exists is %s for %s" % (d.tracks_exists(o[1]), o[1]), n]
            if o[1] in files:
                tm = d.load_tracks_manager(o[1])
        elif o[0] == "legacy":
            tm = TM.instanciate_from_string(text(m, o[1]))
        elif o[0] == "malformed":
            lines = (text(m, o[3]) if o[3] < 2 else tm.as_string()).splitlines()
            k = (o[3] > 0) + int(o[2] * (len(lines) - 1))
            if o[1] == "version" and (lines or o[3]):
                lines[:o[3] > 0] = ["OPENSFM_TRACKS_VERSION_v9"]
            elif k < len(lines):
                f = lines[k].split("\t")
                f = f[:-1] if o[1] == "short" else f + ["1"] if o[1] == "long" else f[:3] + ["x"] + f[4:]
                lines[k] = "\t".join(f)
            else:
                continue
            try:
                TM.instanciate_from_string("\n".join(lines) + "\n")
                return ["malformed", "text with a %s line loads" % o[1], n]
            except (RuntimeError, ValueError):
                pass
        m = new
        bad = audit(tm, m, r)
        if bad:
            return [bad[0], "after %s: %s" % (o[0], bad[1]), n]
    s = TM.instanciate_from_string(tm.as_string())
    bad = audit(s, {k: rounded(x) for k, x in m.items()}, r)
    if bad:
        return ["text:" + bad[0], "through its text: " + bad[1], len(ops)]
    p = ds + "/direct.csv"
    tm.write_to_file(p)
    bad = audit(TM.instanciate_from_file(p), {k: rounded(x) for k, x in m.items()}, r)
    os.unlink(p)
    return ["file:" + bad[0], "through a file: " + bad[1], len(ops)] if bad else [None, None, len(ops), saved]


def run(sc, root):
    ds = root + "/ds"
    os.makedirs(ds + "/images")
    open(ds + "/images/a.jpg", "w").close()
    cm.write_config(ds, {})
    v, rs, log, files, nt = [], [], [], {}, 0
    for n, life in enumerate(sc["lives"]):
        k = life["kill"]
        faults = [{"at": k["at"], "side": "m", "kind": k["kind"], "frac": k["frac"]}] if k else []
        rp, wp = os.pipe()
        r = cm.must_report(simproc.run(lambda: play(ds, life["ops"], files, random.Random(sc["seed"] + n), wp), root,
                                       seed=sc["seed"] + n, dirseed=sc["dirseed"], faults=faults))
        os.close(wp)
        done = len(os.read(rp, 4096))
        os.close(rp)
        rs.append(r)
        log.append([r["outcome"], r["fshash"], done])
        if r["outcome"] == "ok":
            if r["value"][0]:
                v.append({"key": r["value"][0], "msg": "operation %d of lifetime %d: %s" % (r["value"][2], n, r["value"][1][:700])})
                break
            todo = life["ops"][:r["value"][2] + 1]
        elif r["outcome"] == "killed":
            todo = life["ops"]
        else:
            v.append({"key": "fails:%s" % (r["info"][0] if r["outcome"] == "exc" else r["outcome"]),
                      "msg": "%s %s" % (cm.outcome_str(r), (r["info"] or "")[-1][-600:])})
            break
        # what is on disk now
        m, c, maybe = dict(files.get(None) or {}), 0, None
        for o in todo:
            if o[0] == "merge" and o[2] and not o[1]:
                break
            if o[0] == "save":
                new = {kk: rounded(x) for kk, x in m.items()}
                if c < done:
                    files[o[1]] = new
                    c += 1
                    nt += len(new)
                elif r["outcome"] == "killed":
                    maybe = (o[1], new)
                    break
            m = apply_model(m, o, files)
        if maybe:
            name, new = maybe

            def probe():
                from opensfm import dataset
                d = dataset.DataSet(ds)
                if not d.tracks_exists(name):
                    return None
                tm = d.load_tracks_manager(name)
                return [audit(tm, x, random.Random(1)) if x is not None else ["absent", ""] for x in (new, files.get(name))]
            r = cm.must_report(simproc.run(probe, root, seed=3, dirseed=1))
            rs.append(r)
            if r["outcome"] != "ok":
                v.append({"key": "torn", "msg": "after a kill in a save the tracks do not load: %s" % cm.outcome_str(r)})
                break
            if r["value"] is None:
                if name in files:
                    v.append({"key": "vanished", "msg": "after a kill in a save the tracks are gone"})
                    break
            elif r["value"][0] is None:
                files[name] = new
            elif r["value"][1] is not None:
                v.append({"key": "mixed", "msg": "after a kill in a save the tracks are neither old nor new: %s" % (r["value"],)})
                break
    return {"violations": v, "nontrivial": repr([sc["lives"], [x["fshash"] for x in rs]]) if nt else None,
            "trace": repr([sc["lives"], [x["fshash"] for x in rs]]), "stats": {"operations": sum(len(x["ops"]) for x in sc["lives"]), "lifetimes": len(rs)},
            "fired": cm.fired_counts(*rs), "sim_time": sum(x["now"] for x in rs), "log": log}


def shrink(sc):
    for s in cm.subsets(sc["lives"]):
        if s:
            yield dict(sc, lives=s)
    for i, l in enumerate(sc["lives"]):
        def put(**d):
            return dict(sc, lives=sc["lives"][:i] + [dict(l, **d)] + sc["lives"][i + 1:])
        if l["kill"]:
            yield put(kill=None)
        for s in cm.subsets(l["ops"]):
            yield put(ops=s)
        for j, o in enumerate(l["ops"]):
            if o[0] == "addmany":
                for s in cm.subsets(o[1]):
                    if s:
                        yield put(ops=l["ops"][:j] + [["addmany", s]] + l["ops"][j + 1:])
