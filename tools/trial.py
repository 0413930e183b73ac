#!/usr/bin/env python3
"""trial.py [ID...]: runs each planted bug's own check on /repo with the bug applied."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]).strip()
for i in ids:
    d = "%s/seeded/%s" % (V, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        t = time.time()
        r = subprocess.run(["/opt/venv/bin/python", "check.py", prop.lower()], cwd=V, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
        hit = "VIOLATION property=" + prop in r.stdout and r.returncode == 1
        lines = [x for x in r.stdout.splitlines() if x.startswith("violated:")]
        print(i, "CAUGHT" if hit else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), lines[:2], flush=True)
        if not hit:
            print("   ", r.stdout[-300:].replace("\n", " | "))
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
