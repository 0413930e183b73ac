#!/usr/bin/env python3
"""seed.py ID PROPERTY "needs" "what it breaks": records the edits made in the scratch copy
/tmp/sw as a planted bug, after checking its demonstration (seeded/ID/demo.py, if there is one,
gets a demo.sh) with and without it. The scratch copy is reset afterwards."""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/sw"
id_, prop, needs, breaks = sys.argv[1:5]
d = "%s/seeded/%s" % (V, id_)
diff = subprocess.check_output(["git", "-C", W, "diff", "HEAD"])
assert diff, "no edits"
with open(d + "/patch.diff", "wb") as f:
    f.write(diff)
shutil.copy(V + "/tools/kit.py", d + "/kit.py")
with open(d + "/demo.sh", "w") as f:
    f.write('#!/bin/bash\nexec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


def demo():
    tmp = "/tmp/sw_demo"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp)
    r = subprocess.run(["bash", tmp + "/demo.sh"], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(tmp)
    return r


bad = demo()
print("with:", bad.returncode, bad.stdout[-500:])
subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
subprocess.check_call(["git", "-C", W, "fetch", "-q", "/repo", "HEAD"])
subprocess.check_call(["git", "-C", W, "reset", "-q", "--hard", "FETCH_HEAD"])
good = demo()
print("without:", good.returncode, good.stdout[-500:])
ok = subprocess.run(["git", "-C", W, "apply", "--check", d + "/patch.diff"]).returncode == 0
print("KEEP" if ok and bad.returncode not in (0, 124) and good.returncode == 0 else "REJECT")
