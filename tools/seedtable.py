"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATER = {"C17-exifcache", "C08-oldclusters", "C10-north"}
rows = ["| bug | caught by | what it needs |", "|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    rows.append("| %s%s | %s | %s |" % (i, "*" if i in LATER or m.get("later") else "", m.get("caught_by", m["property"]), m["needs"].replace("\n", " ").replace("|", "/")[:220]))
p = root + "/DESIGN.md"; s = open(p).read()
mark = "<!-- planted bugs -->"
s = s.replace("SEEDTABLE", mark)
s = s[: s.index(mark)] + mark + "\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
