"""Rewrites the seed column of section 3 of DESIGN.md from /verif/seeded."""
import glob, json, re
by = {}
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    by.setdefault(json.load(open(f))["property"], []).append(f.split("/")[-2])
out = []
for l in open("/verif/DESIGN.md").read().split("\n"):
    m = re.match(r"\| ([A-Z]\d\d) \|", l)
    if m and l.count("|") == 5 and m.group(1) in by:
        c = l.split("|")
        c[4] = " " + ", ".join(by[m.group(1)]) + " "
        l = "|".join(c)
    out.append(l)
open("/verif/DESIGN.md", "w").write("\n".join(out))
