"""Print the catch matrix for DESIGN.md from logs of `bugs.py catch` (later lines win)."""
import json, glob, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+)\s+(C\d\d) (CAUGHT|quiet|RC\S*)", l)
        if m: res[m.group(1)] = m.group(3)
by = {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    i = os.path.basename(d)
    by.setdefault(json.load(open(d + "/meta.json"))["property"], []).append((i, res.get(i, "?")))
print("| check | planted bugs it catches (quick tier) | missed |\n|---|---|---|")
for p in sorted(by):
    ok = [i[4:] if i.startswith(p.lower()) else i for i, r in by[p] if r == "CAUGHT"]
    no = [i + ("" if r == "quiet" else " (%s)" % r) for i, r in by[p] if r != "CAUGHT"]
    print("| %s | %d: %s | %s |" % (p, len(ok), ", ".join(ok), ", ".join(no) or "-"))
