"""Rewrites the table of planted bugs in DESIGN.md (section 5)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = "<!-- planted bugs -->\n", "<!-- end of planted bugs -->\n"
rows = ["| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n"]
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p))
    t = [" ".join(str(m[k]).split()).replace("|", "/") for k in ("needs", "what_it_breaks")]
    rows.append("| %s | %s | %s | %s |\n" % (p.split("/")[-2], m["property"], t[0], t[1]))
s = open(V + "/DESIGN.md").read()
i, j = s.index(A) + len(A), s.index(B)
open(V + "/DESIGN.md", "w").write(s[:i] + "".join(rows) + s[j:])
print(len(rows) - 1, "planted bugs")
