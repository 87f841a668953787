"""rewrite the table of planted bugs at the end of DESIGN.md"""
import glob
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
head = "| seed | what it breaks | needs |\n|---|---|---|\n"
s = s[: s.index(head)] + head
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    s += "| %s | %s | %s |\n" % (os.path.basename(d), *(str(m[k]).replace("|", "/").replace("\n", " ") for k in ("what_it_breaks", "needs")))
open(p, "w").write(s)
