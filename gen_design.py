"""Regenerates the two tables of DESIGN.md (properties, planted bugs) between
their markers; the prose around them is written by hand."""
import json, os, re, sys
sys.path.insert(0, "sa")
from meta import META

props = [json.loads(l) for l in open("properties.jsonl")]
t = ["| id | title | deciding rule | what is analysed | limits |", "|---|---|---|---|---|"]
for p in props:
    if p["id"] in META:
        m = META[p["id"]]
        t.append("| %s | %s | %s | %s | %s |" % (p["id"], p["title"], m["rule"].replace("|", "\\|"), m["explain"].replace("|", "\\|"), m["note"].replace("|", "\\|")))
b = ["| planted bug | property | caught by | needs |", "|---|---|---|---|"]
caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    b.append("| %s | %s | %s | %s |" % (d, m["property"], " ".join(caught.get(d, ["(not run)"])) or "none", m["needs"].replace("|", "\\|").replace("\n", " ")))
s = open("DESIGN.md").read()
for name, rows in (("PROPS", t), ("BUGS", b)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open("DESIGN.md", "w").write(s)
