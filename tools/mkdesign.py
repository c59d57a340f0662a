import json, glob, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
k = json.load(open("known_findings.json"))
fx = "\n".join("* " + (l if isinstance(l, str) else json.dumps(l)).replace("fixed: property=", "") for l in k["fixed"])
res = json.load(open("tools/seeded.json")); rows = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m)); i = m.split("/")[1]
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"].replace("|", "/"), res.get(i, d["property"])))
s = open("DESIGN.in.md").read().replace("@FIXED@", fx).replace("@SEEDED@", "\n".join(rows)).replace("@MUT@", open("tools/mutation.txt").read().strip())
open("DESIGN.md", "w").write(s)
