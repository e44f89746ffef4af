import json, glob, os, re
missed = {"c05-weighted-frequency-swallows": "weights with states missing from the list", "c06-high-precision-lost": "high-precision equations at 50 digits",
          "c11-initial-sample-changed": "aliasing of the initial state"}
if os.path.exists("/verif/tools/missed.json"):
    missed.update(json.load(open("/verif/tools/missed.json")))
rows = ["| planted | caught by | needs | missed first |", "|---|---|---|---|"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), "yes: " + missed[i] if i in missed else ""))
t = open("/verif/DESIGN.md").read()
t = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->", t, flags=re.S)
open("/verif/DESIGN.md", "w").write(t)
