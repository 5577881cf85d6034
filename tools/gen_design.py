import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(R + "/checks/meta.json")); known = json.load(open(R + "/known_findings.json"))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
head = open(R + "/tools/design_head.md").read()
fixed = "\n".join("* " + x.split("fixed: property=")[1].replace(" ", " `", 1).replace(" ", "` ", 2).replace("` `", " `") if False else "* " + x[len("fixed: property="):] for x in known["fixed"])
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d)); c = m.get("caught_by", m["property"])
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/"), c))
secs = []
for p in props:
    m = meta.get(p["id"])
    if not m: continue
    s = "### %s %s\n\n%s\n\n* Anchored in: %s.\n* Explored: %s\n* Bounds: %s.\n" % (p["id"], p["title"], p["statement"], ", ".join("`%s`" % f for f in p["anchors"]["files"]), m["rule"], m["bounds"].rstrip("."))
    if m.get("note"): s += "* Note: %s\n" % m["note"]
    secs.append(s)
open(R + "/DESIGN.md", "w").write(head.replace("@FIXED@", fixed).replace("@SEEDED@", "\n".join(rows)).replace("@PROPS@", "\n".join(secs)))
