"""Rewrite the planted-bug table of DESIGN.md from seeded/ and planted_extra/*/meta.json and the last recorded outcomes (tools/seed_outcomes.json)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = json.load(open(os.path.join(root, "tools/seed_outcomes.json")))
rows = ["## Planted bugs and what catches them", "", "Each was written from the statement of its property, passes the stable tests, and has a demonstration.  Those in planted_extra/ are kept apart only to keep a run of vcheck short.", "", "| planted bug | property | breaks | caught by |", "|---|---|---|---|"]
for d, n in sorted(((d, n) for d in ("seeded", "planted_extra") for n in os.listdir(os.path.join(root, d))), key=lambda x: x[1]):
    m = json.load(open(os.path.join(root, d, n, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/"), out.get(n, "not recorded")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
blk = "<!-- SEEDS -->\n" + "\n".join(rows) + "\n<!-- /SEEDS -->"
s = re.sub(r"<!-- SEEDS -->(.*<!-- /SEEDS -->)?", lambda _: blk, s, flags=re.S)
open(p, "w").write(s)
