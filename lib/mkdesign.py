"""Regenerates DESIGN.md: the hand-written text below plus the table of planted bugs (run by hand)."""
import os, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
txt = open(os.path.join(V, "lib", "design.md.in")).read()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
note = json.load(open(os.path.join(V, "lib", "notes.json")))
res = json.load(open(os.path.join(V, "lib", "seed_results.json"))) if os.path.exists(os.path.join(V, "lib", "seed_results.json")) else {}
rows = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], res.get(i, "./run.sh %s quick" % m["property"])))
pt = "\n".join("- **%s %s** — %s. %s" % (p["id"], p["title"], note[p["id"]]["technique"], note[p["id"]]["note"]) for p in props)
open(os.path.join(V, "DESIGN.md"), "w").write(txt.replace("@SEEDS@", "\n".join(rows)).replace("@PROPS@", pt))
