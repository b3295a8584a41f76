"""Regenerates MANIFEST.json from the registered checks (run by hand)."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
checks._load()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = json.load(open(os.path.join(V, "lib", "notes.json")))
ch, na = [], []
for p in props:
    i = p["id"]
    if i in checks.REG:
        n = NOTE.get(i, {})
        ch.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "level": "model_checking",
                   "technique": n.get("technique", "TLA+ reference specification checked with TLC; recorded executions of the real code validated against it by TLC"),
                   "level_note": n.get("note", "Bounded: the executions recorded are validated, the specification's own state space is explored exhaustively at small constants.")})
    else:
        na.append({"property": i, "reason": "not claimed yet: check under construction"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": ch, "not_applicable": na,
           "notes": "All checks are hook-free: they compile /repo/src into a scratch directory and use public functions only."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
