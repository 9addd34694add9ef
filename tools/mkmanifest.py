#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import checks as C
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl")) if l.strip()]
na = json.load(open(os.path.join(H, "tools", "not_applicable.json")))
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "notes": "Every check builds the libraries it needs from /repo's working tree into /verif/build (ignored by git) and "
              "runs generated cases in forked workers. Seeds come from VERIF_SEED. Replay: python3 run.py replay <property> "
              "<replay file>."}
for p in props:
    if p in C.CHECKS:
        c = C.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py check %s --tier quick" % p,
                            "thorough_cmd": "python3 run.py check %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": c["level"],
                            "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": na[p]})
for p in C.CHECKS:
    assert p in props, p
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
