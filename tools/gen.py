#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.json."""
import json, os, sys
T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
sys.path.insert(0, T)
sys.dont_write_bytecode = True
import props
checks = json.load(open(V + "/checks.json"))
rows = []
for (id, title, st, over, q, why, files, mech) in props.P:
    assert len(title) <= 80, (id, len(title))
    for f in files + [w for _, w in mech]:
        assert os.path.exists("/repo/" + f), (id, f)
    rows.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
                 "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
open(V + "/properties.jsonl", "w").write("".join(json.dumps(r) + "\n" for r in rows))
ids = {r["id"] for r in rows}
claimed = [k for k in checks if k != "_common"]
assert set(claimed) <= ids, set(claimed) - ids
na = getattr(props, "NA", {})
assert ids - set(claimed) == set(na), (ids - set(claimed)) ^ set(na)
m = {"version": 1, "setup_cmd": "python3 check.py --build-only",
     "checks": [{"property": k, "quick_cmd": f"python3 check.py {k}", "thorough_cmd": f"python3 check.py {k} --tier thorough",
                 "evidence_file": f"evidence/{k}.json", "technique": "symbolic execution of the contracts' LLVM IR, decided by SMT (bounded)",
                 "level": "model_checking",
                 "level_note": "Every path of the entries within the bounds, decided by the solver for all values. Bounds: " + checks[k]["bounds"]
                 + " Assumes: " + "; ".join(checks["_common"]["assumptions"] + checks[k].get("assumptions", [])) + "."} for k in sorted(claimed)],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
