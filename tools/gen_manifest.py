#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED: property -> (technique, level_note)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = " Every family's case space is enumerated completely within its stated bound on the real code (no sampling); nothing is claimed outside the bounds. Trusts the oracle code in /verif/harness/src and rustc."
CLAIMED = {
 "C13": ("explicit-state exploration of all operation sequences of the implementation against a reference partition", "All merge/query sequences up to the stated depth for n<=6, all binomial merge schedules on 8 elements, joined chains/stars."),
 "C14": ("exhaustive enumeration of all small networks and arc orders on the real code, max-flow oracle", "All networks up to 6 nodes over small capacity sets, all short arc lists, all small two-terminal builder inputs, structured large networks."),
 "C15": ("exhaustive enumeration of all small graphs and edge orders on the real code, max-flow oracle", "All graphs up to 5 nodes over small capacity sets, all short edge lists, structured large graphs."),
}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "claims.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash harness/build.sh",
 "hooks": {"guard": "cfg(gpf_mc)", "enable": "RUSTFLAGS=\"--cfg gpf_mc\" (harness/build.sh)", "source_commits": ["5d3bf05"]},
 "checks": [{"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
             "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + CLAIMED[i][0], "level": "model_checking",
             "level_note": CLAIMED[i][1] + COMMON} for i in ids if i in CLAIMED],
 "not_applicable": [{"property": i, "reason": NA.get(i, "not built yet") if "NA" in globals() else "not built yet"} for i in ids if i not in CLAIMED],
 "notes": "Known findings and repaired defects: known-findings.txt. Design, bounds and results: DESIGN.md.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
