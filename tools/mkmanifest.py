#!/usr/bin/env python3
"""Write MANIFEST.json from the list of what is claimed."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOT = {"C26": "the Rust extension cannot be built here (its crates are not available offline), so there is no second implementation to compare; the specification decides the pure-Python version only"}
import sys
sys.path.insert(0, V + "/harness")
from wh import gens
try:
    from wh import hist
    have = set(gens.GENS) | set(hist.HIST)
except ImportError:
    have = set(gens.GENS)
for p in props:
    if p["id"] not in have and p["id"] not in NOT:
        NOT[p["id"]] = "its check is not built yet"
checks = []
for p in props:
    if p["id"] in NOT:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 harness/run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 harness/run.py %s --tier thorough" % p["id"],
        "technique": "TLA+ specification: its laws model-checked with TLC, and recorded behaviour of the real code validated against it with TLC",
        "level": "model_checking",
        "level_note": "Every recorded call of the real code is judged by TLC against the TLA+ specification's allowed results; the laws that the property states are model-checked on the specification within small bounds. Exhaustive for the models' constants, sampled (with systematic sweeps of boundaries and of every timezone transition where time is concerned) for the code. Trusts TLC, the independent TZif reader and the value encoding.",
    })
head = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "-1"], capture_output=True, text=True).stdout.strip()
json.dump({
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the public API shows all the state the specification talks about", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT.items())],
    "notes": "harness/run.py PROP; see DESIGN.md. The fix: commits in /repo are listed in KNOWN_FINDINGS.txt.",
}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", sorted(NOT))
