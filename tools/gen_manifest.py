#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, NOT_APPLICABLE

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append(dict(
            property=p, quick_cmd="python3 check.py %s --tier quick" % p,
            thorough_cmd="python3 check.py %s --tier thorough" % p,
            evidence_file="evidence/%s.json" % p,
            technique=c.get("technique", "runtime monitoring: independent oracles observe randomised executions of the real code under ASan/UBSan"),
            level="exploration",
            level_note=c.get("note", "Holds on every execution observed (counts in the evidence file); trusts the harness' independent reference computations and the rounding tolerances stated in DESIGN.md.")))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="LF_VERIF_HOOKS (unused: no hook was needed, the checks observe the public interfaces)",
                    enable="the checks compile /repo's sources themselves with sanitizers; no guarded code exists", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Every check compiles the modules it needs from /repo's working tree (tools/build.py) and runs a sharded harness; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "n/a")
