#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl and /verif/MANIFEST.json (run after editing PROPS)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props_data import PROPS, NOT_APPLICABLE
from collections import OrderedDict

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["id"] in NOT_APPLICABLE:
            na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
            continue
        run = f"/opt/venv/bin/python -W ignore mc/run.py {p['id']}"
        checks.append({"property": p["id"], "quick_cmd": run + " --tier quick",
                       "thorough_cmd": run + " --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": p["technique"], "level": "model_checking", "level_note": p["level_note"]})
    m = {"version": 1,
         "setup_cmd": "/opt/venv/bin/python -W ignore mc/selftest.py",
         "hooks": {"guard": "METKU_VERIF_HOOKS", "enable": "no hooks were needed: the checks drive the public API of the unmodified package; the variable is reserved and unused", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "All checks are stateless/explicit-state bounded model checks run directly on the code in /repo (METKU_REPO overrides the path); see DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")

if __name__ == "__main__":
    main()
