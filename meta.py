#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in meta/*.txt-like Python dictionaries (properties_data.py)."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from properties_data import PROPS

TECH = "property-based testing: "


def main():
    checks, na = [], []
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d) + "\n")
            if os.path.exists(os.path.join(here, "props", p["id"].lower() + ".py")):
                checks.append({"property": p["id"], "quick_cmd": "python3-vt check.py " + p["id"],
                               "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + p["id"],
                               "evidence_file": "evidence/%s.json" % p["id"],
                               "technique": TECH + p["tech"], "level": "exploration", "level_note": p["note"]})
            else:
                na.append({"property": p["id"], "reason": p.get("na", "check not built yet")})
    m = {"version": 1, "setup_cmd": "python3-vt vlib/build.py slugs", "checks": checks, "not_applicable": na,
         "notes": "check.py drives all checks; props/<id>.py holds generator and oracle of a property. No hooks in /repo."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("%d properties, %d checks" % (len(PROPS), len(checks)))


main()
