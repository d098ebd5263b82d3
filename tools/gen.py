"""Generate /verif/properties.jsonl and /verif/MANIFEST.json from one table.

Run by hand after editing tools/table.py; the two outputs are committed.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from table import NOT_APPLICABLE, PROPS  # noqa: E402


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            row = {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [
                        {"name": n, "where": w} for n, w in p["mech"]
                    ],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                },
            }
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(row) + "\n")

    na = {x["property"] for x in NOT_APPLICABLE}
    checks = []
    for p in PROPS:
        if p["id"] in na:
            continue
        mod = os.path.join(ROOT, "pbt", "checks", p["id"].lower() + ".py")
        if not os.path.exists(mod):
            NOT_APPLICABLE.append(
                {"property": p["id"], "reason": "check not built yet"}
            )
            continue
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"bash run.sh {p['id']} quick",
                "thorough_cmd": f"bash run.sh {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"],
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": (
            "Property-based testing with Hypothesis over JSON cases; "
            "see DESIGN.md. No hooks in /repo."
        ),
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(checks), "checks")


main()
