#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table.

Only properties whose rule exists in rules/ are emitted as checks."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props

GVN = ("gated-SSA value-graph dataflow over rustc MIR (global value numbering, scalar/sequence evolution); canonical-form identity, "
       "otherwise GVN random interpretation of the two value graphs")


def main():
    out = []
    checks, na = [], []
    rules = "".join(open(os.path.join(ROOT, "rules", f)).read() for f in os.listdir(os.path.join(ROOT, "rules")) if f.endswith(".py"))
    for p in props.PROPS:
        if not p.get("na") and f"def {p['id']}(" not in rules:
            print("no rule yet:", p["id"])
            continue
        out.append({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3-vt check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3-vt check.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p.get("technique", GVN),
            "level": "other",
            "level_note": p["note"],
        })
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for o in out:
            f.write(json.dumps(o) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "Every check re-dumps the MIR of /repo's current tree (dev, and release where the rule needs it) with driver/ (a rustc_private "
                 "driver that only reads the type-checked program) and analyses it; no repository code is executed by a check. known_findings.json "
                 "lists the recorded findings and the repairs.",
    }
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
