"""Writes MANIFEST.json from vf/config.py and properties.jsonl: python3 -m vf.manifest"""
import json
import os

from .config import CHECKS, NOT_APPLICABLE, level_note

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks = [{"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
               "evidence_file": f"evidence/{p}.json",
               "technique": CHECKS[p].get("technique", "TLA+ specification, model checked with TLC; traces of the real code validated against it by TLC"),
               "level": "model_checking", "level_note": level_note(p)}
              for p in props if p in CHECKS]
    na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "The check is still being built.")} for p in props if p not in CHECKS]
    m = {"version": 1, "setup_cmd": "sh ./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "TLA+ checked with TLC. ./check <id> model checks the design models of a property, generates behaviours, "
                  "runs the code in /repo and has TLC judge every recorded call. See DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
