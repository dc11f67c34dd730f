#!/usr/bin/env python3
"""Write MANIFEST.json from registry.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import registry  # noqa: E402

checks = []
for pid in sorted(registry.PROPS):
    s = registry.PROPS[pid]
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 bin/check.py {pid} quick",
        "thorough_cmd": f"python3 bin/check.py {pid} thorough",
        "technique": s.get("technique", "property-based testing and coverage-guided fuzzing: random structured and guided inputs against an independent GMP reference model"),
        "level": s.get("level", "exploration"),
        "level_note": s.get("note", "Random search with an exact oracle: a violation is found only if a generated case reaches it. "
                            "Trusts GMP, the compiler and the reference model in src/ref.h (written from the definitions)."),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 bin/check.py --setup",
    "checks": checks,
    "not_applicable": registry.NOT_APPLICABLE,
    "notes": "No hooks in /repo: the checks compile /repo's sources with harnesses of their own. Seed and tier come from VERIF_SEED and the "
             "command. One failure again: python3 bin/check.py --replay <file>.",
}
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
