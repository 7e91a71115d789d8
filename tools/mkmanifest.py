#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__)); import plan
NOTE = {"proof": "Verus accepts every obligation of the units named in plan.py, generated from /repo's current source; the remaining links are covered by the bounded stages (labelled bounded in the evidence). Assumed: the contracts of external standard-library shims and everything listed under trusted_base.",
        "exploration": "Bounded: random and enumerated inputs against an independent reference; not a proof.",
        "translation_validation": "Translation validation: the tables the generator builds (every generated grammar and gram.y) are given to a checker whose soundness (true only if the tables are those of the LALR(1) construction with yacc's conflict rules) is proved by Verus, and are also compared entry by entry with an independent construction. Not a proof for all grammars: the generator's own functions are not under contract here."}
checks = []
for p, d in sorted(plan.PLAN.items()):
    checks.append({"property": p, "quick_cmd": "python3 run.py --property %s --tier quick" % p, "thorough_cmd": "python3 run.py --property %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p, "technique": d.get("technique", "contract-based deductive verification (Verus) of the extracted functions, plus bounded replay" if d["units"] else "bounded replay against an independent reference (stand-in)"), "level": d["level"], "level_note": d.get("note", NOTE[d["level"]])})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "hooks": {"guard": "verif_hooks", "enable": "RUSTFLAGS=\"--cfg verif_hooks\"", "source_commits": ["5a56863"]}, "checks": checks, "not_applicable": plan.NOT_APPLICABLE if hasattr(plan, "NOT_APPLICABLE") else []}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
