#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import checks
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NOTE = ("Bounded symbolic decision of the real code: every assertion holds for all inputs within the stated bounds (%s). "
        "Trusts Kani/CBMC and the ideal models of the primitives (curve, hashes, AEAD, FF1, signatures, proof system).")
m = dict(version=1,
  setup_cmd="cargo kani --version && cbmc --version",
  hooks=dict(guard="none (no hooks: the harnesses use the public API and cargo features of the crate)",
             enable="nothing to enable", source_commits=[]),
  checks=[dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough",
     technique="Kani/CBMC bounded symbolic execution of the compiled code against a reference formula, SAT",
     level="other", level_note=NOTE % checks.CHECKS[i]["bounds"]) for i in ids if i in checks.CHECKS],
  not_applicable=[dict(property=a, reason=b) for a, b in checks.NOT_APPLICABLE],
  notes="See DESIGN.md.")
for i in ids:
    if i not in checks.CHECKS and i not in [a for a, _ in checks.NOT_APPLICABLE]:
        m["not_applicable"].append(dict(property=i, reason="no check built yet"))
        continue
    assert i in checks.CHECKS or i in [a for a, _ in checks.NOT_APPLICABLE], i
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
