#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a contract file is claimed, the others are listed as not applicable (yet)."""
import json, glob, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(f"{H}/tools/levels.json"))
checks, na = [], []
for l in open(f"{H}/properties.jsonl"):
    p = json.loads(l)["id"]
    n = NOTES.get(p, {})
    if glob.glob(f"{H}/contracts/{p.lower()}_*.cpp"):
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": "contract-based deductive verification: function contracts and loop invariants over the LLVM IR of the real sources, obligations discharged by z3/cvc5; counterexamples replayed on the compiled code",
                       "level": n.get("level", "proof"), "level_note": n.get("note", "see DESIGN.md and the evidence file for what is proved and what is bounded")})
    else:
        na.append({"property": p, "reason": n.get("na", "no contract within reach was completed for this property; see DESIGN.md")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3' && clang++-18 --version >/dev/null && opt-18 --version >/dev/null", "checks": checks, "not_applicable": na,
           "notes": "Every check builds /repo's current sources itself (IR for the proofs, objects for the replays) in a scratch directory it removes."},
          open(f"{H}/MANIFEST.json", "w"), indent=1)
