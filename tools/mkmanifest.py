#!/usr/bin/env python3
"""writes /verif/MANIFEST.json; the claimed properties are those with contracts and a harness"""
import json
import os
import subprocess

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
NOTES = json.load(open(f"{here}/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i)
    if not n or "na" in n:
        na.append(dict(property=i, reason=(n or {}).get("na", "not built yet")))
        continue
    checks.append(dict(
        property=i, quick_cmd=f"python3 check.py {i} --tier quick",
        thorough_cmd=f"python3 check.py {i} --tier thorough",
        technique="contract-based deductive verification of the real Python functions (own VC "
                  "generator over the instrumented source, z3/cvc5), with the contracts replayed "
                  "on the real code for a failing input",
        level="proof", level_note=n["note"]))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the verifier instruments the AST of the current source at import. "
               "See DESIGN.md; fixed defects in KNOWN_FINDINGS.txt.")
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
