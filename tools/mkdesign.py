"""DESIGN.md = tools/design_head.md + the per-property part (from properties, notes, contracts, seeds)
+ tools/design_tail.md.   python3-vt tools/mkdesign.py"""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
sys.path.insert(0, HERE)
from dv import main as m  # noqa: E402

m.load_contracts()
from dv.contract import REGISTRY  # noqa: E402

notes = json.load(open("tools/notes.json"))
ass = json.load(open("contracts/assumptions.json"))
props = [json.loads(x) for x in open("properties.jsonl")]

seeds, fixes = {}, {}
for f in sorted(glob.glob("seeded/*/meta.json")):
    s = json.load(open(f))
    seeds.setdefault(s["property"], []).append((f.split("/")[1], s["needs"]))
for x in open("KNOWN_FINDINGS.txt"):
    if x.startswith("fixed: property="):
        p, c, t = x[len("fixed: property="):].strip().split(" ", 2)
        fixes.setdefault(p, []).append((c, t))
out = [open("tools/design_head.md").read().rstrip(), ""]
for p in props:
    i = p["id"]
    n = notes.get(i, {})
    out += [f"### {i} {p['title']}", ""]
    if "na" in n:
        out += ["Not applicable: " + n["na"] + ".", ""]
        continue
    out += [n.get("note", ""), ""]
    vs = [v for v in REGISTRY.values() if i in v.props]
    out += ["Verification tasks: " + "; ".join(
        f"`{v.name}`" + (f" (contract `{v.helper}` used by callers)" if v.helper else "") for v in vs) + ".", ""]
    fs = sorted({f for v in vs for f in v.functions})
    out += ["Functions under contract: " + ", ".join(f"`{f.replace('mcsas3.', '', 1)}`" for f in fs) + ".", ""]
    a = ass.get(i, {})
    if a.get("assumptions"):
        out += ["Assumed: " + "; ".join(a["assumptions"]) + ".", ""]
    if a.get("bounded"):
        out += ["Bounded: " + "; ".join(a["bounded"]) + ".", ""]
    if i in fixes:
        out += ["Defects found and repaired: " + "; ".join(f"{c} ({t})" for c, t in fixes[i]) + ".", ""]
    if i in seeds:
        out += [f"Seeded changes, caught by this check: " + "; ".join(f"`{s}` ({t})" for s, t in seeds[i]) + ".", ""]
out += [open("tools/design_tail.md").read().rstrip(), ""]
open("DESIGN.md", "w").write("\n".join(out))
