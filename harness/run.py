"""python -m harness.run --prop C10 --budget 20 --seed 1 --json out ; --replay file"""
import argparse
import json
import os
import sys
import time
import traceback

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
import numpy as np  # noqa: E402

from . import base  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--name")
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--max", type=int, default=100000)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--nofixed", action="store_true")
    ap.add_argument("--json")
    ap.add_argument("--replay")
    a = ap.parse_args()
    base.load_all()
    if a.replay:
        d = json.load(open(a.replay))
        if "case" not in d:
            print("no failing input in this file: the failed obligation is\n" +
                  json.dumps(d.get("obligations"), indent=1))
            return 0
        h = [h for h in base.REG[d["property"]] if h.name == d["harness"]][0]
        m = base.run_case(h, d["case"])
        print("still violated: " + m if m else "not violated")
        return 1 if m else 0
    out = dict(property=a.prop, evaluations=0, distinct=0, violations=[], errors=[], samples=[],
               harnesses=[], rules=[])
    hs = [h for h in base.REG.get(a.prop, []) if not a.name or a.name in h.name]
    tot = sum(h.weight for h in hs) or 1
    for h in hs:
        rng = np.random.default_rng([a.seed, sum(map(ord, h.name))])
        end = time.time() + a.budget * h.weight / tot
        n, seen, nv = 0, set(), 0
        out["harnesses"].append(h.name)
        if h.rule:
            out["rules"].append(f"{h.name}: {h.rule}")
        fixed = [] if a.nofixed else list(h.fixed)
        while n < a.max and (fixed or n == 0 or time.time() < end):
            try:
                case = base.jsonable(fixed.pop(0) if fixed else h.gen(rng))
                case = json.loads(json.dumps(case))
                key = json.dumps(case, sort_keys=True)
                msg = base.run_case(h, case)
            except Exception as e:
                out["errors"].append(f"{h.name}: {type(e).__name__}: {e}\n" +
                                     traceback.format_exc()[-1500:])
                if len(out["errors"]) >= 3:
                    break
                n += 1
                continue
            n += 1
            seen.add(key)
            if len(out["samples"]) < 3 and n <= 1:
                out["samples"].append(dict(harness=h.name, case=key[:600]))
            if msg:
                out["violations"].append(dict(harness=h.name, case=case, message=msg))
                nv += 1
                if nv >= 1:
                    break
        out["evaluations"] += n
        out["distinct"] += len(seen)
    if a.json:
        json.dump(out, open(a.json, "w"), indent=1)
    for v in out["violations"]:
        print("VIOLATED", v["harness"], v["message"][:400])
    for e in out["errors"]:
        print("ERROR", e)
    print(f"{a.prop}: {out['evaluations']} evaluations, {len(out['violations'])} violations")
    return 0


if __name__ == "__main__":
    sys.exit(main())
