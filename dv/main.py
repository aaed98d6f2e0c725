"""verifier entry point: python3-vt -m dv.main [--prop C10 | --vc NAME] [--json out]"""
import argparse
import importlib
import json
import os
import pkgutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from dv import instrument  # noqa: E402
from dv.stubs import simple  # noqa: E402

simple.install_all()
instrument.install()


def load_contracts():
    import contracts
    for m in pkgutil.iter_modules(contracts.__path__):
        if m.name.endswith("_c"):
            importlib.import_module("contracts." + m.name)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--vc")
    ap.add_argument("--exact")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--demote", action="append", default=[])
    ap.add_argument("--json")
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--timeout", type=int, default=20000)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    load_contracts()
    from dv.contract import REGISTRY, proved, run_vc
    if a.list:
        print(json.dumps([dict(name=v.name, helper=v.helper, functions=v.functions)
                          for v in REGISTRY.values() if not a.prop or a.prop in v.props]))
        return
    vcs = [v for v in REGISTRY.values() if (not a.prop or a.prop in v.props)
           and (not a.vc or a.vc in v.name) and (not a.exact or a.exact == v.name)]
    out = []
    for v in vcs:
        r = run_vc(v, a.demote, timeout_ms=a.timeout, budget=a.budget)
        out.append(r)
        print(f"{'PROVED' if proved(r) else 'not proved':10} {r['vc']}: {r['n']} obligations, "
              f"{r['paths']} paths, {r['queries']} queries, {r['secs']} s, covers {r['covers']}")
        if r["error"]:
            print("   error:", r["error"])
        for o in r["obligations"]:
            if o["status"] != "proved":
                print("  ", o["status"], o["name"], o["detail"][:300])
                if a.v:
                    print("      goal:", o.get("goal"))
                    print("      model:", o["model"])
    if a.json:
        json.dump(out, open(a.json, "w"), indent=1)


if __name__ == "__main__":
    main()
