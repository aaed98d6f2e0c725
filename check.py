#!/usr/bin/env python3
"""The check of one property:  check.py C10 [--tier quick|thorough]

1. every verification task (VC) registered for the property is discharged by the verifier (dv/) from
   the current source in /repo/src;
2. the same contracts are evaluated at run time on the real code (harness/): that gives the failing
   input for a refuted obligation, and a bounded stand-in where the verifier is undecided.

exit 0: held; exit 1 + VIOLATION line: broken; exit 3: no answer."""
import argparse
import concurrent.futures as cf
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "python3-vt"
RT = os.environ.get("DV_REAL_PYTHON", "/opt/venv/bin/python")
SRC = os.environ.get("DV_REPO_SRC", "/repo/src")
ENV = dict(os.environ, DV_REPO_SRC=SRC, PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
PREF = re.compile(r"^((?:C\d\d,?)+)[.]")


def run(cmd, limit):
    p = subprocess.Popen(cmd, cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return 124, out


def verify(names, demoted, tier, tmp, workers):
    """run the VCs, each in a process of its own"""
    per = 150 if tier == "quick" else 1200
    tmo = 20000 if tier == "quick" else 120000

    def one(n):
        out = os.path.join(tmp, re.sub(r"\W+", "_", n) + ".json")
        cmd = [VT, "-m", "dv.main", "--exact", n, "--json", out, "--budget", str(per),
               "--timeout", str(tmo)]
        for d in demoted:
            cmd += ["--demote", d]
        rc, o = run(cmd, per + 60)
        try:
            return json.load(open(out))[0]
        except Exception:
            return dict(vc=n, props=[], functions=[], helper=None, obligations=[], n=0, covers={},
                        vacuous=[], error=f"verifier ended with {rc}: {o[-800:]}", paths=0,
                        queries=0, solver_secs=0, secs=0, used=[], own=None)
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(one, names))


def is_proved(r):
    return (not r["error"] and r["n"] > 0 and not r["vacuous"] and r["covers"]
            and all(o["status"] == "proved" for o in r["obligations"]))


def concerns(prop, r, name):
    """is this obligation part of the statement of the property (or only a lemma for it)?"""
    m = PREF.match(name)
    if m:
        return prop in m.group(1).split(",")
    return r.get("own") is None or prop in r["own"]


def search(prop, seconds, seed, tmp, procs, tag):
    def one(k):
        out = os.path.join(tmp, f"h_{tag}_{k}.json")
        rc, o = run([RT, "-m", "harness.run", "--prop", prop, "--budget", str(seconds), "--seed",
                     str(seed * 1000 + k), "--json", out] + (["--nofixed"] if k else []),
                    seconds * 3 + 120)
        try:
            return json.load(open(out))
        except Exception:
            return dict(evaluations=0, distinct=0, violations=[], samples=[], rules=[],
                        errors=[f"run-time side ended with {rc}: {o[-1500:]}"])
    with cf.ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(one, range(procs)))
    t = dict(evaluations=sum(r["evaluations"] for r in rs), distinct=sum(r["distinct"] for r in rs),
             violations=[x for r in rs for x in r["violations"]], samples=rs[0]["samples"],
             errors=[x for r in rs for x in r["errors"]], rules=rs[0]["rules"])
    return t


def known_findings(prop):
    """lines 'known: property=Cnn <id> <text>' (id is produced by the run-time side)"""
    out = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mcsas_check_")
    try:
        return check(prop, tier, seed, t0, evdir, tmp)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seed, t0, evdir, tmp):
    ncpu = os.cpu_count() or 4
    rc, o = run([VT, "-m", "dv.main", "--list", "--prop", prop], 120)
    try:
        listing = json.loads(o.strip().splitlines()[-1])
    except Exception:
        print("the verifier does not start:", o[-2000:])
        return 3
    secs = 15 if tier == "quick" else 240
    hp = 2 if tier == "quick" else 4
    pool = cf.ThreadPoolExecutor(1)
    fut = pool.submit(search, prop, secs, seed, tmp, hp, "a")
    helpers = [v["name"] for v in listing if v["helper"]]
    rest = [v["name"] for v in listing if not v["helper"]]
    workers = max(2, ncpu - hp)
    res = verify(helpers, [], tier, tmp, workers) if helpers else []
    demoted = [v["helper"] for v in listing if v["helper"] and not
               is_proved([r for r in res if r["vc"] == v["name"]][0])]
    res2 = verify(rest, demoted, tier, tmp, workers)
    conc = fut.result()
    vcs = res + res2
    refuted, undecided, nobl, ndis = [], [], 0, 0
    for r in vcs:
        nobl += r["n"]
        for ob in r["obligations"]:
            bad = ob["status"] != "proved"
            ndis += ob["count"] if not bad else 0
            if not bad:
                continue
            if ob["status"] == "refuted" and not r["helper"] and concerns(prop, r, ob["name"]):
                refuted.append(dict(vc=r["vc"], functions=r["functions"], **ob))
            else:
                undecided.append(f"{r['vc']}: {ob['name']} ({ob['status']})")
        if r["error"]:
            undecided.append(f"{r['vc']}: {r['error'][:600]}")
        elif r["n"] == 0:
            undecided.append(f"{r['vc']}: no obligations")
        for c in r["vacuous"]:
            undecided.append(f"{r['vc']}: not reachable: {c}")
    extended = 0
    if (refuted or undecided) and not conc["violations"] and not conc["errors"]:
        # look longer for the failing input
        extended = (60 if refuted else 20) if tier == "quick" else 300
        c2 = search(prop, extended, seed + 7, tmp, max(4, ncpu - 2), "b")
        for k in ("evaluations", "distinct"):
            conc[k] += c2[k]
        conc["violations"] += c2["violations"]
        conc["errors"] += c2["errors"]
    known = known_findings(prop)
    kid = {k for k, _ in known}
    hit = {v.get("id") for v in conc["violations"]}
    viol = [v for v in conc["violations"] if v.get("id") not in kid or not v.get("id")]
    for k, text in known:
        print(f"KNOWN-FINDING: property={prop} {text}" + ("" if k in hit else " (not seen)"))
    meta = json.load(open(os.path.join(HERE, "contracts", "assumptions.json")))
    pm = meta.get(prop, {})
    line = None
    path = os.path.join(evdir, f"{prop}.replay.json")
    if os.path.exists(path):
        os.remove(path)
    if viol:
        v = viol[0]
        json.dump(dict(property=prop, harness=v["harness"], case=v["case"], message=v["message"],
                       obligations=refuted,
                       how=f"cd {HERE} && {RT} -m harness.run --replay {path}"),
                  open(path, "w"), indent=1)
        print(f"broken: {v['message']}")
        for ob in refuted[:5]:
            print(f"failed obligation: {ob['vc']}: {ob['name']} {ob['detail'][:200]}")
        line = f"VIOLATION property={prop} replay={path}"
    elif refuted:
        json.dump(dict(property=prop, obligations=refuted, searched=conc["evaluations"]),
                  open(path, "w"), indent=1)
        for ob in refuted[:5]:
            print(f"failed obligation: {ob['vc']}: {ob['name']} {ob['detail'][:300]}")
        line = f"VIOLATION property={prop} replay={path} no-failing-input-found"
    full = bool(vcs) and not undecided and not refuted
    funcs = sorted({f for r in vcs for f in r["functions"]})
    ev = dict(
        property=prop, tier=tier, seed=seed, level="proof",
        coverage=dict(
            obligations=nobl, discharged=ndis,
            checker_cmd=f"cd {HERE} && {VT} -m dv.main --prop {prop} -v",
            trusted_base=meta["_trusted"] + pm.get("trusted", []),
            result="every obligation discharged" if full else
            ("violated" if line else "undecided by the verifier; bounded run-time check only"),
            functions_under_contract=funcs,
            vcs=[dict(vc=r["vc"], helper=r["helper"], obligations=r["n"], proved=is_proved(r) and True,
                      paths=r["paths"], queries=r["queries"], solver_s=r["solver_secs"],
                      covers=r["covers"], helper_contracts_used=r["used"]) for r in vcs],
            obligation_names=sorted({f"{r['vc']}: {o['name']}" for r in vcs
                                     for o in r["obligations"]})[:400],
            back_ends=sorted({b for r in vcs for o in r["obligations"] for b in o["backends"]}),
            solver_s=round(sum(r["solver_secs"] for r in vcs), 2),
            undecided=undecided,
            evaluations=conc["evaluations"], distinct_nontrivial=conc["distinct"],
            rule="run-time side: " + ("; ".join(conc["rules"]) or "none"),
            samples=conc["samples"], runtime_errors=conc["errors"][:5],
            bounded=pm.get("bounded", []) + (["whole property, on the evaluations above"]
                                             if undecided else []),
            extended_search_s=extended),
        assumptions=meta["_assumptions"] + pm.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=len(viol) or (1 if refuted else 0))
    json.dump(ev, open(os.path.join(evdir, f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {ndis}/{nobl} obligations discharged in {len(vcs)} VCs over {len(funcs)} "
          f"functions, {conc['evaluations']} run-time evaluations, {ev['wall_s']} s")
    for u in undecided[:10]:
        print("undecided:", u[:400])
    for e in conc["errors"][:3]:
        print("run-time side error:", e[:1500])
    if line:
        print(line)
        return 1
    if full or (conc["evaluations"] and not conc["errors"]):
        return 0
    return 3


if __name__ == "__main__":
    sys.exit(main())
