"""C17, C18 on the real code: whole runs with the internal sphere model"""
import multiprocessing
import os
import signal
import time
from pathlib import Path

import numpy as np

from .base import Bad, harness, need, need_close, need_equal


def data(q, seed=0):
    rng = np.random.default_rng(seed)
    q = np.asarray(q, float)
    i = 1 / (1 + (q * 20) ** 4) + 0.01
    return dict(Q=[q], I=i, ISigma=0.01 * i + 1e-6 * rng.uniform(size=q.size))


def gen18(rng):
    names = [str(x) for x in rng.permutation(["radius", "sld", "sld_solvent", "scale"])[:int(rng.integers(1, 4))]]
    lim = {}
    for k in names:
        r = rng.integers(10)
        lim[k] = "auto" if r < 4 else [float(rng.uniform(0.1, 1)), float(rng.uniform(1, 9))] if r < 9 else str(
            rng.choice(["Auto", "automatic", "", "none", " auto"]))
    dim = int(rng.integers(1, 3))
    m = int(rng.choice([1, 2, 5, 30]))
    Q = [np.exp(rng.uniform(-6, 1, m)) for _ in range(dim)]
    r = rng.integers(8)
    if r == 0:
        Q[-1][rng.integers(m)] = 0.0
    elif r == 1:
        Q[0][rng.integers(m)] = -0.3
    return dict(lim=lim, Q=[q.tolist() for q in Q], run=bool(rng.integers(8) == 0))


@harness("C18", gen18, rule="1-4 fit parameters with given, automatic or textual limits; 1-D and 2-D Q with "
         "zero and negative values; some with a whole run")
def auto_limits(case):
    import copy
    from mcsas3.mc_hat import McHat
    from mcsas3 import mc_hat
    lim = copy.deepcopy(case["lim"])
    Q = [np.array(q) for q in case["Q"]]
    md = dict(Q=Q, I=np.ones(Q[0].size), ISigma=np.ones(Q[0].size) * 0.1)
    lo, hi = min(q.min() for q in Q), max(q.max() for q in Q)
    bad = any(isinstance(x, str) and x != "auto" for x in lim.values()) or (
        "auto" in lim.values() and lo <= 0)
    h = McHat(fitParameterLimits=lim, staticParameters={}, modelName="mcsas_sphere", nRep=1, nCores=1,
              nContrib=3, maxIter=2)
    seen = []
    try:
        if case["run"]:
            old = mc_hat.McHat.runOnce
            mc_hat.McHat.runOnce = lambda self, *a, **k: seen.append(1)
            try:
                h.run(md, Path("out.h5"))
            finally:
                mc_hat.McHat.runOnce = old
        else:
            h.fillFitParameterLimits(md)
        refused = False
    except (AssertionError, ValueError, TypeError):
        refused = True
    need(lim == case["lim"], f"the caller's limits are changed to {lim}")
    need_equal([q.tolist() for q in Q], case["Q"], "the data are changed")
    need(refused == bad, f"{'refused' if refused else 'accepted'}: limits {case['lim']}, Q from {lo} to {hi}")
    if bad:
        need(not seen, "a repetition is run although the settings are refused")
        return
    cur = h._modelArgs["fitParameterLimits"]
    need(sorted(cur) == sorted(lim), f"limits for {sorted(cur)}")
    for k, x in lim.items():
        if x == "auto":
            need_close(list(cur[k]), [np.pi / hi, np.pi / lo], f"auto limits of {k}", rtol=1e-12)
        else:
            need(list(cur[k]) == list(x), f"limits of {k} changed from {x} to {cur[k]}")


def gen17(rng):
    seed = [None, 0, 5, "default"][int(rng.integers(4))]
    n = int(rng.choice([1, 2, 3, 5, 9, 11]))
    return dict(n=n, cores=int(rng.choice([0, 1, 1, 2, 3])), seed=seed,
                fail=int(rng.integers(n)) if rng.integers(3) == 0 else None,
                index=int(rng.choice([1, 2])), log=bool(rng.integers(2)),
                machine=[None, None, 1, 2][int(rng.integers(4))])


def on_alarm(*a):
    raise Bad("the run does not end (deadlock?)")


@harness("C17", gen17, weight=1.0, rule="runs with 1-11 repetitions, serial and with 2-3 processes, with and "
         "without a seed, with a failing store", fixed=[
             dict(n=5, cores=2, seed=5, fail=None, index=1, log=False),
             dict(n=4, cores=1, seed=5, fail=1, index=1, log=False),
             dict(n=2, cores=0, seed=5, fail=None, index=1, log=False, machine=1),
             dict(n=11, cores=2, seed="default", fail=3, index=2, log=False)])
def repetitions(case):
    import h5py
    from mcsas3 import mc_core, mc_hat
    from mcsas3.mc_hat import McHat
    n, out, mark = case["n"], Path("out.h5").resolve(), Path("mark").resolve()
    n0 = mc_core.McCore.store
    o0 = mc_core.McCore.optimize
    log = Path("log").resolve()
    par = case["cores"] != 1 and n > 1 and (case["cores"] or case.get("machine") != 1)

    def note(s):
        fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.write(fd, (s + "\n").encode())
        os.close(fd)

    def optimize(self, *a, **k):
        r = int(self._opt.repetition)
        ps = self._model.parameterSet
        if r == 0:
            note(f"seed {self._model.seed}")
        note(f"opt {r} {','.join(repr(float(x)) for x in np.ravel(ps.values))}")
        if par:
            time.sleep(0.01 * (r % 3))
        return o0(self, *a, **k)

    def store(self, *a, **k):
        if par:
            lk = mc_hat.STORE_LOCK
            if lk is None or lk.acquire(block=False):
                note("unlocked")
                if lk is not None:
                    lk.release()
        try:
            fd = os.open(mark, os.O_CREAT | os.O_EXCL)
            os.close(fd)
        except FileExistsError:
            note("overlap")
            return n0(self, *a, **k)
        try:
            if par:
                time.sleep(0.01)
            if case["fail"] == self._opt.repetition:
                raise OSError("no space left")
            return n0(self, *a, **k)
        finally:
            os.unlink(mark)
    kw = {} if case["seed"] == "default" else dict(seed=case["seed"])
    h = McHat(fitParameterLimits={"radius": [0.5, 50.0]}, staticParameters={}, modelName="mcsas_sphere",
              nRep=n, nCores=case["cores"], nContrib=4, maxIter=6, maxAccept=2, convCrit=0.0,
              resultIndex=case["index"], **kw)
    md = data(np.logspace(-2, 0, 12))
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(60)
    mc_core.McCore.store, mc_core.McCore.optimize = store, optimize
    counts = [(m, m.cpu_count) for m in (multiprocessing, os)]
    if case.get("machine"):
        for m, _ in counts:
            m.cpu_count = lambda: case.get("machine")
    ok = True
    try:
        try:
            h.run(md, out)
        except OSError:
            ok = False              # passed on to the caller
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        mc_core.McCore.store, mc_core.McCore.optimize = n0, o0
        for m, c in counts:
            m.cpu_count = c
        for p in multiprocessing.active_children():
            p.terminate()
    need(ok or case["fail"] is not None, "the run fails")
    lines = log.read_text().split("\n")[:-1]
    need("overlap" not in lines, "two processes write the result file at the same time")
    need("unlocked" not in lines, "the result file is written without holding the common lock")
    runs = [l.split() for l in lines if l.startswith("opt")]
    if not ok:
        return
    need(sorted(int(r[1]) for r in runs) == list(range(n)),
         f"repetitions optimized: {sorted(int(r[1]) for r in runs)} of {n}")
    from mcsas3.mc_model import McModel
    seed = McModel.seed if case["seed"] == "default" else case["seed"]
    need([l for l in lines if l.startswith("seed")] == [f"seed {seed}"],
         f"the first repetition uses {[l for l in lines if l.startswith('seed')]}, the seed set is {seed}")
    vals = {r[2]: r[1] for r in runs}
    need(len(vals) == n, "repetitions start from the same contributions")
    got = []
    if out.exists():
        with h5py.File(out, "r") as f:
            g = f.get(f"analyses/MCResult{case['index']}/model")
            got = sorted(int(k[len("repetition"):]) for k in g or () if k.startswith("repetition"))
    want = [r for r in range(n) if r != case["fail"]]
    need([g for g in got if g != case["fail"]] == want, f"repetitions stored: {got}, wanted {want}")
