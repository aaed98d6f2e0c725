"""C09, C21: result indices, and averages over the repetitions, on the real code and real files"""
from pathlib import Path
from types import SimpleNamespace as NS

import numpy as np

from .base import Bad, harness, need, need_close, need_equal
from .h_hdf import raw
from .h_store import dataset, fit, params

LIM = [["radius", 1.0, 9.0]]


def onefit(index, rep, data, n=4, iters=6, m=5):
    return dict(n=n, seed=rep + 7, lim=LIM, static={}, dtype="fast", name="mcsas_sphere", rep=rep, index=index, iters=iters,
                maxAccept=None, m=m, conv=1e-9, data=data)


def ranges(rows):
    import pandas
    return pandas.DataFrame([dict(parameter="radius", autoRange=bool(r[0]), presetRangeMin=float(r[1]), presetRangeMax=float(r[2]),
                                  nBin=int(r[3]), binScale=r[4], binWeighting="vol") for r in rows])


def kept(core):
    """what was stored of a fit (a run may go on with the same objects)"""
    o, m = core._opt, core._model
    return NS(_opt=NS(x0=np.array(o.x0), accepted=o.accepted, step=o.step, repetition=o.repetition),
              _model=NS(parameterSet=m.parameterSet.copy(), seed=m.seed))


# ------------------------------------------------------------------ C09
def gen9(rng):
    ix = [int(x) for x in rng.choice([0, 1, 2, 10, 11, 12], 3, replace=False)]
    ops = []
    for _ in range(int(rng.integers(2, 8))):
        ops.append([str(rng.choice(["data", "core", "core", "run", "hist", "hist", "read", "read"])), int(rng.choice(ix)),
                    int(rng.choice([0, 1, 2, 10])), int(rng.integers(10 ** 6)), bool(rng.integers(2))])
    return dict(ops=ops, bad=["int", -1] if rng.integers(2) else [["float", 1.5], ["float", 2.0], ["str", "1"], ["int", -7],
                                                               ["float", float("nan")]][int(rng.integers(5))])


@harness("C09", gen9, rule="up to 7 operations (store a dataset or a fit, run, histogram, restore) under up to 3 indices in one "
         "file, which holds other content, too; the content of the whole file is compared after each",
         fixed=[dict(ops=[["data", 2, 0, 5, True], ["core", 1, 0, 1, True], ["core", 11, 0, 2, True], ["hist", 1, 0, 0, True], ["run", 2, 0, 3, True],
                          ["hist", 2, 0, 0, False], ["hist", 11, 0, 0, True], ["read", 1, 0, 0, True], ["read", 11, 0, 0, True],
                          ["read", 2, 0, 0, True], ["run", 1, 0, 4, False]], bad=["int", -1])])
def indices(case):
    import h5py
    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_core import McCore
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_hat import McHat
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt
    f = Path("r.h5")
    with h5py.File(f, "w") as h:
        h["other/data"] = [1.0, 2.0]
        h["analyses/note"] = "keep"
        h["other"].attrs["default"] = "data"
    sets, fits, dat = {}, {}, {}
    for op, n, rep, seed, flag in case["ops"]:
        before = raw(f)
        writes = op in ("data", "core", "run") or op == "hist" and flag
        d = onefit(n, rep, seed)
        if op == "data":
            o = dataset(dict(n=6, seed=seed, k={}, file="", extra=False, ints=False), n)
            o.store(f)
            sets[n] = o
        elif op == "core":
            if fits.get(n):
                if n in dat:
                    d["data"] = dat[n]
                d["seed"] = list(fits[n].values())[0][0]._model.seed
            core, md = fit(d)
            core.store(f)
            fits.setdefault(n, {})[rep] = core, md
            dat[n] = d["data"]
        elif op == "run":
            if any(r > 1 for r in fits.get(n, {})):
                continue        # repetitions of other runs stay (C13)
            rng = np.random.default_rng(seed)
            q = np.geomspace(0.02, 1, 5)
            I = 10 ** rng.uniform(-1, 3, 5)
            md = dict(Q=[q], I=I, ISigma=0.1 * I)
            got = []
            st = McCore.store
            McCore.store = lambda self, *a, **k: (got.append(kept(self)), st(self, *a, **k))[1]
            # the index: of the object, or of the call
            hat = McHat(fitParameterLimits={"radius": [1.0, 9.0]}, staticParameters={"sld": 3.0, "sld_solvent": 1.0},
                        modelName="mcsas_sphere", nRep=2, nCores=1, nContrib=4, maxIter=5, convCrit=1e-9, seed=3,
                        resultIndex=n if flag else n + 1)
            try:
                hat.run(md, f, **({} if flag else dict(resultIndex=n)))
            finally:
                McCore.store = st
            need(len(got) == 2, "repetitions stored")
            fits[n] = {c._opt.repetition: (c, md) for c in got}
            dat[n] = None
        elif op in ("hist", "read"):
            if op == "read" and n in sets:
                r = McData1D(loadFromFile=f, resultIndex=n)
                need_equal(r.rawData["I"].to_numpy(), sets[n].rawData["I"].to_numpy(), f"dataset restored under index {n}")
            if not fits.get(n):
                continue
            some = next(iter(fits[n].values()))
            if op == "read":
                for k, (c, md) in fits[n].items():
                    m = McModel(loadFromFile=f, loadFromRepetition=k, resultIndex=n)
                    need_equal(params(m.parameterSet)[1], params(c._model.parameterSet)[1],
                               f"contributions of repetition {k} under index {n}")
                    o = McOpt(loadFromFile=f, loadFromRepetition=k, resultIndex=n)
                    need_equal(o.x0, c._opt.x0, f"optimization of repetition {k} under index {n}")
                    c2 = McCore(md, loadFromFile=f, loadFromRepetition=k, resultIndex=n)
                    need_equal(params(c2._model.parameterSet)[1], params(c._model.parameterSet)[1], f"fit {k} under index {n}")
            else:
                a = McAnalysis(f, some[1], ranges([[0, 1, 9, 3, "linear"], [1, 0, 0, 4, "log"]]), store=flag, resultIndex=n)
                need(sorted(a._repetitionList) == sorted(fits[n]), f"repetitions {a._repetitionList} analysed under index {n}")
                for k, (c, md) in fits[n].items():
                    need_equal([a._concatOpts["accepted"][k], a._concatOpts["step"][k]], [c._opt.accepted, c._opt.step],
                               f"optimization of repetition {k} analysed under index {n}")
                    if md is some[1]:
                        need_close(float(a._concatOpts["scaling"][k]), c._opt.x0[0], f"scaling of repetition {k} under {n}", rtol=1e-3)
        now = raw(f)
        top = f"analyses/MCResult{n}"
        inside = lambda p: p == top or p.startswith(top + "/")
        if not writes:
            need(now == before, f"{op} under index {n} changes the file")
            continue
        for p in before:
            if not inside(p):
                need(now.get(p) == before[p], f"{op} under index {n}: {p} was {before[p]}, is {now.get(p)}"[:300])
        new = [p for p in now if p not in before and not inside(p)]
        need(not new, f"{op} under index {n} writes {new[:4]}")
        need(any(inside(p) for p in now), f"{op} under index {n} writes nothing there")
    kind, x = case["bad"]
    x = {"int": int, "float": float, "str": str}[kind](x)
    before = raw(f)
    md = dict(Q=[np.array([0.1, 0.2])], I=np.array([1.0, 2.0]), ISigma=np.array([0.1, 0.1]))
    for nm, g in (("data", lambda: dataset(dict(n=6, seed=2, k={}, file="", extra=False, ints=False), x)),
                  ("model", lambda: McModel(modelName="mcsas_sphere", nContrib=2, fitParameterLimits={"radius": (1, 2)},
                                            staticParameters={"sld": 3.0, "sld_solvent": 1.0}, resultIndex=x)),
                  ("settings", lambda: McOpt(resultIndex=x)),
                  ("run", lambda: McHat(fitParameterLimits={"radius": [1.0, 9.0]}, staticParameters={}, modelName="mcsas_sphere", nRep=1,
                                        nContrib=2, maxIter=2, resultIndex=x).run(md, f)),
                  ("run with an index", lambda: McHat(fitParameterLimits={"radius": [1.0, 9.0]}, staticParameters={}, modelName="mcsas_sphere",
                                                      nRep=1, nContrib=2, maxIter=2).run(md, f, resultIndex=x)),
                  ("analysis", lambda: McAnalysis(f, md, ranges([[0, 1, 9, 3, "linear"]]), resultIndex=x))):
        try:
            g()
        except Exception:
            need(raw(f) == before, f"refused {nm} with index {x!r} changes the file")
            continue
        raise Bad(f"{nm}: index {x!r} accepted")


# ------------------------------------------------------------------ C21
def gen21(rng):
    reps = [int(x) for x in rng.choice([0, 1, 2, 3, 5, 9, 10, 11, 20, 100], int(rng.integers(1, 6)), replace=False)]
    rows = []
    for _ in range(int(rng.integers(1, 4))):
        lo = float(rng.choice([1.0, 2.0, 0.5]))
        rows.append([bool(rng.integers(3) == 0), lo, float(rng.choice([9.0, 5.0, 20.0])), int(rng.choice([1, 2, 7])),
                     str(rng.choice(["linear", "log"]))])
    if rng.integers(3) == 0:
        rows[0][1:3] = [10.0, 20.0]     # nothing there
    auto = len(reps) > 1 and rng.integers(4) == 0
    if auto:        # bins which may differ between repetitions
        rows.append([False, 1.0, 9.0, 3, "auto"])
    return dict(reps=reps, rows=rows, seed=int(rng.integers(10 ** 6)), n=60 if auto else int(rng.choice([1, 2, 5, 12])), m=int(rng.choice([3, 6])),
                index=int(rng.choice([1, 0, 4])), store=bool(rng.integers(2)), seeds=[int(x) for x in rng.integers(7, 14, len(reps))] if auto else None)


MODES = ["totalValue", "mean", "variance", "skew", "kurtosis"]


def mean_std(x, ddof):
    """of the values that are numbers"""
    x = np.asarray(x, dtype=float)
    x = x[~np.isnan(x)]
    m = sum(x) / len(x) if len(x) else np.nan
    s = np.sqrt(sum((v - m) ** 2 for v in x) / (len(x) - ddof)) if len(x) > ddof else None
    return m, s


def stored(f, n, tab, seps, a):
    """histograms and averages are in the file as they are"""
    import h5py
    with h5py.File(f, "r") as h5:
        g = h5[f"analyses/MCResult{n}"]

        def at(p, want):
            need(p in g, f"{p} is not stored")
            need_close(g[p][()], want, f"stored {p}", rtol=1e-12)
        for i in tab.index:
            top = f"histograms/histRange{i}"
            for k, s in seps.items():
                at(f"{top}/repetition{k}/binEdges", s._binEdges[i])
                at(f"{top}/repetition{k}/hist", s._histDict[i])
                for c in MODES:
                    at(f"{top}/repetition{k}/{c}", float(s._modes.loc[i, c]))
            for c in ("xMean", "xWidth", "yMean", "yStd"):
                at(f"{top}/average/{c}", a._averagedHistograms[i][c].values.astype(float))
            for c in MODES:
                for x in ("valMean", "valStd"):
                    at(f"{top}/average/{c}/{x}", float(a._averagedModes.loc[i][c, x]))
            lo, hi = float(tab.loc[i, "rangeMin"]), float(tab.loc[i, "rangeMax"])
            e = next(iter(seps.values()))._binEdges[i]
            need_close([lo, hi], [e[0], e[-1]], "range noted", rtol=1e-9)
            at(f"{top}/rangeMin", lo)
            at(f"{top}/rangeMax", hi)
        for c in ("scaling", "background", "gof", "accepted", "step"):
            for x in ("valMean", "valStd"):
                at(f"optimization/average/{c}/{x}", float(a.optParAvg[x][c]))
        for c in ("modelIMean", "modelIStd"):
            at(f"optimization/average/{c}", a.modelIAvg[c].values)


@harness("C21", gen21, rule="1-5 repetitions with gaps in their numbers, 1-4 ranges (some without contributions, some with bins "
         "which differ between repetitions); averages recomputed from each repetition",
         fixed=[dict(reps=[0, 1, 2], rows=[[False, 1.0, 9.0, 3, "auto"]], seed=5, n=60, m=4, index=1, store=True, seeds=[8, 9, 7]),
                dict(reps=[5], rows=[[False, 1.0, 9.0, 3, "linear"]], seed=5, n=5, m=4, index=1, store=True, seeds=None),
                dict(reps=[10, 2, 7, 1], rows=[[False, 1.0, 9.0, 3, "linear"], [True, 0.0, 0.0, 2, "log"]], seed=6, n=5, m=4, index=1,
                     store=False, seeds=None)])
def averages(case):
    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model_histogrammer import McModelHistogrammer
    f = Path("r.h5")
    cores, n = {}, case["index"]
    for q, k in enumerate(case["reps"]):
        d = onefit(n, k, case["seed"], n=case["n"], m=case["m"], iters=3 + q)
        if case["seeds"]:       # the contributions as drawn, so automatic bins may be other ones
            d["seed"], d["iters"] = case["seeds"][q], 0
        core, md = fit(d)
        core.store(f)
        cores[k] = core
    tab = ranges(case["rows"])
    # the histograms of each repetition, by themselves (C19, C20)
    seps = {k: McModelHistogrammer(McCore(measData=md, loadFromFile=f, loadFromRepetition=k, resultIndex=n), tab, resultIndex=n)
            for k in cores}
    one = next(iter(seps.values()))
    same = all(np.array_equal(s._binEdges[i], one._binEdges[i]) for s in seps.values() for i in tab.index)
    try:
        a = McAnalysis(f, md, tab, store=case["store"], resultIndex=n)
    except Exception as e:
        if same:
            raise Bad(f"the analysis of {len(cores)} repetitions fails: {type(e).__name__}: {e}")
        return
    need(same, "histograms of different bins are averaged")
    need(sorted(a._repetitionList) == sorted(cores), f"repetitions {a._repetitionList} of {sorted(cores)} are used")
    R = len(cores)
    if case["store"]:
        stored(f, n, tab, seps, a)
    for i in tab.index:
        h = a._averagedHistograms[i]
        e = one._binEdges[i]
        bars = np.array([s._histDict[i] for s in seps.values()])
        need_close(h["yMean"], bars.mean(axis=0), f"bars of range {i}", rtol=1e-9)
        if R > 1:
            need_close(h["yStd"], bars.std(axis=0, ddof=1), f"spread of the bars of range {i}", rtol=1e-7, atol=1e-12 * abs(bars).max())
        need_close(h["xMean"], [(x + y) / 2 for x, y in zip(e, e[1:])], f"centers of range {i}", rtol=1e-9)
        need_close(h["xWidth"], [y - x for x, y in zip(e, e[1:])], f"widths of range {i}", rtol=1e-9)
        for c in MODES:
            xs = [s._modes.loc[i, c] for s in seps.values()]
            m, sd = mean_std(xs, 1)
            row = a._averagedModes.loc[i]
            need_close(float(row[c, "valMean"]), m, f"{c} of range {i}", rtol=1e-9)
            if sd is not None:
                need_close(float(row[c, "valStd"]), sd, f"spread of {c} of range {i}", rtol=1e-7, atol=1e-9 * abs(m))
    loaded = [McCore(measData=md, loadFromFile=f, loadFromRepetition=k, resultIndex=n)._opt for k in cores]
    for c, g in dict(scaling=lambda o: o.x0[0], background=lambda o: o.x0[1], gof=lambda o: o.gof, accepted=lambda o: o.accepted,
                     step=lambda o: o.step).items():
        m, sd = mean_std([g(o) for o in loaded], 1)
        need_close(float(a.optParAvg["valMean"][c]), m, f"average {c}", rtol=1e-9, atol=1e-12)
        if sd is not None:
            need_close(float(a.optParAvg["valStd"][c]), sd, f"spread of {c}", rtol=1e-7, atol=1e-9 * abs(m) + 1e-12)
    I = np.array([o.modelI * o.x0[0] + o.x0[1] for o in loaded])
    need_close(a.modelIAvg["modelIMean"], I.mean(axis=0), "mean intensity", rtol=1e-9)
    need_close(a.modelIAvg["modelIStd"], I.std(axis=0), "spread of the intensity", rtol=1e-6, atol=1e-9 * abs(I).max())
