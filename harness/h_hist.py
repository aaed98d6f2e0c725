"""C19, C20: histograms and statistics of one repetition on the real code"""
import numpy as np

from .base import Bad, harness, need, need_close

COLS = ["parameter", "autoRange", "presetRangeMin", "presetRangeMax", "nBin", "binScale", "binWeighting"]


def gen(rng):
    names = ["radius", "length", "sld"][:int(rng.integers(1, 4))]
    lim = {}
    for n in names:
        lo = float(10 ** rng.uniform(-2, 2))
        lim[n] = [lo, lo * float(rng.choice([1.5, 10, 1e3]))]
    nc = int(rng.choice([1, 2, 3, 10, 60]))
    par = {}
    for n in names:
        lo, hi = lim[n]
        v = np.exp(rng.uniform(np.log(lo), np.log(hi), nc))
        if rng.integers(3) == 0:        # also values on the limits
            v[rng.integers(nc)] = rng.choice([lo, hi])
        if rng.integers(4) == 0:
            v[:] = v[0]
        par[n] = [float(x) for x in v]
    ranges = []
    for _ in range(int(rng.integers(1, 4))):
        p = str(rng.choice(names))
        lo, hi = lim[p]
        a, b = sorted(np.exp(rng.uniform(np.log(lo / 3), np.log(hi * 3), 2)))
        if rng.integers(3) == 0:        # edges on contributions
            v = sorted(par[p])
            a = v[0] if rng.integers(2) else v[len(v) // 2]
            b = max(v[-1], a)
        if rng.integers(6) == 0:
            a, b = hi * 2, hi * 3       # nothing in there
        ranges.append(dict(parameter=p, autoRange=bool(rng.integers(3) == 0), presetRangeMin=float(a),
                           presetRangeMax=float(b if b > a else a * 2), nBin=int(rng.choice([1, 2, 5, 30])),
                           binScale=str(rng.choice(["linear", "log", "auto"], p=[.45, .45, .1])),
                           binWeighting="vol"))
    if rng.integers(3) == 0:
        k, v = [("parameter", "other"), ("binScale", "cubic"), ("binWeighting", "num"), ("nBin", 0),
                ("nBin", -3)][int(rng.integers(5))]
        ranges[int(rng.integers(len(ranges)))][k] = v
    return dict(lim=lim, par=par, ranges=ranges, x0=[float(10 ** rng.uniform(-6, 2)), float(rng.uniform(-1, 1))],
                labels=[int(x) for x in rng.permutation(10)[:len(ranges)]] if rng.integers(3) == 0 else None)


def make(case):
    import pandas
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt
    core, model, opt = (object.__new__(c) for c in (McCore, McModel, McOpt))
    put = object.__setattr__
    df = pandas.DataFrame(case["par"])
    put(model, "parameterSet", df)
    put(model, "fitParameterLimits", {k: list(v) for k, v in case["lim"].items()})
    put(model, "volumes", np.linspace(1.0, 2.0, len(df)))
    put(opt, "x0", np.array(case["x0"]))
    put(core, "_model", model)
    put(core, "_opt", opt)
    return core


def table(case):
    import pandas
    df = pandas.DataFrame([{c: r[c] for c in COLS} for r in case["ranges"]])
    if case["labels"]:
        df.index = case["labels"]
    return df


def build(case):
    """the histogrammer, or None if it refuses; only legal ranges are accepted"""
    from mcsas3.mc_model_histogrammer import McModelHistogrammer
    bad = any(r["parameter"] not in case["par"] or r["binScale"] not in ("linear", "log", "auto")
              or r["binWeighting"] != "vol" or r["nBin"] < 1 for r in case["ranges"])
    try:
        h = McModelHistogrammer(make(case), table(case))
    except Exception as e:
        if not bad:
            raise Bad(f"legal ranges refused: {type(e).__name__}: {e}")
        return None
    need(not bad, f"accepted: {case['ranges']}")
    return h


def each(case):
    lab = case["labels"] or range(len(case["ranges"]))
    for i, r in zip(lab, case["ranges"]):
        lo, hi = case["lim"][r["parameter"]] if r["autoRange"] else (r["presetRangeMin"], r["presetRangeMax"])
        yield i, r, lo, hi, np.array(case["par"][r["parameter"]])


def stored(h, case, rep, what):
    """the histogrammer's file, read back"""
    import h5py
    import tempfile
    from pathlib import Path
    with tempfile.TemporaryDirectory() as d:
        f = Path(d, "r.h5")
        h.store(f, rep)
        with h5py.File(f, "r") as h5:
            def at(p, want):
                need(p in h5, f"{p} is not stored")
                got = h5[p][()]
                if isinstance(want, str):
                    got = got.decode() if isinstance(got, bytes) else str(got)
                    need(got == want, f"stored {p}: {got!r}, expected {want!r}")
                else:
                    need_close(got, want, f"stored {p}", rtol=1e-12)
            for i, r, lo, hi, x in each(case):
                top = f"analyses/MCResult1/histograms/histRange{i}"
                if what == "statistics":
                    for c in ("totalValue", "mean", "variance", "skew", "kurtosis"):
                        at(f"{top}/repetition{rep}/{c}", float(h._modes.loc[i, c]))
                    continue
                for c in ("autoRange", "presetRangeMin", "presetRangeMax", "nBin"):
                    at(f"{top}/{c}", float(r[c]))
                for c in ("parameter", "binScale", "binWeighting"):
                    at(f"{top}/{c}", r[c])
                at(f"{top}/rangeMin", lo)
                at(f"{top}/rangeMax", hi)
                at(f"{top}/repetition{rep}/binEdges", np.asarray(h._binEdges[i]))
                at(f"{top}/repetition{rep}/hist", np.asarray(h._histDict[i]))


COUNT = [0]


def sometimes(h, case, what):
    COUNT[0] += 1
    if COUNT[0] % 30 == 1:
        stored(h, case, COUNT[0] % 5, what)


@harness("C19", gen, rule="random contributions (also on the edges), 1-3 ranges, all scales, illegal settings")
def histograms(case):
    h = build(case)
    if h is None:
        return
    for i, r, lo, hi, x in each(case):
        e, bars = np.asarray(h._binEdges[i]), np.asarray(h._histDict[i])
        if r["binScale"] == "auto":
            want = np.linspace(e[0], e[-1], len(e))
            need_close([e[0], e[-1]], [lo, hi], f"range of {r}")
        else:
            f = np.linspace if r["binScale"] == "linear" else np.geomspace
            want = f(lo, hi, r["nBin"] + 1)
        need_close(e, want, f"bin edges of {r}", rtol=1e-9)
        cnt = [np.sum((x >= a) & ((x <= b) if q == len(e) - 2 else (x < b)))
               for q, (a, b) in enumerate(zip(e[:-1], e[1:]))]
        need_close(bars, np.array(cnt) * case["x0"][0] * 1e-5, f"bars of {r}", rtol=1e-9)
    sometimes(h, case, "histograms")


@harness("C20", gen, rule="random contributions (also equal ones and on the limits), 1-3 ranges, empty ranges")
def statistics(case):
    h = build(case)
    if h is None:
        return
    for i, r, lo, hi, x in each(case):
        s = x[(x >= lo) & (x <= hi)]
        got = {k: float(h._modes.loc[i, k]) for k in ("totalValue", "mean", "variance", "skew", "kurtosis")}
        if not len(s):
            need(all(np.isnan(v) for v in got.values()), f"statistics without a contribution: {got}")
            continue
        mu = s.mean()
        d = s - mu
        var = np.mean(d ** 2)
        need_close(got["totalValue"], len(s) * case["x0"][0] * 1e-5, f"total value of {r}", rtol=1e-9)
        need_close(got["mean"], mu, f"mean of {r}", rtol=1e-9)
        need_close(got["variance"], var, f"variance of {r}", rtol=1e-6, atol=1e-12 * mu ** 2)
        if var > 1e-10 * mu ** 2:
            sg = np.sqrt(var)
            need_close(got["skew"], np.mean(d ** 3) / sg ** 3, f"skewness of {r}", rtol=1e-6, atol=1e-6)
            need_close(got["kurtosis"], np.mean(d ** 4) / sg ** 4, f"kurtosis of {r}", rtol=1e-6)
    sometimes(h, case, "statistics")
