"""C06, C08, C09: storing and restoring datasets and fits on the real code and real files"""
from pathlib import Path

import numpy as np

from .base import Bad, harness, need, need_close, need_equal
from .h_hdf import raw


def same_value(a, b, what):
    """a restored setting against the original one"""
    if isinstance(b, dict):
        need(isinstance(a, dict) and set(a) == set(b), f"{what}: {a!r} instead of {b!r}")
        for k in b:
            same_value(a[k], b[k], f"{what}[{k!r}]")
    elif b is None or isinstance(b, (str, Path)):
        need(a == b and (b is None) == (a is None), f"{what}: {a!r} instead of {b!r}")
    else:
        need(a is not None and not isinstance(a, (str, bytes)), f"{what}: {a!r} instead of {b!r}")
        try:
            x, y = np.array(a), np.array(b)
        except ValueError:
            raise Bad(f"{what}: {a!r} instead of {b!r}")
        need(x.shape == y.shape and bool(np.all((x == y) | ((x != x) & (y != y)))),
             f"{what}: {a!r} instead of {b!r}")


# ------------------------------------------------------------------ C06
def gend(rng):
    def one():
        n = int(rng.integers(3, 12))
        k = {}
        if rng.integers(2):
            k["nbins"] = int(rng.choice([0, 1, 3, 10]))
        if rng.integers(2):
            k["dataRange"] = [[-np.inf, np.inf], [0.05, 2.0], [0.0, 0.7]][int(rng.integers(3))]
        if rng.integers(2):
            k["qNudge"] = float(rng.choice([0.0, 0.01, -0.02]))
        if rng.integers(2):
            k["omitQRanges"] = [[], [[0.2, 0.3]], [[0.11, 0.15], [0.4, 0.5]]][int(rng.integers(3))]
        if rng.integers(2):
            k["IEmin"] = float(rng.choice([0.0, 0.02, 0.3]))
        if rng.integers(2):
            k["measDataLink"] = str(rng.choice(["rawData", "clippedData", "binnedData"]))
        if rng.integers(3) == 0:
            k["csvargs"] = [{}, {"sep": ";"}, {"sep": ";", "header": None, "names": ["Q", "I", "ISigma"]},
                            {"sep": ",", "skiprows": 3, "comment": None, "usecols": [0, 1, 2]}][int(rng.integers(4))]
        if rng.integers(3) == 0:
            k["pathDict"] = [{}, {"Q": "/e/Q", "I": "/e/I", "ISigma": "/e/s"}][int(rng.integers(2))]
        if rng.integers(3) == 0:
            k["loader"] = str(rng.choice(["from_pandas", "from_csv", "from_pdh"]))
        return dict(n=n, seed=int(rng.integers(10 ** 6)), k=k, index=int(rng.choice([0, 1, 2, 12])),
                    file=str(rng.choice(["", "a.csv", "sub dir/é.dat"])), extra=bool(rng.integers(2)),
                    ints=bool(rng.integers(4) == 0))
    return dict(sets=[one() for _ in range(int(rng.integers(1, 4)))], sameindex=bool(rng.integers(2)))


KEYS = ("dataRange", "qNudge", "omitQRanges", "nbins", "IEmin", "measDataLink", "loader", "filename", "pathDict",
        "csvargs", "binning")


def dataset(d, index):
    import pandas
    from mcsas3.mc_data_1d import McData1D
    rng = np.random.default_rng(d["seed"])
    q = np.sort(rng.uniform(0.05, 1, d["n"]))
    df = dict(Q=q, I=10 ** rng.uniform(-2, 2, d["n"]), ISigma=10 ** rng.uniform(-3, 0, d["n"]))
    if d["extra"]:
        df["QSigma"] = q * 0.02
    df = pandas.DataFrame(df)
    if d["seed"] % 3 == 0:
        df.loc[1] = df.loc[0]         # a repeated datapoint
        df.loc[2, "ISigma"] = np.nan
    if d["ints"]:
        df.index = np.arange(d["n"]) + 7
    k = dict(d["k"])
    if d["file"]:
        f = Path(d["file"])
        f.parent.mkdir(exist_ok=True)
        if d["seed"] % 2:       # the source still exists, perhaps with other content by now
            f.write_text("".join(f"{0.05 * (i + 1)} {i + 1}.5 0.25\n" for i in range(9)))
        k["filename"] = f
    return McData1D(df=df, resultIndex=index, **k)


@harness("C06", gend, fixed=[
    dict(sets=[dict(n=9, seed=1, k=dict(omitQRanges=[[0.2, 0.5]], dataRange=[0.1, 0.8], pathDict={"Q": "a"}), index=1,
                    file="a.csv", extra=False, ints=False),
               dict(n=9, seed=1, k=dict(csvargs={"sep": ";"}), index=1, file="", extra=False, ints=False)],
         sameindex=True)],
    rule="up to 3 datasets stored in one file, under the same or different indices, then restored")
def dataset_roundtrip(case):
    from mcsas3.mc_data_1d import McData1D
    f = Path("r.h5")
    last = {}
    for d in case["sets"]:
        ix = case["sets"][0]["index"] if case["sameindex"] else d["index"]
        try:
            o = dataset(d, ix)
        except Exception:
            continue       # no data left in the range (C01-C04)
        o.store(f)
        last[ix] = o
    for ix, o in last.items():
        before = raw(f)
        r = McData1D(loadFromFile=f, resultIndex=ix)
        need(raw(f) == before, "restoring changes the file")
        for k in KEYS:
            same_value(getattr(r, k), getattr(o, k), k)
        need(type(r.nbins) is int and isinstance(r.IEmin, float), "type of nbins or IEmin")
        for t in ("rawData", "clippedData", "binnedData"):
            a, b = getattr(r, t), getattr(o, t)
            need(set(a.columns) == set(b.columns), f"{t}: columns {list(a.columns)}")
            for c in b.columns:
                need_equal(a[c].to_numpy(), b[c].to_numpy(), f"{t}.{c}")
        for k in ("I", "ISigma"):
            need_equal(r.measData[k], o.measData[k], f"measData {k}")
        need(len(r.measData["Q"]) == 1, "measData Q")
        need_equal(r.measData["Q"][0], o.measData["Q"][0], "measData Q")


# ------------------------------------------------------------------ C08
PN = ["radius", "b", "a par", "é", "Z"]


def genr(rng):
    def one():
        ps = [PN[0]] + [p for p in PN[1:] if rng.integers(3) == 0]
        ps = [ps[i] for i in rng.permutation(len(ps))]
        st = {k: float(rng.uniform(0, 5)) for k in ("sld", "sld_solvent", "scale") if rng.integers(3)}
        return dict(n=int(rng.choice([1, 2, 5])), seed=rng.choice([None, 0, 7, 12345]), lim=[[p, float(i + 1), float(i + (9 if rng.integers(4) else 1))] for i, p in
                    enumerate(ps)], static=st, dtype=str(rng.choice(["fast", "double", "single"])),
                    name=str(rng.choice(["mcsas_sphere", "mcsas_sphere", "MCSAS_Sphere", "sim"])),
                    rep=int(rng.choice([0, 1, 2, 10])), index=int(rng.choice([0, 1, 11])),
                    iters=int(rng.choice([0, 3, 30])), maxAccept=rng.choice([None, 5]), m=int(rng.choice([2, 6])),
                    conv=float(rng.choice([1, 0.5, 1e9])), data=int(rng.integers(10 ** 6)))
    return dict(fits=[one() for _ in range(int(rng.integers(1, 4)))], same=bool(rng.integers(2)), more=int(rng.integers(0, 15)))


def fit(d):
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt
    rng = np.random.default_rng(d["data"])
    q = np.geomspace(0.02, 1, d["m"])
    I = 10 ** rng.uniform(-1, 3, d["m"])
    data = dict(Q=[q], I=I, ISigma=0.1 * I)
    st = {"sld": 3.0, "sld_solvent": 1.0}
    st.update(d["static"])
    if st["sld"] == st["sld_solvent"]:
        st["sld"] += 1
    lim = {p: (a, b) for p, a, b in d["lim"]}
    if d["name"] == "sim":
        x = np.sort(rng.uniform(0.01, 2, 7))
        st = dict(extrapY0=float(rng.uniform(0, 1)), extrapScaling=float(rng.uniform(0, 1)), simDataQ0=x,
                  simDataI=1 / (0.1 + x ** 4), simDataISigma=0.1 * x)
        if d["data"] % 2:
            st["simDataQ1"] = None
        lim = {"factor": (0.3, 3.0)}
    model = McModel(modelName=d["name"], nContrib=d["n"], fitParameterLimits=lim,
                    staticParameters=st, seed=d["seed"], modelDType=d["dtype"], resultIndex=d["index"])
    kw = {} if d["maxAccept"] is None else dict(maxAccept=int(d["maxAccept"]))
    opt = McOpt(maxIter=d["iters"], convCrit=d["conv"], repetition=d["rep"], resultIndex=d["index"], **kw)
    core = McCore(data, model=model, opt=opt, resultIndex=d["index"])
    core.optimize()
    return core, data


def params(t):
    return list(t.columns), t.to_numpy(dtype=float)


OPT = ("accepted", "convCrit", "gof", "maxIter", "maxAccept", "modelI", "step", "x0", "acceptedSteps", "acceptedGofs")


def check_model(m, c, what):
    need(list(m.parameterSet.columns) == list(c.parameterSet.columns), f"{what}: parameter names {list(m.parameterSet)}")
    need_equal(params(m.parameterSet)[1], params(c.parameterSet)[1], f"{what}: contribution parameters")
    need_equal(m.volumes, c.volumes, f"{what}: volumes")
    need(m.nContrib == len(c.parameterSet), f"{what}: nContrib {m.nContrib}")
    for k in ("seed", "modelName", "modelDType", "fitParameterLimits"):
        same_value(getattr(m, k), getattr(c, k), f"{what}: {k}")
    # an entry that is None is not stored
    a, b = ({k: v for k, v in x.staticParameters.items() if v is not None} for x in (m, c))
    same_value(a, b, f"{what}: staticParameters")


@harness("C08", genr, weight=2, rule="up to 3 fits stored in one file, under the same or different repetitions and "
         "indices, then reloaded")
def repetition_roundtrip(case):
    import copy
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt
    f = Path("r.h5")
    last = {}
    for d in case["fits"]:
        d = dict(d)
        if case["same"]:
            d.update(rep=case["fits"][0]["rep"], index=case["fits"][0]["index"])
        core, data = fit(d)
        core.store(f)
        for k in list(last):       # the model settings are those of the index
            if k[0] == d["index"]:
                del last[k]
        last[d["index"], d["rep"]] = core, data
    for (ix, rep), (core, data) in last.items():
        before = raw(f)
        m = McModel(loadFromFile=f, loadFromRepetition=rep, resultIndex=ix)
        check_model(m, core._model, "model")
        o = McOpt(loadFromFile=f, loadFromRepetition=rep, resultIndex=ix)
        for k in OPT:
            same_value(getattr(o, k), getattr(core._opt, k), k)
        need(o.repetition == rep, "repetition")
        c = McCore(data, loadFromFile=f, loadFromRepetition=rep, resultIndex=ix)
        check_model(c._model, core._model, "after set-up")
        for k in ("accepted", "step", "acceptedSteps", "acceptedGofs", "maxIter", "maxAccept", "convCrit"):
            same_value(getattr(c._opt, k), getattr(core._opt, k), "after set-up: " + k)
        need_close(c._opt.modelI, core._opt.modelI, "after set-up: intensity", rtol=1e-6)
        need(raw(f) == before, "reloading changes the file")
        if case["more"]:
            old = list(core._opt.acceptedSteps), list(core._opt.acceptedGofs)
            c._opt.maxIter = int(c._opt.step) + case["more"]
            c._opt.maxAccept = np.inf
            c.optimize()
            s, g = list(c._opt.acceptedSteps), list(c._opt.acceptedGofs)
            need(s[:len(old[0])] == old[0] and g[:len(old[1])] == old[1] and len(s) == len(g) == int(c._opt.accepted) + 1,
                 f"continued: history {old[0]} -> {s}")
