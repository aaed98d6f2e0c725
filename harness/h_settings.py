"""C23 on the real code"""
import copy
from pathlib import Path

import numpy as np

from .base import harness, need

INF = float("inf")
OPT = dict(accepted=None, convCrit=1, gof=None, maxIter=100000, maxAccept=INF, modelI=None, repetition=0,
           step=None, weighting=0.5, x0=None, acceptedSteps=[], acceptedGofs=[])
MOD = dict(nContrib=300, modelName="sphere", modelDType="fast", seed=12345, logRandom=False)
HAT = dict(nCores=0, nRep=10)
CSV = {"sep": r"\s+", "header": None, "names": ["Q", "I", "ISigma"]}
D1 = dict(filename=None, measDataLink="binnedData", nbins=100, IEmin=0.01, binning="logarithmic",
          dataRange=[-INF, INF], pathDict=None, csvargs=CSV, loader=None, qNudge=0, omitQRanges=None)
D2 = dict(D1, dataRange=[0, INF], csvargs={}, qNudge=[0, 0])
UNKNOWN = ["zz_unknown", "maxiter", "Seed", "ncontrib", "testX0", "testModelI", "func", "kernel", "volumes",
           "parameterSet", "pickParameters", "_opt", "_model", "rawData2D", "orthoQ1Range", "storeKeys",
           "loadKeys", "settables", "randomGenerators", "logRandoms", "acceptedStep", "nrep", "outputFilename"]


def vals(cls, rng):
    f = lambda: float(np.round(rng.uniform(0.1, 9), 3))
    i = lambda: int(rng.integers(1, 50))
    if cls == "opt":
        return dict(accepted=i(), convCrit=f(), gof=f(), maxIter=i(), maxAccept=i(), modelI=[f(), f()],
                    repetition=i(), step=i(), weighting=f(), x0=[f(), f()], acceptedSteps=[0, i()],
                    acceptedGofs=[f(), f()])
    if cls == "mod":
        return dict(nContrib=i(), modelName="mcsas_sphere", modelDType="double", seed=i(), logRandom=True)
    if cls == "hat":
        return dict(nCores=i(), nRep=i())
    return dict(filename="given.dat", measDataLink="clippedData", nbins=i(), IEmin=f(), binning="logarithmic",
                dataRange=[0.0, f()], pathDict={"Q": "q", "I": "i", "ISigma": "s"}, csvargs={"sep": ";"},
                loader="from_csv", qNudge=f() if cls == "d1" else [f(), f()], omitQRanges=[[0.0, f()]])


def gen(rng):
    cls = str(rng.choice(["opt", "mod", "hat", "d1", "d2"]))
    given = {}
    for c in (["opt", "mod", "hat"] if cls == "hat" else [cls]):
        p = rng.choice([0, 0.2, 0.5, 1])
        for k, x in vals(c, rng).items():
            if rng.uniform() < p:
                if rng.integers(6) == 0 and type(x) in (int, float) and k not in ("nRep", "nContrib"):
                    x = type(x)(0)
                elif rng.integers(6) == 0 and type(x) is list and c == "opt":
                    x = []
                elif k == "logRandom":
                    x = bool(rng.integers(2))
                given[k] = x
    keys = list(given)
    rng.shuffle(keys)
    return dict(cls=cls, given={k: given[k] for k in keys},
                unknown=str(rng.choice(UNKNOWN)) if rng.integers(4) == 0 else None)


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) != isinstance(b, str) and not (isinstance(a, Path) or isinstance(b, Path)):
        return False
    if isinstance(a, Path) or isinstance(b, Path):
        return str(a) == str(b)
    if a is None or b is None:
        return a is b
    return bool(np.all(a == b))


def make(cls, given):
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_data_2d import McData2D
    from mcsas3.mc_hat import McHat
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt
    g = copy.deepcopy(given)
    if "filename" in g:
        g["filename"] = Path(g["filename"])
    if cls == "opt":
        return McOpt(**g)
    lim = dict(fitParameterLimits={"radius": (1.0, 9.0)}, staticParameters={"sld": 3.0})
    if cls == "mod":
        real = McModel.loadModel
        McModel.loadModel = lambda self: setattr(self, "func", object())
        try:
            return McModel(**lim, **g)
        finally:
            McModel.loadModel = real
    if cls == "hat":
        return McHat(**lim, **g)
    C = McData1D if cls == "d1" else McData2D
    real = C.__mro__[1].from_file
    C.__mro__[1].from_file = lambda self, f=None: None
    try:
        return C(**g)
    finally:
        C.__mro__[1].from_file = real


def look(cls, o):
    d = dict(opt=OPT, mod=dict(MOD, fitParameterLimits=0, staticParameters=0), hat=HAT, d1=D1, d2=D2)[cls]
    r = {k: getattr(o, k) for k in d}
    if cls == "hat":
        r["_optArgs"], r["_modelArgs"] = o._optArgs, o._modelArgs
    return r


def spoil(x):
    for v in x.values() if isinstance(x, dict) else x:
        if isinstance(v, (dict, list)):
            spoil(v)
    x.update(changed=1) if isinstance(x, dict) else x.append("changed")


@harness("C23", gen, rule="random subsets and orders of the settings, also with an unknown one; an instance"
         " created and changed before")
def settings(case):
    cls, given, unknown = case["cls"], case["given"], case["unknown"]
    if unknown:
        try:
            make(cls, dict(given, **{unknown: 1}))
        except Exception:
            return
        need(False, f"{cls}: unknown setting {unknown} is not refused")
    a = make(cls, {})
    first = copy.deepcopy(look(cls, a))
    for k, x in look(cls, a).items():
        if isinstance(x, (dict, list)):
            spoil(x)
    b = make(cls, given)
    got = look(cls, b)
    spec = dict(opt=OPT, mod=MOD, hat=HAT, d1=D1, d2=D2)[cls]
    for k, d in spec.items():
        want = given.get(k, d)
        need(same(got[k], want), f"{cls}: {k} is {got[k]!r} instead of {want!r}")
    if cls == "hat":
        for nm, keys in (("_optArgs", OPT), ("_modelArgs", dict(MOD, fitParameterLimits=0, staticParameters=0))):
            n = {k: x for k, x in got[nm].items() if k != "resultIndex"}
            want = {k: given[k] for k in given if k in keys}
            if nm == "_modelArgs":
                want.update(fitParameterLimits={"radius": (1.0, 9.0)}, staticParameters={"sld": 3.0})
            need(same(n, want), f"McHat{nm}: {n} instead of {want}")
    keep = copy.deepcopy(got)
    for k, x in look(cls, a).items():
        if isinstance(x, (dict, list)):
            spoil(x)
        elif k != "filename" and cls != "hat":
            try:
                setattr(a, k, x)
            except Exception:
                pass
    need(same(look(cls, b), keep), f"{cls}: changing another instance changes this one")
    c = make(cls, {})
    need(same(look(cls, c), first), f"{cls}: settings depend on other instances: {look(cls, c)} / {first}")


def gen_run(rng):
    return dict(model=str(rng.choice(["mcsas_sphere", "sim"])), sld=float(rng.uniform(1, 50)),
                seed=int(rng.integers(1000)))


@harness("C23", gen_run, weight=0.3, rule="a fit with one instance, others before and after")
def after_fit(case):
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt
    q = np.linspace(0.1, 1, 6)

    def model(c):
        st = {"sld": c} if case["model"] == "mcsas_sphere" else dict(
            extrapY0=0.0, extrapScaling=c, simDataQ0=np.linspace(0.1, 2, 9), simDataQ1=None,
            simDataI=1 / np.linspace(0.1, 2, 9), simDataISigma=np.ones(9))
        par = "radius" if case["model"] == "mcsas_sphere" else "factor"
        return McModel(modelName=case["model"], nContrib=3, seed=case["seed"], staticParameters=st,
                       fitParameterLimits={par: (0.5, 1.5)})
    snap = lambda m: copy.deepcopy((m.showModelParameters(), m.staticParameters, m.nContrib))
    b, ob = model(1.0), McOpt()
    sb, sob = snap(b), copy.deepcopy(vars(ob))
    a, oa = model(case["sld"]), McOpt(maxIter=15, convCrit=0.0)
    c = McCore(measData={"Q": [q], "I": 1 / q, "ISigma": 0.1 / q}, model=a, opt=oa)
    c.optimize()
    need(same(snap(b), sb), "a fit changes another model instance")
    need(all(same(v, sob[k]) for k, v in vars(ob).items() if k != "resultIndex"), "a fit changes another McOpt")
    need(same(snap(model(1.0)), sb), "the parameters of a model depend on a fit before")
    o = McOpt()
    need(all(same(v, sob[k]) for k, v in vars(o).items() if k != "resultIndex"), "new McOpt not at defaults")
