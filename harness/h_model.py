"""C13, C15, C16: the model on the real code"""
import numpy as np

from .base import Bad, harness, need, need_close


def limits(rng):
    names = ["radius", "length", "sld", "shell", "p2"][:int(rng.integers(1, 4))]
    out = {}
    for n in names:
        lo = float(10 ** rng.uniform(-3, 2))
        hi = lo * float(rng.choice([1.0, 1.001, 3, 1e4]))
        if rng.integers(6) == 0:
            lo = float(rng.choice([0.0, -1.0]))
        out[n] = [lo, hi]
    return out


def gen13(rng):
    lim = limits(rng)
    log = bool(rng.integers(2))
    if log and rng.integers(4) == 0:
        lim = {k: [b, a] for k, (a, b) in lim.items()}
    return dict(lim=lim, log=log, n=int(rng.choice([1, 2, 7, 30])), seed=int(rng.integers(0, 10 ** 6)),
                per=bool(rng.integers(4) == 0))


@harness("C13", gen13, rule="random limits, numbers of parameters and contributions, both kinds of picking")
def picks(case):
    from mcsas3.mc_model import McModel
    lim = {k: tuple(v) for k, v in case["lim"].items()}
    bad = case["log"] and any(v <= 0 for ab in lim.values() for v in ab)
    try:
        m = McModel(modelName="mcsas_sphere", nContrib=case["n"], fitParameterLimits=dict(lim),
                    staticParameters={}, seed=case["seed"], logRandom=case["log"])
    except ValueError:
        need(bad, f"legal limits refused: {lim}")
        return
    need(not bad, f"limits that are not positive accepted with logarithmic picking: {lim}")
    need(m.nContrib == case["n"] and len(m.parameterSet) == case["n"],
         f"{len(m.parameterSet)} contributions instead of {case['n']}")
    need(sorted(m.parameterSet.columns) == sorted(lim), f"columns {list(m.parameterSet.columns)}")

    def chk(k, x, what):
        lo, hi = sorted(lim[k])
        tol = 1e-9 * max(abs(lo), abs(hi))
        need(x is not None and np.isfinite(float(x)) and lo - tol <= float(x) <= hi + tol,
             f"{what} {k}={x!r} outside of {lim[k]}")
    for i in range(case["n"]):
        for k in lim:
            chk(k, m.parameterSet.loc[i, k], f"contribution {i}")
    for _ in range(20):
        m.pick()
        need(set(m.pickParameters) == set(lim), f"pick has {sorted(m.pickParameters)}")
        for k in lim:
            chk(k, m.pickParameters[k], "pick")
    if case["per"] and not bad:     # per-parameter kind of picking
        k0 = sorted(lim)[0]
        if min(lim[k0]) > 0 and lim[k0][0] <= lim[k0][1]:
            m.logRandoms[k0] = not m.logRandoms[k0]
            m.pick()
            chk(k0, m.pickParameters[k0], "pick after switching")


def gen15(rng):
    return dict(r=[float(x) for x in 10 ** rng.uniform(-1, 2.5, 3)],
                q=[float(x) for x in 10 ** rng.uniform(-3, 1, int(rng.integers(1, 6)))],
                sld=float(rng.choice([1.0, 33.4, 0.0, -2.5])), solv=float(rng.choice([0.0, 9.4, 1.0])),
                mode=[str(rng.choice(["static", "picked", "default"])) for _ in range(2)],
                n=int(rng.integers(1, 4)))


@harness("C15", gen15, weight=2, rule="random radii, Q and contrasts; static, picked and default contrast")
def sphere(case):
    from mcsas3.mc_model import McModel
    q = np.array(case["q"])
    static, extra, use = {}, {}, {}
    for k, m, x, d in zip(("sld", "sld_solvent"), case["mode"], (case["sld"], case["solv"]), (1, 0)):
        use[k] = d if m == "default" else x
        if m == "static":
            static[k] = x
        elif m == "picked":
            extra[k] = x
    lim = {"radius": (0.1, 400.0)}
    lim.update({k: (-100.0, 100.0) for k in extra})
    model = McModel(modelName="mcsas_sphere", nContrib=case["n"], fitParameterLimits=lim,
                    staticParameters=static, seed=1)
    model.kernel = model.func.make_kernel([q])
    par0 = model.parameterSet.copy()
    for r in case["r"]:
        p = dict(extra, radius=r)
        p0, s0 = dict(p), dict(static)
        I, V = model.calcModelIV(p)
        vol = 4 / 3 * np.pi * r ** 3
        qr = q * r
        F = 3 * (np.sin(qr) - qr * np.cos(qr)) / qr ** 3
        d = (use["sld"] - use["sld_solvent"]) / 100
        big = vol ** 2 * d ** 2
        need_close(V, vol, f"volume of radius {r}", rtol=1e-9)
        # cancellation in F at small qr
        err = np.where(qr < 0.05, 1e-2, 1e-6)
        need(np.all(np.abs(np.asarray(I) * vol - big * F ** 2) <= err * big * F ** 2 + 1e-12 * big),
             f"intensity of radius {r}: {np.asarray(I) * vol} instead of {big * F ** 2}")
        need(p == p0 and static == s0 and model.staticParameters == s0, "parameters changed")
        need(model.parameterSet.equals(par0), "contributions changed")
        I2, V2 = model.calcModelIV(p)
        need(np.array_equal(I, I2) and V == V2, "a second evaluation differs")


def gen15b(rng):
    return dict(model=str(rng.choice(["sphere", "cylinder", "sphere@hardsphere"])),
                r=float(rng.uniform(5, 100)), l=float(rng.uniform(50, 500)),
                sld=float(rng.uniform(2, 9)), vf=float(rng.uniform(0.05, 0.3)))


@harness("C15", gen15b, weight=1, rule="sasmodels kernels: plain and product kernels")
def sas(case):
    import sasmodels.direct_model as dm
    from mcsas3.mc_model import McModel
    q = np.geomspace(0.01, 0.3, 6)
    static = {"sld": case["sld"], "sld_solvent": 1.0, "scale": 1.0, "background": 0.0}
    lim = {"radius": (1.0, 200.0)}
    pick = {"radius": case["r"]}
    if case["model"] == "cylinder":
        static["length"] = case["l"]
    if "@" in case["model"]:
        static["volfraction"] = case["vf"]
    m = McModel(modelName=case["model"], nContrib=1, fitParameterLimits=lim, staticParameters=static,
                seed=1, modelDType="default")
    m.kernel = m.func.make_kernel([q])
    s0 = dict(static)
    I, V = m.calcModelIV(pick)
    k = m.func.make_kernel([q])
    if "@" in case["model"]:
        exp = dm.call_kernel(k, dict(static, **pick))
        vol = k.results()["volume"]
    else:
        _, F2, _, vol, _ = dm.call_Fq(k, dict(static, **pick))
        exp = F2 / vol
    need_close(I, exp, "intensity of a contribution", rtol=1e-6)
    need_close(V, vol, "volume of a contribution", rtol=1e-9)
    need(static == s0 and pick == {"radius": case["r"]}, "parameters changed")


def gen16(rng):
    m = int(rng.integers(2, 12))
    xs = np.sort(10 ** rng.uniform(-2, 0.5, m))
    return dict(x=[float(v) for v in xs], y=[float(v) for v in 10 ** rng.uniform(-3, 3, m)],
                s=[float(v) for v in 10 ** rng.uniform(-3, 0, m)], y0=float(rng.choice([0, 1e-3, 2.0])),
                sc=float(10 ** rng.uniform(-4, 2)), name=str(rng.choice(["sim", "sim", "Sim", "SIM"])), R=[float(v) for v in 10 ** rng.uniform(-1.5, 1.5, 4)],
                drop=[k for k in ("simDataQ0", "simDataQ1", "simDataI", "simDataISigma")
                      if rng.integers(4) == 0])


@harness("C16", gen16, rule="random simulated data and size factors, all subsets of missing components")
def sim(case):
    from mcsas3.mc_model import McModel, McSimPseudoModel
    x, y, s = (np.array(case[k]) for k in "xys")
    if len(np.unique(x)) < len(x):
        return
    full = dict(simDataQ0=x, simDataQ1=None, simDataI=y, simDataISigma=s)
    if case["drop"]:
        kw = {k: v for k, v in full.items() if k not in case["drop"]}
        try:
            McSimPseudoModel(extrapY0=0.0, extrapScaling=1.0, **kw)
        except Exception:
            return
        raise Bad(f"simulation data without {case['drop']} accepted")
    q = np.geomspace(x[0] / 5, x[-1] * 5, 23)
    q = np.concatenate([q, x])
    f = McSimPseudoModel(extrapY0=case["y0"], extrapScaling=case["sc"], **full)
    model = McModel(modelName=case["name"], nContrib=1, fitParameterLimits={"factor": (0.01, 50.0)}, seed=1,
                    staticParameters=dict(full, extrapY0=case["y0"], extrapScaling=case["sc"]))
    model.kernel = model.func.make_kernel([q])
    for R in case["R"] + [1.0]:
        z = q * R
        exp = np.interp(z, x, y)
        exp = np.where(z < x[0], y[0], np.where(z > x[-1], case["y0"] + case["sc"] * z ** -4.0, exp))
        I, V = f.make_kernel([q])(factor=R)
        need_close(I, exp * R ** 6, f"intensity for factor {R}", rtol=1e-6)
        need_close(V, R ** 3, f"volume for factor {R}", rtol=1e-9)
        try:
            I, V = model.calcModelIV({"factor": R})
        except Exception as e:
            raise Bad(f"a simulation named {case['name']} is not evaluated: {e!r}")
        need_close(I, exp * R ** 3, f"volume-normalized intensity for factor {R}", rtol=1e-6)
    need(np.array_equal(x, case["x"]) and np.array_equal(y, case["y"]), "simulation data changed")
