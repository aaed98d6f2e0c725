"""C10, C11, C12: the Monte Carlo core on the real code with the internal sphere model"""
import numpy as np

from .base import Bad, harness, need, need_close, need_equal


def mk(case):
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt
    rng = np.random.default_rng(case["seed"])
    m = case["m"]
    q = np.geomspace(0.01, 1, m)
    lim = {"radius": [case["rmin"], case["rmax"]]}
    model = McModel(modelName="mcsas_sphere", nContrib=case["n"], fitParameterLimits=lim,
                    staticParameters={"sld": 3.0, "sld_solvent": 1.0}, seed=case["seed"],
                    logRandom=case["log"])
    I = 10 ** rng.uniform(-2, 2, m)
    if case["negI"]:
        I = -I
    data = dict(Q=[q], I=I, ISigma=I * 0 + np.abs(I) * rng.uniform(0.01, 0.3, m) + 1e-3)
    kw = {}
    if case["maxAccept"] is not None:
        kw["maxAccept"] = case["maxAccept"]
    opt = McOpt(maxIter=case["maxIter"], convCrit=case["conv"], repetition=case["rep"], **kw)
    if case["dirty"]:  # left-overs of an earlier fit
        opt.step, opt.accepted = 17, 5
        opt.acceptedSteps, opt.acceptedGofs = [0, 3], [9.0, 8.0]
    core = McCore(data, model=model, opt=opt, resultIndex=1)
    return core, data


def gen(rng):
    return dict(seed=int(rng.integers(1, 10 ** 6)), m=int(rng.integers(2, 12)),
                n=int(rng.choice([1, 2, 3, 5, 8])), rmin=float(rng.choice([0.5, 1, 3])),
                rmax=float(rng.choice([5, 20, 60])), log=bool(rng.integers(2)),
                negI=bool(rng.integers(8) == 0),
                maxIter=int(rng.choice([0, 1, 2, 5, 20, 40])),
                maxAccept=rng.choice([None, 0, 1, 2, 3, 6]), rep=int(rng.integers(0, 5)),
                conv=float(rng.choice([-1, 0, 1, 50, 1e4])), dirty=bool(rng.integers(2)))


def chi2(core, data, I, x0):
    return float(np.mean(((data["I"] - (I * x0[0] + x0[1])) / data["ISigma"]) ** 2))


def check_invariant(core, data, when):
    m, o = core._model, core._opt
    tot, vols = 0.0, []
    for i in range(m.nContrib):
        pars = {k: float(v) for k, v in m.parameterSet.iloc[i].items()}
        I, V = m.calcModelIV(pars)
        tot, vols = tot + I, vols + [float(V)]
    need(len(m.parameterSet) == m.nContrib, f"{when}: number of contributions")
    need_close(o.modelI, tot, f"{when}: total intensity is not the sum over the contributions",
               rtol=1e-6, atol=1e-9 * float(np.max(np.abs(tot))))
    need_close(m.volumes, vols, f"{when}: volumes are not those of the contributions")
    need_close(o.gof, chi2(core, data, np.asarray(o.modelI), o.x0),
               f"{when}: gof is not the chi-square at the stored scaling and background", rtol=1e-6)


def snap(core):
    m, o = core._model, core._opt
    return dict(par=m.parameterSet.astype(float).values.copy(), vol=np.array(m.volumes, float),
                I=np.array(o.modelI, float), x0=np.array(o.x0, float), gof=float(o.gof),
                step=o.step, acc=o.accepted, steps=list(o.acceptedSteps), gofs=list(o.acceptedGofs))


@harness(["C10", "C11", "C12"], gen, rule="random data, limits, numbers of contributions and "
         "optimization limits; every iteration of a run of the real code is checked")
def core_run(case):
    core, data = mk(case)
    o, m = core._opt, core._model
    need(o.step == 0 and o.accepted == 0, "counters of a new fit are not zero")
    need(list(o.acceptedSteps) == [0] and [float(g) for g in o.acceptedGofs] == [float(o.gof)],
         "history of a new fit is not its initial gof")
    check_invariant(core, data, "after set-up")
    log = []
    real_match = core._OSB.match

    def match(I, x0=None):
        r = real_match(I, x0)
        log.append((np.array(I, float), np.array(r[0], float), float(r[1])))
        return r
    core._OSB.match = match
    real_it = core.iterate
    count = [0]
    lim = (o.maxIter, o.maxAccept, o.convCrit)
    g0 = [o.gof]

    def iterate():
        need(o.accepted < lim[1] and o.step < lim[0] and o.gof > lim[2],
             f"iterates although a limit is reached: accepted {o.accepted}, step {o.step}, "
             f"gof {o.gof}, limits {lim}")
        count[0] += 1
        if count[0] > 200:
            raise Bad("does not stop")
        old = snap(core)
        del log[:]
        real_it()
        new = snap(core)
        when = f"iteration {old['step']}"
        need(new["step"] == old["step"] + 1, f"{when}: step counts {new['step']}")
        need(len(log) == 1, f"{when}: {len(log)} fits")
        c = old["step"] % m.nContrib
        pick = np.array([float(m.pickParameters[k]) for k in m.parameterSet.columns])
        Ip, Vp = m.calcModelIV({k: float(v) for k, v in m.pickParameters.items()})
        Io, _ = m.calcModelIV({k: float(v) for k, v in zip(m.parameterSet.columns, old["par"][c])})
        I1 = old["I"] + Ip - Io
        need_close(log[0][0], I1, f"{when}: intensity evaluated is not that with contribution {c} "
                   "replaced", rtol=1e-6, atol=1e-9 * float(np.max(np.abs(old["I"]))))
        better = log[0][2] < old["gof"]
        adopted = new["acc"] != old["acc"]
        need(adopted == better, f"{when}: adopted={adopted} although gof {log[0][2]!r} vs "
             f"{old['gof']!r}")
        if better:
            need(new["acc"] == old["acc"] + 1, f"{when}: accepted count")
            exp = old["par"].copy()
            exp[c] = pick
            need_close(new["par"], exp, f"{when}: contributions after adoption", rtol=1e-12)
            v = old["vol"].copy()
            v[c] = Vp
            need_close(new["vol"], v, f"{when}: volumes after adoption", rtol=1e-9)
            need(new["gof"] == log[0][2], f"{when}: gof after adoption")
            need_close(new["x0"], log[0][1], f"{when}: scaling after adoption", rtol=1e-12)
            need(new["steps"] == old["steps"] + [old["step"]], f"{when}: accepted steps "
                 f"{new['steps'][-3:]}")
            need(new["gofs"] == old["gofs"] + [log[0][2]], f"{when}: accepted gofs "
                 f"{new['gofs'][-3:]} instead of {log[0][2]}")
        else:
            for k in ("par", "vol", "I", "x0"):
                need_equal(new[k], old[k], f"{when}: {k} after rejection")
            need(new["gof"] == old["gof"] and new["steps"] == old["steps"]
                 and new["gofs"] == old["gofs"], f"{when}: gof or history after rejection")
        need(new["gof"] <= old["gof"], f"{when}: gof increased")
        check_invariant(core, data, when)
    core.iterate = iterate
    core.optimize()
    need(not (o.accepted < lim[1] and o.step < lim[0] and o.gof > lim[2]),
         f"stopped although no limit is reached: accepted {o.accepted}, step {o.step}, gof {o.gof},"
         f" limits {lim}")
    need((o.maxIter, o.maxAccept, o.convCrit) == lim, "limits changed")
    need(o.step == count[0], f"{o.step} steps counted in {count[0]} iterations")
    need(o.step <= max(lim[0], 0) and o.accepted <= max(lim[1], 0), "counters exceed their limits")
