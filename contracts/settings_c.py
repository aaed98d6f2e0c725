"""C23: settings of McOpt, McModel, McHat, McData1D, McData2D"""
import ast
import functools
import glob
import os

import z3

from dv import instrument, shared
from dv.contract import vc
from dv.core import E
from dv.values import And, SymReal, boolz, fresh_bool, fresh_int, fresh_real, same

INF = float("inf")
OPT = "mcsas3.mc_opt:McOpt"
MOD = "mcsas3.mc_model:McModel"
HAT = "mcsas3.mc_hat:McHat"
D1 = "mcsas3.mc_data_1d:McData1D"
D2 = "mcsas3.mc_data_2d:McData2D"
BASE = "mcsas3.mc_data:McData"

# the documented settings with their default
OPT_D = dict(accepted=None, convCrit=1, gof=None, maxIter=100000, maxAccept=INF, modelI=None,
             repetition=0, step=None, weighting=0.5, x0=None, acceptedSteps=[], acceptedGofs=[])
MOD_D = dict(nContrib=300, fitParameterLimits="required", staticParameters="required",
             modelName="sphere", modelDType="fast", seed=12345, logRandom=False)
HAT_D = dict(nCores=0, nRep=10)
CSV = {"sep": r"\s+", "header": None, "names": ["Q", "I", "ISigma"]}
DATA_D = dict(filename=None, measDataLink="binnedData", nbins=100, IEmin=0.01, binning="logarithmic",
              dataRange=[-INF, INF], pathDict=None, csvargs=CSV, loader=None, qNudge=0, omitQRanges=None)
DATA2_D = dict(DATA_D, dataRange=[0, INF], csvargs={}, qNudge=[0, 0])
# attributes of a dataset which hold the data, not settings: neither required nor refused
INTERNAL = {"rawData", "clippedData", "binnedData", "measData"}
# running values (not settings) whose change must not show in another instance
NAMED = {"loadFromFile", "loadFromRepetition", "resultIndex", "df", "self"}
MUTABLE = (list, dict, set)


def opaque(nm):
    return [fresh_real(nm)]


def opt_value(k):
    if k in ("acceptedSteps", "acceptedGofs", "x0", "modelI"):
        return opaque(k)
    return fresh_int(k, 0) if k in ("accepted", "maxIter", "repetition", "step") else fresh_real(k)


def data_value(k):
    from pathlib import Path
    return dict(filename=Path("given.dat"), measDataLink="clippedData", binning="logarithmic",
                nbins=fresh_int("nbins", 0), IEmin=fresh_real("IEmin"), dataRange=opaque("lo") + opaque("hi"),
                pathDict={"Q": "q", "I": "i", "ISigma": "s"}, csvargs={"sep": ";"}, loader="from_csv",
                qNudge=opaque("qNudge"), omitQRanges=[opaque("a") + opaque("b")])[k]


@functools.cache
def source_names():
    """every name the code could tell apart from an arbitrary one: its string constants and
    attribute names"""
    out = {"zz_no_such_setting"}
    for f in glob.glob(os.path.join(instrument.REPO_SRC, "mcsas3", "*.py")):
        for n in ast.walk(ast.parse(open(f, encoding="utf8").read())):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                out.add(n.value)
            elif isinstance(n, ast.Attribute):
                out.add(n.attr)
    return sorted(out)


def containers(o, depth=0, seen=None):
    """ids of the mutable containers reachable from the state of an instance"""
    seen = {} if seen is None else seen
    if id(o) in seen or depth > 6:
        return seen
    if isinstance(o, MUTABLE):
        seen[id(o)] = o
        for x in (o.values() if isinstance(o, dict) else o):
            containers(x, depth + 1, seen)
    elif isinstance(o, tuple):
        for x in o:
            containers(x, depth + 1, seen)
    return seen


def state(o, names):
    return {k: getattr(o, k, None) for k in names}


def spoil(x):
    """change every mutable container in place"""
    for c in list(containers(x).values()):
        if isinstance(c, list):
            c.append("changed")
        elif isinstance(c, dict):
            c["changed"] = "changed"
        else:
            c.add("changed")


def eq(a, b):
    if a is b:
        return True
    if isinstance(a, MUTABLE) or isinstance(b, MUTABLE) or a is None or b is None:
        if a is None or b is None or len(a) != len(b) or not any(
                isinstance(a, t) and isinstance(b, t) for t in MUTABLE):
            return False
        if isinstance(a, list):
            return And(*[eq(x, y) for x, y in zip(a, b)]) if a else True
        return a.keys() == b.keys() and (And(*[eq(a[k], b[k]) for k in a]) if a else True)
    return same(a, b)


def check_defaults(v, what, o, spec, given, get=None):
    get = get or (lambda k: getattr(o, k, "missing"))
    for k, d in spec.items():
        if k in given:
            v.prove(f"{what}: a given setting is used", boolz(eq(get(k), given[k])), k)
        elif d != "required":
            v.prove(f"{what}: a setting not given has its documented default", boolz(eq(get(k), d)), k)


def subsets(keys):
    """an arbitrary subset: exhaustive for few keys"""
    return [k for k in keys if E().choose(2)]


def make_earlier(v, f, names):
    """another instance, created and changed before"""
    r = v.call(f)
    if not r.ok:
        v.fail("creating an instance does not raise", repr(r.exc))
        return None
    for k in names:
        spoil(getattr(r.value, k, None))
    return r.value


def check_separate(v, what, a, b, names):
    """no mutable container of b's settings, counters and history is one of a or of the classes"""
    ca, cb = containers(list(state(a, names).values())), containers(list(state(b, names).values()))
    common = {id(o) for _, o, _ in shared.SNAP}
    v.prove(f"{what}: instances share no mutable state", z3.BoolVal(
        not (set(ca) - {0}) & set(cb) and not common & set(cb)))
    v.prove(f"{what}: no state of the class is changed", z3.BoolVal(not v.shared_changes()),
            str(v.shared_changes()))
    v.shared_allowed |= set(v.shared_changes())       # reported by the obligation above


OPT_STATE = list(OPT_D) + ["testX0", "testModelI", "testModelV"]


@vc("McOpt settings", ["C23"], [OPT + ".__init__"], own="C23", paths=9000)
def vc_opt(v):
    C = v.get(OPT)
    a = make_earlier(v, C, OPT_STATE)
    if a is None:
        return
    keys = subsets(OPT_D)
    if E().choose(2):
        keys = keys[::-1]
    given = {k: opt_value(k) for k in keys}
    v.cover("precondition")
    r = v.call(lambda: C(**given))
    if not r.ok:
        v.fail("McOpt: documented settings are not refused", repr(r.exc))
        return
    v.cover("created")
    check_defaults(v, "McOpt", r.value, OPT_D, given)
    check_separate(v, "McOpt", a, r.value, OPT_STATE)


def refuse(v, what, C, spec, base, extra=()):
    names = [n for n in source_names() if n not in spec and n not in NAMED and n not in extra]
    n = names[E().choose(len(names))]
    v.cover("precondition")
    r = v.call(lambda: C(**dict(base, **{n: fresh_real("value")})))
    v.prove(f"{what}: a setting which is not documented is refused", z3.BoolVal(not r.ok), n)
    # also next to legal ones, before and after them
    r = v.call(lambda: C(**dict({n: fresh_real("value")}, **base)))
    v.prove(f"{what}: a setting which is not documented is refused", z3.BoolVal(not r.ok), n)


@vc("McOpt unknown settings", ["C23"], [OPT + ".__init__"], own="C23")
def vc_opt_unknown(v):
    refuse(v, "McOpt", v.get(OPT), OPT_D, dict(convCrit=fresh_real("convCrit")))


class Table:
    """the contributions (their contract is that of C13)"""
    shape = (1, 1)


def model_env(v):
    E().ghost["load_model"] = lambda n, dtype=None: "opaque model"
    E().ghost["DataFrame"] = lambda *a, **k: Table()
    v.patch(MOD + ".resetParameterSet", lambda self: None)


def limits():
    return {"radius": (fresh_real("lo"), fresh_real("hi"))}


@vc("McModel settings", ["C23"], [MOD + ".__init__", MOD + ".checkSettings", MOD + ".loadModel"], own="C23")
def vc_model(v):
    model_env(v)
    C = v.get(MOD)
    names = list(MOD_D) + ["parameterSet", "pickParameters", "volumes", "randomGenerators", "logRandoms"]
    a = make_earlier(v, lambda: C(fitParameterLimits=limits(), staticParameters={}), names)
    if a is None:
        return
    vals = dict(nContrib=fresh_int("nContrib", 1), fitParameterLimits=limits(),
                staticParameters={"sld": fresh_real("sld")}, modelName="cylinder", modelDType="double",
                seed=fresh_int("seed", 0), logRandom=fresh_bool("logRandom"))
    keys = ["fitParameterLimits", "staticParameters"] + subsets(
        k for k in MOD_D if MOD_D[k] != "required")
    if E().choose(2):
        keys = keys[::-1]
    given = {k: vals[k] for k in keys}
    v.cover("precondition")
    r = v.call(lambda: C(**given))
    if not r.ok:
        v.fail("McModel: documented settings are not refused", repr(r.exc))
        return
    v.cover("created")
    check_defaults(v, "McModel", r.value, MOD_D, given)
    check_separate(v, "McModel", a, r.value, names)


@vc("McModel internal models share nothing", ["C23"],
    [MOD + ".__init__", MOD + ".loadMcsasSphereModel", MOD + ".loadSimModel", MOD + ".showModelParameters",
     "mcsas3.mc_model:mcsasSphereModel.__init__", "mcsas3.mc_model:McSimPseudoModel.__init__"], own="C23")
def vc_model_internal(v):
    model_env(v)
    E().ghost["interp1d"] = lambda *a, **k: object()
    sim = E().choose(2)

    def static(c):
        if not sim:
            return {"sld": c}
        return dict(extrapY0=c, extrapScaling=fresh_real("es"), simDataQ0=[fresh_real("q")],
                    simDataQ1=None, simDataI=[fresh_real("I")], simDataISigma=[fresh_real("s")])

    def make(c):
        return v.get(MOD)(fitParameterLimits=limits(), staticParameters=static(c),
                          modelName=("mcsas_sphere", "sim")[sim])
    c1, c2 = fresh_real("c1"), fresh_real("c2")
    ra, rb = v.call(make, c1), v.call(make, c2)
    if not (ra.ok and rb.ok):
        v.fail("McModel: documented settings are not refused", repr(ra.exc or rb.exc))
        return
    a, b = ra.value, rb.value
    before = dict(b.showModelParameters())
    v.cover("created")
    # what McCore does with a model
    v.call(lambda: a.func.info.parameters.defaults.update(a.staticParameters))
    spoil(a.staticParameters)
    v.prove("McModel: the parameters of another instance do not change", boolz(eq(
        dict(b.showModelParameters()), before)))
    r = v.call(make, c2)
    if not r.ok:
        v.fail("McModel: documented settings are not refused", repr(r.exc))
        return
    v.prove("McModel: the parameters of a later instance are the defaults", boolz(eq(
        dict(r.value.showModelParameters()), before)))
    v.prove("McModel: no state of the class is changed", z3.BoolVal(not v.shared_changes()),
            str(v.shared_changes()))
    v.shared_allowed |= set(v.shared_changes())


@vc("McModel unknown settings", ["C23"], [MOD + ".__init__"], own="C23")
def vc_model_unknown(v):
    model_env(v)
    refuse(v, "McModel", v.get(MOD), MOD_D, dict(fitParameterLimits=limits(), staticParameters={}))


HAT_ALL = {**OPT_D, **MOD_D, **HAT_D}
HAT_STATE = ["nCores", "nRep", "_optArgs", "_modelArgs", "_measData", "_model", "_opt"]


def hat_value(k):
    if k in OPT_D:
        return opt_value(k)
    return dict(nContrib=fresh_int("nContrib", 1), fitParameterLimits=limits(),
                staticParameters={"sld": fresh_real("sld")}, modelName="cylinder", modelDType="double",
                seed=fresh_int("seed", 0), logRandom=fresh_bool("logRandom"),
                nCores=fresh_int("nCores", 0), nRep=fresh_int("nRep", 1))[k]


def hat_case(v, group):
    """settings of one group: every subset of it; of the other groups none or all"""
    C = v.get(HAT)
    a = make_earlier(v, lambda: C(fitParameterLimits=limits(), staticParameters={}), HAT_STATE)
    if a is None:
        return
    rest = [k for k in HAT_ALL if k not in group]
    keys = subsets(group)
    if E().choose(2):
        keys = (keys + rest)[::-1]
    given = {k: hat_value(k) for k in keys}
    idx = fresh_int("resultIndex", 0)
    mk = {}

    def opt(**kw):
        mk["opt"] = kw
        return None

    def model(**kw):
        mk["model"] = kw
        return None
    v.cover("precondition")
    r = v.call(lambda: C(resultIndex=idx, **given))
    if not r.ok:
        v.fail("McHat: documented settings are not refused", repr(r.exc))
        return
    o = r.value
    v.cover("created")
    check_defaults(v, "McHat", o, HAT_D, given)
    for nm, d, args in (("optimization", OPT_D, o._optArgs), ("model", MOD_D, o._modelArgs)):
        want = {k: given[k] for k in given if k in d}
        want["resultIndex"] = idx
        v.prove(f"McHat: the {nm} settings are exactly those given", boolz(
            And(z3.BoolVal(args.keys() == want.keys()),
                *[eq(args[k], want[k]) for k in want if k in args])))
    check_separate(v, "McHat", a, o, HAT_STATE)


@vc("McHat settings: run", ["C23"], [HAT + ".__init__"], own="C23")
def vc_hat_run(v):
    hat_case(v, list(HAT_D))


@vc("McHat settings: model", ["C23"], [HAT + ".__init__"], own="C23")
def vc_hat_model(v):
    hat_case(v, list(MOD_D))


@vc("McHat settings: optimization", ["C23"], [HAT + ".__init__"], own="C23", paths=9000)
def vc_hat_opt(v):
    hat_case(v, list(OPT_D))


@vc("McHat unknown settings", ["C23"], [HAT + ".__init__"], own="C23")
def vc_hat_unknown(v):
    refuse(v, "McHat", v.get(HAT), HAT_ALL, dict(nRep=fresh_int("nRep", 1), seed=fresh_int("seed", 0),
                                                 maxIter=fresh_int("maxIter", 0)))


DATA_STATE = list(DATA_D)
DATA_FUNCS = [BASE + ".__init__", BASE + ".processKwargs"]


def data_case(v, path, spec):
    v.patch(BASE + ".from_file", lambda self, f=None: None)
    C = v.get(path)
    what = path.split(":")[1]
    a = make_earlier(v, C, DATA_STATE)
    if a is None:
        return
    keys = subsets(spec)
    given = {k: data_value(k) for k in keys}
    v.cover("precondition")
    r = v.call(lambda: C(**given))
    if not r.ok:
        v.fail(f"{what}: documented settings are not refused", repr(r.exc))
        return
    v.cover("created")
    check_defaults(v, what, r.value, spec, given)
    check_separate(v, what, a, r.value, DATA_STATE)


@vc("McData1D settings", ["C23"], [D1 + ".__init__"] + DATA_FUNCS, own="C23")
def vc_data1(v):
    data_case(v, D1, DATA_D)


@vc("McData2D settings", ["C23"], [D2 + ".__init__"] + DATA_FUNCS, own="C23")
def vc_data2(v):
    data_case(v, D2, DATA2_D)


@vc("McData unknown settings", ["C23"], [D1 + ".__init__", D2 + ".__init__", BASE + ".processKwargs"],
    own="C23")
def vc_data_unknown(v):
    v.patch(BASE + ".from_file", lambda self, f=None: None)
    path, spec = ((D1, DATA_D), (D2, DATA2_D))[E().choose(2)]
    refuse(v, path.split(":")[1], v.get(path), spec, dict(qNudge=fresh_real("qNudge")), INTERNAL)
