"""C10, C11, C12: contracts of McCore."""
import types

import z3

from dv import core
from dv.contract import vc
from dv.core import ChiF, E, SumF, Unsupported, lam, raise_modelled
from dv.values import (SymArr, SymInt, SymReal, XList, boolz, fresh_arr, fresh_int, fresh_real, mkarr,
                       msum, nz, real, same, wrap, zi, zr, And, is_int_like)

from .ghostpar import IofF, SymPar, SymTable, VofF, fresh_par, fresh_table

K = "mcsas3.mc_core:McCore"


# ---------------------------------------------------------------- specification functions
def spec_I(table, n, j):
    """total intensity at datapoint j: sum over the contributions"""
    return msum(n, lambda i: IofF(table.fn(i), j))


def chi(m, arr, x0):
    """goodness of fit of a model intensity at scaling and background x0 (defined in C14)"""
    return ChiF(nz(m), lam(lambda j: zr(arr.at(j))), zr(x0.at(z3.IntVal(0))),
                zr(x0.at(z3.IntVal(1))))


# ---------------------------------------------------------------- contracts of the callees
def c_calcModelIV(self, parameters):
    """McModel.calcModelIV: intensity and volume are functions of the contribution (see C15)"""
    if type(parameters) is not SymPar:
        raise Unsupported("calcModelIV of something else than a contribution")
    m, p = E().ghost["m"], parameters.p
    E().ghost["nIV"] = E().ghost.get("nIV", 0) + 1
    return SymArr(m, lambda j: SymReal(IofF(p, j))), SymReal(VofF(p))


def c_pick(self):
    """McModel.pick: a new contribution, drawn anew (see C13)"""
    p = fresh_par("pick")
    E().ghost.setdefault("picks", []).append(p)
    object.__setattr__(self, "pickParameters", p)


def c_match(self, modelDataI, x0=None):
    """optimizeScalingAndBackground.match: gof is the chi-square at the returned x (see C14)"""
    if type(modelDataI) is not SymArr:
        raise Unsupported("match of something else than an intensity array")
    if not E().branch(nz(modelDataI.n) == nz(E().ghost["m"])):
        raise_modelled(ValueError("operands could not be broadcast together"))
    sc, bg = E().fresh_real("sc"), E().fresh_real("bg")
    x = SymArr.of([SymReal(sc), SymReal(bg)])
    gof = E().fresh_real("gof")
    E().assume(gof == ChiF(nz(modelDataI.n), lam(lambda j: zr(modelDataI.at(j))), sc, bg))
    return x, SymReal(gof)


def c_osb_init(self, measDataI=None, measDataISigma=None, xBounds=None):
    self.measDataI, self.measDataISigma, self.xBounds = measDataI, measDataISigma, xBounds
    E().ghost["osb"] = (measDataI, measDataISigma)


def use_callees(v):
    v.patch("mcsas3.mc_model:McModel.calcModelIV", c_calcModelIV)
    v.patch("mcsas3.mc_model:McModel.pick", c_pick)
    v.patch("mcsas3.osb:optimizeScalingAndBackground.match", c_match)
    v.patch("mcsas3.osb:optimizeScalingAndBackground.__init__", c_osb_init)


def x0_arr(hint="x0"):
    return SymArr.of([fresh_real(hint + "s"), fresh_real(hint + "b")])


def blank_core(v):
    McCore = v.get("mcsas3.mc_core:McCore")
    McModel = v.get("mcsas3.mc_model:McModel")
    McOpt = v.get("mcsas3.mc_opt:McOpt")
    OSB = v.get("mcsas3.osb:optimizeScalingAndBackground")
    c = object.__new__(McCore)
    c._model, c._opt, c._OSB = object.__new__(McModel), object.__new__(McOpt), object.__new__(OSB)
    return c


def opt_running(o, n):
    """an arbitrary running state"""
    step, acc = fresh_int("step", 0), fresh_int("acc", 0)
    o.step, o.accepted = step, acc
    ln = fresh_int("nacc", 0)
    fs = E().register_fun(E().fresh_fun("accSteps", core.I, core.I))
    fg = E().register_fun(E().fresh_fun("accGofs", core.I, core.R))
    o.acceptedSteps = XList(ln.i, lambda i: SymInt(fs(i)))
    o.acceptedGofs = XList(ln.i, lambda i: SymReal(fg(i)))
    o.repetition = fresh_int("rep", 0)


def core_state(v, c=None):
    """McCore object in an arbitrary state with the invariant of C10"""
    c = c or blank_core(v)
    n, m = fresh_int("nContrib", 1), fresh_int("ndata", 1)
    E().ghost["m"] = m
    c._model.nContrib = n
    set_invariant(c, n, m)
    opt_running(c._opt, n)
    o = c._opt
    o.maxIter, o.convCrit = fresh_int("maxIter"), fresh_real("convCrit")
    inf = E().fresh_bool("maxAcceptInf")
    o.maxAccept = SymReal(z3.ToReal(E().fresh_int("maxAccept")), False, inf, False)
    o.weighting = fresh_real("weighting")
    o.testX0, o.testModelI, o.testModelV = None, None, None
    c._model.pickParameters = None
    c._measData = dict(Q=[fresh_arr("Q", m)], I=fresh_arr("Imeas", m), ISigma=fresh_arr("Sig", m))
    c._OSB.measDataI, c._OSB.measDataISigma = c._measData["I"], c._measData["ISigma"]
    return c


def set_invariant(c, n, m):
    """contributions, intensity, volumes, x0 and gof with the invariant holding by definition"""
    mo, o = c._model, c._opt
    tab = fresh_table(n)
    mo.parameterSet = tab
    P = tab.fn
    o.modelI = SymArr(m, lambda j: SymReal(msum(n, lambda i: IofF(P(i), j))))
    mo.volumes = SymArr(n, lambda i: SymReal(VofF(P(i))))
    o.x0 = x0_arr()
    g = E().fresh_real("gof")
    o.gof = SymReal(g)
    E().assume(g == chi(m, o.modelI, o.x0))


def invariant(c):
    """C10 as formulas on the state of c"""
    mo, o = c._model, c._opt
    n, m = mo.nContrib, E().ghost["m"]
    tab = mo.parameterSet
    if type(tab) is not SymTable:
        raise Unsupported("parameterSet is not a table")
    j, i = E().fresh_int("j"), E().fresh_int("i")
    E().hint_idx.extend([j, i])
    rj = z3.And(0 <= j, j < nz(m))
    ri = z3.And(0 <= i, i < nz(n))
    MI, V = o.modelI, mo.volumes
    out = [("one row per contribution", nz(tab.n) == nz(n)),
           ("intensity has the length of the data", nz(MI.n) == nz(m)),
           ("volumes has one entry per contribution", nz(V.n) == nz(n)),
           ("intensity is the sum over all contributions",
            z3.Implies(rj, zr(MI.at(j)) == spec_I(tab, n, j))),
           ("volumes are those of the contributions in order",
            z3.Implies(ri, zr(V.at(i)) == VofF(tab.fn(i)))),
           ("gof is the reduced chi-square at the stored scaling and background",
            And(real(o.gof).fin, zr(o.gof) == chi(m, MI, o.x0)))]
    return out


def snap(c):
    o, mo = c._opt, c._model
    return types.SimpleNamespace(
        step=o.step, acc=o.accepted, gof=o.gof, x0=mkarr(o.x0).copy(), tab=mo.parameterSet.copy(),
        vol=mo.volumes.copy(), MI=o.modelI.copy(), steps=o.acceptedSteps.copy(),
        gofs=o.acceptedGofs.copy(), n=mo.nContrib, lim=(o.maxIter, o.maxAccept, o.convCrit),
        rep=o.repetition)


def same_list(a, b, upto):
    """the first `upto` elements agree"""
    i = E().fresh_int("li")
    E().hint_idx.append(i)
    return z3.Implies(z3.And(0 <= i, i < nz(upto)), boolz(same(a.at(i), b.at(i))))


def ln(x):
    return nz(x.n) if type(x) is XList else z3.IntVal(len(x))


def xl(x):
    return x if type(x) is XList else XList(0, None, list(x))


def iterate_post(v, c, old, accepted_hint=None):
    """postcondition of iterate: C11 (and the step counting of C12)"""
    o, mo = c._opt, c._model
    m, n = E().ghost["m"], old.n
    cx = z3.simplify(zi(old.step) % zi(n))
    i, j = E().fresh_int("ri"), E().fresh_int("rj")
    E().hint_idx.extend([i, j, cx])
    E().note_update_idx(cx)
    ri, rj = z3.And(0 <= i, i < nz(n)), z3.And(0 <= j, j < nz(m))
    pick = E().ghost.get("picks", [])
    v.prove("exactly one new pick is drawn", z3.BoolVal(len(pick) == 1))
    if len(pick) != 1:
        return
    p = pick[0].p
    oldP, newP = old.tab.fn, mo.parameterSet.fn
    v.prove("limits, repetition and number of contributions unchanged", And(
        *[boolz(same(a, b)) for a, b in zip(old.lim, (o.maxIter, o.maxAccept, o.convCrit))],
        boolz(same(old.rep, o.repetition)), boolz(same(n, mo.nContrib))))
    # was the pick adopted?  seen by the accepted counter of the real code
    adopted = E().branch(zi(o.accepted) != zi(old.acc))
    # what the decision must be: the chi-square of the replaced sum, at the newly matched x0
    T = SymArr(m, lambda t: SymReal(zr(old.MI.at(t)) + IofF(p, t) - IofF(oldP(cx), t)))
    sc, bg = E().ghost["lastmatch"]
    newgof = ChiF(nz(m), lam(lambda t: zr(T.at(t))), sc, bg)
    better = newgof < zr(old.gof)
    so, sg = xl(o.acceptedSteps), xl(o.acceptedGofs)
    v.prove("C11,C12.step counts by one", zi(o.step) == zi(old.step) + 1)
    if adopted:
        v.cover("adopted")
        v.prove("adopted only if the gof becomes strictly smaller", better)
        v.prove("accepted increases by one", zi(o.accepted) == zi(old.acc) + 1)
        v.prove("the contribution of this step is replaced by the pick", newP(cx) == p)
        v.prove("all other contributions are kept",
                z3.Implies(z3.And(ri, i != cx), newP(i) == oldP(i)))
        v.prove("the volume of the pick is stored",
                zr(mo.volumes.at(cx)) == VofF(p))
        v.prove("all other volumes are kept",
                z3.Implies(z3.And(ri, i != cx), zr(mo.volumes.at(i)) == zr(old.vol.at(i))))
        v.prove("the gof is that of the replaced set", zr(o.gof) == newgof)
        v.prove("scaling and background are those matched with the pick", z3.And(
            zr(mkarr(o.x0).at(z3.IntVal(0))) == sc, zr(mkarr(o.x0).at(z3.IntVal(1))) == bg))
        v.prove("history: one entry more", z3.And(ln(so) == ln(old.steps) + 1,
                                                  ln(sg) == ln(old.gofs) + 1))
        v.prove("history: earlier entries kept", z3.And(
            same_list(so, old.steps, ln(old.steps)), same_list(sg, old.gofs, ln(old.gofs))))
        v.prove("history: the iteration number is recorded",
                zi(so.at(ln(old.steps))) == zi(old.step))
        v.prove("history: the gof reached is recorded", zr(sg.at(ln(old.gofs))) == newgof)
    else:
        v.cover("rejected")
        v.prove("rejected only if the gof does not become smaller", z3.Not(better))
        v.prove("rejected: contributions unchanged", z3.Implies(ri, newP(i) == oldP(i)))
        v.prove("rejected: volumes unchanged",
                z3.Implies(ri, zr(mo.volumes.at(i)) == zr(old.vol.at(i))))
        v.prove("rejected: intensity unchanged",
                z3.Implies(rj, zr(o.modelI.at(j)) == zr(old.MI.at(j))))
        v.prove("rejected: scaling and background unchanged", And(*[
            boolz(same(mkarr(o.x0).at(z3.IntVal(q)), old.x0.at(z3.IntVal(q)))) for q in (0, 1)]))
        v.prove("rejected: gof unchanged", boolz(same(o.gof, old.gof)))
        v.prove("rejected: history unchanged", z3.And(
            ln(so) == ln(old.steps), ln(sg) == ln(old.gofs),
            same_list(so, old.steps, ln(old.steps)), same_list(sg, old.gofs, ln(old.gofs))))


def logged_match(self, modelDataI, x0=None):
    x, g = c_match(self, modelDataI, x0)
    E().ghost["lastmatch"] = (zr(x.at(z3.IntVal(0))), zr(x.at(z3.IntVal(1))))
    E().ghost["nmatch"] = E().ghost.get("nmatch", 0) + 1
    return x, g


@vc("McCore.iterate", ["C10", "C11", "C12"],
    [K + ".iterate", K + ".reEvaluate", K + ".evaluate", K + ".accept", K + ".reject",
     K + ".contribIndex"], own="C11")
def vc_iterate(v):
    c = core_state(v)
    use_callees(v)
    v.patch("mcsas3.osb:optimizeScalingAndBackground.match", logged_match)
    old = snap(c)
    cx = z3.simplify(zi(old.step) % zi(old.n))
    E().hint_idx.append(cx)
    E().note_update_idx(cx)
    v.cover("precondition")
    r = v.call(c.iterate)
    if not r.ok:
        v.fail("iterate does not raise", repr(r.exc))
        return
    v.prove("one scaling/background fit per pick",
            z3.BoolVal(E().ghost.get("nmatch", 0) == 1))
    for nm, f in invariant(c):
        v.prove("C10." + nm, f)
    if E().ghost.get("nmatch", 0) == 1:
        iterate_post(v, c, old)


@vc("McCore.initModelI", ["C10"], [K + ".initModelI"])
def vc_initModelI(v):
    c = core_state(v)
    use_callees(v)
    o, mo = c._opt, c._model
    # whatever was there before
    o.modelI, mo.volumes = None, None
    if not hasattr(type(c), "initModelI"):
        v.prove("no such function any more", True)
        v.cover("gone")
        return
    r = v.call(c.initModelI)
    if not r.ok:
        v.fail("initModelI does not raise", repr(r.exc))
        return
    v.cover("done")
    for nm, f in invariant(c)[:5]:
        v.prove(nm, f)


class GhostLoad:
    pass


@vc("McCore.__init__ (new fit)", ["C10", "C12", "C11", "C09"],
    [K + ".__init__", K + ".initModelI", K + ".evaluate"], own="C10")
def vc_init_new(v):
    use_callees(v)
    McCore, McModel, McOpt = (v.get("mcsas3.mc_core:McCore"), v.get("mcsas3.mc_model:McModel"),
                              v.get("mcsas3.mc_opt:McOpt"))
    n, m = fresh_int("nContrib", 1), fresh_int("ndata", 1)
    E().ghost["m"] = m
    mo, o = object.__new__(McModel), object.__new__(McOpt)
    mo.nContrib = n
    mo.parameterSet = fresh_table(n)
    tab0 = mo.parameterSet.copy()
    mo.staticParameters = {"a": fresh_real("a")}
    mo.volumes = None
    # left-overs of an earlier run
    opt_running(o, n)
    o.gof = fresh_real("oldgof")
    o.x0 = None
    if E().choose(2) == 1:
        o.x0 = x0_arr("oldx0")
    o.modelI = None
    o.maxIter, o.convCrit, o.maxAccept = fresh_int("mi"), fresh_real("cc"), fresh_real("ma")
    ghost_q = {}

    class Func:
        __module__ = "ghost"
        info = types.SimpleNamespace(parameters=types.SimpleNamespace(defaults={}))

        def make_kernel(self, q):
            ghost_q["q"] = q
            return object()
    mo.func = Func()
    data = dict(Q=[fresh_arr("Q", m)], I=fresh_arr("Imeas", m), ISigma=fresh_arr("Sig", m))
    ri = fresh_int("resultIndex", 0)
    r = v.call(McCore, data, model=mo, opt=o, resultIndex=ri)
    if not r.ok:
        v.fail("set-up does not raise", repr(r.exc))
        return
    c = r.value
    v.cover("set up")
    v.prove("C09.a fit keeps its result index", boolz(same(c.resultIndex.resultIndex, ri)))
    v.prove("model and settings objects are those given", z3.BoolVal(c._model is mo and c._opt is o))
    v.prove("the kernel is made for the Q of the data", z3.BoolVal(ghost_q.get("q") is data["Q"]))
    os = E().ghost.get("osb", (None, None))
    v.prove("the chi-square uses the I and ISigma of the data",
            z3.BoolVal(os[0] is data["I"] and os[1] is data["ISigma"]))
    for nm, f in invariant(c):
        v.prove("C10." + nm, f)
    i = E().fresh_int("i")
    v.prove("contributions unchanged", z3.Implies(z3.And(0 <= i, i < nz(n)),
                                                  mo.parameterSet.fn(i) == tab0.fn(i)))
    v.prove("C12.both counters start at zero", z3.And(zi(o.step) == 0, zi(o.accepted) == 0))
    s, g = xl(o.acceptedSteps), xl(o.acceptedGofs)
    v.prove("C12.history holds one entry", z3.And(ln(s) == 1, ln(g) == 1))
    v.prove("C12.history holds the initial gof", z3.And(
        zi(s.at(z3.IntVal(0))) == 0, boolz(same(g.at(z3.IntVal(0)), o.gof))))


@vc("McCore.__init__ (reload)", ["C08", "C10", "C09"], [K + ".__init__", K + ".initModelI"], own="C08")
def vc_init_load(v):
    use_callees(v)
    McCore = v.get("mcsas3.mc_core:McCore")
    c0 = core_state(v)
    mo, o = c0._model, c0._opt
    mo.staticParameters = {}
    E().ghost["loaded"] = None

    class Func:
        __module__ = "ghost"
        info = types.SimpleNamespace(parameters=types.SimpleNamespace(defaults={}))

        def make_kernel(self, q):
            return object()
    mo.func = Func()
    args = {}

    def mk(kind, obj):
        def ctor(loadFromFile=None, loadFromRepetition=None, resultIndex=1, **k):
            args[kind] = (loadFromFile, loadFromRepetition, resultIndex, k)
            return obj
        return ctor
    v.patch("mcsas3.mc_core:McModel", mk("model", mo))
    v.patch("mcsas3.mc_core:McOpt", mk("opt", o))
    old = snap(c0)
    data = c0._measData
    ri, rep = fresh_int("resultIndex", 0), fresh_int("rep", 0)
    r = v.call(McCore, data, loadFromFile="file", loadFromRepetition=rep, resultIndex=ri)
    if not r.ok:
        v.fail("set-up from a file does not raise", repr(r.exc))
        return
    c = r.value
    v.cover("set up")
    for kind in ("model", "opt"):
        a = args.get(kind)
        v.prove(f"C09.{kind} is loaded from the given file, repetition and result index",
                z3.BoolVal(False) if a is None else And(
                    a[0] == "file", boolz(same(a[1], rep)), boolz(same(a[2], ri)), not a[3]))
    v.prove("C09.a fit keeps its result index", boolz(same(c.resultIndex.resultIndex, ri)))
    n = old.n
    i = E().fresh_int("i")
    E().hint_idx.append(i)
    v.prove("loaded contributions are not altered", z3.And(
        nz(mo.parameterSet.n) == nz(n),
        z3.Implies(z3.And(0 <= i, i < nz(n)), mo.parameterSet.fn(i) == old.tab.fn(i))))
    v.prove("loaded counters are not altered", z3.And(zi(o.step) == zi(old.step),
                                                      zi(o.accepted) == zi(old.acc)))
    s, g = xl(o.acceptedSteps), xl(o.acceptedGofs)
    v.prove("loaded acceptance history is not altered", z3.And(
        ln(s) == ln(old.steps), ln(g) == ln(old.gofs), same_list(s, old.steps, ln(s)),
        same_list(g, old.gofs, ln(g))))
    for nm, f in invariant(c):
        v.prove("C10." + nm, f)


# ---------------------------------------------------------------- optimize
def cond(o):
    return And((o.accepted < o.maxAccept).b if not isinstance(o.accepted < o.maxAccept, bool)
               else o.accepted < o.maxAccept,
               zi(o.step) < zi(o.maxIter), zr(o.gof) > zr(o.convCrit))


def running(o):
    a = o.accepted < o.maxAccept
    b = o.step < o.maxIter
    c = o.gof > o.convCrit
    f = lambda x: boolz(x) if isinstance(x, bool) and type(x) is bool else x.b
    return z3.And(f(a), f(b), f(c))


class OptLoop:
    name = "optimize"

    def __init__(self, v, c, old):
        self.v, self.c, self.old = v, c, old

    def inv(self, loc):
        o, old = self.c._opt, self.old
        it = E().ghost["iterations"]
        le = lambda a, b: (lambda r: boolz(r) if type(r) is bool else r.b)(a <= b)
        out = [("counters only grow", z3.And(zi(o.step) >= zi(old.step),
                                             zi(o.accepted) >= zi(old.acc))),
               ("each iteration counts exactly once", zi(o.step) - zi(old.step) == zi(it)),
               ("gof never increases", zr(o.gof) <= zr(old.gof)),
               ("step does not exceed its limit",
                z3.Or(zi(o.step) <= zi(o.maxIter), zi(o.step) == zi(old.step))),
               ("accepted does not exceed its limit",
                z3.Or(le(o.accepted, o.maxAccept), zi(o.accepted) == zi(old.acc))),
               ("limits unchanged", And(*[boolz(same(a, b)) for a, b in zip(
                   old.lim, (o.maxIter, o.maxAccept, o.convCrit))]))]
        return out + [("C10." + a, b) for a, b in invariant(self.c)]

    def havoc(self, loc):
        o = self.c._opt
        set_invariant(self.c, self.old.n, E().ghost["m"])
        lim, rep = self.old.lim, self.old.rep
        opt_running(o, self.old.n)
        o.repetition = rep
        E().ghost["iterations"] = fresh_int("it", 0)
        E().ghost["called"] = 0

    def pre_iteration(self, loc):
        pass

    def post_iteration(self, loc):
        pass


@vc("McCore.optimize", ["C12", "C10"], [K + ".optimize"], own="C12")
def vc_optimize(v):
    c = core_state(v)
    use_callees(v)
    o = c._opt
    old = snap(c)
    E().ghost["iterations"] = 0

    def c_iterate(self):
        """contract of iterate (verified above)"""
        v.prove("an iteration is made only while all three limits allow it", running(o))
        st, ac, g = o.step, o.accepted, o.gof
        set_invariant(c, old.n, E().ghost["m"])
        o.step = st + 1
        b = E().fresh_bool("acc")
        o.accepted = wrap(z3.If(b, zi(ac) + 1, zi(ac)))
        E().assume(z3.If(b, zr(o.gof) < zr(g), zr(o.gof) == zr(g)))
        E().ghost["iterations"] = wrap(zi(E().ghost["iterations"]) + 1)
    v.patch(K + ".iterate", c_iterate)
    E().loop_contract = OptLoop(v, c, old)
    v.cover("precondition")
    r = v.call(c.optimize)
    if not r.ok:
        v.fail("optimize does not raise", repr(r.exc))
        return
    v.cover("stopped")
    v.prove("stops only when a limit is reached", z3.Not(running(o)))
    for nm, f in E().loop_contract.inv({}):
        v.prove("at the end: " + nm, f)
