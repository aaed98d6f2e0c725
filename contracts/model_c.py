"""C13, C15, C16: contracts of mc_model."""
import z3

from dv import core
from dv.contract import vc
from dv.core import E, PathEnd, Unsupported, raise_modelled
from dv.loops import SymRange
from dv.values import (And, Fn, Not, Or, SymArr, SymBool, SymInt, SymReal, boolz, fresh_arr, fresh_bool,
                       fresh_int, fresh_real, inv, is_int_like, nz, real, same, wrap, zi, zr)
from .ghostmap import KeyMap, SymKey, XList

M = "mcsas3.mc_model:McModel"


# ------------------------------------------------------------------------------------ C13
class Limits:
    """arbitrary fit limits of any number of parameters"""

    def __init__(self, v, log=None):
        self.n = fresh_int("npar", 1)
        self.lo = E().register_fun(E().fresh_fun("lo", core.I, core.R))
        self.hi = E().register_fun(E().fresh_fun("hi", core.I, core.R))
        self.islog = E().register_fun(E().fresh_fun("islog", core.I, core.B)) if log is None \
            else (lambda i: log)
        # uniform picking needs ordered limits (numpy leaves low > high undefined)
        E().add_axiom(self.lo, lambda i: z3.Or(self.islog(i), self.lo(i) <= self.hi(i)))
        n = nz(self.n)
        self.map = KeyMap.of(self.n, lambda i: (SymReal(self.lo(i)), SymReal(self.hi(i))))

    def inside(self, i, x):
        lo, hi = self.lo(i), self.hi(i)
        return z3.Or(z3.And(lo <= x, x <= hi), z3.And(self.islog(i), hi <= x, x <= lo))

    def legal(self, i):
        return z3.Implies(self.islog(i), z3.And(self.lo(i) > 0, self.hi(i) > 0))

    def key(self):
        k = E().fresh_int("p")
        E().assume(z3.And(0 <= k, k < nz(self.n)))
        E().hint_idx.append(k)
        return k


def ghost_uniform(low=0.0, high=1.0, size=None):
    """assumed contract of numpy's Generator.uniform: a value of the closed range; nothing is known
    about limits that are not ordered (numpy documents them as undefined)"""
    if size is not None:
        raise Unsupported("uniform(size=...)")
    lo, hi = real(low), real(high)
    f = E().fresh_real("u")
    c = z3.Implies(z3.And(boolz(And(lo.fin, hi.fin)), lo.r <= hi.r), z3.And(lo.r <= f, f <= hi.r))
    E().assume(c)
    return SymReal(f)


def model_with(v, L, logmap=True):
    o = object.__new__(v.get(M))
    o.fitParameterLimits = L.map
    o.randomGenerators = KeyMap.of(L.n, lambda i: ghost_uniform)
    o.logRandoms = KeyMap.of(L.n, lambda i: SymBool(L.islog(i)))
    o.pickParameters = None
    return o


def check_pick(v, L, r, pre=""):
    ok = type(r) is KeyMap
    v.prove(pre + "a pick is a dict of the fit parameters", z3.BoolVal(ok))
    if not ok:
        return
    v.prove(pre + "a pick has no other parameter", z3.BoolVal(not r.extra))
    k = L.key()
    v.prove(pre + "a pick has a value for each fit parameter", r.dom(k))
    x = r.get_at(k)
    isnum = x is not None and not isinstance(x, (tuple, list, str)) and hasattr(x, "_num") or \
        type(x) in (SymReal, SymInt, int, float)
    v.prove(pre + "a picked value is a number", z3.BoolVal(bool(isnum)))
    if isnum:
        x = real(x)
        v.prove(pre + "a picked value lies within its limits", And(x.fin, L.inside(k, x.r)))
        v.prove(pre + "a limit that is not positive is refused in logarithmic picking", L.legal(k))


@vc("McModel.generateRandomParameterValues", ["C13"],
    [M + ".generateRandomParameterValues", M + ".log_transform_generator"], own="C13",
    helper="McModel.generateRandomParameterValues")
def vc_gen(v):
    L = Limits(v)
    o = model_with(v, L)
    v.cover("precondition")
    r = v.call(o.generateRandomParameterValues)
    if r.ok:
        v.cover("picked")
        check_pick(v, L, r.value)
        v.prove("limits are not changed", z3.BoolVal(o.fitParameterLimits is L.map and L.map.full()
                                                     and len(L.map.layers) == 1))
    else:
        v.cover("refused")
        E().add_forall(z3.IntVal(0), nz(L.n), L.legal)
        v.fail("legal limits are not refused", repr(r.exc))


def lims(o, i):
    lo, hi = o.fitParameterLimits.get_at(i, True)
    return zr(lo), zr(hi)


def use_generate(v):
    """callers see the contract of generateRandomParameterValues"""
    def contract(self):
        fl, lr, rg = self.fitParameterLimits, self.logRandoms, self.randomGenerators
        ok = all(type(x) is KeyMap and x.full() for x in (fl, lr, rg))
        E().prove("picking is set up for each fit parameter and no other", z3.BoolVal(ok))
        if not ok:
            raise Unsupported("picking without generators")
        n = nz(fl.n)
        p = E().fresh_int("pp")
        E().assume(z3.And(0 <= p, p < n))
        E().prove("each parameter has a uniform generator", z3.BoolVal(
            getattr(rg.get_at(p), "__name__", "") in ("uniform", "ghost_uniform")))

        def logz(i):
            b = lr.get_at(i, True)
            return boolz(b.b) if type(b) is SymBool else z3.BoolVal(bool(b))

        def legal(i):
            lo, hi = lims(self, i)
            return z3.Implies(logz(i), z3.And(lo > 0, hi > 0))

        if E().choose(2) == 1:
            k = E().fresh_int("bad")
            E().assume(z3.And(0 <= k, k < n, z3.Not(legal(k))))
            raise_modelled(ValueError("low and high must be positive, nonzero values."))
        f = E().fresh_fun("pick", core.I, core.R)
        E().register_fun(f.f if isinstance(f, core.BodyFun) else f)

        def ax(i):
            lo, hi = lims(self, i)
            x = f(i)
            return z3.Implies(z3.And(0 <= i, i < n), z3.And(legal(i), z3.Or(
                z3.And(lo <= x, x <= hi), z3.And(logz(i), hi <= x, x <= lo))))
        E().add_axiom(f, ax)
        return KeyMap.of(fl.n, lambda i: SymReal(f(i)))
    v.use("McModel.generateRandomParameterValues", M + ".generateRandomParameterValues", contract)


@vc("McModel.pick", ["C13"], [M + ".pick"], own="C13", uses=["McModel.generateRandomParameterValues"])
def vc_pick(v):
    use_generate(v)
    L = Limits(v)
    o = model_with(v, L)
    v.cover("precondition")
    r = v.call(o.pick)
    if r.ok:
        v.cover("picked")
        check_pick(v, L, o.pickParameters)


@vc("McModel.__init__ (contributions)", ["C13"],
    [M + ".__init__", M + ".fitKeys", M + ".resetParameterSet", M + ".checkSettings", M + ".loadModel",
     M + ".loadMcsasSphereModel"], own="C13", uses=["McModel.generateRandomParameterValues"])
def vc_model_init(v):
    use_generate(v)
    from .ghostmap import ghost_frame
    E().ghost["DataFrame"] = ghost_frame
    E().ghost["load_model"] = lambda n, dtype=None: "opaque model"
    b = fresh_bool("logRandom")
    N = fresh_int("nContrib", 1)
    L = Limits(v, log=b.b)
    name = ("sphere", "mcsas_sphere")[E().choose(2)]
    v.cover("precondition")
    r = v.call(v.get(M), nContrib=N, fitParameterLimits=L.map, staticParameters={}, modelName=name,
               seed=fresh_int("seed", 0), logRandom=b)
    if not r.ok:
        v.cover("refused")
        E().add_forall(z3.IntVal(0), nz(L.n), L.legal)
        v.fail("legal settings are not refused", repr(r.exc))
        return
    v.cover("set up")
    o = r.value
    t = o.parameterSet
    k = L.key()
    v.prove("the number of contributions is the configured one", And(
        nz(t.n) == nz(N), boolz(same(o.nContrib, N))))
    i = E().fresh_int("row")
    E().assume(z3.And(0 <= i, i < nz(N)))
    E().hint_idx.append(i)
    if not v.prove("every contribution has values", t.dom(i)):
        return
    row = t.row(i)
    check_pick(v, L, row, "initial: ")
    v.prove("the table has a column per fit parameter and no other",
            z3.And(z3.BoolVal(not t.cols.extra), t.cols.dom(k)))
    # the legality of the limits was just proved for an arbitrary parameter
    E().add_forall(z3.IntVal(0), nz(L.n), L.legal)
    # later picks
    r = v.call(o.pick)
    if not r.ok:
        v.fail("picking after set-up does not raise", repr(r.exc))
        return
    check_pick(v, L, o.pickParameters, "later: ")


# ------------------------------------------------------------------------------------ C15
S = "mcsas3.mc_model:mcsasSphereModel"


def sphere_spec(q, r, drho):
    """V^2 (drho/100)^2 F^2 and V, with F = 3 (sin qr - qr cos qr)/(qr)^3"""
    qr = q * r
    F = 3 * (core.SinF(z3.simplify(qr)) - qr * core.CosF(z3.simplify(qr))) * inv(z3.simplify(qr * qr * qr))
    V = core.PI * 4 / 3 * r * r * r
    d = drho / 100
    return V * V * d * d * F * F, V


def samelist(a, b):
    return list(a) == list(b) and all(x is y or boolz_true(same(x, y)) for x, y in zip(a.values(), b.values()))


def boolz_true(c):
    return c is True or (not isinstance(c, bool) and E().valid(c))


def attrs(o):
    return dict(vars(o))


@vc("mcsas_sphere intensity of a contribution", ["C15"],
    [S + ".__init__", S + ".make_kernel", S + ".kernelfunc", M + ".calcModelIV",
     M + ".loadMcsasSphereModel"], own="C15")
def vc_sphere(v):
    n = fresh_int("n", 1)
    q = fresh_arr("q", n, pos=True)
    vals = {k: fresh_real(k) for k in ("sld", "sld_solvent", "radius")}
    v.assume(vals["radius"].r > 0)
    # every split of the parameters into static ones (also left at their default) and picked ones
    mode = [("static", "picked", "default")[E().choose(3)] for _ in range(2)]
    static, picked = {}, {"radius": vals["radius"]}
    use = dict(vals)
    for k, m, dflt in zip(("sld", "sld_solvent"), mode, (1, 0)):
        if m == "static":
            static[k] = vals[k]
        elif m == "picked":
            picked[k] = vals[k]
        else:
            use[k] = dflt
    o = object.__new__(v.get(M))
    o.modelName, o.staticParameters = ("mcsas_sphere", "McSAS_sphere")[E().choose(2)], static
    st0, pk0 = dict(static), dict(picked)
    v.cover("precondition")
    r = v.call(o.loadMcsasSphereModel)
    if not r.ok:
        v.fail("loading the model does not raise", repr(r.exc))
        return
    r = v.call(o.func.make_kernel, [q])
    if not r.ok:
        v.fail("making the kernel does not raise", repr(r.exc))
        return
    o.kernel = r.value
    before, fb = attrs(o), attrs(o.func)
    q0 = q.copy()
    j = E().fresh_int("j")
    E().hint_idx.append(j)
    v.assume(z3.And(0 <= j, j < nz(n)))
    I, V = sphere_spec(zr(q.at(j)), vals["radius"].r, zr(use["sld"]) - zr(use["sld_solvent"]))
    # the model itself
    r = v.call(lambda: o.kernel(**dict(static, **picked)))
    if not r.ok:
        v.fail("the model does not raise", repr(r.exc))
        return
    v.cover("evaluated")
    Int, Vol = r.value
    x = real(Int.at(j))
    v.prove("intensity is V^2 (drho/100)^2 F^2", And(x.fin, x.r == I))
    v.prove("volume is 4/3 pi r^3", And(real(Vol).fin, zr(Vol) == V))
    # as used in the fit
    r = v.call(o.calcModelIV, picked)
    if not r.ok:
        v.fail("evaluating a contribution does not raise", repr(r.exc))
        return
    Int, Vol = r.value
    x = real(Int.at(j))
    v.prove("intensity of a contribution is divided by its volume", And(x.fin, x.r == I * inv(z3.simplify(V))))
    v.prove("volume of a contribution", zr(Vol) == V)
    v.prove("the model is not changed", z3.BoolVal(samelist(attrs(o), before) and samelist(attrs(o.func), fb)))
    v.prove("the parameters are not changed", z3.BoolVal(
        samelist(static, st0) and samelist(picked, pk0)))
    v.prove("Q is not changed", zr(q.at(j)) == zr(q0.at(j)))


@vc("McModel.calcModelIV (sasmodels)", ["C15"], [M + ".calcModelIV"], own="C15")
def vc_calc(v):
    import sasmodels
    n = fresh_int("n", 1)
    kind = E().choose(4)       # plain, product, mixture, product without a volume
    a = {k: fresh_real(k) for k in ("a", "b")}
    b = {k: fresh_real(k + "2") for k in ("b", "c")}
    F = fresh_arr("Fsq", n)
    V = fresh_real("V")
    v.assume(V.r != 0)
    calls = []

    class Plain:
        pass
    base = (Plain, sasmodels.product.ProductKernel, sasmodels.mixture.MixtureKernel,
            sasmodels.product.ProductKernel)[kind]

    class Kernel(base):
        def results(self):
            if kind == 3:
                raise_modelled(KeyError("volume"))
            return {"volume": V}
    kernel = Kernel()

    def call_Fq(k, p):
        calls.append((k, dict(p)))
        if kind:
            raise_modelled(AttributeError("no call_Fq"))
        return fresh_real("F"), F, fresh_real("R"), V, fresh_real("ratio")

    def call_kernel(k, p):
        calls.append((k, dict(p)))
        if not kind:
            raise Unsupported("call_kernel of a plain kernel")
        return F
    E().ghost.update(call_Fq=call_Fq, call_kernel=call_kernel)
    o = object.__new__(v.get(M))
    o.modelName, o.staticParameters, o.kernel = "sphere", a, kernel
    a0, b0, at0 = dict(a), dict(b), attrs(o)
    v.cover("precondition")
    r = v.call(o.calcModelIV, b)
    if kind == 3:
        v.prove("a model without volume is refused", z3.BoolVal(not r.ok))
        return
    if not r.ok:
        v.fail("evaluating a contribution does not raise", repr(r.exc))
        return
    v.cover("evaluated")
    Int, Vol = r.value
    j = E().fresh_int("j")
    v.assume(z3.And(0 <= j, j < nz(n)))
    x = real(Int.at(j))
    v.prove("intensity is the model intensity per volume", And(
        x.fin, x.r == (zr(F.at(j)) * inv(V.r) if kind == 0 else zr(F.at(j)))))
    v.prove("volume is that of the model", zr(Vol) == V.r)
    ok = len(calls) >= 1 and all(k is kernel and set(p) == {"a", "b", "c"} for k, p in calls)
    v.prove("the kernel is called with the static and the picked parameters", z3.BoolVal(ok))
    if ok:
        v.prove("picked values and static parameters are used", And(*[
            boolz(same(p[k], (b0 if k in b0 else a0)[k])) for _, p in calls for k in p]))
    v.prove("neither model nor parameters are changed", z3.BoolVal(
        samelist(a, a0) and samelist(b, b0) and samelist(attrs(o), at0)))


# ------------------------------------------------------------------------------------ C16
P = "mcsas3.mc_model:McSimPseudoModel"
LinF = z3.Function("lin", core.I, core.R, core.R)     # interpolant of dataset number i


def ghost_interp(log):
    """assumed contract of scipy.interpolate.interp1d: linear inside, fill values outside"""
    def interp1d(x, y, kind="linear", bounds_error=None, fill_value=None, **k):
        if k or bounds_error is not False or not isinstance(fill_value, tuple) or len(fill_value) != 2:
            raise Unsupported("interp1d options")
        if kind != "linear":
            num = 100
        else:
            num = len(log)
        log.append((x, y, kind))
        lo, hi = [real(z) for z in fill_value]
        n = nz(x.n)
        first, last = x.at(z3.IntVal(0)), x.at(z3.simplify(n - 1))

        def call(q):
            qq = q.copy()

            def at(j):
                z = zr(qq.at(j))
                below, above = z < zr(first), z > zr(last)
                f = lambda a, b: Or(And(below, a), And(above, b))
                return SymReal(z3.If(below, lo.r, z3.If(above, hi.r, LinF(num, z))),
                               f(lo.nan, And(z3.Not(below), hi.nan)))
            if lo.pinf is not False or hi.pinf is not False:
                raise Unsupported("infinite fill value")
            return SymArr(qq.n, Fn(at))
        return call
    E().ghost["interp1d"] = interp1d


@vc("McSimPseudoModel intensity", ["C16"],
    [P + ".__init__", P + ".make_kernel", P + ".kernelfunc", P + ".interpscale",
     P + ".extrapolatorHighQ"], own="C16")
def vc_sim(v):
    log = []
    ghost_interp(log)
    m, n = fresh_int("m", 2), fresh_int("n", 1)
    xs, ys, ss = fresh_arr("simQ", m, pos=True), fresh_arr("simI", m), fresh_arr("simS", m)
    v.assume(zr(xs.at(z3.IntVal(0))) < zr(xs.at(z3.simplify(nz(m) - 1))))
    q = fresh_arr("q", n, pos=True)
    R, y0, sc = fresh_real("factor"), fresh_real("y0"), fresh_real("scaling")
    v.assume(R.r > 0)
    v.cover("precondition")
    C = v.get(P)
    r = v.call(lambda: C(extrapY0=y0, extrapScaling=sc, simDataQ0=xs, simDataQ1=None, simDataI=ys,
                         simDataISigma=ss).make_kernel([q]))
    if not r.ok:
        v.fail("making the model does not raise", repr(r.exc))
        return
    r = v.call(lambda: r.value(factor=R))
    if not r.ok:
        v.fail("the model does not raise", repr(r.exc))
        return
    v.cover("evaluated")
    I, V = r.value
    j = E().fresh_int("j")
    v.assume(z3.And(0 <= j, j < nz(n)))
    E().hint_idx.append(j)
    nums = [i for i, (x, y, k) in enumerate(log) if k == "linear" and x is xs and y is ys]
    v.prove("the simulated intensity is interpolated linearly over the simulated Q",
            z3.BoolVal(bool(nums)))
    if not nums:
        return
    z = zr(q.at(j)) * R.r
    first, last = zr(xs.at(z3.IntVal(0))), zr(xs.at(z3.simplify(nz(m) - 1)))
    R6 = R.r * R.r * R.r * R.r * R.r * R.r
    z4 = inv(z3.simplify(z * z * z * z))
    x = real(I.at(j))
    v.prove("intensity inside of the simulated range", z3.Implies(
        z3.And(first <= z, z <= last), And(x.fin, x.r == LinF(nums[0], z3.simplify(z)) * R6)))
    v.prove("intensity below the simulated range", z3.Implies(
        z < first, And(x.fin, x.r == zr(ys.at(z3.IntVal(0))) * R6)))
    v.prove("intensity above the simulated range", z3.Implies(
        z > last, And(x.fin, x.r == (y0.r + sc.r * z4) * R6)))
    v.prove("volume is the cube of the size factor", zr(V) == R.r * R.r * R.r)


@vc("McSimPseudoModel missing data", ["C16"], [P + ".__init__"], own="C16")
def vc_sim_missing(v):
    ghost_interp([])
    m = fresh_int("m", 2)
    full = dict(simDataQ0=fresh_arr("simQ", m), simDataQ1=None, simDataI=fresh_arr("simI", m),
                simDataISigma=fresh_arr("simS", m))
    kw = {k: x for k, x in full.items() if E().choose(2)}
    if E().choose(2):
        kw["extrapY0"] = fresh_real("y0")
    v.cover("precondition")
    r = v.call(v.get(P), **kw)
    missing = any(k not in kw for k in full)
    if missing:
        v.prove("simulation data with a missing component are refused", z3.BoolVal(not r.ok))
    else:
        v.prove("complete simulation data are not refused", z3.BoolVal(r.ok))


@vc("McModel.calcModelIV (simulation)", ["C16"], [M + ".calcModelIV"], own="C16")
def vc_calc_sim(v):
    """the pseudo-model is what is evaluated, whichever way its name is written (as for loading it)"""
    n = fresh_int("n", 1)
    a = {k: fresh_real(k) for k in ("extrapY0", "extrapScaling")}
    b = {"factor": fresh_real("factor")}
    F, V = fresh_arr("Fsq", n), fresh_real("V")
    v.assume(V.r != 0)
    calls = []

    def other(*x):
        v.fail("a simulation is not evaluated by the sasmodels kernels", repr(x))
        raise PathEnd()

    def kernel(**p):
        calls.append(dict(p))
        return F, V
    E().ghost.update(call_Fq=other, call_kernel=other)
    o = object.__new__(v.get(M))
    o.modelName, o.staticParameters, o.kernel = ("sim", "Sim", "SIM")[E().choose(3)], a, kernel
    o.func = object.__new__(v.get("mcsas3.mc_model:McSimPseudoModel"))
    a0, b0 = dict(a), dict(b)
    v.cover("precondition")
    r = v.call(o.calcModelIV, b)
    if not r.ok:
        v.fail("evaluating a contribution does not raise", repr(r.exc))
        return
    v.cover("evaluated")
    Int, Vol = r.value
    j = E().fresh_int("j")
    v.assume(z3.And(0 <= j, j < nz(n)))
    x = real(Int.at(j))
    v.prove("intensity is the model intensity per volume", And(x.fin, x.r == zr(F.at(j)) * inv(V.r)))
    v.prove("volume is that of the model", zr(Vol) == V.r)
    ok = len(calls) >= 1 and all(set(p) == {*a, *b} for p in calls)
    v.prove("the kernel is called with the static and the picked parameters", z3.BoolVal(ok))
    if ok:
        v.prove("picked values and static parameters are used", And(*[
            boolz(same(p[k], (b0 if k in b0 else a0)[k])) for p in calls for k in p]))
    v.prove("the parameters are not changed", z3.BoolVal(samelist(a, a0) and samelist(b, b0)))
