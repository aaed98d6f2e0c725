"""C14: contracts of optimizeScalingAndBackground."""
import z3

from dv.contract import vc
from dv.core import E, Unsupported
from dv.values import (And, Or, SymArr, SymReal, boolz, fresh_arr, fresh_int, fresh_real, mkarr, msum,
                       nz, real, same, zi, zr, inv)

K = "mcsas3.osb:optimizeScalingAndBackground"
BOUNDED = ("TNC", "L-BFGS-B", "SLSQP", "Powell", "trust-constr", "Nelder-Mead", "COBYLA", "COBYQA")


def spec_chi2(n, I, S, M, sc, bg):
    """mean over all datapoints of ((I - (M sc + bg)) / sigma)^2"""
    def t(j):
        d = (zr(I.at(j)) - (zr(M.at(j)) * sc + bg)) * inv(zr(S.at(j)))
        return d * d
    return msum(n, t) * inv(z3.ToReal(nz(n)))


def data(n, **k):
    return fresh_arr("I", n, **k), fresh_arr("sigma", n, nonzero=True, **k)


def blank(v, n):
    o = object.__new__(v.get(K))
    o.measDataI, o.measDataISigma = data(n)
    return o


def bounds_of(b):
    """[[lo, hi], [lo, hi]] with None for no bound"""
    return [[b[i][0], b[i][1]] for i in (0, 1)]


def within(x, lo, hi):
    c = []
    if lo is not None:
        c.append(zr(x) >= zr(lo))
    if hi is not None:
        c.append(zr(x) <= zr(hi))
    return And(*c) if c else z3.BoolVal(True)


def ghost_minimize(v, log):
    """assumed contract of scipy.optimize.minimize: x within the bounds, fun the value there"""
    def minimize(fun, x0, args=(), method=None, bounds=None, **k):
        if k or method not in BOUNDED or not isinstance(args, tuple):
            raise Unsupported("scipy.optimize.minimize with other options")
        x0 = mkarr(x0)
        if bounds is None or len(bounds) != 2 or not isinstance(x0.n, int) or x0.n != 2:
            raise Unsupported("minimize of something else than two parameters with bounds")
        bs = bounds_of(bounds)
        xs = [fresh_real("sc"), fresh_real("bg")]
        for x, (lo, hi) in zip(xs, bs):
            v.assume(within(x, lo, hi))
        x = SymArr.of(xs)
        f = fun(x.copy(), *args)
        log.append((x0, bs, xs))
        r = {"x": x, "fun": f, "success": True}

        class Res(dict):
            __getattr__ = dict.__getitem__
        return Res(r)
    E().ghost["minimize"] = minimize


@vc("osb.optFunc", ["C14"], [K + ".optFunc"], own="C14")
def vc_optfunc(v):
    n = fresh_int("n", 1)
    I, S = data(n)
    M = fresh_arr("model", n)
    sc, bg = fresh_real("sc"), fresh_real("bg")
    C = v.get(K)
    v.cover("precondition")
    if not hasattr(C, "optFunc"):
        v.prove("no such function any more", True)
        return
    r = v.call(C.optFunc, SymArr.of([sc, bg]), I, S, M)
    if not r.ok:
        v.fail("optFunc does not raise", repr(r.exc))
        return
    v.prove("value is the reduced chi-square", And(
        real(r.value).fin, zr(r.value) == spec_chi2(n, I, S, M, sc.r, bg.r)))


@vc("osb.match", ["C14"], [K + ".match", K + ".optFunc", K + ".initialGuess"], own="C14")
def vc_match(v):
    n = fresh_int("n", 1)
    o = blank(v, n)
    M = fresh_arr("model", n, nonzero=True)
    # any bounds: each limit given or not; background limits are given (needed by the guess)
    lo0 = None if E().choose(2) else fresh_real("scmin")
    hi0 = None if E().choose(2) else fresh_real("scmax")
    lo1, hi1 = fresh_real("bgmin"), fresh_real("bgmax")
    v.assume(lo1.r <= hi1.r)
    if lo0 is not None and hi0 is not None:
        v.assume(lo0.r <= hi0.r)
    o.xBounds = [[lo0, hi0], [lo1, hi1]]
    log = []
    ghost_minimize(v, log)
    guess = E().choose(2) == 1
    x0 = None if guess else SymArr.of([fresh_real("g0"), fresh_real("g1")])
    I0, S0, M0 = o.measDataI.copy(), o.measDataISigma.copy(), M.copy()
    v.cover("precondition")
    r = v.call(o.match, M, x0) if not guess else v.call(o.match, M)
    if not r.ok:
        v.fail("match does not raise", repr(r.exc))
        return
    v.cover("matched")
    x, f = r.value
    x = mkarr(x)
    sc, bg = x.at(z3.IntVal(0)), x.at(z3.IntVal(1))
    v.prove("returned value is the reduced chi-square at the returned scaling and background", And(
        real(f).fin, zr(f) == spec_chi2(n, I0, S0, M0, zr(sc), zr(bg))))
    v.prove("scaling within the bounds", within(sc, lo0, hi0))
    v.prove("background within the bounds", within(bg, lo1, hi1))
    if x0 is not None and log:
        v.prove("a given guess is used", And(
            z3.BoolVal(len(log) == 1), *[boolz(same(log[0][0].at(z3.IntVal(q)),
                                                    x0.at(z3.IntVal(q)))) for q in (0, 1)]))
    if x0 is None and log:
        g = log[0][0]
        v.prove("the automatic guess lies within the bounds", And(
            within(g.at(z3.IntVal(0)), lo0, hi0), within(g.at(z3.IntVal(1)), lo1, hi1)))
    i = E().fresh_int("i")
    v.prove("the data are not changed", z3.Implies(z3.And(0 <= i, i < nz(n)), And(
        zr(o.measDataI.at(i)) == zr(I0.at(i)), zr(o.measDataISigma.at(i)) == zr(S0.at(i)),
        zr(M.at(i)) == zr(M0.at(i)))))


@vc("osb.initialGuess", ["C14"], [K + ".__init__", K + ".validate", K + ".initialGuess", K + ".match"],
    own="C14")
def vc_guess(v):
    """guess with default bounds, on an object made by __init__"""
    n = fresh_int("n", 1)
    I, S = data(n)
    M = fresh_arr("model", n, nonzero=True)
    r = v.call(v.get(K), I, S)
    if not r.ok:
        v.fail("valid data are not refused", repr(r.exc))
        return
    o = r.value
    log = []
    ghost_minimize(v, log)
    r = v.call(o.match, M)
    if not r.ok:
        v.fail("match does not raise", repr(r.exc))
        return
    v.cover("guessed")
    v.prove("one minimization", z3.BoolVal(len(log) == 1))
    if len(log) != 1:
        return
    mean = msum(n, lambda j: zr(I.at(j))) * inv(z3.ToReal(nz(n)))
    mb = z3.If(mean >= 0, mean, -mean)
    x0, bs, xs = log[0]
    sc, bg = x0.at(z3.IntVal(0)), x0.at(z3.IntVal(1))
    v.prove("guessed scaling is not negative", And(real(sc).fin, zr(sc) >= 0))
    v.prove("guessed background is at most the mean intensity in magnitude", And(
        real(bg).fin, zr(bg) >= -mb, zr(bg) <= mb))
    v.prove("returned scaling is not negative", zr(xs[0]) >= 0)
    v.prove("returned background is at most the mean intensity in magnitude",
            z3.And(zr(xs[1]) >= -mb, zr(xs[1]) <= mb))


@vc("osb.__init__", ["C14"], [K + ".__init__", K + ".validate"], own="C14")
def vc_init(v):
    n, m = fresh_int("n", 0), fresh_int("m", 0)
    I = fresh_arr("I", n, nan=True, inf=True)
    S = fresh_arr("sigma", m, nan=True, inf=True)
    given = E().choose(2) == 1
    xb = [[fresh_real("a"), fresh_real("b")], [fresh_real("c"), fresh_real("d")]] if given else None
    flat = [z for r in xb for z in r] if given else None
    v.cover("precondition")
    r = v.call(v.get(K), I, S, xb) if given else v.call(v.get(K), I, S)
    i, j = E().fresh_int("i"), E().fresh_int("j")
    E().hint_idx.extend([i, j, z3.IntVal(0)])
    if r.ok:
        v.cover("accepted")
        o = r.value
        v.prove("data with NaN or infinite intensity are refused", z3.Implies(
            z3.And(0 <= i, i < nz(n)), boolz(I.at(i).fin)))
        v.prove("data with NaN or infinite sigma are refused", z3.Implies(
            z3.And(0 <= j, j < nz(m)), boolz(S.at(j).fin)))
        v.prove("data of unequal length are refused", nz(n) == nz(m))
        v.prove("empty data are refused", nz(n) > 0)
        v.prove("the data are those given", z3.BoolVal(o.measDataI is I and o.measDataISigma is S))
        b = o.xBounds
        if given:
            v.prove("supplied bounds are used as given", And(
                z3.BoolVal(b is not None), *[boolz(same(b[q // 2][q % 2], flat[q]))
                                             for q in range(4)]))
        else:
            mean = msum(n, lambda q: zr(I.at(q))) * inv(z3.ToReal(nz(n)))
            mb = z3.If(mean >= 0, mean, -mean)
            v.prove("default: scaling not negative, background at most the mean in magnitude", And(
                z3.BoolVal(b[0][0] is not None and b[0][1] is None), zr(b[0][0]) == 0,
                zr(b[1][0]) == -mb, zr(b[1][1]) == mb))
    else:
        v.cover("refused")
        # only invalid data are refused
        E().add_forall(z3.IntVal(0), nz(n), lambda k: boolz(I.at(k).fin))
        E().add_forall(z3.IntVal(0), nz(m), lambda k: boolz(S.at(k).fin))
        E().assume(z3.And(nz(n) == nz(m), nz(n) > 0))
        v.fail("valid data are not refused", repr(r.exc))


@vc("osb.__init__ (2-D data)", ["C14"], [K + ".__init__", K + ".validate"], own="C14")
def vc_init2(v):
    from dv.stubs.np_stub import ArrList
    n = fresh_int("n", 1)
    I, S = ArrList([fresh_arr("I0", n), fresh_arr("I1", n)]), ArrList([fresh_arr("S0", n),
                                                                      fresh_arr("S1", n)])
    v.cover("precondition")
    r = v.call(v.get(K), I, S)
    v.prove("data that are not one-dimensional are refused", z3.BoolVal(not r.ok))
