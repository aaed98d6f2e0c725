"""C19, C20: histograms and population statistics of one repetition"""
import z3

from dv import core
from dv.contract import vc
from dv.core import E, PathEnd, Unsupported, lam, raise_modelled
from dv.loops import SymSeq
from dv.stubs.frame import Series
from dv.values import (And, Fn, SymArr, SymBool, SymInt, SymReal, a_mean, a_sum, boolz, fresh_arr, fresh_int,
                       fresh_real, f_sqrt, is_num, nz, real, same, wrap, zb, zi, zr)

from .index_c import of_index
from .ghostmap import KeyMap, Mark, OldDom, SymKey, dvmap, v_at

H = "mcsas3.mc_model_histogrammer:McModelHistogrammer"
SCALES = ("linear", "log", "auto")


class Word(str):
    """a text of a histogram setting: number `kind` in a list of known ones, or another (-1)"""
    def __new__(cls, kind, known, tag):
        self = str.__new__(cls, "<word>")
        self.kind, self.known, self.tag = kind, known, tag
        return self

    def __eq__(self, o):
        if type(o) is not str:
            raise Unsupported("comparison of texts")
        if o in self.known:
            return wrap(self.kind == self.known.index(o))
        f = E().ghost.setdefault(("other", o), E().fresh_fun("other", core.I, core.B))
        return wrap(z3.And(self.kind == -1, f(self.tag)))

    def __ne__(self, o):
        return ~self.__eq__(o)

    __hash__ = str.__hash__

    def lower(self, *a):
        raise Unsupported("method of a text")

    upper = strip = startswith = endswith = __contains__ = __getitem__ = split = casefold = title = lower

    def _dv_vmap(self, f):
        return Word(f(self.kind), self.known, f(self.tag))

    def _dv_terms(self, j):
        return [SymInt(self.kind), SymInt(self.tag)]


class Row:
    """one row of the histogram ranges, as iterrows() gives it: a copy"""
    _dv_series = True

    def __init__(self, cols):
        object.__setattr__(self, "cols", dict(cols))

    def __getitem__(self, k):
        if type(k) is not str:
            raise Unsupported("row index")
        if k not in self.cols:
            raise_modelled(KeyError(k))
        return self.cols[k]

    def __setitem__(self, k, v):
        if type(k) is not str:
            raise Unsupported("row index")
        self.cols[k] = v

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        c = object.__getattribute__(self, "cols")
        if k in c:
            return c[k]
        raise Unsupported(f"row.{k}")

    def __setattr__(self, k, v):
        if k not in self.cols:
            raise Unsupported("attribute of a row")
        self.cols[k] = v

    def __contains__(self, k):
        return k in self.cols

    def get(self, k, d=None):
        return self.cols.get(k, d)

    def copy(self, deep=True):
        return Row(self.cols)

    def keys(self):
        return list(self.cols)

    def _dv_state(self):
        return tuple(self.cols.items())

    def _dv_set(self, st):
        object.__setattr__(self, "cols", dict(st))


RF = {}


def rangefuns():
    e = E()
    for nm, t in (("par", core.I), ("scale", core.I), ("weight", core.I), ("auto", core.B), ("pmin", core.R),
                  ("pmax", core.R), ("nbin", core.I)):
        RF[nm] = e.register_fun(e.fresh_fun(nm, core.I, t))


def rowcols(k):
    return dict(parameter=SymKey(RF["par"](k)), binScale=Word(RF["scale"](k), SCALES, k),
                binWeighting=Word(RF["weight"](k), ("vol",), k + 1), autoRange=SymBool(RF["auto"](k)),
                presetRangeMin=SymReal(RF["pmin"](k)), presetRangeMax=SymReal(RF["pmax"](k)),
                nBin=SymInt(RF["nbin"](k)))


class Cells:
    """table.loc"""

    def __init__(self, t):
        self.t = t

    def __setitem__(self, ix, v):
        if isinstance(ix, tuple) and len(ix) == 2 and type(ix[0]) is SymKey and type(ix[1]) is str:
            self.t.set(ix[0], ix[1], v)
        elif type(ix) is SymKey:
            if isinstance(v, Row):
                v = v.cols
            if not isinstance(v, dict) or set(v) != set(self.t.columns):
                raise Unsupported("a row with other columns")
            for c, x in v.items():
                self.t.set(ix, c, x)
        else:
            raise Unsupported("cells of a table")

    def __getitem__(self, ix):
        if isinstance(ix, tuple) and len(ix) == 2 and type(ix[0]) is SymKey and type(ix[1]) is str:
            return self.t.cell(ix[0], ix[1])
        if type(ix) is SymKey:
            return Row({c: self.t.cell(ix, c) for c in self.t.columns})
        raise Unsupported("cells of a table")


class Table:
    """a table with one row per histogram range (label: SymKey of its number); a column is a dict
    over the rows"""
    _dv_table = True
    __module__ = "ghost"

    def __init__(self, n, cols):
        self.n, self.cols = n, cols

    @property
    def columns(self):
        return list(self.cols)

    def set(self, k, c, v):
        if c not in self.cols:
            self.cols[c] = KeyMap(self.n, [])
        self.cols[c][k] = v

    def cell(self, k, c):
        if c not in self.cols:
            raise_modelled(KeyError(c))
        return self.cols[c][k]

    loc = at = property(Cells)

    def iterrows(self):
        return SymSeq(self.n, lambda k: (SymKey(k), Row({c: m.get_at(k, True)
                                                         for c, m in self.cols.items()})))

    @property
    def index(self):
        return SymSeq(self.n, SymKey)

    def _dv_len(self):
        return wrap(nz(self.n))

    def __contains__(self, c):
        if c not in self.cols:
            raise Unsupported(f"column {c} of a table: possibly there")
        return True

    def copy(self, deep=True):
        return Table(self.n, {c: m.copy() for c, m in self.cols.items()})

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"table.{nm}")

    # loops
    def _dv_state(self):
        return tuple((c, m._dv_state()) for c, m in self.cols.items())

    def _dv_set(self, st):
        new = {}
        for c, s in st:
            new[c] = KeyMap(self.n, [])
            new[c]._dv_set(s)
        self.cols = new

    def _dv_placeholder(self, nm, st):
        out, marks = [], []
        for q, (c, s) in enumerate(st):
            p, m = KeyMap(self.n, [])._dv_placeholder(f"{nm}!{q}", s)
            out.append((c, p))
            marks += m
        return tuple(out), marks or [nm]

    def _dv_infer(self, run, init, vals, conds, k, marks, j):
        form = {}
        i0 = dict(init)
        for c in dict.fromkeys(c for v in vals for c, _ in v):
            vs = [dict(v).get(c, ()) for v in vals]
            if c in i0:
                form[c] = KeyMap(self.n, [])._dv_infer(run, i0[c], vs, conds, k, marks, j)
            else:
                # a new column, set in every iteration
                form[c] = new_column(vs, conds, k, marks, j)
        return form

    def _dv_closed(self, form, init, k, sub):
        i0 = dict(init)
        return tuple((c, KeyMap(self.n, [])._dv_closed(f, i0.get(c, ()), k, sub)) for c, f in form.items())


def new_column(vs, conds, k, marks, j):
    from dv.loops import mentions
    wr = []
    for c, v in zip(conds, vs):
        ls = [x for x in v if callable(x[0])]
        if not ls or any(not isinstance(g, Mark) or not E().valid(g.i0 == k) for g, _ in ls):
            raise Unsupported("a loop sets other rows than that of the iteration")
        w = ls[0][1](k)
        if mentions(w, marks, j):
            raise Unsupported("row depends on the loop state")
        wr.append((c, w))
    return ("store", wr, None)


class Params:
    """the contributions: a column per fit parameter"""
    _dv_table = True
    __module__ = "ghost"

    def __init__(self, n, ncontrib, f):
        self.n, self.nc, self.f = n, ncontrib, f

    def keys(self):
        return self

    columns = property(keys)

    def _dv_symiter(self):
        return SymSeq(self.n, SymKey)

    def __contains__(self, k):
        return type(k) is SymKey and E().branch(z3.And(0 <= k.i, k.i < nz(self.n)))

    def col(self, i):
        f = self.f
        return SymArr(nz(self.nc), Fn(lambda j: SymReal(f(i, j))))

    def __getitem__(self, k):
        if k not in self:
            raise_modelled(KeyError("column"))
        return Series(self.col(k.i))

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"contributions .{nm}")


def setup(v, ncontrib=None):
    """a fitted repetition and a table of histogram ranges"""
    e, g = E(), E().ghost
    npar, nc = fresh_int("npars", 1), ncontrib or fresh_int("nContrib", 1)
    R = fresh_int("ranges", 0)
    g["keys_n"], g["div0_ms"] = npar, 300
    rangefuns()
    pf = e.register_fun(e.fresh_fun("contribution", core.I, core.I, core.R))
    lo, hi = (e.register_fun(e.fresh_fun(x, core.I, core.R)) for x in ("fitlo", "fithi"))
    for f in (lambda i: z3.And(lo(i) <= hi(i)),):
        e.add_forall(z3.IntVal(0), nz(npar), f)
    e.add_forall(z3.IntVal(0), nz(R), lambda k: z3.And(
        RF["scale"](k) >= -1, RF["scale"](k) <= 2, RF["weight"](k) >= -1, RF["weight"](k) <= 0,
        RF["pmin"](k) <= RF["pmax"](k)))
    # logarithmic bins need a positive range
    e.add_forall(z3.IntVal(0), nz(R), lambda k: z3.Implies(RF["scale"](k) == 1, wanted(k, lo, hi)[0] > 0))
    core_ = object.__new__(v.get("mcsas3.mc_core:McCore"))
    model = object.__new__(v.get("mcsas3.mc_model:McModel"))
    opt = object.__new__(v.get("mcsas3.mc_opt:McOpt"))
    put = object.__setattr__
    put(model, "parameterSet", Params(npar, nc, pf))
    put(model, "fitParameterLimits", KeyMap.of(npar, lambda i: [SymReal(lo(i)), SymReal(hi(i))]))
    put(model, "volumes", fresh_arr("volumes", nc, pos=True))
    x0 = fresh_arr("x0", 2)
    put(opt, "x0", x0)
    put(core_, "_model", model)
    put(core_, "_opt", opt)
    tab = Table(R, {c: KeyMap.of(R, (lambda c: lambda i: rowcols(i)[c])(c)) for c in rowcols(z3.IntVal(0))})
    g["newdict"] = lambda: KeyMap(R, [])
    g["blank"] = lambda cols: Table(R, {c: KeyMap(R, []) for c in cols})
    g["Series"] = lambda data=None, index=None, **k: Row(data) if isinstance(data, dict) and index is None \
        and not k else no("pandas.Series")
    return core_, tab, R, npar, nc, pf, lo, hi, zr(x0.at(z3.IntVal(0)))


def no(what):
    raise Unsupported(what)


def wanted(k, lo, hi):
    p, auto = RF["par"](k), RF["auto"](k)
    return z3.If(auto, lo(p), RF["pmin"](k)), z3.If(auto, hi(p), RF["pmax"](k))


def refusal(k, npar):
    p = RF["par"](k)
    return z3.Or(p < 0, p >= nz(npar), RF["scale"](k) == -1, RF["weight"](k) == -1, RF["nbin"](k) < 1)


@vc("McModelHistogrammer.histograms", ["C19", "C09"], [H + ".__init__", H + ".histogram", H + ".genX"], budget=100)
def vc_hist(v):
    histogrammer(v, True)


@vc("McModelHistogrammer.statistics", ["C20"], [H + ".__init__", H + ".modes"], budget=100)
def vc_stat(v):
    histogrammer(v, False)


def histogrammer(v, hists):
    cr, tab, R, npar, nc, pf, lo, hi, sc = setup(v)
    n = nz(R)
    v.cover("precondition")
    g0 = len(E().pc)
    ix = fresh_int("resultIndex", 0)
    r = v.call(lambda: v.get(H)(cr, tab, resultIndex=ix) if hists else v.get(H)(cr, tab))
    anybad = core.AnyF(n, lam(lambda k: refusal(k, npar)))
    if not r.ok:
        v.cover("refused")
        if not hists:
            return
        v.prove("C19.legal ranges are not refused", anybad, repr(r.exc))
        return
    h = r.value
    v.cover("histogrammed")
    if hists:
        v.prove("C09.histograms keep their result index", of_index(h, ix))
        v.prove("C19.unknown parameters, scales, weightings and numbers of bins below one are refused",
                z3.Not(anybad))
    i = E().fresh_int("range")
    E().assume(z3.And(0 <= i, i < n))
    E().hint_idx.append(i)
    nb, p = RF["nbin"](i), RF["par"](i)
    # what is known of range i is enough from here on
    known = E().pc[:g0] + [z3.And(0 <= i, i < n), z3.Not(refusal(i, npar))]
    for a, z, f in E().foralls:
        for t in (i, p):
            known.append(core.norm(z3.Implies(z3.And(a <= t, t < z), f(t))))
    E().pc[:], E().foralls[:] = known, []
    br = E().branch
    kind = None if not hists else 2 if br(RF["scale"](i) == 2) else 0 if br(RF["scale"](i) == 0) else 1
    auto = br(RF["auto"](i))
    wlo, whi = (lo(p), hi(p)) if auto else (RF["pmin"](i), RF["pmax"](i))
    x = Params(npar, nc, pf).col(p)
    s = x[Series(x).between(SymReal(wlo), SymReal(whi))]
    cnt = nz(s.length)
    none = br(cnt == 0)
    q = E().fresh_int("q")
    E().hint_idx.append(q)
    if hists:
        histogram(v, h, i, kind, wlo, whi, nb, x, nc, sc, q)
    else:
        statistics(v, h, i, s, cnt, none, sc, q)


def histogram(v, h, i, kind, wlo, whi, nb, x, nc, sc, b):
    ed, hd = h._binEdges, h._histDict
    if type(ed) is not KeyMap or type(hd) is not KeyMap:
        raise Unsupported("results kept in another way")
    v.prove("C19.every range has its edges and bars", And(ed.dom(i), hd.dom(i)))
    t = h._histRanges
    if type(t) is not Table:
        raise Unsupported("ranges kept in another way")
    for c, w in (("rangeMin", wlo), ("rangeMax", whi)):
        x_ = t.cols.get(c)
        v.prove("C19.the range used is noted with the settings", z3.BoolVal(x_ is not None))
        if x_ is not None:
            v.prove("C19.the range used is noted with the settings", And(x_.dom(i), same(x_.get_at(i, True), SymReal(w))))
    e, bars = ed.get_at(i, True), hd.get_at(i, True)
    m = nz(e.n)
    at = lambda a, q: zr(a.at(z3.simplify(q)))
    v.prove("C19.the bins span exactly the range", And(m >= 2, at(e, z3.IntVal(0)) == wlo, at(e, m - 1) == whi))
    v.cover("linear log automatic".split()[kind])
    if kind < 2:
        v.prove("C19.as many bins as asked for", m == nb + 1)
    if kind == 0:
        v.prove("C19.linear bins are equal", z3.Implies(
            z3.And(0 <= b, b < nb), (at(e, b + 1) - at(e, b)) * z3.ToReal(nb) == whi - wlo))
    elif kind == 1:
        lg = lambda q: core.Log10F(at(e, q))
        v.prove("C19.log bins are equal on a logarithmic scale", z3.Implies(
            z3.And(0 <= b, b < nb), And(at(e, b) > 0, (lg(b + 1) - lg(b)) * z3.ToReal(nb) ==
                                        core.Log10F(whi) - core.Log10F(wlo))))
    def inbin(t):
        y = zr(x.at(t))
        return z3.And(at(e, b) <= y, z3.Or(y < at(e, b + 1), z3.And(b == m - 2, y <= at(e, b + 1))))
    v.prove("C19.one bar for each bin", nz(bars.n) == m - 1)
    v.prove("C19.a bar is the number of contributions in the bin, scaled to volume", z3.Implies(
        z3.And(0 <= b, b < m - 1), And(
            real(bars.at(b)).fin, at(bars, b) == z3.ToReal(core.CntF(nz(nc), lam(inbin))) * sc * z3.Q(
                1, 100000))))


def statistics(v, h, i, s, cnt, none, sc, q):
    t = h._modes
    if type(t) is not Table or t.columns != ["totalValue", "mean", "variance", "skew", "kurtosis"]:
        raise Unsupported("another table of statistics")
    got = {}
    for c, mp in t.cols.items():
        v.prove("C20.every range has its statistics", mp.dom(i))
        got[c] = mp.get_at(i, True)
    if none:
        v.cover("no contribution in range")
        v.prove("C20.without a contribution in range all statistics are NaN", And(*[
            boolz(real(y).nan) for y in got.values()]))
        return
    v.cover("contributions in range")
    N = SymReal(z3.ToReal(cnt))
    v.prove("C20.the total value is the number of contributions in range, scaled to volume", And(
        real(got["totalValue"]).fin, zr(got["totalValue"]) == z3.ToReal(cnt) * sc * z3.Q(1, 100000)))
    mu = a_mean(s)
    var = a_mean((s - mu) ** 2)
    v.prove("C20.the mean is that of the contributions in range", boolz(same(real(got["mean"]), real(mu))))
    v.prove("C20.the variance is the population variance", boolz(same(real(got["variance"]), real(var))))
    # a sum whose elements are not negative is not negative
    d2 = a_sum((s - mu) ** 2)
    v.prove("squares are not negative", zr((s - mu).at(q) ** 2) >= 0)
    E().assume(zr(d2) >= 0)
    v.prove("the variance is not negative", zr(var) >= 0)
    sg = f_sqrt(var)
    for nm, k in (("skew", 3), ("kurtosis", 4)):
        want = ((s - mu) ** k).sum() / (N * sg ** k)
        v.prove(f"C20.{nm} is the population moment over the power of the standard deviation",
                boolz(same(real(got[nm]), real(want))))
