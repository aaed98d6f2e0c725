"""C21, C09: the averages over all repetitions of a result"""
import os.path
from pathlib import Path

import z3

from dv import core
from dv.contract import vc
from dv.core import AnyF, E, PathEnd, Unsupported, lam, raise_modelled
from dv.stubs import h5_stub as h5
from dv.stubs.frame import Series
from dv.values import (And, Fn, SymArr, SymBool, SymInt, SymReal, XList, a_mean, a_sum, boolz, f_sqrt, fresh_arr, fresh_bool,
                       fresh_int, fresh_real, is_int_like, is_num, ite, lift, num_op, nz, real, same, wrap, zi, zr)

from . import kv
from .ghostmap import KeyMap, SymKey, dvmap
from .hist_c import Row, Table, Word, no, rangefuns, rowcols
from .index_c import in_entry, of_index, watch

A = "mcsas3.mc_analysis"
AN = A + ":McAnalysis"
HM = "mcsas3.mc_model_histogrammer"
H = HM + ":McModelHistogrammer"
MODES = ["totalValue", "mean", "variance", "skew", "kurtosis"]
OPTS = ["scaling", "background", "gof", "accepted", "step"]


# ------------------------------------------------------------------ results by range and repetition
class Cell:
    """layers of a table by range and repetition"""

    def __init__(self, guard, val, at=None):
        self.guard, self.val, self.at = guard, val, at

    def __call__(self, *a):
        raise Unsupported("cell")


class Nest:
    """dict: range -> (dict or table: repetition -> result).  Rows are made when they are missing; whether one
    is missing is not followed (both answers are tried), so a row is only made where it was found missing."""

    def __init__(self, R, N, cols=None, full=None):
        self.R, self.N, self.cols = R, N, cols
        self.layers = [Cell(lambda i, p: z3.BoolVal(True), full)] if full else []
        self.there, self.missing, self.complete = [], [], bool(full)

    @property
    def __class__(self):
        return dict

    def known(self, ks, i):
        return any(E().valid(k == i) for k in ks)

    def __contains__(self, h):
        if type(h) is not SymKey:
            raise Unsupported("key of another kind")
        if self.complete or self.known(self.there, h.i):
            return True
        if self.known(self.missing, h.i):
            return False
        if E().choose(2):
            self.there = self.there + [h.i]
            return True
        self.missing = self.missing + [h.i]
        return False

    def __setitem__(self, h, v):
        if type(h) is not SymKey:
            raise Unsupported("key of another kind")
        if not self.known(self.missing, h.i):
            raise Unsupported("results of earlier repetitions may be lost")
        if self.cols is None:
            ok = type(v) is KeyMap and not v.layers and not v.extra
        else:
            ok = type(v) is Table and v.columns == list(self.cols) and not any(c.layers for c in v.cols.values())
        if not ok:
            raise Unsupported("results in another kind of table")
        self.missing = [k for k in self.missing if not E().valid(k == h.i)]
        self.there = self.there + [h.i]

    def setdefault(self, h, v):
        if h not in self:
            self[h] = v
        return self[h]

    def __getitem__(self, h):
        if type(h) is not SymKey:
            raise Unsupported("key of another kind")
        if not self.complete and not self.known(self.there, h.i):
            raise Unsupported("a range whose results may be missing")
        return View(self, h.i)

    def put(self, i, p, v):
        self.layers = [Cell(None, v, (i, p))] + self.layers

    def get(self, i, p):
        for c in self.layers:
            if c.at is not None:
                g = z3.And(c.at[0] == i, c.at[1] == p)
            else:
                g = c.guard(i, p)
            g = z3.simplify(g)
            if z3.is_false(g):
                continue
            if z3.is_true(g) or E().branch(g):
                return c.val if c.at is not None else c.val(i, p)
        raise_modelled(KeyError("repetition"))

    def copy(self):
        raise Unsupported("copy of the results")

    def __iter__(self):
        raise Unsupported("iteration over the results")

    keys = values = items = __iter__

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"results .{nm}")

    # loops
    def _dv_state(self):
        return tuple(self.layers)

    def _dv_set(self, st):
        self.layers = list(st)

    def _dv_placeholder(self, nm, st):
        from dv.loops import Poison
        f = z3.Function(nm, core.I, core.I, core.B)
        c = Cell(f, lambda i, p: Poison("a result of an earlier iteration"))
        c.old = True
        return (c,), [nm]

    def _dv_infer(self, run, init, vals, conds, k, marks, j):
        from dv.loops import mentions
        got = []
        for v in vals:
            at = [q for q, c in enumerate(v) if getattr(c, "old", False) and any(
                isinstance(m, str) and m == str(c.guard) for m in marks)]
            if not at:
                raise Unsupported("a loop replaces results")
            got.append(list(v[:at[0]]))
        if all(not g for g in got):
            return ("keep",)
        if any(len(g) != 1 for g in got):
            raise Unsupported("several results in one iteration")
        a, b = z3.Int("i!nest"), z3.Int("p!nest")
        first = got[0][0]
        val = lambda c: c.val if c.at is not None else c.val(a, b)
        for (c,) in got[1:]:
            if (c.at is None) != (first.at is None) or not same_cells(c, first, a, b) or not alike(val(c), val(first)):
                raise Unsupported("results which depend on a decision")
        c = first
        if mentions(val(c), marks, j):
            raise Unsupported("result depends on the loop state")
        if c.at is not None:
            i0, p0 = c.at
            own = [q for q, t in enumerate((i0, p0)) if t.eq(k)]
            other = (p0, i0)[own[0]] if own else None
            if len(own) != 1 or core.has_const(other, k) or any(core.has_mark(other, m) for m in marks):
                raise Unsupported("a loop sets other results than those of the iteration")
            return ("point", own[0], other, c.val)
        if c.swept is None or not c.swept[1].eq(k):
            raise Unsupported("a loop sets other results than those of the iteration")
        return ("sweep", c)

    def _dv_closed(self, form, init, k, sub):
        if form[0] == "keep":
            return init
        if form[0] == "point":
            _, own, other, v = form
            # the index of the loop runs from 0 to k, the other one is fixed
            n = Cell((lambda i, p: z3.And(0 <= i, i < k, p == other)) if own == 0 else (
                lambda i, p: z3.And(0 <= p, p < k, i == other)), lambda i, p: sub(v, (i, p)[own]))
            n.swept = (own, other)
            return (n, *init)
        c = form[1]
        own = c.swept[0]        # the inner loop's index; here the other one runs
        idx = lambda i, p: p if own == 0 else i
        n = Cell(lambda i, p: z3.And(0 <= idx(i, p), idx(i, p) < k, sub(wrap(c.guard(i, p)), idx(i, p)).b
                                     if not z3.is_true(z3.simplify(c.guard(i, p))) else True),
                 lambda i, p: sub(c.val(i, p), idx(i, p)))
        n.swept = None
        return (n, *init)


Cell.swept = None


def alike(x, y):
    """the same value, as computed on two paths"""
    if type(x) is not type(y):
        return False
    if type(x) is dict:
        return set(x) == set(y) and all(alike(x[c], y[c]) for c in x)
    if type(x) is SymArr:
        j = z3.Int("j!alike")
        return nz(x.n).eq(nz(y.n)) and x.sel is None and y.sel is None and alike(x.at(j), y.at(j))
    from dv.loops import ident
    return ident(x, y)


def same_cells(c, d, a, b):
    if c.at is not None:
        return all(E().valid(x == y) for x, y in zip(c.at, d.at))
    return E().valid(c.guard(a, b) == d.guard(a, b)) and c.swept[0] == d.swept[0] and c.swept[1].eq(d.swept[1])


class View:
    """the results of one range"""

    def __init__(self, nest, i):
        self.nest, self.i = nest, i

    @property
    def __class__(self):
        return dict if self.nest.cols is None else View

    _dv_table = True

    @property
    def loc(self):
        if self.nest.cols is None:
            raise_modelled(AttributeError("'dict' object has no attribute 'loc'"))
        return ViewLoc(self)

    def key(self, r):
        if type(r) is not SymKey:
            raise Unsupported("repetition of another kind")
        return r.i

    def __setitem__(self, r, v):
        if self.nest.cols is not None:
            raise Unsupported("column of the statistics")
        if type(v) is Series:
            v = v.a
        if type(v) is not SymArr:
            raise Unsupported(f"result of type {type(v).__name__}")
        self.nest.put(self.i, self.key(r), v)

    def __getitem__(self, r):
        if self.nest.cols is not None:
            if isinstance(r, str) and type(r) is str and r in self.nest.cols:
                return Series(self.column(r))
            raise Unsupported("part of the statistics")
        return self.nest.get(self.i, self.key(r))

    def column(self, c):
        n = self.nest
        return SymArr(nz(n.N), Fn(lambda p: n.get(self.i, p)[c]))

    def stat(self, f):
        return Stat({c: f(Series(self.column(c))) for c in self.nest.cols})

    def mean(self, **k):
        self.table()
        return self.stat(lambda s: s.mean(**k))

    def std(self, **k):
        self.table()
        return self.stat(lambda s: s.std(**k))

    def var(self, **k):
        self.table()
        return self.stat(lambda s: s.var(**k))

    def table(self):
        if self.nest.cols is None:
            raise_modelled(AttributeError("dict"))
        if not self.nest.complete:
            raise Unsupported("statistics of unfinished results")

    def fillna(self, x):
        if self.nest.cols is None:
            raise_modelled(AttributeError("dict"))
        self.table()
        n = self.nest
        return View(Nest(n.R, n.N, n.cols, full=lambda i, p: {c: filled(y, x) for c, y in n.get(i, p).items()}), self.i)

    def values(self):
        if self.nest.cols is None and self.nest.complete:
            n = self.nest
            return XList.seq(n.N, lambda p: n.get(self.i, p))
        raise Unsupported("values of results")

    def keys(self):
        raise Unsupported("keys of results")

    items = keys

    def __iter__(self):
        raise Unsupported("iteration over results")

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"results .{nm}")


def filled(y, x):
    y = real(y)
    return ite(wrap(boolz(y.nan)), real(x), SymReal(y.r, False, y.pinf, y.ninf))


class ViewLoc:
    def __init__(self, w):
        self.w = w

    def __setitem__(self, r, v):
        if type(v) is Row:
            v = v.cols
        if not isinstance(v, dict) or set(v) != set(self.w.nest.cols):
            raise Unsupported("statistics with other names")
        self.w.nest.put(self.w.i, self.w.key(r), {c: v[c] for c in self.w.nest.cols})

    def __getitem__(self, r):
        return Row(self.w.nest.get(self.w.i, self.w.key(r)))


# ------------------------------------------------------------------ small tables
class Stat:
    """a column of numbers with names"""
    _dv_gseries = True

    def __init__(self, d):
        self.d = dict(d)

    def __getitem__(self, k):
        if k not in self.d:
            raise_modelled(KeyError(k))
        return self.d[k]

    def map(self, f):
        return Stat({k: f(x) for k, x in self.d.items()})

    def _dv_map(self, f):
        return self.map(lambda x: f(x))

    def _dv_vmap(self, f):
        return Stat({k: dvmap(x, f) for k, x in self.d.items()})

    def _dv_terms(self, j):
        return list(self.d.values())

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"column .{nm}")


class Mini:
    """columns of numbers with row names"""
    _dv_table = True

    def __init__(self, cols):
        self.cols = cols

    def stack(self, **k):
        rows = list(next(iter(self.cols.values())).d)
        return Stat({(r, c): self.cols[c].d[r] for r in rows for c in self.cols})

    def __getitem__(self, k):
        if k not in self.cols:
            raise_modelled(KeyError(k))
        return self.cols[k]

    def copy(self, deep=True):
        return Mini(dict(self.cols))

    def iterrows(self):
        rows = list(next(iter(self.cols.values())).d)
        return [(r, RowOf({c: x.d[r] for c, x in self.cols.items()})) for r in rows]

    @property
    def index(self):
        return list(next(iter(self.cols.values())).d)

    @property
    def loc(self):
        return MiniLoc(self)
    at = loc

    def items(self):
        return list(self.cols.items())

    def keys(self):
        return list(self.cols)

    columns = property(keys)

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"table .{nm}")


class MiniLoc:
    def __init__(self, t):
        self.t = t

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, str) for x in k):
            if k[0] not in self.t.index:
                raise_modelled(KeyError(k[0]))
            return self.t[k[1]][k[0]]
        if isinstance(k, str):
            if k not in self.t.index:
                raise_modelled(KeyError(k))
            return RowOf({c: x.d[k] for c, x in self.t.cols.items()})
        raise Unsupported("rows of a table")


class RowOf(Row):
    pass


class ByRange:
    """a column of numbers for each range; .T: a row for each"""
    _dv_table = True

    def __init__(self, km, rows):
        self.km, self.rows = km, rows

    @property
    def T(self):
        return ByRange(self.km, not self.rows)

    def copy(self, deep=True):
        return ByRange(self.km.copy(), self.rows)

    def to_dict(self, orient="dict"):
        if (orient == "index") != self.rows:
            raise Unsupported("to_dict")
        km = self.km
        return KeyMap.of(km.n, lambda i: dict(km.get_at(i, True).d))

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"table .{nm}")


class HistFrame:
    """a table of arrays of one length; columns without values are NaN"""
    _dv_table = True

    def __init__(self, cols=(), n=None):
        self.cols, self.n = {c: None for c in cols}, n

    def __setitem__(self, c, v):
        if type(v) is Series:
            v = v.a
        if not is_num(v) and type(v) is not SymArr:
            raise Unsupported("column of another type")
        if is_num(v):
            if self.n is None:
                raise Unsupported("a number for an empty table")
            self.cols[c] = SymArr(self.n, Fn(lambda i: v))
            return
        if self.n is None:
            self.n = v.n
        elif not E().branch(nz(self.n) == nz(v.n)):
            raise_modelled(ValueError("Length of values does not match length of index"))
        self.cols[c] = v.copy()

    def __getitem__(self, c):
        if c not in self.cols:
            raise_modelled(KeyError(c))
        if self.cols[c] is None:
            if self.n is None:
                return Series(SymArr(0, Fn(lambda i: SymReal(z3.RealVal(0), True))))
            return Series(SymArr(self.n, Fn(lambda i: SymReal(z3.RealVal(0), True))))
        return Series(self.cols[c].copy())

    def keys(self):
        return list(self.cols)

    columns = property(keys)

    def items(self):
        return [(c, self[c]) for c in self.cols]

    def copy(self, deep=True):
        r = HistFrame(self.cols, self.n)
        r.cols = dict(self.cols)
        return r

    def astype(self, t):
        return self.copy()

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"table .{nm}")

    def _dv_state(self):
        return (self.n, tuple(self.cols.items()))

    def _dv_set(self, st):
        self.n, self.cols = st[0], dict(st[1])

    def _dv_vmap(self, f):
        r = HistFrame(self.cols, dvmap(self.n, f) if not isinstance(self.n, int) and self.n is not None else self.n)
        r.cols = {c: x if x is None else dvmap(x, f) for c, x in self.cols.items()}
        return r

    def _dv_terms(self, j):
        return [x for x in self.cols.values() if x is not None]


class Arr2:
    """a 2-D array: row p, element j"""
    _dv_ndarray = _dv_stack = True

    def __init__(self, n, m, f):
        self.n, self.m, self.f = n, m, f

    @property
    def shape(self):
        return (wrap(nz(self.n)), wrap(nz(self.m)))

    size = property(lambda self: self.shape[0] * self.shape[1])
    ndim = 2

    def _dv_len(self):
        return self.shape[0]

    def red(self, axis, f):
        if axis not in (0, -2):
            raise Unsupported("mean of another kind")
        return SymArr(self.m, Fn(lambda j: f(SymArr(nz(self.n), Fn(lambda p: self.f(p, j))))))

    def sum(self, axis=None):
        return self.red(axis, lambda a: a.sum())

    def mean(self, axis=None):
        return self.red(axis, lambda a: a.mean())

    def std(self, axis=None, ddof=0):
        return self.red(axis, lambda a: a.std(ddof=ddof))

    def var(self, axis=None, ddof=0):
        return self.red(axis, lambda a: a.var(ddof=ddof))

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"2-D array .{nm}")


def stack_rows(xs):
    """np.array(list of arrays): all of one length, else refused"""
    n, f = nz(xs.n), xs.fn
    if f is None:
        return None
    item = f(E().fresh_int("row"))
    if type(item) is not SymArr and type(item) is not Series:
        return None
    if type(item) is Series:
        g = f
        f = lambda p: g(p).a
    if E().branch(n == 0):
        raise Unsupported("no repetitions")
    m0 = nz(f(z3.IntVal(0)).n)
    if E().branch(AnyF(n, lam(lambda p: nz(f(p).n) != m0))):
        raise_modelled(ValueError("inhomogeneous shape"))
    return Arr2(n, m0, lambda p, j: f(p).at(j))


# ------------------------------------------------------------------ a result
class Result:
    """N repetitions, R ranges: what the histogrammer and the stored fits hold"""

    def __init__(self, auto=True):
        e = E()
        fun = lambda h, *s: e.register_fun(e.fresh_fun(h, *s))
        I, R_ = core.I, core.R
        self.N, self.R, self.m = fresh_int("repetitions", 1), fresh_int("ranges", 0), fresh_int("ndata", 1)
        self.nb = fun("bins", I, I, I)
        # bins are those of the range, by their number (C19)
        self.bar, ed = fun("bar", I, I, I, R_), fun("edge", I, I, I, R_)
        self.edge = lambda i, p, b: ed(i, self.nb(i, p), b)
        self.st = {c: fun("stat_" + c, I, I, R_) for c in MODES}
        self.none = fun("noStatistics", I, I, core.B)
        self.sc, self.bg, self.gof = fun("scaling", I, R_), fun("background", I, R_), fun("gof", I, R_)
        self.acc, self.step, self.I = fun("accepted", I, I), fun("step", I, I), fun("modelI", I, I, R_)
        e.add_forall(z3.IntVal(0), nz(self.R), lambda i: self.nb(i, z3.IntVal(0)) >= 1)
        E().ghost["keys_n"] = self.N

    def reps(self):
        return XList.seq(nz(self.N), SymKey)

    def bars(self, i, p):
        return SymArr(self.nb(i, p), Fn(lambda b: SymReal(self.bar(i, p, b))))

    def edges(self, i, p):
        return SymArr(self.nb(i, p) + 1, Fn(lambda b: SymReal(self.edge(i, p, b))))

    def stat(self, i, p):
        # without a contribution in the range there is none
        return {c: SymReal(f(i, p), self.none(i, p) if c != "totalValue" else False) for c, f in self.st.items()}

    def opts(self, p):
        return dict(scaling=SymReal(self.sc(p)), background=SymReal(self.bg(p)), gof=SymReal(self.gof(p)),
                    accepted=SymInt(self.acc(p)), step=SymInt(self.step(p)))

    def intensity(self, p):
        return SymArr(self.m, Fn(lambda j: SymReal(self.I(p, j))))

    def scaled(self, p):
        return SymArr(self.m, Fn(lambda j: SymReal(self.I(p, j) * self.sc(p) + self.bg(p))))

    def ranges(self):
        rangefuns()
        return Table(self.R, {c: KeyMap.of(self.R, (lambda c: lambda i: rowcols(i)[c])(c)) for c in rowcols(z3.IntVal(0))})


def env(v, res):
    g = E().ghost
    g["Series"] = lambda data=None, index=None, **k: Row(data) if isinstance(data, dict) and index is None and not k \
        else no("pandas.Series")
    g["newdict"] = lambda: KeyMap(res.N, [])
    g["blank"] = lambda cols: HistFrame(cols) if "xMean" in list(cols) else Table(res.N, {
        c: KeyMap(res.N, []) for c in cols})
    g["div0_ms"] = 300
    g["stack"] = stack_rows
    g["light_first"] = True


def analysis(v, res, n=None):
    from mcsas3.mc_hdf import ResultIndex
    a = object.__new__(v.get(AN))
    a.resultIndex = ResultIndex(fresh_int("resultIndex", 0) if n is None else n)
    a._histRanges = res.ranges()
    a._repetitionList = res.reps()
    a._modeKeys, a._optKeys = list(MODES), list(OPTS)
    a._core = None
    a._averagedModes = a._averagedI = None
    a._averagedHistograms = KeyMap(res.R, [])
    return a


@vc("McAnalysis.histAndLoadReps", ["C21", "C09"], [AN + ".histAndLoadReps", AN + ".ensureConcatEssentials"], own="C21", budget=100)
def vc_load(v):
    res = Result()
    env(v, res)
    n = fresh_int("resultIndex", 0)
    a = analysis(v, res, n)
    a._measData = data = dict(Q=[fresh_arr("Q", res.m)], I=fresh_arr("I", res.m), ISigma=fresh_arr("S", res.m))
    N, R = res.N, res.R
    a._concatOpts = Table(N, {c: KeyMap(N, []) for c in OPTS})
    a._concatI = KeyMap(N, [])
    a._concatModes = modes = Nest(R, N, MODES)
    a._concatHistograms, a._concatBinEdges = Nest(R, N), Nest(R, N)
    f = Path("/result.h5")
    log = XList()
    log.name = "stored"
    E().ghost["roots"] = {"stored": log}
    Core, Hist = v.get("mcsas3.mc_core:McCore"), v.get(H)
    put = object.__setattr__

    def mk_core(measData=None, model=None, opt=None, loadFromFile=None, loadFromRepetition=None, resultIndex=1):
        if type(loadFromRepetition) is not SymKey or model is not None or opt is not None:
            raise Unsupported("a repetition loaded in another way")
        v.prove("repetitions are loaded from the result file, with the data given", z3.BoolVal(
            loadFromFile == f and measData is data))
        v.prove("C09.repetitions are loaded from the result of the index", same(resultIndex, n))
        p = loadFromRepetition.i
        c = object.__new__(Core)
        o = object.__new__(v.get("mcsas3.mc_opt:McOpt"))
        q = res.opts(p)
        for k, x in dict(x0=SymArr.of([q["scaling"], q["background"]], "f"), modelI=res.intensity(p), gof=q["gof"],
                         accepted=q["accepted"], step=q["step"]).items():
            put(o, k, x)
        put(c, "_opt", o)
        put(c, "_model", None)
        put(c, "_p", p)
        return c

    class Hists:
        """contract of McModelHistogrammer (C19, C20)"""
        __module__ = "ghost"

        def __init__(self, core, ranges, resultIndex=1):
            if not hasattr(core, "_p") or ranges is not a._histRanges:
                raise Unsupported("a histogrammer of something else")
            v.prove("C09.histograms are those of the result of the index", same(resultIndex, n))
            p = self.p = core._p
            self._histDict = KeyMap.of(R, lambda i: res.bars(i, p))
            self._binEdges = KeyMap.of(R, lambda i: res.edges(i, p))
            self._modes = Table(R, {c: KeyMap.of(R, (lambda c: lambda i: res.stat(i, p)[c])(c)) for c in MODES})

        def store(self, filename=None, repetition=None):
            v.prove("the histograms of a repetition are stored as its own", And(
                z3.BoolVal(filename == f and type(repetition) is SymKey), wrap(getattr(repetition, "i", z3.IntVal(-1)) == self.p)))
            log.append(SymInt(self.p))
    v.patch(A + ":McCore", mk_core)
    v.patch(A + ":McModelHistogrammer", Hists)
    store = bool(E().choose(2))
    v.cover("precondition")
    r = v.call(lambda: a.histAndLoadReps(f, store, n) if E().choose(2) else a.histAndLoadReps(f, store, resultIndex=n))
    if not r.ok:
        v.fail("the repetitions of a result can be histogrammed", repr(r.exc))
        return
    v.cover("loaded")
    v.prove("C21.histograms are stored if asked for, once for each repetition", nz(log._dv_len()) == (nz(N) if store else 0))
    i, p = E().fresh_int("range"), E().fresh_int("repetition")
    E().assume(z3.And(0 <= i, i < nz(R), 0 <= p, p < nz(N)))
    E().hint_idx.extend([i, p])
    if store:
        v.prove("histograms are stored if asked for, for all repetitions", zi(log.at(p)) == p)
    want = res.opts(p)
    for c in OPTS:
        v.prove(f"{c} of each repetition is kept", same(cell(a._concatOpts.cols[c], p), want[c]))
    j = E().fresh_int("j")
    E().assume(z3.And(0 <= j, j < nz(res.m)))
    x = cell(a._concatI, p)
    v.prove("the intensity of each repetition is scaled, with its background", And(
        nz(x.n) == nz(res.m), same(x.at(j), res.scaled(p).at(j))))
    for nm, nest, w in (("bars", a._concatHistograms, res.bars(i, p)), ("edges", a._concatBinEdges, res.edges(i, p))):
        x = nested(nest, i, p)
        v.prove(f"the {nm} of each repetition and range are kept", And(nz(x.n) == nz(w.n), wrap(z3.Implies(
            z3.And(0 <= j, j < nz(w.n)), boolz(same(x.at(j), w.at(j)))))))
    x, w = nested(a._concatModes, i, p), res.stat(i, p)
    for c in MODES:
        v.prove(f"the statistics of each repetition and range are kept: {c}", same(x[c], w[c]))


def cell(km, p):
    if not E().valid(km.dom(p)):
        raise Unsupported(f"a repetition that may be missing: {km.dom(p)}")
    return km.get_at(p)


def nested(nest, i, p):
    if type(nest) is not Nest:
        raise Unsupported("results kept in another way")
    return nest.get(i, p)


# ------------------------------------------------------------------ averages
def mean_of(n, f):
    """the mean of f(p) over the n repetitions"""
    return a_mean(SymArr(nz(n), Fn(f)))


def spread_of(n, f, ddof):
    a = SymArr(nz(n), Fn(f))
    d = a - a_mean(a)
    q = num_op("div", a_sum(d * d), wrap(nz(n) - ddof))
    return SymReal(core.SqrtF(q.r), q.nan, q.pinf)      # a sum of squares is not negative


def several(v, res):
    """one repetition or more?"""
    if E().branch(nz(res.N) == 1):
        v.cover("one repetition")
        return False
    v.cover("several repetitions")
    return True


def used(x):
    """the values a repetition contributes with (without NaN)"""
    return Series(x)._valid()


def stat_of(a):
    """mean and sample standard deviation of the values in a (NaN left out)"""
    a = used(a)
    m = a_mean(a)
    d = a - m
    return m, a_sum(d * d), a.length


def check_stat(v, what, mean, std, a):
    """mean and spread over the values of a"""
    m, ss, n = stat_of(a)
    n = nz(n)
    v.prove(f"{what} is the mean over the repetitions", boolz(same(real(mean), real(m))))
    if E().branch(n > 1):
        want = f_sqrt(SymReal(zr(ss) / z3.ToReal(n - 1)))
        v.prove(f"the spread of {what} is the sample standard deviation", boolz(same(real(std), real(want))))


@vc("McAnalysis.averageHistograms", ["C21"], [AN + ".averageHistograms", AN + ".averageHistogram"], own="C21", budget=100)
def vc_hists(v):
    res = Result()
    env(v, res)
    E().ghost["rounds"] = 2      # comparisons of bins within comparisons of repetitions
    a = analysis(v, res)
    N, R = res.N, res.R
    a._concatHistograms = Nest(R, N, full=lambda i, p: res.bars(i, p))
    a._concatBinEdges = Nest(R, N, full=lambda i, p: res.edges(i, p))
    i = fresh_int("range")
    E().assume(z3.And(0 <= nz(i), nz(i) < nz(R)))
    one = E().choose(2)
    v.cover("precondition")
    if one:       # one range: refused exactly if the bins of the repetitions are not the same
        r = v.call(a.averageHistogram, SymKey(nz(i)))
        z = z3.IntVal(0)
        p, b = E().fresh_int("p"), E().fresh_int("b")
        E().hint_idx.extend([p, b])
        differ = AnyF(nz(N), lam(lambda q: z3.Or(res.nb(nz(i), q) != res.nb(nz(i), z), AnyF(res.nb(nz(i), z) + 1, lam(
            lambda t: res.edge(nz(i), q, t) != res.edge(nz(i), z, t))))))
        if not r.ok:
            v.cover("refused")
            E().ghost["rounds"] = 3
            v.prove("histograms on the same bins are averaged", differ, repr(r.exc))
            return
        h = r.value
    else:
        r = v.call(a.averageHistograms)
        if not r.ok:
            v.cover("refused (all ranges)")
            return
        hs = a._averagedHistograms
        v.prove("every range has its averaged histogram", type(hs) is KeyMap and hs.dom(nz(i)))
        if type(hs) is not KeyMap:
            return
        h = hs.get_at(nz(i), True)
    if type(h) is not HistFrame:
        raise Unsupported("another kind of histogram")
    v.cover("averaged")
    i = nz(i)
    z = z3.IntVal(0)
    for c in ("xMean", "xWidth", "yMean", "yStd"):
        v.prove(f"the histogram has {c}", c in h.cols and h.cols[c] is not None)
        if h.cols.get(c) is None:
            return
    b = E().fresh_int("bar")
    E().assume(z3.And(0 <= b, b < res.nb(i, z)))
    p = E().fresh_int("rep")
    E().assume(z3.And(0 <= p, p < nz(N)))
    E().hint_idx.extend([b, b + 1, p, p - 1] if one else [b])
    if one:
        v.prove("all repetitions have the same number of bins", res.nb(i, p) == res.nb(i, z))
        v.prove("all repetitions have the same bins", And(res.edge(i, p, b) == res.edge(i, z, b),
                                                          res.edge(i, p, b + 1) == res.edge(i, z, b + 1)))
    col = lambda c: h.cols[c]
    v.prove("one bar for each bin", nz(h.n) == res.nb(i, z))
    lo, hi = res.edge(i, z, b), res.edge(i, z, b + 1)
    v.prove("a bar has the width of its bin", boolz(same(real(col("xWidth").at(b)), SymReal(hi - lo))))
    v.prove("a bar is at the center of its bin", boolz(same(real(col("xMean").at(b)), SymReal((lo + hi) / 2))))
    f = lambda q: SymReal(res.bar(i, q, b))
    v.prove("a bar is the mean over the repetitions", boolz(same(real(col("yMean").at(b)), real(mean_of(N, f)))))
    if several(v, res):
        v.prove("the spread of a bar is the sample standard deviation over the repetitions", boolz(same(
            real(col("yStd").at(b)), real(spread_of(N, f, 1)))))


@vc("McAnalysis.averageModes", ["C21"], [AN + ".averageModes", AN + ".averageMode"], own="C21", budget=100)
def vc_modes(v):
    res = Result()
    env(v, res)
    g = E().ghost
    g["newdict"] = lambda: KeyMap(res.R, [])

    def frame(data=None, **k):
        if k or data is None:
            raise Unsupported("pandas.DataFrame(...)")
        if type(data) is KeyMap:
            return ByRange(data, False)
        if isinstance(data, dict) and all(type(x) is Stat for x in data.values()):
            return Mini(dict(data))
        raise Unsupported("pandas.DataFrame(...)")
    g["DataFrame"] = frame
    a = analysis(v, res)
    a._concatModes = Nest(res.R, res.N, MODES, full=lambda i, p: res.stat(i, p))
    v.cover("precondition")
    r = v.call(a.averageModes)
    if not r.ok:
        v.fail("the statistics can be averaged", repr(r.exc))
        return
    t = a._averagedModes
    if type(t) is not ByRange:
        raise Unsupported("another kind of table")
    v.prove("the averaged statistics have a row for each range", t.rows)
    i = nz(fresh_int("range"))
    E().assume(z3.And(0 <= i, i < nz(res.R)))
    v.prove("every range has its averaged statistics", t.km.dom(i))
    d = t.km.get_at(i, True).d
    v.cover("averaged")
    c = MODES[E().choose(len(MODES))]
    v.prove("mean and spread of each statistic", (c, "valMean") in d and (c, "valStd") in d)
    check_stat(v, "a statistic", d[c, "valMean"], d[c, "valStd"], SymArr(nz(res.N), Fn(lambda p: res.stat(i, p)[c])))


class OptTable(Table):
    """a column of numbers over the repetitions for each name"""

    def stat(self, f):
        n = self.n
        out = {}
        for c, m in self.cols.items():
            out[c] = f(Series(SymArr(nz(n), Fn((lambda m: lambda p: m.get_at(p, True))(m)))))
        return Stat(out)

    def mean(self, **k):
        return self.stat(lambda s: s.mean(**k))

    def std(self, **k):
        return self.stat(lambda s: s.std(**k))


@vc("McAnalysis.averageOpts, averageI", ["C21"], [AN + ".averageOpts", AN + ".averageI"], own="C21", budget=100)
def vc_opts(v):
    res = Result()
    env(v, res)
    g = E().ghost

    def frame(data=None, **k):
        if k or not isinstance(data, dict):
            raise Unsupported("pandas.DataFrame(...)")
        if all(type(x) is Stat for x in data.values()):
            return Mini(dict(data))
        if all(type(x) is SymArr for x in data.values()):
            t = HistFrame(())
            for c, x in data.items():
                t[c] = x
            return t
        raise Unsupported("pandas.DataFrame(...)")
    g["DataFrame"] = frame
    a = analysis(v, res)
    a._concatOpts = OptTable(res.N, {c: KeyMap.of(res.N, (lambda c: lambda p: res.opts(p)[c])(c)) for c in OPTS})
    a._concatI = KeyMap.of(res.N, lambda p: res.scaled(p))
    v.cover("precondition")
    if E().choose(2):
        r = v.call(a.averageOpts)
        if not r.ok:
            v.fail("the optimization values can be averaged", repr(r.exc))
            return
        v.cover("optimization values")
        t = a.optParAvg
        if type(t) is not Mini:
            raise Unsupported("another kind of table")
        c = OPTS[E().choose(len(OPTS))]
        v.prove("mean and spread of each optimization value", set(t.cols) >= {"valMean", "valStd"} and all(
            c in x.d for x in t.cols.values()))
        check_stat(v, "an optimization value", t.cols["valMean"].d[c], t.cols["valStd"].d[c],
                   SymArr(nz(res.N), Fn(lambda p: res.opts(p)[c])))
        return
    r = v.call(a.averageI)
    if not r.ok:
        v.fail("the model intensities can be averaged", repr(r.exc))
        return
    v.cover("intensity")
    t = a.modelIAvg
    if type(t) is not HistFrame:
        raise Unsupported("another kind of table")
    v.prove("mean and spread of the model intensity", set(t.cols) >= {"modelIMean", "modelIStd"})
    j = E().fresh_int("j")
    E().assume(z3.And(0 <= j, j < nz(res.m)))
    f = lambda p: res.scaled(p).at(j)
    v.prove("the averaged intensity has a value for each datapoint", nz(t.n) == nz(res.m))
    v.prove("the averaged model intensity is the mean over the repetitions of the scaled intensity with background", boolz(
        same(real(t.cols["modelIMean"].at(j)), real(mean_of(res.N, f)))))
    v.prove("the spread of the model intensity is the population standard deviation", boolz(same(
        real(t.cols["modelIStd"].at(j)), real(spread_of(res.N, f, 0)))))


# ------------------------------------------------------------------ which repetitions there are
class Names:
    """names in a group of the file: repetition<number>, and others without that word"""
    name = "repetition"

    def __init__(self):
        e = E()
        fun = lambda h, *s: e.register_fun(e.fresh_fun(h, *s))
        self.n = fresh_int("names", 0)
        self.rep, self.num = fun("isRepetition", core.I, core.B), fun("number", core.I, core.I)
        self.of = fun("nameOf", core.I, core.I)
        # one name for each number
        e.add_forall(z3.IntVal(0), nz(self.n), lambda t: z3.Implies(self.rep(t), z3.And(
            self.of(self.num(t)) == t, self.num(t) >= 0)))

    def _dv_n(self):
        return nz(self.n)

    def _dv_item(self, t):
        return Name(self, t)

    def _dv_guard(self, t):
        return True

    def keys(self):
        return self

    def _dv_list(self):
        return XList.seq(nz(self.n), self._dv_item)

    def _dv_len(self):
        return self.n

    def __iter__(self):
        raise Unsupported("native iteration over the names")

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"group .{nm}")


class Name:
    __hash__ = None

    def __init__(self, g, t):
        self.g, self.t = g, t

    @property
    def __class__(self):
        return str

    def _dv_vmap(self, f):
        return Name(self.g, f(self.t))

    def _dv_terms(self, j):
        return [SymInt(self.t)]

    def word(self, w):
        if w != self.g.name:
            raise Unsupported("part of a name")

    def __contains__(self, w):
        self.word(w)
        return E().branch(self.g.rep(self.t))

    startswith = __contains__

    def number(self, w):
        self.word(w)
        if not E().valid(self.g.rep(self.t)):
            raise Unsupported("number of another name")
        return SymInt(self.g.num(self.t))

    strip = lstrip = removeprefix = number

    def replace(self, w, to=""):
        return self.number(w) if to == "" else no("replace")

    def split(self, w):
        return ["", self.number(w)]

    def partition(self, w):
        return ("", w, self.number(w))

    def __getitem__(self, s):
        if s == slice(len(self.g.name), None):
            return self.number(self.g.name)
        raise Unsupported("part of a name")

    def __eq__(self, o):
        raise Unsupported("comparison of names")

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"name .{nm}")


@vc("McAnalysis.getNRep", ["C21", "C09"], [AN + ".getNRep"], own="C21", budget=60)
def vc_getnrep(v):
    n = fresh_int("resultIndex", 0)
    names = Names()
    E().ghost.update(rounds=2, light_first=True)
    from mcsas3.mc_hdf import ResultIndex
    a = object.__new__(v.get(AN))
    a.resultIndex = ResultIndex(n)
    old = E().fresh_fun("earlier", core.I, core.I)
    # of an earlier call
    a._repetitionList = XList.seq(nz(fresh_int("nEarlier", 1)), lambda i: SymInt(old(i)))
    fname = Path("/result.h5")

    class File:
        def __init__(self, f=None, mode="r", **k):
            v.prove("the repetitions of the given file are used, which is only read", z3.BoolVal(f == fname and mode == "r"))

        def __enter__(self):
            return self

        def __exit__(self, *x):
            return None

        def __getitem__(self, p):
            v.prove("C09.repetitions are looked for under the result's own index", in_entry(p, n, "model"))
            return names

        def close(self):
            pass

        def __getattr__(self, nm):
            if nm.startswith("_"):
                raise AttributeError(nm)
            raise Unsupported(f"file .{nm}")

    class H5:
        pass
    H5.File = File
    v.patch(A + ":h5py", H5)
    v.cover("precondition")
    r = v.call(a.getNRep, fname)
    if not r.ok:
        v.fail("the repetitions of a result are found", repr(r.exc))
        return
    xs = a._repetitionList
    if type(xs) is not XList:
        raise Unsupported("another kind of list")
    v.cover("found")
    if E().branch(nz(xs.n) >= 2):
        v.cover("several")
    i, k, t = E().fresh_int("i"), E().fresh_int("k"), E().fresh_int("name")
    E().hint_idx.extend([i, k, t])
    m = nz(xs.n)
    N = nz(names.n)
    E().assume(z3.And(0 <= i, i < m))
    x = zi(xs.at(i))
    v.prove("each number in the list is that of a repetition in the file", AnyF(N, lam(
        lambda s: z3.And(names.rep(s), names.num(s) == x))))
    E().assume(z3.And(0 <= k, k < m, i != k))
    v.prove("no repetition is used twice", x != zi(xs.at(k)))
    E().assume(z3.And(0 <= t, t < N, names.rep(t)))
    v.prove("each repetition in the file is used", AnyF(m, lam(lambda s: zi(xs.at(s)) == names.num(t))))


# ------------------------------------------------------------------ storing
class Stored:
    """ghost of a result file: what is stored for each range (a name pattern -> values by range), and otherwise"""

    def __init__(self, v, R, pats, rep=None):
        self.v, self.rep, self.plain = v, rep, {}
        self.by = {p: KeyMap(R, []) for p in pats}
        E().ghost["roots"] = {"/".join(p): m for p, m in self.by.items()}

    def put(self, names, x):
        pat, key = [], None
        for s in names:
            ps = h5.parts(s, (SymKey,))
            if len(ps) == 2 and ps[0] == "histRange" and type(ps[1]) is SymKey and key is None:
                key = ps[1]
                s = "histRange*"
            elif len(ps) == 2 and ps[0] == "repetition" and self.rep is not None:
                self.v.prove("C19.histograms are stored under their own repetition", And(
                    is_int_like(ps[1]), same(ps[1], self.rep)) if is_int_like(ps[1]) else False)
                s = "repetition*"
            elif len(ps) != 1 or type(ps[0]) is not str:
                return
            pat.append(s)
        if key is None:
            self.plain[tuple(pat)] = x
        elif tuple(pat) in self.by:
            self.by[tuple(pat)][key] = x

    def prove(self, what, pat, R, want, i):
        """the values wanted for range i are stored"""
        m = self.by[pat]
        self.v.prove(f"{what} stored for each range", z3.Implies(z3.And(0 <= i, i < nz(R)), m.dom(i)), "/".join(pat))
        if E().valid(m.dom(i)):
            self.value(f"{what} stored as they are", m.get_at(i), want, "/".join(pat))

    def value(self, what, x, w, detail):
        if isinstance(w, SymArr):
            j = E().fresh_int("j")
            E().hint_idx.append(j)
            if not isinstance(x, SymArr):
                raise Unsupported(f"stored as {type(x).__name__}")
            self.v.prove(what, And(nz(x.n) == nz(w.n), wrap(z3.Implies(z3.And(0 <= j, j < nz(w.n)), boolz(same(x.at(j), w.at(j)))))),
                         detail)
        elif type(w) is Word:
            self.v.prove(what, wrap(z3.And(x.kind == w.kind, x.tag == w.tag)) if type(x) is Word else False, detail)
        else:
            self.v.prove(what, same(x, w), detail)


def checked_store(v, n, fname, stored=None):
    """contract of storeKV and storeKVPairs (C07)"""
    def write(f, path, x):
        if stored is not None and x is not None:
            stored.put(kv.names(path)[2:], x)
        if not E().learning:
            v.cover("written")
        v.prove("C09.histograms and averages are written under the result's own index", And(
            in_entry(path, n), z3.BoolVal(f == fname)))

    def pairs(filename, path, pairs):
        for k, x in list(pairs):
            if not isinstance(k, str):
                raise Unsupported("name of another kind")
            write(filename, path / k, x)

    def one(filename, path, value=None):
        write(filename, path, value)
    return pairs, one


def patch_store(v, m, n, fname, stored=None):
    import importlib
    pairs, one = checked_store(v, n, fname, stored)
    mod = importlib.import_module(m)
    for nm, f in (("storeKVPairs", pairs), ("storeKV", one)):
        if hasattr(mod, nm):
            v.patch(f"{m}:{nm}", f)


class RangeTable(Table):
    def to_dict(self, orient="dict"):
        if orient != "index":
            raise Unsupported("to_dict")
        t = self.copy()
        return KeyMap.of(t.n, lambda i: {c: m.get_at(i, True) for c, m in t.cols.items()})

    def copy(self, deep=True):
        return RangeTable(self.n, {c: m.copy() for c, m in self.cols.items()})


@vc("McModelHistogrammer.store", ["C09", "C19", "C20"], [H + ".store"], own="C09", budget=60)
def vc_hist_store(v):
    from mcsas3.mc_hdf import ResultIndex
    res = Result()
    env(v, res)
    n = fresh_int("resultIndex", 0)
    f = Path("/result.h5")
    p = fresh_int("repetition", 0)
    cols = list(res.ranges().cols)
    at = ("histograms", "histRange*", "repetition*")
    stored = Stored(v, res.R, [("histograms", "histRange*", c) for c in cols] + [(*at, c) for c in MODES] + [
        (*at, "binEdges"), (*at, "hist")], p)
    patch_store(v, HM, n, f, stored)
    h = object.__new__(v.get(H))
    h.resultIndex = ResultIndex(n)
    t = res.ranges()
    h._histRanges = RangeTable(t.n, t.cols)
    R = res.R
    h._modes = RangeTable(R, {c: KeyMap.of(R, (lambda c: lambda i: res.stat(i, nz(p))[c])(c)) for c in MODES})
    h._histDict = KeyMap.of(R, lambda i: res.bars(i, nz(p)))
    h._binEdges = KeyMap.of(R, lambda i: res.edges(i, nz(p)))
    v.cover("precondition")
    r = v.call(h.store, f, p) if E().choose(2) else v.call(lambda: h.store(filename=f, repetition=p))
    if not r.ok:
        v.fail("histograms can be stored", repr(r.exc))
        return
    v.cover("stored")
    v.prove("storing does not change the index", of_index(h, n))
    i = E().fresh_int("range")
    E().assume(z3.And(0 <= i, i < nz(R)))
    E().hint_idx.append(i)
    for c in cols:
        stored.prove("C19.the settings of a histogram are", ("histograms", "histRange*", c), R, t.cols[c].get_at(i, True), i)
    stored.prove("C19.bin edges are", (*at, "binEdges"), R, res.edges(i, nz(p)), i)
    stored.prove("C19.bars are", (*at, "hist"), R, res.bars(i, nz(p)), i)
    for c in MODES:
        stored.prove("C20.statistics are", (*at, c), R, res.stat(i, nz(p))[c], i)


@vc("McAnalysis.store", ["C09", "C21"], [AN + ".store"], own="C09", budget=60)
def vc_an_store(v):
    res = Result()
    env(v, res)
    n = fresh_int("resultIndex", 0)
    f = Path("/result.h5")
    at = ("histograms", "histRange*", "average")
    stored = Stored(v, res.R, [(*at, c, x) for c in MODES for x in ("valMean", "valStd")] + [
        (*at, c) for c in ("xMean", "xWidth", "yMean", "yStd")])
    patch_store(v, A, n, f, stored)
    a = analysis(v, res, n)
    R = res.R
    e = E()
    fun = lambda h, *s: e.register_fun(e.fresh_fun(h, *s))
    I, R_ = core.I, core.R
    val = {c: fun("av_" + c, I, I, R_) for c in ("xMean", "xWidth", "yMean", "yStd")}

    def hist(i):
        nb = res.nb(i, z3.IntVal(0))
        t = HistFrame(["xMean", "xWidth", "yMean", "yStd", "Obs", "cdfMean", "cdfStd"], nb)
        for c, g in val.items():
            t.cols[c] = SymArr(nb, Fn((lambda g: lambda b: SymReal(g(i, b)))(g)))
        return t
    a._averagedHistograms = KeyMap.of(R, hist)
    st = {(c, x): fun(f"{x}_{c}", I, R_) for c in MODES for x in ("valMean", "valStd")}
    nan = fun("valStd_nan", I, z3.BoolSort())     # the deviation over one repetition is not a number

    def stat(k, i):
        return SymReal(st[k](i), nan=nan(i) if k[1] == "valStd" else False)
    a._averagedModes = ByRange(KeyMap.of(R, lambda i: Stat({k: stat(k, i) for k in st})), True)
    a._averagedOpts = Mini({x: Stat({c: fresh_real(f"{x}_{c}", nan=x == "valStd") for c in OPTS}) for x in ("valMean", "valStd")})
    t = HistFrame((), res.m)
    t["modelIMean"], t["modelIStd"] = fresh_arr("Imean", res.m), fresh_arr("Istd", res.m)
    a._averagedI = t
    v.cover("precondition")
    r = v.call(a.store, f) if E().choose(2) else v.call(lambda: a.store(filename=f))
    if not r.ok:
        v.fail("averages can be stored", repr(r.exc))
        return
    v.cover("stored")
    v.prove("storing does not change the index", of_index(a, n))
    i = E().fresh_int("range")
    E().assume(z3.And(0 <= i, i < nz(R)))
    E().hint_idx.append(i)
    for c in val:
        stored.prove("C21.averaged histograms are", (*at, c), R, hist(i).cols[c], i)
    for c, x in st:
        stored.prove("C21.averaged statistics are", (*at, c, x), R, stat((c, x), i), i)
    at = ("optimization", "average")
    want = {(*at, c, x): a._averagedOpts.cols[x].d[c] for x in ("valMean", "valStd") for c in OPTS}
    want.update({(*at, c): t.cols[c] for c in ("modelIMean", "modelIStd")})
    for k, w in want.items():
        v.prove("C21.all averages are stored", z3.BoolVal(k in stored.plain), "/".join(k))
        if k in stored.plain:
            stored.value("C21.averages are stored as they are", stored.plain[k], w, "/".join(k))


# ------------------------------------------------------------------ the whole analysis
@vc("McAnalysis.__init__", ["C21", "C09"], [AN + ".__init__"], own="C21", budget=60)
def vc_init(v):
    res = Result()
    env(v, res)
    n = fresh_int("resultIndex", 0)
    f = "/result.h5"
    ranges, data = res.ranges(), dict(Q=[fresh_arr("Q", res.m)], I=fresh_arr("I", res.m))
    there = bool(E().choose(2))

    def is_file(real):
        return lambda p: there if str(p) == f else real(p)
    a = object.__new__(v.get(AN))
    for nm in ("isfile", "exists"):
        v.patch("os.path:" + nm, is_file(getattr(os.path, nm)))
    for nm in ("is_file", "exists"):
        v.patch("pathlib:Path." + nm, is_file(getattr(Path, nm)))
    done = []

    def empty(x):
        if type(x) is KeyMap:
            return not x.layers and not x.extra
        if hasattr(x, "cols"):
            return not x.cols or all(c is None or type(c) is KeyMap and not c.layers for c in x.cols.values())
        return not x

    def nrep(self, inputFile):
        v.prove("the repetitions are those of the given file and index", And(z3.BoolVal(str(inputFile) == f), of_index(self, n)))
        self._repetitionList = res.reps()
        done.append("reps")

    def load(self, inputFile, store, resultIndex=1):
        v.prove("the repetitions are looked up before they are loaded", done == ["reps"])
        v.prove("C09.the repetitions analysed are those of the given index", same(resultIndex, n))
        v.prove("repetitions are loaded from the given file, and stored if asked for", z3.BoolVal(
            str(inputFile) == f and store is want))
        v.prove("data and ranges are those given", self._measData is data and self._histRanges is ranges)
        v.prove("nothing is left of an earlier analysis", all(empty(getattr(self, c)) for c in (
            "_concatOpts", "_concatI", "_concatModes", "_concatHistograms", "_concatBinEdges")) and
            all(c in self.__dict__ for c in ("_concatI", "_concatModes", "_concatHistograms", "_concatBinEdges",
                                             "_averagedHistograms")))
        done.append("loaded")

    def average(nm):
        def g(self):
            v.prove("averages are made of the loaded repetitions", "loaded" in done and "stored" not in done)
            done.append(nm)
        return g

    def stored(self, filename):
        v.prove("averages are stored if asked for, in the given file", z3.BoolVal(bool(want) and str(filename) == f))
        v.prove("all averages are made before they are stored", {"averageI", "averageOpts", "averageModes", "averageHistograms"}
                <= set(done))
        v.prove("C09.averages are stored under the given index", of_index(self, n))
        done.append("stored")
    v.patch(AN + ".getNRep", nrep)
    v.patch(AN + ".histAndLoadReps", load)
    for nm in ("averageI", "averageOpts", "averageModes", "averageHistograms"):
        v.patch(f"{AN}.{nm}", average(nm))
    v.patch(AN + ".store", stored)
    want = bool(E().choose(2))
    E().ghost["DataFrame"] = lambda data=None, columns=(), **k: HistFrame(columns) if data is None and not k else no("DataFrame")
    case = E().choose(3)
    v.cover("precondition")
    if case == 1:
        r = v.call(lambda: v.get(AN).__init__(a, f, data, ranges, want, n))
    elif case == 2:
        # no index given: the first
        E().assume(nz(n) == 1)
        r = v.call(lambda: v.get(AN).__init__(a, f, data, ranges, store=want))
    else:
        r = v.call(lambda: v.get(AN).__init__(a, inputFile=f, measData=data, histRanges=ranges, store=want, resultIndex=n))
    if not r.ok:
        v.cover("refused")
        v.prove("an existing result can be analysed", not there, repr(r.exc))
        return
    v.prove("a missing result file is refused", there)
    v.cover("stored" if want else "not stored")
    v.prove("all averages are made", {"averageI", "averageOpts", "averageModes", "averageHistograms"} <= set(done))
    v.prove("averages are stored exactly if asked for", done.count("stored") == (1 if want else 0))
    v.prove("C09.the analysis keeps its index", of_index(a, n))
