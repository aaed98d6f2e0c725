"""C06, C08: datasets and fits are restored from a result file as stored (over the contracts of C07)"""
from pathlib import Path, PurePosixPath

import z3

from dv import core
from dv.contract import vc
from dv.core import E, Unsupported
from dv.loops import TList
from dv.stubs import h5_stub as h5
from dv.values import (And, SymArr, SymInt, SymReal, XList, boolz, fresh_arr, fresh_bool, fresh_int, fresh_real, is_int_like,
                       is_num, nz, same, wrap, zr)

from . import kv
from .ghostmap import KeyMap, SymKey
from .index_c import of_index, watch
from .hdf_c import equal_arrays, equal_texts, name, path_value, seq_of, texts

MODEL = "mcsas3.mc_model:McModel"
OPT = "mcsas3.mc_opt:McOpt"
CORE = "mcsas3.mc_core:McCore"
D1 = "mcsas3.mc_data_1d:McData1D"
BASE = "mcsas3.mc_data:McData"

rows = z3.Function("rowsOf", h5.Any_, core.I)


class SplitTable:
    """a table of contributions: any number of rows and columns, any values"""
    _dv_table = True

    def __init__(self, data, columns, index):
        self.data, self._columns, self.index = data, columns, index
        E().assume(rows(data.t) >= 0)

    @staticmethod
    def make(data=None, columns=None, index=None, **k):
        if k or type(data) is not h5.OpArr:
            raise Unsupported("pandas.DataFrame(...)")
        return SplitTable(data, columns, index)

    @property
    def shape(self):
        return (SymInt(rows(self.data.t)), wrap(nz(seq_of(self.columns)[0])))

    def _dv_len(self):
        return self.shape[0]

    def copy(self, *a, **k):
        return SplitTable(self.data, self._columns, self.index)

    @property
    def values(self):
        return self.data.copy()

    def to_numpy(self):
        return self.data.copy()

    def drop_duplicates(self):
        t = SplitTable(h5.OpArr.fresh("distinct"), self._columns, fresh_arr("index", fresh_int("n", 0), kind="i"))
        E().assume(z3.And(rows(t.data.t) == nz(t.index.n), rows(t.data.t) <= rows(self.data.t)))
        return t

    @property
    def columns(self):
        return self._columns

    @columns.setter
    def columns(self, c):
        self._columns = c

    def to_dict(self, orient="dict"):
        if orient != "split":
            raise Unsupported(f"to_dict(orient={orient!r})")
        cols = self._columns
        return dict(index=XList.seq(nz(self.index.n), self.index.fn), columns=cols.tolist() if hasattr(cols, "tolist") else cols,
                    data=h5.ListOf(self.data))

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"table of contributions .{nm}")


def any_table():
    n = fresh_int("n", 0)
    idx = fresh_arr("index", n, kind="i")
    t = SplitTable(h5.OpArr.fresh("values"), texts("<U7"), idx)
    E().assume(rows(t.data.t) == nz(n))
    return t


# ------------------------------------------------------------------ equality of what was stored and restored
LISTS = (list, tuple, TList)


def text_list(x):
    return type(x) is XList and isinstance(x.at(z3.Int("probe!")), h5.Text)


def eq(got, want):
    """is the restored setting the one stored?"""
    if type(got) is kv.Stale:
        return False
    if want is None or type(got) is not type(want) and got is None:
        return got is None and want is None
    if isinstance(want, Path):
        return isinstance(got, Path) and got.as_posix() == want.as_posix()
    if isinstance(want, str):
        return isinstance(got, str) and same(got, want)
    if kv.is_dict(want):
        return eq_dict(got, want)
    if is_num(want) or type(want).__name__ == "SymBool":
        return is_num(got) and same(got, want) if is_num(want) else same(got, want)
    if type(want) is h5.OpArr or type(want) is h5.ListOf:
        if type(want) is h5.ListOf and type(got) is h5.ListOf:
            return isinstance(got, list) and same(got.arr, want.arr)
        w = want.arr if type(want) is h5.ListOf else want
        return type(got) is h5.OpArr and same(got, w)
    if type(want) is h5.TextArr or (type(want) in LISTS and want and all(isinstance(x, str) for x in want)) or text_list(want):
        if isinstance(got, (str, dict)):
            return False
        return text_items(got, want) if type(want) in LISTS else equal_texts(got, want)
    if isinstance(want, (list, tuple)) or type(want) in (SymArr, XList):
        if type(got) in (SymArr, XList) or isinstance(got, (list, tuple)):
            return equal_seq(got, want)
        return False
    raise Unsupported(f"comparison with a {type(want).__name__}")


def text_items(got, want):
    n, f = seq_of(got)
    item = lambda k: f(z3.IntVal(k))
    if type(got) not in (SymArr, XList, h5.TextArr):
        item = lambda k: list(got)[k]
    if not E().valid(n == len(want)):
        return wrap(n == len(want))
    term = lambda x: x.t if isinstance(x, (h5.Text, h5.Bytes)) else h5.lit(str(x))
    xs = [item(k) for k in range(len(want))]
    return And(*[isinstance(x, str) and wrap(term(x) == term(w)) for x, w in zip(xs, want)], True)


def equal_seq(r, v):
    n, f = seq_of(r)
    m, g = seq_of(v)
    j = E().fresh_int("j")
    E().hint_idx.append(j)
    here = z3.And(0 <= j, j < m)
    a, b = f(j), g(j)
    e = eq(a, b) if not is_num(b) else (is_num(a) and same(a, b))
    return And(wrap(n == m), wrap(z3.Implies(here, boolz(e))))


def eq_dict(got, want, strict=False):
    got, want = kv.plain(got), kv.plain(want)
    if not kv.is_dict(got):
        return False
    if type(want) is KeyMap:
        if type(got) is not KeyMap:
            return False
        wx = {k: x for k, x in want.extra.items() if strict or x is not None}
        gx = {k: x for k, x in got.extra.items() if strict or x is not None}
        if set(wx) != set(gx):
            return False
        j = E().fresh_int("j")
        E().hint_idx.append(j)
        ok = And(wrap(nz(got.n) == nz(want.n)), *[eq(gx[k], wx[k]) for k in wx])
        if not E().branch(z3.And(0 <= j, j < nz(want.n))):
            return ok       # (any key)
        w = want.get_at(j, True)
        return And(ok, wrap(got.dom(j)), eq(got.get_at(j, True), w))
    wx = {k: x for k, x in want.items() if strict or x is not None}
    gx = {k: x for k, x in (got.extra if type(got) is KeyMap else got).items() if strict or x is not None}
    if set(wx) != set(gx) or (type(got) is KeyMap and not E().valid(nz(got.n) == 0)):
        return False
    return And(*[eq(gx[k], wx[k]) for k in wx], True)


# ------------------------------------------------------------------ C08
def model_state(v, index, any_kind=True):
    from mcsas3.mc_hdf import ResultIndex
    m = object.__new__(v.get(MODEL))
    m.resultIndex = ResultIndex(index)
    nf, ns = fresh_int("nfit", 0), fresh_int("nstatic", 0)
    lo, hi, st = (E().register_fun(E().fresh_fun(k, core.I, core.R)) for k in ("lo", "hi", "static"))
    tup = E().choose(2) if any_kind else 1
    m.fitParameterLimits = KeyMap.of(nf, lambda i: (tuple if tup else list)((SymReal(lo(i)), SymReal(hi(i)))))
    kind = E().choose(3) if any_kind else 0
    if kind == 0:
        m.staticParameters = KeyMap.of(ns, lambda i: SymReal(st(i)))
    elif kind == 1:
        m.staticParameters = {}
    else:
        m.staticParameters = {"simDataQ0": fresh_arr("Q0", fresh_int("k", 0)), "simDataQ1": None, "sld": fresh_real("sld"),
                              "name": h5.fresh_text("static")}
    m.modelName, m.modelDType = h5.fresh_text("modelName"), h5.fresh_text("modelDType")
    m.parameterSet = any_table()
    m.nContrib = m.parameterSet.shape[0]
    m.volumes = fresh_arr("volumes", m.nContrib) if not any_kind or E().choose(2) else None
    m.seed = fresh_int("seed") if not any_kind or E().choose(2) else None
    return m


KEPT = ("fitParameterLimits", "staticParameters", "modelName", "modelDType", "volumes", "seed")


def check_model(v, got, want, t, what=""):
    for k in KEPT:
        v.prove(f"{what}{k} comes back as stored", eq(getattr(got, k), want[k]), f"{type(getattr(got, k)).__name__}")
    p = got.parameterSet
    v.prove(f"{what}the contributions are a table", type(p) is SplitTable)
    if type(p) is not SplitTable:
        return
    v.prove(f"{what}the parameter values come back as stored", same(p.data, t.data))
    v.prove(f"{what}the parameter names and their order come back as stored", equal_texts(p.columns, t.columns))
    v.prove(f"{what}the row labels come back as stored", equal_arrays(p.index, t.index))
    v.prove(f"{what}the number of contributions is that of the stored ones", is_int_like(got.nContrib) and same(
        got.nContrib, SymInt(rows(t.data.t))))


def env(v, n=None):
    kv.use(v, "mcsas3.mc_model", "mcsas3.mc_opt", "mcsas3.mc_data", "mcsas3.mc_core")
    if n is not None:
        watch(v, n)
    E().ghost["DataFrame"] = SplitTable.make


@vc("McModel.store, load", ["C08", "C09"], [MODEL + ".store", MODEL + ".load"], own="C08", budget=150)
def vc_model(v):
    n, rep = fresh_int("resultIndex", 0), fresh_int("repetition", 0)
    env(v, n)
    m = model_state(v, n)
    want = {k: getattr(m, k) for k in KEPT}
    t = m.parameterSet.copy()
    f = Path("/" + name("file"))
    v.cover("precondition")
    r = v.call(m.store, f, rep)
    if not r.ok:
        v.fail("a repetition can be stored", repr(r.exc))
        return
    for k in KEPT:
        v.prove("storing does not change the model", getattr(m, k) is want[k])
    kv.file(f).readonly = True
    from mcsas3.mc_hdf import ResultIndex
    o = object.__new__(v.get(MODEL))
    o.resultIndex, o.parameterSet, o.nContrib, o.seed = ResultIndex(n), None, 300, 12345
    r = v.call(o.load, f, rep)
    if not r.ok:
        v.fail("a stored repetition can be loaded", repr(r.exc))
        return
    v.cover("loaded")
    check_model(v, o, want, t)


@vc("McModel.__init__ (from a file)", ["C08", "C09"], [MODEL + ".__init__", MODEL + ".load", MODEL + ".checkSettings",
    MODEL + ".loadSimModel"], own="C08",
    budget=150)
def vc_model_init(v):
    """the constructor keeps what load restored (load runs with its callees' contracts)"""
    n, rep = fresh_int("resultIndex", 0), fresh_int("repetition", 0)
    env(v, n)
    E().ghost["load_model"] = lambda nm, dtype=None: "opaque model"
    m = model_state(v, n)
    which = ("sphere", "mcsas_sphere", "sim")[E().choose(3)]
    m.modelName = which
    m.volumes, m.seed = fresh_arr("volumes", m.nContrib), fresh_int("seed", 0) if E().choose(2) else None
    m.staticParameters = {"sld": fresh_real("sld"), "sld_solvent": fresh_real("solvent")} if which != "sim" else dict(
        extrapY0=fresh_real("y0"), extrapScaling=fresh_real("s"), simDataQ1=None, **{
            "simData" + k: fresh_arr(k, fresh_int("nsim", 0)) for k in ("Q0", "I", "ISigma")})

    def func(self):
        self.func = object()
    for k in ("loadModel", "loadMcsasSphereModel"):      # C15
        v.patch(f"{MODEL}.{k}", func)
    sims = []

    def sim_init(self, **kwargs):       # C16
        sims.append((self, kwargs))
    v.patch("mcsas3.mc_model:McSimPseudoModel.__init__", sim_init)
    lim = {"radius": (fresh_real("lo"), fresh_real("hi")), "length": (fresh_real("lo"), fresh_real("hi"))}
    m.fitParameterLimits = lim if E().choose(2) else {}
    want = {k: getattr(m, k) for k in KEPT}
    t = m.parameterSet.copy()
    f = Path("/" + name("file"))
    r = v.call(m.store, f, rep)
    if not r.ok:
        v.fail("a repetition can be stored", repr(r.exc))
        return
    kv.file(f).readonly = True
    r = v.call(v.get(MODEL), loadFromFile=f, loadFromRepetition=rep, resultIndex=n)
    if not r.ok:
        v.fail("a stored repetition can be loaded", repr(r.exc))
        return
    v.cover("loaded " + which)
    if which == "sim":
        v.prove("a loaded simulation model is set up", z3.BoolVal(len(sims) == 1 and r.value.func is sims[0][0]))
        if sims:
            v.prove("a loaded simulation model gets the stored simulation data",
                    eq(dict(sims[0][1]), want["staticParameters"]))
    check_model(v, r.value, want, t)
    v.prove("the model keeps its result index", of_index(r.value, n))
    v.prove("C09.the model keeps its result index", of_index(r.value, n))


STATE = ("accepted", "convCrit", "gof", "maxIter", "maxAccept", "modelI", "step", "x0", "acceptedSteps", "acceptedGofs")
HISTORY = ("acceptedSteps", "acceptedGofs")


def opt_state(v, index, rep):
    from mcsas3.mc_hdf import ResultIndex
    o = object.__new__(v.get(OPT))
    o.resultIndex, o.repetition = ResultIndex(index), rep
    o.step, o.accepted, o.maxIter = fresh_int("step", 0), fresh_int("accepted", 0), fresh_int("maxIter")
    o.convCrit, o.gof, o.weighting = fresh_real("convCrit"), fresh_real("gof", nan=True, inf=True), fresh_real("weighting")
    o.maxAccept = fresh_real("maxAccept", inf=True)
    o.modelI, o.x0 = fresh_arr("modelI", fresh_int("m", 0)), fresh_arr("x0", 2)
    h = fresh_int("nacc", 0)
    a, b = fresh_arr("steps", h, kind="i"), fresh_arr("gofs", h)
    o.acceptedSteps, o.acceptedGofs = XList.seq(h.i, a.fn), XList.seq(h.i, b.fn)
    o.testX0 = o.testModelI = o.testModelV = None
    return o


def check_opt(v, got, want, rep, what=""):
    for k in STATE:
        x = getattr(got, k, None)
        v.prove(f"{what}{k} comes back as stored", eq(x, want[k]), f"{type(x).__name__}")
    for k in HISTORY:
        x = getattr(got, k, None)
        v.prove(f"{what}{k} is a list, to be continued", type(x) in (XList, list))
    v.prove(f"{what}the repetition is that loaded", same(got.repetition, rep))


@vc("McOpt.store, load", ["C08", "C09"], [OPT + ".store", OPT + ".load", OPT + ".__init__"], own="C08", budget=150)
def vc_opt(v):
    n, rep = fresh_int("resultIndex", 0), fresh_int("repetition", 0)
    env(v, n)
    o = opt_state(v, n, rep)
    want = {k: getattr(o, k) for k in STATE}
    f = Path("/" + name("file"))
    v.cover("precondition")
    from mcsas3.mc_hdf import ResultIndex
    if E().choose(2):      # the general settings, next to the repetitions
        r = v.call(o.store, f)
        if not r.ok:
            v.fail("the settings can be stored", repr(r.exc))
            return
    r = v.call(o.store, f, ResultIndex(n).nxsEntryPoint / "optimization" / f"repetition{rep}")
    if not r.ok:
        v.fail("a repetition can be stored", repr(r.exc))
        return
    for k in STATE:
        v.prove("storing does not change the optimization state", getattr(o, k) is want[k])
    kv.file(f).readonly = True
    r = v.call(v.get(OPT), loadFromFile=f, loadFromRepetition=rep, resultIndex=n)
    if not r.ok:
        v.fail("a stored repetition can be loaded", repr(r.exc))
        return
    v.cover("loaded")
    check_opt(v, r.value, want, rep)
    v.prove("C09.the settings keep their result index", of_index(r.value, n))


@vc("McCore.store, load", ["C08", "C09"], [CORE + ".store", CORE + ".load", MODEL + ".store", MODEL + ".load", OPT + ".store",
                                    OPT + ".load"], own="C08", budget=200)
def vc_core(v):
    """a repetition as a whole, next to another one stored after it"""
    n, rep = fresh_int("resultIndex", 0), fresh_int("repetition", 0)
    env(v, n)
    from mcsas3.mc_hdf import ResultIndex
    E().ghost["load_model"] = lambda nm, dtype=None: "opaque model"

    def func(self):
        self.func = object()
    for k in ("loadModel", "loadMcsasSphereModel", "loadSimModel"):
        v.patch(f"{MODEL}.{k}", func)

    def core_of(rep):
        c = object.__new__(v.get(CORE))
        c.resultIndex = ResultIndex(n)
        # the index of the settings object itself plays no part
        c._model, c._opt = model_state(v, n, any_kind=False), opt_state(v, fresh_int("settingsIndex", 0), rep)
        c._model.modelName = "mcsas_sphere"
        return c
    c = core_of(rep)
    want = {k: getattr(c._model, k) for k in KEPT}
    wanto = {k: getattr(c._opt, k) for k in STATE}
    t = c._model.parameterSet.copy()
    f = Path("/" + name("file"))
    v.cover("precondition")
    r = v.call(c.store, f)
    if not r.ok:
        v.fail("a repetition can be stored", repr(r.exc))
        return
    if E().choose(2):      # another repetition of the same fit, afterwards
        rep2 = fresh_int("otherRepetition", 0)
        v.assume(rep2 != rep)
        d = object.__new__(v.get(CORE))
        d.resultIndex, d._opt = ResultIndex(n), opt_state(v, fresh_int("settingsIndex2", 0), rep2)
        d._model = object.__new__(v.get(MODEL))
        d._model.__dict__.update(c._model.__dict__)
        d._model.parameterSet, d._model.volumes = any_table(), fresh_arr("volumes2", fresh_int("n2", 0))
        d._model.seed = fresh_int("seed2", 0)
        r = v.call(d.store, f)
        if not r.ok:
            v.fail("a further repetition can be stored", repr(r.exc))
            return
        v.cover("another repetition")
    kv.file(f).readonly = True
    o = object.__new__(v.get(CORE))
    o.resultIndex = ResultIndex(n)
    r = v.call(o.load, f, rep, resultIndex=n)
    if not r.ok:
        v.fail("a stored repetition can be loaded", repr(r.exc))
        return
    v.cover("loaded")
    want["modelName"] = "mcsas_sphere"
    check_model(v, o._model, want, t, "model: ")
    check_opt(v, o._opt, wanto, rep, "optimization: ")
    v.prove("C09.model and settings of a loaded repetition are of the result it was loaded from", And(
        of_index(o._model, n), of_index(o._opt, n)))


# ------------------------------------------------------------------ C06
SETTINGS = ("measDataLink", "nbins", "IEmin", "binning", "dataRange", "pathDict", "csvargs", "loader", "qNudge",
            "omitQRanges", "filename")
ARGS = ("number", "truth value", "text", "texts", "numbers", "none")


class Args:
    """csvargs: any number of arguments of any kind"""

    def __init__(self):
        fun = lambda h, *s: E().register_fun(E().fresh_fun(h, *s))
        self.kind = fun("argKind", core.I, core.I)
        self.r, self.b, self.t = fun("arg", core.I, core.R), fun("flag", core.I, core.B), fun("argText", core.I, h5.Txt)
        self.x, self.ts = fun("argNumbers", core.I, core.I, core.R), fun("argTexts", core.I, core.I, h5.Txt)
        self.len = fun("argLen", core.I, core.I)

    def which(self, i):
        for q in range(len(ARGS) - 1):
            if E().branch(self.kind(i) == q):
                return ARGS[q]
        return ARGS[-1]

    def __call__(self, i):
        w = self.which(i)
        if w == "number":
            return SymReal(self.r(i))
        if w == "truth value":
            return wrap(self.b(i))
        if w == "text":
            return h5.Text(self.t(i))
        if w == "none":
            return None
        n = self.len(i)
        E().assume(n >= 0)
        if w == "numbers":
            return XList.seq(n, lambda k: SymReal(self.x(i, k)))
        return h5.TextArr(n, lambda k: h5.Text(self.ts(i, k)), "<U7").tolist()


def dataset(v, n, dicts):
    choose = lambda k: 0 if dicts else E().choose(k)
    from mcsas3.mc_hdf import ResultIndex

    from .data1d_c import blank, table
    nr = fresh_int("rows", 0)
    raw = table(v, nr, ("QSigma",) if choose(2) else (), nan=True, inf=True, hint="raw")
    o = blank(v, rawData=raw)
    o.resultIndex = ResultIndex(n)
    o.filename = path_value() if choose(2) else None
    o.loader = ("from_pandas", "from_csv", "from_pdh", "from_nexus")[0] if o.filename is None else h5.fresh_text("loader")
    o.clippedData, o.binnedData = table(v, nr, hint="clipped", sel=True), table(v, fresh_int("nb", 0), hint="binned")
    o.measData = dict(Q=[fresh_arr("Q", nr)], I=fresh_arr("I", nr), ISigma=fresh_arr("S", nr))
    o.measDataLink = ("rawData", "clippedData", "binnedData")[choose(3)]
    o.nbins, o.IEmin = fresh_int("nbins", 0), fresh_real("IEmin")
    o.dataRange = (list, tuple)[choose(2)]((fresh_real("lo", inf=True), fresh_real("hi", inf=True)))
    o.qNudge = fresh_real("nudge")
    o.omitQRanges = (None, [], h5.ListOf(h5.OpArr.fresh("omit")))[choose(3)]
    na = fresh_int("nargs", 0)
    E().ghost["keys_n"] = na
    o.csvargs = (lambda: {}, lambda: {"sep": h5.fresh_text("sep"), "header": None, "names": ["Q", "I", "ISigma"]},
                 lambda: KeyMap.of(na, Args()))[E().choose(3) if dicts else 1]()
    np_ = fresh_int("npaths", 0)
    t = E().register_fun(E().fresh_fun("pathOf", core.I, h5.Txt))
    o.pathDict = (lambda: None, lambda: KeyMap.of(np_, lambda i: h5.Text(t(i))))[E().choose(2) if dicts else 0]()
    return o


DATA = [D1 + ".__init__", BASE + ".__init__", BASE + ".store", BASE + ".load", BASE + ".processKwargs"]


@vc("McData1D store and restore", ["C06", "C09"], DATA, own="C06", budget=200)
def vc_data(v):
    restored(v, False)


@vc("McData1D store and restore (csv arguments and paths)", ["C06", "C09"], DATA, own="C06", budget=200)
def vc_data_dicts(v):
    restored(v, True)


def restored(v, dicts):
    n = fresh_int("resultIndex", 0)
    env(v, n)
    E().ghost.pop("DataFrame", None)
    o = dataset(v, n, dicts)
    want = {k: getattr(o, k) for k in SETTINGS}
    wargs = o.csvargs.copy()
    raw, st = o.rawData, o.rawData._dv_state()
    f = Path("/" + name("file"))
    v.cover("precondition")
    r = v.call(o.store, f)
    if not r.ok:
        v.fail("a dataset can be stored", repr(r.exc))
        return
    for k in SETTINGS:
        v.prove("storing does not change the settings of the dataset", getattr(o, k) is want[k])
    v.prove("storing does not change the data", o.rawData is raw and raw._dv_state() == st)
    want["csvargs"] = wargs
    kv.file(f).readonly = True
    seen = []

    def prepare(self):
        seen.append(({k: getattr(self, k) for k in SETTINGS}, self.rawData))
    v.patch(f"{BASE}.prepare", prepare)
    v.patch(f"{BASE}.from_file", lambda self, *a, **k: v.fail("restoring does not read the original data again"))
    v.patch("pathlib:Path.is_file", lambda self: bool(E().choose(2)))
    v.patch("pathlib:Path.exists", lambda self: bool(E().choose(2)))
    r = v.call(v.get(D1), loadFromFile=f, resultIndex=n)
    if not r.ok:
        v.fail("a stored dataset can be restored", repr(r.exc))
        return
    p = r.value
    v.cover("restored")
    v.prove("the restored dataset is prepared for the fit", len(seen) >= 1)
    last = [(("", {k: getattr(p, k) for k in SETTINGS}, p.rawData))] + [
        ("when the fit data are made: ", a, b) for a, b in seen[-1:]]
    for what, got, t in last:
        for k in SETTINGS:
            ok = kv.is_dict(got[k]) and eq_dict(got[k], want[k], True) if k == "csvargs" else eq(got[k], want[k])
            v.prove(f"{what}{k} is the stored one", ok, f"{type(got[k]).__name__}")
        v.prove(f"{what}the raw data have the stored columns", type(t).__name__ == "Frame" and set(t.cols) == set(raw.cols))
        if type(t).__name__ == "Frame" and set(t.cols) == set(raw.cols):
            i = E().fresh_int("i")
            E().hint_idx.append(i)
            v.prove(f"{what}the raw data have as many rows as stored", And(t.sel is None, wrap(nz(t.n) == nz(raw.n))))
            v.prove(f"{what}the raw data are the stored ones", wrap(z3.Implies(z3.And(0 <= i, i < nz(raw.n)), boolz(And(*[
                same(t.cols[c][0](i), raw.cols[c][0](i)) for c in raw.cols])))))
    v.prove("the dataset keeps its result index", of_index(p, n))
    v.prove("C09.the dataset keeps its result index", of_index(p, n))
