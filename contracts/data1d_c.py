"""C01-C04: 1-D data (clip, omit, reBin, linkMeasData, prepare)"""
import z3

from dv import core
from dv.contract import vc
from dv.core import E, Unsupported, lam
from dv.stubs.frame import Frame, Series
from dv.values import (And, Fn, Ite, Not, Or, SymArr, SymReal, XList, boolz, fresh_arr, fresh_int,
                       fresh_real, num_op, nz, real, same, wrap, zb, zi, zr)

D1 = "mcsas3.mc_data_1d:McData1D"
BASE = "mcsas3.mc_data:McData"
Q, I_, S = "Q", "I", "ISigma"


def cnt(n, f):
    return core.CntF(nz(n), lam(f))


def table(v, n, extra=(), nan=False, inf=False, pos=False, sel=False, hint="", ranged=False):
    cols = {}
    for c in (Q, I_, S) + tuple(extra):
        a = fresh_arr(hint + c, n, nan=nan, inf=inf, pos=pos and c == Q)
        cols[c] = (a.fn, "f")
    s = None
    if sel:
        s = fresh_arr(hint + "left", n, kind="b").fn
    return Frame(n, cols, s, ranged)


def blank(v, **k):
    """a dataset object with arbitrary settings"""
    o = object.__new__(v.get(D1))
    for c in ("filename", "_outputFilename", "loader", "rawData", "rawData2D", "clippedData",
              "binnedData", "measData", "pathDict", "omitQRanges"):
        object.__setattr__(o, c, None)
    o.measDataLink, o.nbins, o.IEmin, o.binning = "binnedData", 100, 0.01, "logarithmic"
    o.csvargs, o.qNudge = {}, 0
    o.dataRange = [float("-inf"), float("inf")]
    for a, b in k.items():
        setattr(o, a, b)
    return o


def isnan(x):
    return boolz(real(x).nan)


def lt(a, b):
    return zb(num_op("lt", a, b))


def le(a, b):
    return zb(num_op("le", a, b))


def keeps_columns(v, pre, new, old, i):
    """same columns with the same values in base row i"""
    v.prove(f"{pre} the columns are those of the data", z3.BoolVal(list(new.cols) == list(old.cols)))
    if list(new.cols) == list(old.cols):
        v.prove(f"{pre} all column values are unchanged", And(*[
            boolz(same(new.cols[c][0](i), old.cols[c][0](i))) for c in old.cols]))


def is_frame(v, name, x, n):
    if type(x) is not Frame or not (nz(x.n).eq(nz(n)) or E().valid(nz(x.n) == nz(n))):
        raise Unsupported(f"{name} is not made of rows of the table")


@vc("data1d.clip", ["C01"], [D1 + ".clip"], own="C01", helper="clip")
def vc_clip(v):
    n = fresh_int("n", 0)
    extra = ("QSigma",) if E().choose(2) else ()
    raw = table(v, n, extra, nan=True, inf=True)
    st = raw._dv_state()
    lo, hi = fresh_real("lo", inf=True), fresh_real("hi", inf=True)
    o = blank(v, rawData=raw, dataRange=[lo, hi])
    keep = lambda i: z3.And(le(lo, raw.cols[Q][0](i)), lt(raw.cols[Q][0](i), hi),
                            *[z3.Not(isnan(f(i))) for f, _ in raw.cols.values()])
    i = E().fresh_int("i")
    E().hint_idx.append(i)
    v.cover("precondition")
    r = v.call(o.clip)
    if not r.ok:
        v.cover("refused")
        v.prove("loading fails with an assertion", z3.BoolVal(isinstance(r.exc, (AssertionError, ValueError))))
        v.prove("only data without a datapoint in range are refused", cnt(n, keep) == 0)
        return
    v.cover("clipped")
    c = o.clippedData
    is_frame(v, "clippedData", c, n)
    v.prove("kept are exactly the datapoints in range without missing value", z3.Implies(
        z3.And(0 <= i, i < nz(n)), zb(c._selz(i)) == keep(i)))
    keeps_columns(v, "", c, Frame(n, dict(zip(st[1], zip(st[2], st[3])))), i)
    v.prove("no datapoint left is an error", cnt(n, keep) > 0)
    v.prove("the raw data stay as loaded", z3.BoolVal(o.rawData is raw and raw._dv_state() == st))


def ranges(m, malformed=False):
    """list of m omitted ranges of arbitrary limits"""
    a, b = fresh_arr("a", m, inf=True), fresh_arr("b", m, inf=True)
    k = fresh_arr("len", m, kind="i")
    E().add_axiom(k.base, lambda i: k.base(i) >= 0)

    def item(t):
        if malformed:
            return XList.seq(k.base(t), lambda q: SymReal(core.E().ghost["elem"](t, q)))
        return [a.at(t), b.at(t)]
    E().ghost["elem"] = E().fresh_fun("elem", core.I, core.I, core.R)
    return XList.seq(m.i, item), a, b, k


@vc("data1d.omit", ["C02"], [D1 + ".omit"], own="C02", helper="omit")
def vc_omit(v):
    n, m = fresh_int("n", 0), fresh_int("m", 0)
    extra = ("QSigma",) if E().choose(2) else ()
    fr = table(v, n, extra, sel=True)
    old = Frame(n, fr.cols, fr.sel)
    xl, a, b, k = ranges(m)
    none = E().choose(2) == 1
    o = blank(v, clippedData=fr, omitQRanges=None if none else xl)
    i, t = E().fresh_int("i"), E().fresh_int("t")
    E().hint_idx.append(i)
    v.cover("precondition")
    r = v.call(o.omit)
    if not r.ok:
        v.fail("well-formed ranges are not refused", repr(r.exc))
        return
    c = o.clippedData
    is_frame(v, "clippedData", c, n)
    inr = z3.And(0 <= i, i < nz(n))
    keeps_columns(v, "", c, old, i)
    if none:
        v.prove("without omitted ranges nothing is removed", z3.Implies(
            inr, zb(c._selz(i)) == zb(old.sel(i))))
        return
    v.cover("omitted")
    q = fr.cols[Q][0](i)
    hit = core.AnyF(nz(m), lam(lambda t: z3.And(le(a.at(t), q), lt(q, b.at(t)))))
    v.prove("removed are exactly the datapoints within one of the ranges", z3.Implies(
        inr, zb(c._selz(i)) == z3.And(zb(old.sel(i)), z3.Not(hit))))


@vc("data1d.omit (malformed)", ["C02"], [D1 + ".omit"], own="C02")
def vc_omit_bad(v):
    n, m = fresh_int("n", 0), fresh_int("m", 0)
    xl, a, b, k = ranges(m, malformed=True)
    o = blank(v, clippedData=table(v, n, sel=True), omitQRanges=xl)
    t = E().fresh_int("t")
    E().hint_idx.append(t)
    v.cover("precondition")
    r = v.call(o.omit)
    if r.ok:
        v.cover("accepted")
        v.prove("a range of not two elements is refused", z3.Implies(
            z3.And(0 <= t, t < nz(m)), k.base(t) == 2))
    else:
        v.cover("refused")
        v.prove("refused with an assertion", z3.BoolVal(isinstance(r.exc, (AssertionError, ValueError, TypeError))))
        E().add_forall(z3.IntVal(0), nz(m), lambda t: k.base(t) == 2)
        v.fail("only malformed ranges are refused", repr(r.exc))


@vc("data1d.omit (not a list)", ["C02"], [D1 + ".omit"], own="C02")
def vc_omit_nolist(v):
    n = fresh_int("n", 0)
    a, b = fresh_real("a"), fresh_real("b")
    bad = [((a, b),), {"a": [a, b]}, SymArr.of([a, b]), a, "1, 2", fresh_int("x"), True]
    o = blank(v, clippedData=table(v, n, sel=True), omitQRanges=bad[E().choose(len(bad))])
    v.cover("precondition")
    r = v.call(o.omit)
    v.prove("omitted ranges not given as a list are refused", z3.BoolVal(not r.ok))


# ------------------------------------------------------------------ reBin
def spec_edges(qmin, qmax, nb):
    """interior limit j of the logarithmic bins"""
    from dv.stubs.np_stub import geomspace
    g = geomspace(SymReal(qmin), SymReal(qmax), num=wrap(nb + 1))
    return lambda j: zr(g.at(j))


@vc("data1d.reBin", ["C03"], [D1 + ".reBin"], own="C03")
def vc_rebin0(v):
    rebin(v, 0)


@vc("data1d.reBin (IEmin given)", ["C03"], [D1 + ".reBin"], own="C03")
def vc_rebin1(v):
    rebin(v, 1)


@vc("data1d.reBin (nbins given)", ["C03"], [D1 + ".reBin"], own="C03")
def vc_rebin2(v):
    rebin(v, 2)


def rebin(v, given):
    n = fresh_int("n", 1)
    extra = ("QSigma",) if given == 2 else ()
    fr = table(v, n, extra, sel=True, pos=True)
    st = fr._dv_state()
    nb = fresh_int("nbins", 1)
    iemin = fresh_real("IEmin")
    L = lam(lambda i: zb(fr.sel(i)))
    v.assume(core.CntF(nz(n), L) > 0)
    o = blank(v, clippedData=fr, nbins=nb if given < 2 else 7, IEmin=iemin if given != 1 else 0.5)
    kw = [{}, dict(IEmin=iemin), dict(nbins=nb)][given]
    qf = lambda i: zr(fr.cols[Q][0](i))
    qmin = core.MinF(nz(n), L, lam(qf))
    qmax = core.MaxF(nz(n), L, lam(qf))
    edge = E().register_fun(E().fresh_fun("edge", core.I, core.R))
    used = []

    def ghost_geomspace(a, b, num):
        """the limits geomspace(qmin, qmax, nbins + 1), as numbers edge(j): see data1d.bins"""
        if not (E().valid(z3.And(zr(a) == qmin, zr(b) == qmax)) and E().valid(zi(num) == nb.i + 1)):
            return None
        used.append(1)
        return SymArr(nb.i + 1, lambda j: SymReal(edge(j)))
    E().ghost["geomspace"] = ghost_geomspace

    def limits():
        return edge if used else spec_edges(qmin, qmax, nb.i)

    def inbin(i, b):
        e = limits()
        return z3.And(zb(fr.sel(i)), z3.Or(b == 0, e(b) <= qf(i)),
                      z3.Or(b == nb.i - 1, qf(i) < e(b + 1)))
    B = E().fresh_fun("bin", core.I, core.I, core.B)   # B(i, b) is inbin(i, b), for the rows 0 <= i < n

    def rows(frame, sel):
        """the rows selected in iteration k are those of the bin k: name them B(., k)"""
        ks = E().loop_ks
        if not ks or frame is not fr:
            return None
        k, i = ks[-1], E().fresh_int("row")
        lim(k)
        # limits are in increasing order (data1d.bins): the last is not below the first
        if E().valid(z3.Implies(z3.And(0 <= i, i < nz(n)), zb(sel(i)) == inbin(i, k))):
            return Fn(lambda i: wrap(B(i, k)))
        return None

    def lim(b):
        if used:
            E().assume(z3.And(edge(z3.IntVal(0)) == qmin, edge(nb.i) == qmax))
    E().ghost["row_mask"] = rows
    v.cover("precondition")
    r = v.call(o.reBin, **kw)
    E().ghost["geomspace"] = E().ghost["row_mask"] = None
    if not r.ok:
        v.fail("rebinning does not fail", repr(r.exc))
        return
    out = o.binnedData
    if type(out) is not Frame:
        raise Unsupported("binnedData is not a table")
    b = E().fresh_int("b")
    E().assume(z3.And(0 <= b, b < nb.i))
    E().hint_idx.extend([b])
    named = core.has_mark(zb(out._selz(b)), B.name())
    mask = (lambda i: B(i, b)) if named else (lambda i: inbin(i, b))
    if not named:
        lim(b)
    sub = lambda c: SymArr(n, fr.cols[c][0], "f", Fn(lambda i: wrap(mask(i))))
    is_frame(v, "binnedData", out, nb)
    m = core.CntF(nz(n), lam(mask))
    some = lambda: zb(out._selz(b))
    case = E().choose(3)
    at = lambda c: real(out.cols[c][0](b))
    if case == 0:
        v.assume(m <= 0)
        v.cover("empty bin")
        v.prove("an empty bin gives no datapoint", z3.Not(some()))
        v.prove("the clipped data are not changed", z3.BoolVal(
            o.clippedData is fr and fr._dv_state() == st))
        v.prove("no other datapoints than the bins", nz(out.n) == nb.i)
        v.prove("all columns of measurement data", z3.BoolVal(all(c in out.cols for c in (Q, I_, S))))
        return
    if not all(c in out.cols for c in (Q, I_, S)):
        return
    mx = lambda *xs: _max(xs)
    if case == 1:
        v.assume(m == 1)
        v.cover("single datapoint")
        f = core.FirstF(nz(n), lam(mask))
        q1, i1, s1 = [zr(fr.cols[c][0](f)) for c in (Q, I_, S)]
        v.prove("a bin with one datapoint gives a datapoint", some())
        v.prove("a single datapoint keeps its Q and I", And(
            at(Q).fin, at(I_).fin, at(Q).r == q1, at(I_).r == i1))
        v.prove("uncertainty of a single datapoint", And(
            at(S).fin, at(S).r == mx(s1, i1 * iemin.r)))
        return
    v.assume(m >= 2)
    v.cover("several datapoints")
    v.prove("a bin with several datapoints gives a datapoint", some())
    mI = zr(sub(I_).mean())
    v.prove("Q is the plain mean", And(at(Q).fin, at(Q).r == zr(sub(Q).mean())))
    v.prove("I is the plain mean", And(at(I_).fin, at(I_).r == mI))
    sem = Series(sub(I_)).sem(ddof=1)
    prop = num_op("div", core_sqrt((Series(sub(S)) ** 2).sum()), wrap(m))
    v.prove("uncertainty is the largest of the three", And(
        at(S).fin, at(S).r == mx(zr(sem), zr(prop), mI * iemin.r)))


def core_sqrt(x):
    from dv.values import f_sqrt
    return f_sqrt(x)


def _max(xs):
    r = xs[0]
    for x in xs[1:]:
        r = z3.If(x > r, x, r)
    return r


@vc("data1d.bins", ["C03"], [D1 + ".reBin"], own="C03")
def vc_bins(v):
    """lemma: every datapoint is in exactly one of the bins"""
    nb = fresh_int("nbins", 1)
    qmin, qmax, q = fresh_real("qmin", pos=True), fresh_real("qmax"), fresh_real("q")
    v.assume(z3.And(qmin.r <= q.r, q.r <= qmax.r))
    e = spec_edges(qmin.r, qmax.r, nb.i)
    inb = lambda b: z3.And(0 <= b, b < nb.i, z3.Or(b == 0, e(b) <= q.r),
                           z3.Or(b == nb.i - 1, q.r < e(b + 1)))
    F = core.FirstF(nb.i, lam(lambda b: z3.Or(b == nb.i - 1, q.r < e(b + 1))))
    E().hint_idx.extend([nb.i - 1, F, F - 1])
    v.cover("bins")
    v.prove("there is a bin for every datapoint", inb(F))
    b1, b2 = E().fresh_int("b1"), E().fresh_int("b2")
    v.assume(z3.And(b1 < b2, inb(b1), inb(b2)))
    # the position of the limits grows with the bin number
    d = 1 / z3.ToReal(nb.i)
    l1, l2 = core.Log10F(qmin.r), core.Log10F(qmax.r)
    v.prove("no datapoint is in two bins", z3.BoolVal(False))


# ------------------------------------------------------------------ C04
STAGES = ("rawData", "clippedData", "binnedData")


def fit_data(v, pre, o, fr, nudge):
    """measData are the columns of the table, Q shifted"""
    m = o.measData
    ok = isinstance(m, dict) and all(c in m for c in (Q, I_, S)) and isinstance(m[Q], (list, tuple)) \
        and len(m[Q]) == 1
    v.prove(f"{pre}the fit gets one Q axis, I and sigma", z3.BoolVal(ok))
    if not ok:
        return
    i = E().fresh_int("i")
    E().hint_idx.append(i)
    got = [m[Q][0], m[I_], m[S]]
    for a in got:
        if not isinstance(a, SymArr):
            raise Unsupported(f"measurement data is a {type(a).__name__}")
    for a in got:
        v.prove(f"{pre}the datapoints are those of the selected stage", And(
            nz(a.n) == nz(fr.n), z3.Implies(z3.And(0 <= i, i < nz(fr.n)),
                                            zb(a.selz(i)) == zb(fr._selz(i)))))
    want = [num_op("add", fr.cols[Q][0](i), nudge), fr.cols[I_][0](i), fr.cols[S][0](i)]
    here = z3.And(0 <= i, i < nz(fr.n), zb(fr._selz(i)))
    for c, a, w in zip(("Q is shifted by the offset", "I is unchanged", "sigma is unchanged"), got, want):
        v.prove(f"{pre}{c}", z3.Implies(here, boolz(same(a.at(i), w))))


@vc("data1d.linkMeasData", ["C04"], [D1 + ".linkMeasData"], own="C04")
def vc_link(v):
    fr = {s: table(v, fresh_int("n", 0), ("QSigma",) if s == "binnedData" else (), nan=s == "rawData",
                   sel=True, hint=s) for s in STAGES}
    nudge = fresh_real("qNudge")
    given = E().choose(2) == 1
    st = STAGES[E().choose(3)]
    o = blank(v, qNudge=nudge, measDataLink=st if not given else STAGES[E().choose(3)], **fr)
    before = {s: f._dv_state() for s, f in fr.items()}
    v.cover("precondition")
    r = v.call(o.linkMeasData, st) if given else v.call(o.linkMeasData)
    if not r.ok:
        v.fail("a known stage is accepted", repr(r.exc))
        return
    v.cover("linked")
    fit_data(v, "", o, fr[st], nudge)
    v.prove("the data of the stages are not changed", z3.BoolVal(all(
        getattr(o, s) is fr[s] and fr[s]._dv_state() == before[s] for s in STAGES)))


@vc("data1d.linkMeasData (unknown)", ["C04"], [D1 + ".linkMeasData", D1 + ".__init__"], own="C04")
def vc_link_bad(v):
    fr = {s: table(v, fresh_int("n", 0), hint=s) for s in STAGES}
    o = blank(v, **fr)
    bad = ("rawdata", "", "measData", "binneddata", "csvargs", "rawData2D", "anything else")
    b = bad[E().choose(len(bad))]
    v.cover("precondition")
    if E().choose(2):
        r = v.call(o.linkMeasData, b)
    else:
        r = v.call(v.get(D1), df=fr["rawData"], measDataLink=b)
    v.prove("an unknown stage is refused", z3.BoolVal(not r.ok))


@vc("data1d.prepare", ["C04", "C01", "C02"], [BASE + ".prepare", D1 + ".clip", D1 + ".omit",
                                             D1 + ".linkMeasData", D1 + ".__init__",
                                             D1 + ".from_pandas"], budget=300)
def vc_prepare(v):
    """the whole processing of a table, for arbitrary settings; reBin by its contract"""
    n, m = fresh_int("n", 0), fresh_int("m", 0)
    raw = table(v, n, nan=True)
    st = raw._dv_state()
    lo, hi, nudge = fresh_real("lo"), fresh_real("hi"), fresh_real("qNudge")
    omit = E().choose(2) == 1
    xl, a, b, k = ranges(m) if omit else (None,) * 4
    stage = STAGES[E().choose(3)]
    nb = 0 if E().choose(2) else fresh_int("nbins", 1)
    log = []

    def rebin(self, nbins=None, IEmin=None, QEMin=0.01):
        log.append(self.clippedData)
        self.binnedData = table(v, wrap(zi(nb)), sel=True, hint="binned")
        log.append(self.binnedData)
    v.patch(D1 + ".reBin", rebin)
    kw = dict(dataRange=[lo, hi], qNudge=nudge, measDataLink=stage, nbins=nb)
    if omit:
        kw["omitQRanges"] = xl
    v.cover("precondition")
    r = v.call(v.get(D1), df=raw, **kw)
    q = raw.cols[Q][0]
    keep = lambda i: z3.And(le(lo, q(i)), lt(q(i), hi), *[z3.Not(isnan(f(i))) for f, _ in raw.cols.values()])
    if not r.ok:
        v.prove("C01.only data without a datapoint in range are refused", cnt(n, keep) == 0)
        return
    v.cover("loaded")
    o = r.value
    i = E().fresh_int("i")
    E().hint_idx.append(i)
    c = o.clippedData
    is_frame(v, "clippedData", c, n)
    inr = z3.And(0 <= i, i < nz(n))
    hit = core.AnyF(nz(m), lam(lambda t: z3.And(le(a.at(t), q(i)), lt(q(i), b.at(t))))) if omit \
        else z3.BoolVal(False)
    v.prove("C01,C02,C04.the prepared data are clipped, then omitted", z3.Implies(
        inr, zb(c._selz(i)) == z3.And(keep(i), z3.Not(hit))))
    keeps_columns(v, "C01,C02,C04.prepared data:", c, Frame(n, dict(zip(st[1], zip(st[2], st[3])))), i)
    v.prove("C01,C04.the raw data stay as loaded", z3.BoolVal(o.rawData is raw and raw._dv_state() == st))
    if type(nb) is int:
        v.prove("C04.no rebinning with zero bins", z3.BoolVal(not log))
        d = o.binnedData
        is_frame(v, "binnedData", d, n)
        v.prove("C04.with zero bins the binned data are the clipped and omitted data", z3.Implies(
            inr, zb(d._selz(i)) == zb(c._selz(i))))
        keeps_columns(v, "C04.zero bins:", d, c, i)
    else:
        v.prove("C04.rebinned once, after clipping and omitting", z3.BoolVal(
            len(log) == 2 and log[0] is c and log[1] is o.binnedData))
    fit_data(v, "C04.", o, getattr(o, stage), nudge)
