"""C05: 2-D data (clip, linkMeasData, reconstruct2D, prepare)"""
import z3

from dv import core
from dv.contract import vc
from dv.core import E, Unsupported
from dv.stubs.img import Img, Pix, WhereIdx, fresh_img
from dv.values import (And, boolz, fresh_int, fresh_real, num_op, nz, real, same, wrap, zb, zr)

D2 = "mcsas3.mc_data_2d:McData2D"
BASE = "mcsas3.mc_data:McData"


def image(v, mask):
    """an arbitrary image; mask: None, 'b' or 'f'"""
    h, w = fresh_int("h", 1), fresh_int("w", 1)
    d = dict(I=fresh_img("I", h, w, nan=True, inf=True), ISigma=fresh_img("sig", h, w, nan=True, inf=True))
    if mask:
        d["mask"] = fresh_img("mask", h, w, kind=mask)
    d["Q"] = fresh_real("Q3D")      # not used by the processing
    d["Qx"], d["Qy"] = fresh_img("Qx", h, w), fresh_img("Qy", h, w)
    return h, w, d


def limits(v):
    return {k: [fresh_real(k + "lo", inf=True), fresh_real(k + "hi", inf=True)]
            for k in ("dataRange", "orthoQ1Range", "orthoQ0Range")}


def blank(v, **k):
    o = object.__new__(v.get(D2))
    for c in ("filename", "_outputFilename", "loader", "rawData", "rawData2D", "clippedData",
              "binnedData", "measData", "pathDict", "omitQRanges"):
        object.__setattr__(o, c, None)
    o.measDataLink, o.nbins, o.IEmin, o.binning = "binnedData", 100, 0.01, "logarithmic"
    o.csvargs, o.qNudge = {}, [0, 0]
    for a, b in k.items():
        setattr(o, a, b)
    return o


def valid(d, lim, i, j):
    """the pixel is to be fitted"""
    def inside(x, r):
        return z3.And(zb(num_op("lt", r[0], x)), zb(num_op("lt", x, r[1])))
    qx, qy, I, s = [d[k].fn(i, j) for k in ("Qx", "Qy", "I", "ISigma")]
    x, y = zr(qx), zr(qy)
    rad = core.SqrtF(x * x + y * y)
    m = z3.BoolVal(False)
    if "mask" in d:
        m = d["mask"].fn(i, j)
        m = zb(m) if d["mask"].kind == "b" else z3.Not(zb(num_op("eq", m, 0)))
    return z3.And(z3.Not(m), boolz(real(I).fin), z3.Not(zb(num_op("eq", s, 0))),
                  inside(abs(qx), lim["orthoQ1Range"]), inside(abs(qy), lim["orthoQ0Range"]),
                  inside(wrap(rad), lim["dataRange"]))


def origins(i, j):
    """the definitions of the predicates named by the image stub, at this pixel"""
    g = E().ghost
    for a, b in [(z3.IntVal(0), z3.IntVal(0))] + list(g.get("img_origins", ())):
        x, y = z3.simplify(i - a), z3.simplify(j - b)
        E().hint_idx.extend([x, y])
        for B in g.get("img_preds", ()):
            for ax in E().axioms.get(B.name(), ()):
                E().assume(ax(x, y))


def entries(v, name, p, val, d, lim, h, w):
    """p holds val (of pixel i, j) for exactly the pixels to be fitted"""
    if not isinstance(p, Pix):
        raise Unsupported(f"{name} is a {type(p).__name__}")
    i, j = E().fresh_int("i"), E().fresh_int("j")
    v.assume(z3.And(0 <= i, i < nz(h), 0 <= j, j < nz(w)))
    a, b = z3.simplify(i - p.oi), z3.simplify(j - p.oj)
    E().hint_idx.extend([i, j])
    inp = z3.And(0 <= a, a < nz(p.h), 0 <= b, b < nz(p.w), zb(p.mask(a, b)))
    ok = valid(d, lim, i, j)
    v.prove(f"{name}: every valid pixel is fitted", z3.Implies(ok, inp))
    v.prove(f"{name}: only valid pixels are fitted", z3.Implies(inp, ok))
    v.prove(f"{name}: the values are those of the pixels", z3.Implies(
        inp, boolz(same(p.fn(a, b), val(i, j)))))
    k, m = E().fresh_int("k"), E().fresh_int("m")
    v.prove(f"{name}: every entry belongs to a pixel of the image", z3.Implies(
        z3.And(0 <= k, k < nz(p.h), 0 <= m, m < nz(p.w), zb(p.mask(k, m))),
        z3.And(0 <= k + p.oi, k + p.oi < nz(h), 0 <= m + p.oj, m + p.oj < nz(w))))


@vc("data2d.clip", ["C05"], [D2 + ".clip", D2 + ".linkMeasData", D2 + ".reBin", D2 + ".omit",
                             BASE + ".prepare"], own="C05")
def vc_clip2(v):
    h, w, d = image(v, (None, "b", "f")[E().choose(3)])
    raw = {k: (x, x.fn) if isinstance(x, Img) else (x, None) for k, x in d.items()}
    lim = limits(v)
    nudge = [fresh_real("n0"), fresh_real("n1")]
    link = ("binnedData", "clippedData")[E().choose(2)]
    o = blank(v, rawData2D=d, nbins=(0, 100)[E().choose(2)], qNudge=nudge, measDataLink=link, **lim)
    v.cover("precondition")
    r = v.call(o.prepare)
    if not r.ok:
        i, j = E().fresh_int("i"), E().fresh_int("j")
        v.assume(z3.And(0 <= i, i < nz(h), 0 <= j, j < nz(w)))
        E().hint_idx.extend([i, j])
        origins(i, j)
        v.prove("only an image without a valid pixel is refused", z3.Not(valid(d, lim, i, j)), repr(r.exc))
        return
    v.cover("prepared")
    if E().choose(2):       # selected again: the same data
        r = v.call(o.linkMeasData)
        if not r.ok:
            v.fail("the data can be selected again", repr(r.exc))
            return
    v.prove("the image is not changed", z3.BoolVal(o.rawData2D is d and set(d) == set(raw) and all(
        d[k] is x and (f is None or x.fn is f) for k, (x, f) in raw.items())))
    m = o.measData
    ok = isinstance(m, dict) and all(c in m for c in ("Q", "I", "ISigma")) and isinstance(
        m["Q"], (list, tuple)) and len(m["Q"]) == 2
    v.prove("the fit gets two Q axes, I and sigma", z3.BoolVal(ok))
    if not ok:
        return
    which = E().choose(4)
    if which == 0:
        entries(v, "I", m["I"], d["I"].fn, d, lim, h, w)
    if which == 1:
        entries(v, "sigma", m["ISigma"], d["ISigma"].fn, d, lim, h, w)
    if which == 2:
        entries(v, "Q of axis 0", m["Q"][0], lambda i, j: num_op("add", d["Qy"].fn(i, j), nudge[0]),
                d, lim, h, w)
    if which == 3:
        entries(v, "Q of axis 1", m["Q"][1], lambda i, j: num_op("add", d["Qx"].fn(i, j), nudge[1]),
                d, lim, h, w)


@vc("data2d.reconstruct2D", ["C05"], [D2 + ".reconstruct2D", D2 + ".clip"], own="C05")
def vc_reconstruct(v):
    """one value per fitted datapoint, back to its pixel"""
    h, w, d = image(v, (None, "b")[E().choose(2)])
    lim = limits(v)
    o = blank(v, rawData2D=d, nbins=0, **lim)
    r = v.call(o.prepare)
    if not r.ok:
        return
    p = o.measData["I"]
    if not isinstance(p, Pix):
        raise Unsupported("the data are no pixel sequence")
    g = fresh_img("model", p.h, p.w, nan=True)
    v.cover("precondition")
    r = v.call(o.reconstruct2D, p._new(g.fn))
    if not r.ok:
        v.fail("values of the fitted datapoints are accepted", repr(r.exc))
        return
    v.cover("reconstructed")
    R, I2 = r.value, o.clippedData.get("I2D")
    if not isinstance(R, Img):
        raise Unsupported(f"the result is a {type(R).__name__}")
    if not isinstance(I2, Img):
        raise Unsupported("no cropped image")
    i, j = E().fresh_int("i"), E().fresh_int("j")
    E().hint_idx.extend([i, j])
    v.prove("the result has the shape of the cropped image", z3.And(nz(R.h) == nz(I2.h), nz(R.w) == nz(I2.w)))
    inside = z3.And(0 <= i, i < nz(R.h), 0 <= j, j < nz(R.w))
    # the pixel of the image at (i, j) of the cropped image
    a, b = z3.simplify(i + I2.oi), z3.simplify(j + I2.oj)
    v.prove("the cropped image is a part of the image", z3.Implies(inside, z3.And(
        0 <= a, a < nz(h), 0 <= b, b < nz(w), boolz(same(I2.fn(i, j), d["I"].fn(a, b))))))
    ok = valid(d, lim, a, b)
    c, e = z3.simplify(a - p.oi), z3.simplify(b - p.oj)      # the entry of that pixel
    v.prove("each value is put at its pixel", z3.Implies(z3.And(inside, ok), boolz(
        same(R.fn(i, j), g.fn(c, e)))))
    v.prove("all other pixels are NaN", z3.Implies(z3.And(inside, z3.Not(ok)), boolz(real(R.fn(i, j)).nan)))
