"""numpy as a specification: each function is its mathematical meaning on symbolic arrays.
Trusted (assumed contracts on a dependency); cross-checked against real numpy by tools/stubcheck."""
from __future__ import annotations

import math
import types

import z3

from .. import core, values as V
from ..core import E, Unsupported, lam, raise_modelled
from ..loops import symiter
from ..values import (And, DType, Fn, Or, Sym, SymArr, SymBool, SymInt, SymReal, XList, a_all, a_any,
                      a_max, a_mean, a_median, a_min, a_sum, arr_div, boolz, is_int_like, is_num,
                      isconc, ite, lift, lift1, mkarr, num_op, nz, real, wrap, zb, zi, zr)


class StubModule(types.ModuleType):
    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"{self.__name__}.{nm} has no specification")


np = StubModule("numpy")


class _ArrMeta(type):
    def __instancecheck__(cls, x):
        return type(x) is SymArr or getattr(type(x), "_dv_ndarray", False)


class NdArrayShim(metaclass=_ArrMeta):
    _dv_kind = "O"


NdArrayShim.__name__ = NdArrayShim.__qualname__ = "ndarray"
V.NdarrayShim = NdArrayShim


def scalar_type(name, native, test, conv):
    class M(type):
        def __instancecheck__(cls, x):
            return test(x)

    def new(cls, x=0):
        return conv(x)
    return M(name, (), {"__new__": new, "_dv_kind": name})


np.ndarray = NdArrayShim
# python and numpy scalars are one kind of value here: a symbolic integer may be either
np.integer = scalar_type("integer", int, lambda x: type(x) is SymInt, lambda x: V.to_int(x))
np.int64 = scalar_type("int64", int, lambda x: type(x) is SymInt, lambda x: V.to_int(x))
np.int32 = scalar_type("int32", int, lambda x: False, lambda x: V.to_int(x))
np.floating = scalar_type("floating", float, lambda x: type(x) is SymReal, real)
np.number = scalar_type("number", float, lambda x: type(x) in (SymReal, SymInt), real)
np.float64 = scalar_type("float64", float, lambda x: type(x) is SymReal, real)
np.float32 = scalar_type("float32", float, lambda x: False, lambda x: _uns("float32"))
np.bool_ = scalar_type("bool_", bool, lambda x: type(x) is SymBool, lambda x: wrap(zb(x)))
np.generic = scalar_type("generic", float, lambda x: isinstance(x, Sym), real)
np.inf, np.nan = float("inf"), float("nan")
np.newaxis = None
np.dtype = lambda x: DType(V.kind_of(x))


def _uns(m):
    raise Unsupported(m)


class PiReal:
    pass


def _getpi():
    return SymReal(core.PI)


np.pi = SymReal(core.PI)
np.e = SymReal(core.ExpF(z3.RealVal(1)))


def red(f):
    def g(x, axis=None, **k):
        if hasattr(x, "_dv_reduce2") and not k:
            return x._dv_reduce2(f.__name__[2:], axis)
        if hasattr(x, "_dv_stack"):
            return getattr(x, f.__name__[2:])(axis=axis, **k)
        V._axis(axis, k)
        if is_num(x):
            return x if f not in (a_any, a_all) else wrap(zb(x))
        if V.nested(x):
            x = ArrList(x)
        if hasattr(x, "_dv_reduce"):
            return x._dv_reduce(f.__name__[2:])
        return f(arr(x))
    return g


def arr(x):
    if type(x) is SymArr:
        return x
    if hasattr(x, "_dv_toarr"):
        return x._dv_toarr()
    if isinstance(x, (list, tuple, range)) or type(x) is XList:
        return mkarr(x)
    if is_num(x):
        return SymArr.of([x])
    s = symiter(x)
    if s is not None:
        return mkarr(XList.seq(s._dv_n(), s._dv_item))
    raise Unsupported(f"np.array of {type(x).__name__}")


def _array(x, dtype=None, copy=None, ndmin=0, **k):
    if k:
        raise Unsupported(f"np.array({sorted(k)})")
    if hasattr(x, "_dv_nparray"):
        return x._dv_nparray(dtype)
    if is_num(x):
        return x
    if isinstance(x, (str, bytes)) or x is None:
        raise Unsupported("np.array of a string or None")
    if (type(x) is XList and x.sym) or (E() and E().ghost.get("texts") and isinstance(x, (list, tuple))):
        from .h5_stub import text_list
        t = text_list(x)
        if t is not None:
            return t if dtype is None else t.astype(dtype)
    if E() and E().ghost.get("stack") and type(x) is XList and x.sym:
        t = E().ghost["stack"](x)
        if t is not None and dtype in (None, float):
            return t
    if isinstance(x, (list, tuple)) and type(x) is not XList and len(x) and any(
            isinstance(v, (list, tuple, SymArr)) for v in x):
        return ArrList(x)
    r = arr(x)
    if r is x or type(x) is SymArr:
        r = r.copy()
    if dtype is not None:
        r = r.astype(dtype)
    return r


class ArrList:
    """2-D array given as a list of equally long rows"""
    _dv_ndarray = True
    ndim = 2

    def __init__(self, rows):
        self.rows = [arr(r) for r in rows]

    def _dv_map(self, f):
        return ArrList([f(r) for r in self.rows])

    @property
    def shape(self):
        return (len(self.rows), self.rows[0].length)

    @property
    def size(self):
        return self.rows[0].length * len(self.rows)

    def __len__(self):
        return len(self.rows)

    def __iter__(self):
        return iter(self.rows)

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], int):
            return self.rows[i[0]][i[1]]
        if isinstance(i, int) and not isinstance(i, Sym):
            return self.rows[i]
        raise Unsupported("index of a 2-D array")

    def _dv_reduce(self, nm):
        f = {"max": a_max, "min": a_min, "sum": a_sum, "any": a_any, "all": a_all}.get(nm)
        if f is None:
            raise Unsupported(f"{nm} of a 2-D array")
        vals = [f(r) for r in self.rows]
        r = vals[0]
        for v in vals[1:]:
            r = {"max": lambda: ite(r < v, v, r), "min": lambda: ite(v < r, v, r),
                 "sum": lambda: r + v, "any": lambda: r | v, "all": lambda: r & v}[nm]()
        return r

    def min(self):
        return self._dv_reduce("min")

    def max(self):
        return self._dv_reduce("max")

    def any(self):
        return self._dv_reduce("any")

    def all(self):
        return self._dv_reduce("all")

    def flatten(self):
        return concatenate(self.rows)

    ravel = flatten

    def _dv_lift(self, f, args):
        return ArrList([lift(f, *[a.rows[k] if type(a) is ArrList else a for a in args])
                        for k in range(len(self.rows))])

    def _op(self, op, o, rev=False):
        if type(o) is ArrList and len(o.rows) != len(self.rows):
            raise_modelled(ValueError("operands could not be broadcast together"))
        if not (type(o) is ArrList or is_num(o)):
            raise Unsupported("operation on a 2-D array")
        g = (lambda a, b: num_op(op, b, a)) if rev else (lambda a, b: num_op(op, a, b))
        return self._dv_lift(g, [self, o])

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"2-D array .{nm}")


for _nm, _o, _r in (("add", "add", 0), ("radd", "add", 1), ("sub", "sub", 0), ("rsub", "sub", 1),
                    ("mul", "mul", 0), ("rmul", "mul", 1), ("lt", "lt", 0), ("le", "le", 0),
                    ("gt", "lt", 1), ("ge", "le", 1)):
    setattr(ArrList, f"__{_nm}__", lambda self, o, _o=_o, _r=_r: self._op(_o, o, bool(_r)))
V.ArrListCls = ArrList
np.array = _array
np.asarray = lambda x, dtype=None: x if type(x) is SymArr and dtype is None else _array(x, dtype)
np.atleast_1d = lambda x: arr(x)
np.copy = lambda x: arr(x).copy()


def shape_n(s):
    if isinstance(s, (tuple, list)):
        if len(s) != 1:
            raise Unsupported("2-D allocation")
        s = s[0]
    n = zi(s)
    if not z3.is_int_value(z3.simplify(n)) and not E().valid(n >= 0):
        if not E().branch(n >= 0):
            raise_modelled(ValueError("negative dimensions are not allowed"))
    return n


def full(shape, val, dtype=None, **k):
    if isinstance(shape, (tuple, list)) and len(shape) == 0:
        return real(val)
    if isinstance(shape, (tuple, list)) and len(shape) == 2:
        from .img import img_full
        return img_full(shape, val, dtype)
    n = shape_n(shape)
    kd = V.kind_of(dtype) if dtype is not None else (
        "b" if isinstance(val, bool) or type(val) is SymBool else
        "i" if is_int_like(val) else "f")
    if kd == "f":
        val = real(val)
    elif kd == "b":
        val = wrap(zb(val))
    elif kd == "i":
        val = V.to_int(val)
    return SymArr(n, lambda i: val, kd)


np.full = full
np.zeros = lambda shape, dtype="float", **k: full(shape, 0, dtype)
np.ones = lambda shape, dtype="float", **k: full(shape, 1, dtype)
np.empty = lambda shape, dtype="float", **k: _empty(shape, dtype)


def _empty(shape, dtype):
    n = shape_n(shape)
    return V.fresh_arr("empty", n, kind=V.kind_of(dtype))


def _like(x):
    if type(x) is SymArr:
        return x
    return arr(x)


def full_like(x, v, dtype=None):
    if hasattr(x, "_dv_like"):
        return x._dv_like(v, dtype)
    a = _like(x)
    kd = V.kind_of(dtype) if dtype is not None else a.kind
    v = real(v) if kd == "f" else wrap(zb(v)) if kd == "b" else V.to_int(v)
    return SymArr(a.n, lambda i: v, kd, a.sel)


np.full_like = full_like
np.zeros_like = lambda x, dtype=None: full_like(x, 0, dtype)
np.ones_like = lambda x, dtype=None: full_like(x, 1, dtype)

np.isnan = lift1(V.f_isnan)
np.isinf = lift1(V.f_isinf)
np.isfinite = lift1(V.f_isfinite)
np.sqrt = lift1(V.f_sqrt)
np.sin = lift1(V.f_sin)
np.cos = lift1(V.f_cos)
np.exp = lift1(V.f_exp)
np.log = lift1(lambda x: V.SymReal(core.LnF(zr(x))))
np.log10 = lift1(V.f_log10)
np.floor = lift1(V.f_floor)
np.ceil = lift1(V.f_ceil)
np.abs = np.absolute = np.fabs = lift1(lambda x: abs(x))
np.square = lift1(lambda x: x * x)
np.negative = lift1(lambda x: -x)
np.sign = lift1(lambda x: ite(x < 0, -1.0, ite(x > 0, 1.0, 0.0)))


def issubdtype(t, of):
    k = V.kind_of(getattr(t, "dtype", t))
    nm = getattr(of, "__name__", str(of))
    ks = {"floating": "f", "float": "f", "float64": "f", "integer": "i", "int": "i", "number": "fi", "bool": "b",
          "bool_": "b", "inexact": "f", "object": "O", "object_": "O"}.get(nm)
    if ks is None:
        raise Unsupported(f"issubdtype of {nm}")
    return k in ks


np.issubdtype = issubdtype
np.sum = red(a_sum)
np.mean = red(a_mean)
np.median = red(a_median)
np.min = np.amin = red(a_min)
np.max = np.amax = red(a_max)
np.any = red(a_any)
np.all = red(a_all)
np.argmin = lambda x: arr(x).argmin()
np.argmax = lambda x: arr(x).argmax()
np.std = lambda x, axis=None, ddof=0: (x if hasattr(x, "_dv_stack") else arr(x)).std(axis=axis, ddof=ddof)
np.var = lambda x, axis=None, ddof=0: arr(x).var(axis=axis, ddof=ddof)
np.average = lambda x, axis=None, weights=None: (
    a_mean(arr(x)) if weights is None else
    num_op("div", a_sum(arr(x) * arr(weights)), a_sum(arr(weights))))
np.size = lambda x: 1 if is_num(x) else arr(x).length
np.shape = lambda x: () if is_num(x) else x.shape if hasattr(x, "_dv_reduce2") else arr(x).shape
np.ndim = lambda x: 0 if is_num(x) else x.ndim if hasattr(x, "_dv_reduce2") else 1
np.ravel = lambda x: x.ravel() if hasattr(x, "_dv_reduce2") else arr(x)
np.squeeze = lambda x: x


def binop(op):
    def g(a, b, **k):
        if k:
            raise Unsupported("ufunc keywords")
        if any(isinstance(x, (list, tuple)) for x in (a, b)):
            a, b = [mkarr(x) if isinstance(x, (list, tuple)) else x for x in (a, b)]
        if op == "div":
            return arr_div(a, b) if type(a) is SymArr or type(b) is SymArr else num_op(op, a, b)
        if any(hasattr(type(x), "_dv_lift") for x in (a, b)):
            return num_op(op, a, b)
        if op == "pow" and type(a) is SymArr:
            return V.arr_pow(a, b)
        return lift(lambda x, y: num_op(op, x, y), a, b)
    return g


np.add, np.subtract, np.multiply = binop("add"), binop("sub"), binop("mul")
np.divide = np.true_divide = binop("div")
np.power, np.mod = binop("pow"), binop("mod")
np.less, np.less_equal, np.equal = binop("lt"), binop("le"), binop("eq")
np.greater = lambda a, b: np.less(b, a)
np.greater_equal = lambda a, b: np.less_equal(b, a)
np.not_equal = lambda a, b: np.logical_not(np.equal(a, b))


def dotp(a, b):
    return a_sum(arr(a) * arr(b))


np.dot = np.inner = np.vdot = dotp


def nanmax2(x, y):
    if isconc(x) and isconc(y):
        return max(x, y)
    rx, ry = real(x), real(y)
    r = ite(num_op("lt", x, y), y, x)
    nan = Or(rx.nan, ry.nan)
    if nan is False:
        return r
    return ite(wrap(boolz(nan)), float("nan"), r)


def nanmin2(x, y):
    if isconc(x) and isconc(y):
        return min(x, y)
    rx, ry = real(x), real(y)
    r = ite(num_op("lt", y, x), y, x)
    nan = Or(rx.nan, ry.nan)
    return r if nan is False else ite(wrap(boolz(nan)), float("nan"), r)


np.maximum = lambda a, b: lift(nanmax2, a, b)
np.minimum = lambda a, b: lift(nanmin2, a, b)
np.clip = lambda x, a_min=None, a_max=None: lift(lambda v: V.f_clip(v, a_min, a_max), x)
np.logical_and = lambda a, b: lift(lambda x, y: wrap(z3.And(zb(x), zb(y))), a, b)
np.logical_or = lambda a, b: lift(lambda x, y: wrap(z3.Or(zb(x), zb(y))), a, b)
np.logical_not = lambda a: lift(lambda x: wrap(z3.Not(zb(x))), a)
np.invert = lambda a: ~a


def array_equal(a, b, equal_nan=False):
    if equal_nan or type(a) is not SymArr or type(b) is not SymArr:
        raise Unsupported("np.array_equal")
    d = z3.And(nz(a.n) == nz(b.n), zb(V.a_all(SymArr(a.n, Fn(lambda i: a.at(i) == b.at(i)), "b"))))
    return V.wrap(z3.simplify(d))


def where(c, a=None, b=None):
    if a is None:
        from .img import Img, WhereIdx
        if isinstance(c, Img):
            return WhereIdx(c)
        return (argwhere(c, "row"),)
    return lift(lambda x, y, z: ite(x, y, z), c, a, b)


class IdxArr:
    """positions of the true elements of a short array of known length: column (argwhere), row or single number"""
    _dv_ndarray = True

    def __init__(self, v, form):
        self.v, self.form = v, form
        n = len(v)
        self.shape = {"col": (n, 1), "row": (n,), "item": ()}[form]
        self.ndim, self.size = len(self.shape), n

    @property
    def __class__(self):
        return NdArrayShim

    def squeeze(self):
        return IdxArr(self.v, "item" if len(self.v) == 1 else "row")

    def flatten(self):
        return IdxArr(self.v, "row")

    ravel = flatten

    def item(self):
        if len(self.v) != 1:
            raise_modelled(ValueError("can only convert an array of size 1 to a Python scalar"))
        return self.v[0]

    __int__ = item

    def __index__(self):
        if self.form != "item":
            raise_modelled(TypeError("only integer scalar arrays can be converted to a scalar index"))
        return self.v[0]

    def tolist(self):
        return {"col": [[x] for x in self.v], "row": list(self.v)}[self.form] if self.form != "item" else self.v[0]

    def _dv_len(self):
        return len(self)

    def __len__(self):
        if self.form == "item":
            raise_modelled(TypeError("len() of unsized object"))
        return len(self.v)

    def __iter__(self):
        return iter([self[k] for k in range(len(self))])

    def __getitem__(self, i):
        if self.form == "col" and isinstance(i, tuple) and i in ((slice(None), 0), (Ellipsis, 0)):
            return self.flatten()
        if self.form == "col" and isinstance(i, tuple) and len(i) == 2 and type(i[0]) is int and i[1] == 0:
            return self.flatten()[i[0]]
        if type(i) is not int or self.form == "item":
            raise Unsupported("index of an array of positions")
        if not -len(self.v) <= i < len(self.v):
            raise_modelled(IndexError("index is out of bounds for axis 0"))
        return IdxArr([self.v[i]], "row") if self.form == "col" else self.v[i]

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"array of positions .{nm}")


def argwhere(x, form="col"):
    from .img import ArgWhere, Img
    if isinstance(x, Img):
        raise Unsupported("np.argwhere of an image")
    x = arr(x)
    if type(x) is SymArr and isinstance(x.n, int) and x.n <= 8 and x.sel is None:
        from .img import boolean
        return IdxArr([k for k in range(x.n) if E().branch(boolean(x.at(z3.IntVal(k))))], form)
    return ArgWhere(x)


np.where = where
np.nonzero = lambda c: where(c)
np.argwhere = argwhere
np.flatnonzero = lambda x: argwhere(x, "row")
np.array_equal = array_equal
np.hypot = lambda a, b: np.sqrt(a * a + b * b)
np.count_nonzero = lambda x: a_sum(arr(x) if arr(x).kind == "b" else arr(x) != 0)
np.isclose = lambda *a, **k: _uns("np.isclose")


def nextafter(x, y):
    if isinstance(y, float) and y == float("inf"):
        return lift(lambda v: SymReal(core.NextF(zr(v))), x)
    raise Unsupported("nextafter towards another direction")


np.nextafter = nextafter


def linspace(a, b, num=50, endpoint=True, **k):
    if k or endpoint is not True:
        raise Unsupported("linspace options")
    n = shape_n(num)
    A, B = zr(a), zr(b)
    d = V.inv(z3.ToReal(n) - 1)

    def f(i):
        mid = A + (B - A) * z3.ToReal(i) * d
        return SymReal(z3.simplify(z3.If(i == 0, A, z3.If(i == n - 1, B, mid))))
    r = SymArr(n, f)
    r.tag = ("linspace", a, b, n)
    r.rising = A <= B
    return r


def geomspace(a, b, num=50, endpoint=True, **k):
    h = E().ghost.get("geomspace")
    if h and not k and endpoint is True:
        r = h(a, b, num)
        if r is not None:
            return r
    if k or endpoint is not True:
        raise Unsupported("geomspace options")
    n = shape_n(num)
    A, B = zr(a), zr(b)
    if not E().branch(z3.And(A > 0, B > 0)):
        if E().branch(z3.Or(A == 0, B == 0)):
            raise_modelled(ValueError("Geometric sequence cannot include zero"))
        raise Unsupported("geomspace of negative values")
    la, lb = core.Log10F(A), core.Log10F(B)
    d = V.inv(z3.ToReal(n) - 1)

    def f(i):
        mid = core.Exp10F(la + (lb - la) * z3.ToReal(i) * d)
        return SymReal(z3.simplify(z3.If(i == 0, A, z3.If(i == n - 1, B, mid))))
    r = SymArr(n, f)
    r.rising = A <= B
    return r


def logspace(a, b, num=50, endpoint=True, base=10.0, **k):
    if k or endpoint is not True or base != 10:
        raise Unsupported("logspace options")
    lin = linspace(a, b, num)
    return lift(V.f_exp10, lin)


np.linspace, np.geomspace, np.logspace = linspace, geomspace, logspace


def arange(*a, **k):
    if k or not all(is_int_like(x) for x in a) or len(a) > 2:
        raise Unsupported("np.arange")
    lo, hi = (z3.IntVal(0), zi(a[0])) if len(a) == 1 else (zi(a[0]), zi(a[1]))
    n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    return SymArr(n, lambda i: wrap(lo + i), "i")


np.arange = arange


def concatenate(xs, axis=0):
    xs = [arr(x) for x in xs]
    if any(x.sel is not None for x in xs):
        raise Unsupported("concatenate selections")
    tot, offs = z3.IntVal(0), []
    for x in xs:
        offs.append(tot)
        tot = tot + nz(x.n)

    def f(i):
        r = xs[-1].at(z3.simplify(i - offs[-1]))
        for x, o in list(zip(xs, offs))[-2::-1]:
            r = ite(wrap(i < o + nz(x.n)), x.at(z3.simplify(i - o)), r)
        return r
    kd = "f" if any(x.kind == "f" for x in xs) else xs[0].kind
    return SymArr(z3.simplify(tot), f, kd)


np.concatenate = concatenate
np.append = lambda a, b: concatenate([arr(a), arr(b)])
np.hstack = lambda xs: concatenate(xs)


def diff(x):
    x = arr(x)
    if x.sel is not None:
        raise Unsupported("diff of a selection")
    n = nz(x.n)
    return SymArr(z3.simplify(z3.If(n > 0, n - 1, z3.IntVal(0))),
                  lambda i: num_op("sub", x.at(z3.simplify(i + 1)), x.at(i)), x.kind)


np.diff = diff


def histogram(a, bins=10, range=None, density=None, weights=None):
    """numpy.histogram with given edges: half-open bins, the last one closed"""
    if range is not None or density or weights is not None:
        raise Unsupported("histogram options")
    e, x = arr(bins), arr(a)
    if is_num(bins) or e.sel is not None:
        raise Unsupported("histogram without edges")
    n = nz(e.n)
    j = z3.Int("j!edge")
    rising = getattr(e, "rising", None)
    if rising is not None:
        # limits of linspace and geomspace rise or fall throughout
        if not E().branch(z3.Or(n <= 1, rising)):
            raise_modelled(ValueError("`bins` must increase monotonically, when an array"))
    elif not E().valid(z3.Implies(z3.And(0 <= j, j < n - 1), zr(e.at(j)) <= zr(e.at(z3.simplify(j + 1))))):
        bad = core.AnyF(z3.simplify(n - 1), core.lam(lambda t: zr(e.at(t)) > zr(e.at(t + 1))))
        if E().branch(bad):
            raise_modelled(ValueError("`bins` must increase monotonically, when an array"))
    m, fx, fe = nz(x.n), x.fn, e.fn

    def count(b):
        lo, hi = zr(fe(b)), zr(fe(z3.simplify(b + 1)))

        def one(t):
            y = zr(fx(t))
            return z3.And(zb(x.selz(t)), lo <= y, z3.Or(y < hi, z3.And(b == n - 2, y <= hi)))
        return SymInt(core.CntF(m, core.lam(one)))
    return SymArr(z3.simplify(n - 1), Fn(count), "i"), e


np.histogram = histogram


def histogram_bin_edges(a, bins=10, range=None, weights=None):
    """automatic bins: an unknown number of equal bins over the range"""
    if weights is not None or bins != "auto" or range is None or len(range) != 2:
        raise Unsupported("histogram_bin_edges options")
    lo, hi = range[0], range[1]
    n = E().fresh_int("autobins")
    E().assume(n >= 1)
    return linspace(lo, hi, wrap(n + 1))


np.histogram_bin_edges = histogram_bin_edges


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


np.errstate = errstate
np.seterr = lambda **k: {}
np.finfo = lambda t: _uns("np.finfo")


class Warning_(UserWarning):
    pass


random = StubModule("numpy.random")
testing = StubModule("numpy.testing")
np.random, np.testing = random, testing


# random numbers: Unif(low, high, stream, position); the stream is determined by the seed
UnifF = z3.Function("unif01", core.I, core.I, core.R)   # in [0, 1)


class RngState:
    """the mutable state of one generator"""
    __module__ = "mcsas3.ghost"

    def __init__(self, stream):
        self.stream = stream
        self.pos = 0


class Generator:
    __module__ = "mcsas3.ghost"

    def __init__(self, seed):
        self._state = RngState(seed)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None:
            raise Unsupported("uniform(size=...)")
        st = self._state
        if E().ghost.get("rng_log") is not None:
            E().ghost["rng_log"].append((st.stream, st.pos))
        u = E().fresh_real("u")
        E().assume(z3.And(u >= 0, u <= 1))
        # rounding may give the upper end; both ends are possible
        st.pos = wrap(zi(st.pos) + 1)
        lo, hi = real(low), real(high)
        if lo.flagged or hi.flagged:
            if E().branch(z3.Not(boolz(And(lo.fin, hi.fin)))):
                raise_modelled(OverflowError("Range exceeds valid bounds"))
        return SymReal(lo.r + (hi.r - lo.r) * u)

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"numpy Generator.{nm}")


def default_rng(seed=None):
    h = E().ghost.get("on_rng")
    if h:
        h(seed)
    return Generator(seed)


random.default_rng = default_rng
random.Generator = Generator


def seed_(x=None):
    raise Unsupported("np.random.seed")


random.seed = seed_
