"""2-D arrays (images) of symbolic size, and the flat sequences of their selected pixels.

Img: h rows, w columns, element fn(i, j); oi, oj: ghost position of its element (0, 0) in the image it was
cropped from (never used to compute a value). Pix: the elements fn(i, j) with mask(i, j), row by row."""
import z3

from .. import core
from .. import values as V
from ..core import AnyF, CntF, E, Unsupported, lam, raise_modelled
from ..values import (SymArr, SymBool, SymInt, SymReal, ite, is_int_like, is_num, num_op, nz, real, wrap, zb,
                      zi, zr)


class Fn2:
    def __init__(self, f):
        self.f, self.memo = f, {}

    def __call__(self, i, j):
        k = (i.get_id(), j.get_id())
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = (self.f(i, j), i, j)
        return r[0]


def name(fn, hint="px"):
    """a predicate symbol for the boolean function fn(i, j) (keeps the formulas small)"""
    got = E().ghost.setdefault("img_names", {})
    if id(fn) in got:
        return got[id(fn)][0]
    if E().loop_ks:
        return fn
    B = E().register_fun(E().fresh_fun(hint, core.I, core.I, core.B))
    a, b = E().fresh_int("pi"), E().fresh_int("pj")
    t = core.norm(zb(fn(a, b)))
    E().add_axiom(B, lambda i, j: B(i, j) == z3.substitute(t, (a, i), (b, j)))
    r = Fn2(lambda i, j: wrap(B(i, j)))
    got[id(fn)] = got[id(r)] = (r, fn, B)
    E().ghost.setdefault("img_preds", []).append(B)
    return r


def inside(h, w, i, j):
    return z3.And(0 <= i, i < nz(h), 0 <= j, j < nz(w))


def counts(img, axis):
    """numbers of true elements of the rows (axis 1) or columns (axis 0): only zero or more than zero is
    defined exactly; all that is needed of larger numbers is that they are at most the length"""
    got = E().ghost.setdefault("img_counts", {})
    k = (id(img.fn), axis)
    if k in got:
        return got[k][0]
    img.fn = name(img.fn)
    B = img.fn
    h, w = nz(img.h), nz(img.w)
    n = E().register_fun(E().fresh_fun(f"cnt{axis}", core.I, core.I))
    wit = E().fresh_fun(f"wit{axis}", core.I, core.I)
    N, M = (h, w) if axis == 1 else (w, h)
    at = (lambda i, j: zb(B(i, j))) if axis == 1 else (lambda i, j: zb(B(j, i)))

    def ax(i):
        t = wit(i)
        return z3.And(n(i) >= 0, z3.Implies(M >= 0, n(i) <= M), z3.Implies(
            z3.And(0 <= i, i < N, n(i) > 0), z3.And(0 <= t, t < M, at(i, t))))
    E().add_axiom(n, ax)
    sym = next(iter(core.consts_in(zb(B(z3.Int("a!"), z3.Int("b!"))), lambda x: x.num_args() == 2 and x.decl(
        ).kind() == z3.Z3_OP_UNINTERPRETED)), None)
    if sym is None:
        raise Unsupported("counts of a constant image")
    E().add_axiom(sym.decl(), lambda i, j: z3.Implies(
        z3.And(inside(h, w, i, j), zb(B(i, j))), n(i if axis == 1 else j) >= 1))
    r = SymArr(img.h if axis == 1 else img.w, lambda i: wrap(n(i)), "i")
    E().ghost.setdefault("img_keep", []).append((img, img.fn))
    got[k] = got[(id(img.fn), axis)] = (r,)
    return r


def any2(h, w, m):
    """is any element of m true?"""
    got = E().ghost.setdefault("img_any", {})
    m = name(m if isinstance(m, Fn2) else Fn2(m))
    k = (id(m), nz(h).get_id(), nz(w).get_id())
    if k in got:
        return got[k][0]
    ent = E().ghost["img_names"].get(id(m))
    if ent is None:
        raise Unsupported("any element of an image, in a loop")
    some, i0, j0 = E().fresh_bool("some"), E().fresh_int("wi"), E().fresh_int("wj")
    E().assume(z3.Implies(some, z3.And(inside(h, w, i0, j0), zb(m(i0, j0)))))
    E().add_axiom(ent[2], lambda i, j: z3.Implies(z3.And(inside(h, w, i, j), zb(m(i, j))), some))
    for i, j in E().ghost.get("any2_at", ()):
        E().assume(z3.Implies(z3.And(inside(h, w, i, j), zb(ent[1](i, j))), some))
    got[k] = (some, m, nz(h), nz(w))
    return some


def same_shape(a, b):
    for x, y in ((a.h, b.h), (a.w, b.w)):
        if not (V.same_term(x, y) or E().branch(nz(x) == nz(y))):
            return False
    return True


def lift2(cls, f, args):
    main = next(a for a in args if isinstance(a, (Img, Pix)))
    fs = []
    for a in args:
        if isinstance(a, (Img, Pix)):
            if type(a) is not type(main):
                raise Unsupported("image and pixel sequence combined")
            if a is not main:
                if not same_shape(main, a):
                    if type(a) is Pix:
                        raise Unsupported("pixel sequences of different images")
                    raise_modelled(ValueError("operands could not be broadcast together"))
                if type(a) is Pix and not same_mask(main, a):
                    raise Unsupported("pixel sequences of different selections")
            fs.append(a.fn)
        elif is_num(a) or a is None or isinstance(a, str):
            fs.append(lambda i, j, a=a: a)
        else:
            raise Unsupported(f"image combined with {type(a).__name__}")
    return main._new(lambda i, j: f(*[g(i, j) for g in fs]))


def same_mask(a, b):
    i, j = E().fresh_int("pi"), E().fresh_int("pj")
    x, y = zb(a.mask(i, j)), zb(b.mask(i, j))
    if z3.simplify(x == y).eq(z3.BoolVal(True)):
        return True
    return E().valid(z3.Implies(z3.And(0 <= i, i < nz(a.h), 0 <= j, j < nz(a.w)), x == y))


class _Base:
    _dv_ndarray = True
    view = False

    def _dv_lift(self, f, args):
        return lift2(type(self), f, args)

    def _dv_arith(self, op, a, b):
        return lift2(type(self), lambda x, y: num_op(op, x, y), (a, b))

    def _dv_map(self, f):
        return self._new(lambda i, j: f(self.fn(i, j)))

    def _o(self, op, o, rev=False):
        a, b = (o, self) if rev else (self, o)
        return self._dv_arith(op, a, b)

    def __invert__(self):
        return self._dv_map(lambda x: (not x) if type(x) is bool else ~x)

    def __neg__(self):
        return self._dv_map(lambda x: -x)

    def __abs__(self):
        return self._dv_map(abs)

    def __and__(self, o):
        return lift2(type(self), lambda x, y: wrap(z3.And(zb(x), zb(y))), (self, o))

    def __or__(self, o):
        return lift2(type(self), lambda x, y: wrap(z3.Or(zb(x), zb(y))), (self, o))

    def __xor__(self, o):
        return lift2(type(self), lambda x, y: wrap(z3.Xor(zb(x), zb(y))), (self, o))

    __rand__, __ror__ = __and__, __or__

    def __mul__(self, o):
        if self.kind == "b" and isinstance(o, _Base) and o.kind == "b":
            return self & o
        return self._o("mul", o)

    def __rmul__(self, o):
        return self._o("mul", o, True)

    def __eq__(self, o):
        return self._o("eq", o)

    def __ne__(self, o):
        return ~self._o("eq", o)

    def __gt__(self, o):
        return self._o("lt", o, True)

    def __ge__(self, o):
        return self._o("le", o, True)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise_modelled(ValueError("The truth value of an array with more than one element is ambiguous"))

    def astype(self, t, **k):
        kd = V.kind_of(t)
        if kd == "b":
            if self.kind == "b":
                return self._new(self.fn)
            return self._dv_map(lambda x: wrap(zb(x)) if isinstance(x, (bool, SymBool)) else
                                wrap(z3.Not(zb(num_op("eq", x, 0)))))
        if kd == "f":
            return self._dv_map(lambda x: real(x) if not isinstance(x, (bool, SymBool)) else
                                real(ite(wrap(zb(x)), 1.0, 0.0)))
        raise Unsupported("astype of an image")

    @property
    def dtype(self):
        return V.DType(self.kind)

    def copy(self, *a, **k):
        return self._new(self.fn)

    def __iter__(self):
        raise Unsupported("iterating over an image")

    def __getattr__(self, nm):
        if nm.startswith("_dv_") or (nm.startswith("__") and nm.endswith("__")):
            raise AttributeError(nm)
        raise Unsupported(f"array method {nm} of an image")


for _n, _o, _r in (("add", "add", 0), ("radd", "add", 1), ("sub", "sub", 0), ("rsub", "sub", 1),
                   ("truediv", "div", 0), ("rtruediv", "div", 1), ("pow", "pow", 0), ("lt", "lt", 0),
                   ("le", "le", 0)):
    setattr(_Base, f"__{_n}__", lambda self, o, _o=_o, _r=_r: self._o(_o, o, bool(_r)))


def kind_at(fn):
    p = fn(z3.Int("pi!probe"), z3.Int("pj!probe"))
    return "b" if isinstance(p, (bool, SymBool)) else "i" if is_int_like(p) else "f"


class Img(_Base):
    def __init__(self, h, w, fn, oi=z3.IntVal(0), oj=z3.IntVal(0), kind=None):
        self.h, self.w, self.oi, self.oj = h, w, oi, oj
        self.fn = fn if isinstance(fn, Fn2) else Fn2(fn)
        self.kind = kind or kind_at(self.fn)

    def _new(self, fn):
        return Img(self.h, self.w, fn, self.oi, self.oj)

    @property
    def shape(self):
        return (wrap(nz(self.h)), wrap(nz(self.w)))

    @property
    def ndim(self):
        return 2

    def _dv_len(self):
        return wrap(nz(self.h))

    def _row(self, i):
        return SymArr(self.w, lambda j: self.fn(i, j), self.kind)

    def _dv_reduce2(self, nm, axis):
        if nm in ("any", "all", "sum") and axis in (0, 1, -1):
            axis = axis % 2
            if nm == "sum":
                if self.kind != "b":
                    raise Unsupported("sum of an image along an axis")
                return counts(self, axis)
            if nm == "any":
                return counts(self.astype(bool), axis) > 0
            return counts(~self.astype(bool), axis) == 0
        if axis is None and nm == "any":
            return wrap(any2(self.h, self.w, lambda i, j: wrap(boolean(self.fn(i, j)))))
        if axis is None and nm == "all":
            return wrap(z3.Not(any2(self.h, self.w, lambda i, j: wrap(z3.Not(boolean(self.fn(i, j)))))))
        if axis is None and nm in ("min", "max"):
            return self.flatten()._ext(nm)
        raise Unsupported(f"{nm} of an image")

    def sum(self, axis=None):
        return self._dv_reduce2("sum", axis)

    def any(self, axis=None):
        return self._dv_reduce2("any", axis)

    def all(self, axis=None):
        return self._dv_reduce2("all", axis)

    def min(self, axis=None):
        return self._dv_reduce2("min", axis)

    def max(self, axis=None):
        return self._dv_reduce2("max", axis)

    def squeeze(self):
        return self

    def flatten(self):
        return Pix(self, lambda i, j: True)

    ravel = flatten

    def __getitem__(self, ix):
        if isinstance(ix, Img):
            if ix.kind != "b":
                raise Unsupported("fancy index of an image")
            if not same_shape(self, ix):
                raise_modelled(IndexError("boolean index did not match indexed array"))
            return Pix(self, ix.fn)
        if isinstance(ix, WhereIdx):
            return self[ix.mask]
        if isinstance(ix, slice):
            ix = (ix, slice(None))
        if isinstance(ix, tuple) and len(ix) == 2:
            if all(isinstance(x, slice) and x.step in (None, 1) for x in ix):
                (a, h), (b, w) = V.norm_slice(ix[0], self.h), V.norm_slice(ix[1], self.w)
                # keep the bounds short: in-range limits need no clamping
                a, h = short(ix[0], self.h, a, h)
                b, w = short(ix[1], self.w, b, w)
                E().ghost.setdefault("img_origins", []).append((self.oi + a, self.oj + b))
                f = self.fn
                r = Img(h, w, lambda i, j: f(z3.simplify(i + a), z3.simplify(j + b)),
                        z3.simplify(self.oi + a), z3.simplify(self.oj + b), self.kind)
                r.view = self.view = True     # they share memory: no stores
                return r
            if all(is_int_like(x) for x in ix):
                i, j = zi(ix[0]), zi(ix[1])
                if not E().branch(z3.And(0 <= i, i < nz(self.h), 0 <= j, j < nz(self.w))):
                    raise Unsupported("index outside of an image")
                return self.fn(i, j)
        raise Unsupported("index of an image")

    def __setitem__(self, ix, v):
        if isinstance(ix, WhereIdx):
            ix = ix.mask
        if not (isinstance(ix, Img) and ix.kind == "b") or self.view:
            raise Unsupported("store in an image")
        if not same_shape(self, ix):
            raise_modelled(IndexError("boolean index did not match indexed array"))
        old, m = self.fn, ix.fn
        conv = real if self.kind == "f" else (lambda x: x)
        if isinstance(v, Pix):
            if not (same_shape(self, v) and same_mask(v, Pix(self, m))):
                raise Unsupported("masked store of another selection")
            vf = v.fn
        elif is_num(v):
            vf = lambda i, j: v
        else:
            raise Unsupported(f"masked store of {type(v).__name__} in an image")
        self.fn = Fn2(lambda i, j: ite(m(i, j), conv(vf(i, j)), old(i, j)))

    def _dv_like(self, v, dtype):
        return img_full(self.shape, v, dtype)

    def _dv_same(self, o):
        raise Unsupported("comparison of images")


def boolean(x):
    return zb(x) if isinstance(x, (bool, SymBool)) else z3.Not(zb(num_op("eq", x, 0)))


def short(s, n, a, ln):
    lo = z3.IntVal(0) if s.start is None else zi(s.start)
    hi = nz(n) if s.stop is None else zi(s.stop)
    if E().valid(z3.And(0 <= lo, lo <= hi, hi <= nz(n))):
        return z3.simplify(lo), z3.simplify(hi - lo)
    return a, ln


class Pix(_Base):
    def __init__(self, img, mask, fn=None):
        self.h, self.w, self.oi, self.oj = img.h, img.w, img.oi, img.oj
        self.mask = mask if isinstance(mask, Fn2) else Fn2(mask)
        f = fn or img.fn
        self.fn = f if isinstance(f, Fn2) else Fn2(f)
        self.kind = kind_at(self.fn)

    def _new(self, fn):
        return Pix(self, self.mask, fn)

    def some(self):
        self.mask = name(self.mask)
        return any2(self.h, self.w, self.mask)

    def flatten(self):
        return self._new(self.fn)

    ravel = squeeze = flatten

    def _ext(self, nm):
        if not E().branch(self.some()):
            raise_modelled(ValueError("zero-size array to reduction operation which has no identity"))
        return V.fresh_real("pix" + nm, nan=True, inf=True)

    def min(self):
        return self._ext("min")

    def max(self):
        return self._ext("max")

    def _dv_reduce2(self, nm, axis):
        if axis not in (None, 0):
            raise Unsupported("axis")
        if nm in ("min", "max"):
            return self._ext(nm)
        raise Unsupported(f"{nm} of a pixel sequence")

    def _dv_len(self):
        n = E().fresh_int("npix")
        E().assume(z3.And(n >= 0, (n > 0) == self.some()))
        return SymInt(n)

    @property
    def size(self):
        return self._dv_len()

    @property
    def shape(self):
        return (self._dv_len(),)

    @property
    def ndim(self):
        return 1

    def __getitem__(self, ix):
        if isinstance(ix, Pix) and ix.kind == "b":
            if not (same_shape(self, ix) and same_mask(self, ix)):
                raise Unsupported("selection of another pixel sequence")
            m, g = self.mask, ix.fn
            return Pix(self, lambda i, j: wrap(z3.And(zb(m(i, j)), zb(g(i, j)))), self.fn)
        raise Unsupported("index of a pixel sequence")


class WhereIdx:
    """np.where(mask) / np.nonzero(mask) of an image"""
    def __init__(self, mask):
        self.mask = mask

    def __getattr__(self, nm):
        raise Unsupported(f"{nm} of the positions in an image")

    def __iter__(self):
        raise Unsupported("iterating over the positions in an image")


class ArgWhere:
    """np.argwhere / np.flatnonzero of a 1-D array: the positions with a true element"""
    def __init__(self, a):
        self.a = a

    def _ext(self, F):
        L = lam(lambda i: z3.And(zb(self.a.selz(i)), boolean(self.a.at(i))))
        if not E().branch(CntF(nz(self.a.n), L) > 0):
            raise_modelled(ValueError("zero-size array to reduction operation which has no identity"))
        return wrap(F(nz(self.a.n), L))

    def min(self, axis=None):
        return self._ext(core.FirstF)

    def max(self, axis=None):
        return self._ext(core.LastF)

    def _dv_reduce(self, nm):
        return getattr(self, nm)()

    @property
    def size(self):
        return wrap(CntF(nz(self.a.n), lam(lambda i: boolean(self.a.at(i)))))

    def _dv_len(self):
        return self.size

    def __getitem__(self, ix):
        if isinstance(ix, tuple) and len(ix) == 2 and is_num(ix[1]):
            ix = ix[0]
        if isinstance(ix, int) and ix in (0, -1):
            L = lam(lambda i: boolean(self.a.at(i)))
            if not E().branch(CntF(nz(self.a.n), L) > 0):
                raise_modelled(IndexError("index 0 is out of bounds for axis 0 with size 0"))
            return wrap((core.FirstF if ix == 0 else core.LastF)(nz(self.a.n), L))
        raise Unsupported("index of positions")

    def squeeze(self):
        return self

    flatten = ravel = squeeze

    def __getattr__(self, nm):
        if nm.startswith("_dv_") or (nm.startswith("__") and nm.endswith("__")):
            raise AttributeError(nm)
        raise Unsupported(f"{nm} of positions")


def img_full(shape, val, dtype=None):
    h, w = shape
    kd = V.kind_of(dtype) if dtype is not None else (
        "b" if isinstance(val, bool) or type(val) is SymBool else "i" if is_int_like(val) else "f")
    v = real(val) if kd == "f" else wrap(zb(val)) if kd == "b" else V.to_int(val)
    return Img(zi(h), zi(w), lambda i, j: v, kind=kd)


def fresh_img(hint, h, w, nan=False, inf=False, kind="f"):
    f = E().register_fun(E().fresh_fun(hint, core.I, core.I, core.B if kind == "b" else core.R))
    fl = {}
    for nm, on in (("nan", nan), ("pinf", inf), ("ninf", inf)):
        if on:
            fl[nm] = E().register_fun(E().fresh_fun(f"{hint}.{nm}", core.I, core.I, core.B))

    def at(i, j):
        if kind == "b":
            return wrap(f(i, j))
        g = {k: v(i, j) for k, v in fl.items()}
        if "nan" in g and "pinf" in g:      # one of them at a time
            g["pinf"] = z3.And(g["pinf"], z3.Not(g["nan"]))
            g["ninf"] = z3.And(g["ninf"], z3.Not(g["nan"]), z3.Not(g["pinf"]))
        return SymReal(f(i, j), **g)
    return Img(h, w, at, kind=kind)
