"""Symbolic values: numbers (mathematical reals/integers with nan/inf flags) and arrays."""
from __future__ import annotations

import itertools
from fractions import Fraction

import z3

from . import core
from .core import (E, AnyF, CntF, FirstF, LastF, MaxF, MedF, MinF, SumF, Unsupported, lam,
                   raise_modelled)

TOK = "SYMTOK"


def Not(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)


def And(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is not True:
            out.append(x)
    return True if not out else (out[0] if len(out) == 1 else z3.And(*out))


def Or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is not False:
            out.append(x)
    return False if not out else (out[0] if len(out) == 1 else z3.Or(*out))


def Ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return z3.If(c, a, b)


def boolz(x):
    if type(x) is SymBool:
        return boolz(x.b)
    return z3.BoolVal(x) if isinstance(x, bool) else x


def ratval(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    f = Fraction(x).limit_denominator(10 ** 6)
    if float(f) != x:
        f = Fraction(repr(x))
    return z3.Q(f.numerator, f.denominator)


class Sym:
    """base of all symbolic scalars"""
    __slots__ = ()
    __array_priority__ = 1000

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __index__(self):
        raise Unsupported(f"{type(self).__name__} used as a concrete index")

    __int__ = __float__ = __index__

    def __format__(self, spec):
        return token(self, spec)

    def __str__(self):
        return token(self, "")

    __repr__ = __str__


def token(v, spec=""):
    """identifier-like placeholder for a symbolic value inside of a string"""
    eng = E()
    key = (type(v).__name__, canon_key(v), spec)
    if key not in eng.token_ids:
        t = f"{TOK}{len(eng.token_ids)}X"
        eng.token_ids[key] = t
        eng.tokens[t] = (v, spec)
    return eng.token_ids[key]


def canon_key(v):
    eng = E()
    terms = [t for t in v.terms() if not isinstance(t, bool)]
    terms = [z3.simplify(t) for t in terms]
    eng.keep.append(terms)
    return tuple(t.get_id() for t in terms) + tuple(
        t for t in v.terms() if isinstance(t, bool))


class SymBool(Sym):
    __slots__ = ("b",)
    ndim, shape, size = 0, (), 1

    def __init__(self, b):
        self.b = b

    def terms(self):
        return [self.b]

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E().branch(self.b)

    def _op(self, o, f):
        if isinstance(o, SymArr):
            return NotImplemented
        if isinstance(o, bool):
            return SymBool(boolz(f(self.b, o)))
        if type(o) is SymBool:
            return SymBool(boolz(f(self.b, o.b)))
        if type(o) is SymInt or type(o) is int:
            raise Unsupported("bit operation between bool and int")
        raise Unsupported(f"bool operator with {type(o).__name__}")

    def __and__(self, o):
        return self._op(o, And)

    __rand__ = __and__

    def __or__(self, o):
        return self._op(o, Or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._op(o, lambda a, b: z3.Xor(boolz(a), boolz(b)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(boolz(Not(self.b)))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, SymArr):
            return NotImplemented
        if isinstance(o, bool) or type(o) is SymBool:
            return self._op(o, lambda a, b: boolz(a) == boolz(b))
        return as_int(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = Sym.__hash__

    def _num(self):
        return SymInt(z3.If(self.b, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def item(self):
        return self

    def any(self):
        return self

    all = any


def as_int(v):
    if type(v) is SymBool:
        return v._num()
    if isinstance(v, bool):
        return int(v)
    return v


def is_num(x):
    return type(x) in (int, float, bool, SymInt, SymReal, SymBool)


class SymNum(Sym):
    __slots__ = ()
    ndim, shape, size = 0, (), 1

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def squeeze(self):
        return self

    def max(self, *a, **k):
        return self

    min = mean = sum = max

    def __bool__(self):
        return bool(self != 0)

    def __add__(self, o):
        return num_op("add", self, o)

    def __radd__(self, o):
        return num_op("add", o, self)

    def __sub__(self, o):
        return num_op("sub", self, o)

    def __rsub__(self, o):
        return num_op("sub", o, self)

    def __mul__(self, o):
        return num_op("mul", self, o)

    def __rmul__(self, o):
        return num_op("mul", o, self)

    def __truediv__(self, o):
        return num_op("div", self, o)

    def __rtruediv__(self, o):
        return num_op("div", o, self)

    def __floordiv__(self, o):
        return num_op("floordiv", self, o)

    def __rfloordiv__(self, o):
        return num_op("floordiv", o, self)

    def __mod__(self, o):
        return num_op("mod", self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("% formatting")
        return num_op("mod", o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        return num_op("pow", self, o)

    def __rpow__(self, o):
        return num_op("pow", o, self)

    def __neg__(self):
        return num_op("sub", 0, self)

    def __pos__(self):
        return self

    def __lt__(self, o):
        return num_op("lt", self, o)

    def __le__(self, o):
        return num_op("le", self, o)

    def __gt__(self, o):
        return num_op("lt", o, self)

    def __ge__(self, o):
        return num_op("le", o, self)

    def __eq__(self, o):
        if not is_num(o):
            if isinstance(o, (SymArr,)):
                return NotImplemented
            if o is None or isinstance(o, (str, tuple, list, dict)):
                return False
        return num_op("eq", self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = Sym.__hash__

    def __abs__(self):
        if type(self) is SymInt:
            return SymInt(z3.If(self.i >= 0, self.i, -self.i))
        return SymReal(z3.If(self.r >= 0, self.r, -self.r), self.nan, Or(self.pinf, self.ninf),
                       False)


class SymInt(SymNum):
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def terms(self):
        return [self.i]

    @property
    def __class__(self):
        return int

    def __round__(self, n=None):
        return self

    def is_integer(self):
        return True


class SymReal(SymNum):
    __slots__ = ("r", "nan", "pinf", "ninf")

    def __init__(self, r, nan=False, pinf=False, ninf=False):
        self.r, self.nan, self.pinf, self.ninf = r, sb(nan), sb(pinf), sb(ninf)

    def terms(self):
        return [self.r, self.nan, self.pinf, self.ninf]

    @property
    def __class__(self):
        return float

    @property
    def flagged(self):
        return not (self.nan is False and self.pinf is False and self.ninf is False)

    @property
    def fin(self):
        return Not(Or(self.nan, self.pinf, self.ninf))

    @property
    def inf(self):
        return Or(self.pinf, self.ninf)

    def is_integer(self):
        return SymBool(z3.IsInt(self.r))

    def astype(self, t):
        return self

    def __round__(self, n=None):
        raise Unsupported("round of a symbolic real")

    def __trunc__(self):
        return to_int(self)


def sb(x):
    """simplify a flag to a python bool where it is constant"""
    if type(x) is SymBool:
        x = x.b
    if type(x) is bool:
        return x
    x = z3.simplify(x)
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def real(x):
    """any number -> SymReal"""
    t = type(x)
    if t is SymReal:
        return x
    if t is SymInt:
        return SymReal(z3.ToReal(x.i))
    if t is SymBool:
        return SymReal(z3.If(x.b, z3.RealVal(1), z3.RealVal(0)))
    if t in (int, bool):
        return SymReal(z3.RealVal(int(x)))
    if isinstance(x, float) or (isinstance(x, int) and not isinstance(x, Sym)):
        x = float(x) if isinstance(x, float) else x
        if x != x:
            return SymReal(z3.RealVal(0), True)
        if x == float("inf"):
            return SymReal(z3.RealVal(0), False, True)
        if x == float("-inf"):
            return SymReal(z3.RealVal(0), False, False, True)
        return SymReal(ratval(x))
    if isinstance(x, SymArr) and isinstance(x.n, int) and x.n == 1:
        return real(x.at(z3.IntVal(0)))
    if isinstance(x, z3.ArithRef):
        return SymReal(x if x.sort() == core.R else z3.ToReal(x))
    raise Unsupported(f"not a number: {type(x).__name__}")


def zr(x):
    return real(x).r


def zi(x):
    if type(x) is SymInt:
        return x.i
    if isinstance(x, bool) or type(x) is SymBool:
        return as_int(x) if isinstance(x, int) and not isinstance(x, Sym) else x._num().i
    if type(x) is int:
        return z3.IntVal(x)
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, int) and not isinstance(x, Sym):
        return z3.IntVal(int(x))
    raise Unsupported(f"not an integer: {type(x).__name__}")


def zb(x):
    if type(x) is SymBool:
        return boolz(x.b)
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    if type(x) in (SymInt, SymReal, int, float):
        v = x != 0
        return zb(v) if not isinstance(v, bool) else z3.BoolVal(v)
    raise Unsupported(f"not a truth value: {type(x).__name__}")


def wrap(t):
    """z3 term -> symbolic scalar, or a python number if constant"""
    t = z3.simplify(t)
    if t.sort() == core.B:
        return True if z3.is_true(t) else False if z3.is_false(t) else SymBool(t)
    if t.sort() == core.I:
        return t.as_long() if z3.is_int_value(t) else SymInt(t)
    return SymReal(t)


def nonzero_known(t):
    t = z3.simplify(t)
    return z3.is_rational_value(t) and not (t.numerator_as_long() == 0)


def is_int_like(x):
    return type(x) in (int, bool, SymInt, SymBool)


def inv(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t) and t.numerator_as_long() != 0:
        return z3.Q(t.denominator_as_long(), t.numerator_as_long()) \
            if t.numerator_as_long() > 0 else z3.Q(-t.denominator_as_long(), -t.numerator_as_long())
    if z3.is_app_of(t, z3.Z3_OP_MUL):
        r = None
        for c in t.children():
            ic = inv(c)
            r = ic if r is None else r * ic
        return r
    if z3.is_app(t) and t.decl().name() == "inv":
        # 1/(1/x) = x only for x != 0: keep it opaque unless x is a known non-zero value
        pass
    return core.InvF(t)


def rpow(a, k):
    r = a
    for _ in range(k - 1):
        r = r * a
    return r


def num_op(op, a, b):
    if isinstance(a, SymArr) or isinstance(b, SymArr) or hasattr(type(a), "_dv_series") or hasattr(
            type(b), "_dv_series"):
        return lift(lambda x, y: num_op(op, x, y), a, b)
    for x in (a, b):
        if not is_num(x):
            if hasattr(x, "_dv_arith"):
                return x._dv_arith(op, a, b)
            if isinstance(x, (int, float)) and not isinstance(x, Sym):
                continue
            if op in ("lt", "le") and isinstance(x, (str, type(None))):
                raise_modelled(TypeError(f"'<' not supported between number and {type(x)}"))
            raise Unsupported(f"{op} between a symbolic number and {type(x).__name__}")
    if is_int_like(a) and is_int_like(b):
        x, y = zi(as_int(a)), zi(as_int(b))
        if op == "add":
            return wrap(x + y)
        if op == "sub":
            return wrap(x - y)
        if op == "mul":
            return wrap(x * y)
        if op == "lt":
            return wrap(x < y)
        if op == "le":
            return wrap(x <= y)
        if op == "eq":
            return wrap(x == y)
        if op in ("floordiv", "mod"):
            if E().branch(y == 0):
                raise_modelled(ZeroDivisionError("integer division or modulo by zero"))
            if not E().branch(y > 0):
                raise Unsupported("division by a negative integer")
            return wrap(x / y) if op == "floordiv" else wrap(x % y)
        if op == "pow":
            if isinstance(b, int) and 1 <= b <= 8:
                return wrap(rpow(x, b))
            if isinstance(b, int) and b == 0:
                return 1
            if isinstance(b, int) and b < 0:
                return num_op("pow", real(a), b)
            raise Unsupported("symbolic integer exponent")
        # div falls through to the reals
    x, y = real(a), real(b)
    fl = x.flagged or y.flagged
    if op == "add" or op == "sub":
        if op == "sub":
            y = SymReal(-y.r, y.nan, y.ninf, y.pinf)
        if not fl:
            return SymReal(z3.simplify(x.r + y.r))
        nan = Or(x.nan, y.nan, And(x.pinf, y.ninf), And(x.ninf, y.pinf))
        return SymReal(x.r + y.r, nan, And(Not(nan), Or(x.pinf, y.pinf)),
                       And(Not(nan), Or(x.ninf, y.ninf)))
    if op == "mul":
        if not fl:
            return SymReal(z3.simplify(x.r * y.r))
        pos = lambda v: Or(v.pinf, And(v.fin, v.r > 0))
        neg = lambda v: Or(v.ninf, And(v.fin, v.r < 0))
        zero = lambda v: And(v.fin, v.r == 0)
        anyinf = Or(x.inf, y.inf)
        nan = Or(x.nan, y.nan, And(x.inf, zero(y)), And(y.inf, zero(x)))
        same = Or(And(pos(x), pos(y)), And(neg(x), neg(y)))
        return SymReal(x.r * y.r, nan, And(anyinf, Not(nan), same),
                       And(anyinf, Not(nan), Not(same)))
    if op == "div":
        if nonzero_known(y.r) and not fl:
            return SymReal(z3.simplify(x.r * inv(y.r)))
        if not fl and (E().ghost.get("nodiv0") or E().valid(y.r != 0, E().ghost.get("div0_ms"))):
            return SymReal(z3.simplify(x.r * inv(y.r)))
        if nonzero_known(y.r) and y.fin is True:
            neg = z3.is_true(z3.simplify(y.r < 0))
            return SymReal(x.r * inv(y.r), x.nan, x.ninf if neg else x.pinf,
                           x.pinf if neg else x.ninf)
        yz = And(y.fin, y.r == 0)
        nan = Or(x.nan, y.nan, And(x.inf, y.inf), And(yz, x.fin, x.r == 0))
        pos = lambda v: Or(v.pinf, And(v.fin, v.r > 0))
        neg = lambda v: Or(v.ninf, And(v.fin, v.r < 0))
        # the sign of a zero is not modelled: x/0 has the sign of x
        pinf = And(Not(nan), Or(And(yz, pos(x)), And(x.pinf, Not(neg(y))), And(x.ninf, neg(y))))
        ninf = And(Not(nan), Or(And(yz, neg(x)), And(x.ninf, Not(neg(y))), And(x.pinf, neg(y))))
        return SymReal(Ite(y.inf, z3.RealVal(0), x.r * inv(y.r)), nan, pinf, ninf)
    if op in ("lt", "le", "eq"):
        c = x.r < y.r if op == "lt" else x.r <= y.r if op == "le" else x.r == y.r
        if not fl:
            return wrap(c)
        nn = And(Not(x.nan), Not(y.nan))
        both = And(x.fin, y.fin, c)
        if op == "eq":
            r = Or(both, And(x.pinf, y.pinf), And(x.ninf, y.ninf))
        elif op == "lt":
            r = Or(both, And(x.ninf, Not(y.ninf)), And(y.pinf, Not(x.pinf)))
        else:
            r = Or(both, x.ninf, y.pinf)
        return wrap(boolz(And(nn, r)))
    if op == "pow":
        e = b
        if type(e) is float and e.is_integer():
            e = int(e)
        if type(e) is int:
            if e == 0:
                return SymReal(z3.RealVal(1))
            if 1 <= e <= 12:
                if not x.flagged:
                    return SymReal(z3.simplify(rpow(x.r, e)))
                r = x
                for _ in range(e - 1):
                    r = num_op("mul", r, x)
                return r
            if -12 <= e < 0:
                return num_op("div", 1, num_op("pow", x, -e))
        if isconc(e) and e == 0.5:
            return f_sqrt(x)
        if isinstance(a, (int, float)) and not isinstance(a, Sym):
            if a == 10:
                return f_exp10(y)
        if fl:
            raise Unsupported("power with nan/inf")
        return SymReal(core.PowF(x.r, y.r))
    if op == "floordiv" or op == "mod":
        if fl:
            raise Unsupported("floor division with nan/inf")
        q = core.FloorF(x.r * inv(y.r))
        if op == "floordiv":
            return SymReal(z3.ToReal(q))
        return SymReal(x.r - z3.ToReal(q) * y.r)
    raise Unsupported(op)


def nested(x):
    """a list of rows?"""
    return isinstance(x, (list, tuple)) and type(x) is not XList and any(
        isinstance(r, (list, tuple, SymArr)) for r in x)


ArrListCls = None


# ---- unary real functions
def lift1(f):
    def g(x, *a, **k):
        if k:
            raise Unsupported(f"keyword arguments {sorted(k)}")
        if isinstance(x, (list, tuple)):
            x = ArrListCls(x) if nested(x) else mkarr(x)
        if isinstance(x, SymArr):
            return lift(f, x, *a)
        if hasattr(x, "_dv_map"):
            return x._dv_map(lambda r: lift(f, r, *a) if isinstance(r, SymArr) else f(r, *a))
        return f(x, *a)
    return g


def isconc(x):
    return type(x) in (int, float, bool)


def f_sqrt(x):
    if isconc(x):
        return x ** 0.5 if x >= 0 else float("nan")
    x = real(x)
    t = z3.simplify(x.r)
    if z3.is_rational_value(t) and not x.flagged:
        import math
        n, d = t.numerator_as_long(), t.denominator_as_long()
        if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return SymReal(z3.Q(math.isqrt(n), math.isqrt(d)))
    neg = And(x.fin, x.r < 0)
    if not E().ghost.get("nodiv0") and not isinstance(neg, bool) and E().valid(z3.Not(boolz(neg))):
        neg = False
    return SymReal(core.SqrtF(x.r), Or(x.nan, x.ninf, neg), x.pinf, False)


def _total(fun, domain=None):
    def f(x):
        x = real(x)
        if x.flagged:
            raise Unsupported("transcendental function of nan/inf")
        return SymReal(fun(x.r))
    return f


def f_log10(x):
    x = real(x)
    bad = And(x.fin, x.r <= 0)
    if not isinstance(bad, bool) and E().valid(z3.Not(boolz(bad))):
        bad = False
    if bad is not False:
        return SymReal(core.Log10F(x.r), Or(x.nan, x.ninf, And(x.fin, x.r < 0)), x.pinf,
                       And(x.fin, x.r == 0))
    return SymReal(core.Log10F(x.r), x.nan, x.pinf, False)


f_exp10 = _total(core.Exp10F)
f_sin = _total(core.SinF)
f_cos = _total(core.CosF)
f_exp = _total(core.ExpF)
f_ln = _total(core.LnF)


def f_isnan(x):
    if is_int_like(x):
        return False
    v = real(x).nan
    return v if isinstance(v, bool) else SymBool(v)


def f_isinf(x):
    if is_int_like(x):
        return False
    v = real(x).inf
    return v if isinstance(v, bool) else SymBool(v)


def f_isfinite(x):
    if is_int_like(x):
        return True
    v = real(x).fin
    return v if isinstance(v, bool) else SymBool(v)


def to_int(x):
    """int(x): truncation towards zero"""
    if type(x) is SymInt or isinstance(x, int) and not isinstance(x, Sym):
        return x
    if type(x) is SymBool:
        return x._num()
    if type(x) is SymReal:
        if x.flagged:
            if E().branch(boolz(x.nan)):
                raise_modelled(ValueError("cannot convert float NaN to integer"))
            if E().branch(boolz(x.inf)):
                raise_modelled(OverflowError("cannot convert float infinity to integer"))
        t = z3.simplify(x.r)
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            return wrap(t.arg(0))
        return wrap(z3.If(x.r >= 0, core.FloorF(x.r), -core.FloorF(-x.r)))
    raise Unsupported(f"int({type(x).__name__})")


def f_floor(x):
    if isconc(x):
        import math
        return float(math.floor(x))
    x = real(x)
    if x.flagged:
        raise Unsupported("floor of nan/inf")
    t = z3.simplify(x.r)
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return x
    return SymReal(z3.ToReal(core.FloorF(x.r)))


def f_ceil(x):
    return -f_floor(-x)


def ite(c, a, b):
    """if-then-else on symbolic scalars"""
    if type(c) is bool:
        return a if c else b
    c = zb(c)
    cs = z3.simplify(c)
    if z3.is_true(cs):
        return a
    if z3.is_false(cs):
        return b
    if hasattr(a, "_dv_ite"):
        return a._dv_ite(c, b)
    if (isinstance(a, bool) or type(a) is SymBool) and (isinstance(b, bool) or type(b) is SymBool):
        return wrap(z3.If(c, zb(a), zb(b)))
    if is_int_like(a) and is_int_like(b):
        return wrap(z3.If(c, zi(as_int(a)), zi(as_int(b))))
    if is_num(a) and is_num(b):
        x, y = real(a), real(b)
        return SymReal(z3.simplify(z3.If(c, x.r, y.r)), Or(And(c, x.nan), And(Not(c), y.nan)),
                       Or(And(c, x.pinf), And(Not(c), y.pinf)),
                       Or(And(c, x.ninf), And(Not(c), y.ninf)))
    if a is b:
        return a
    if type(a) in (list, tuple) and type(a) is type(b) and len(a) == len(b):
        return type(a)(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    raise Unsupported(f"if-then-else of {type(a).__name__} and {type(b).__name__}")


def same(a, b):
    """equality of two values as a formula (nan equals nan here: identity of values)"""
    if a is b:
        return True
    if hasattr(a, "_dv_same"):
        return a._dv_same(b)
    if hasattr(b, "_dv_same"):
        return b._dv_same(a)
    if is_num(a) and is_num(b):
        ba = isinstance(a, bool) or type(a) is SymBool
        bb = isinstance(b, bool) or type(b) is SymBool
        if ba and bb:
            return zb(a) == zb(b)
        if is_int_like(a) and is_int_like(b):
            return zi(as_int(a)) == zi(as_int(b))
        x, y = real(a), real(b)
        if not x.flagged and not y.flagged:
            return x.r == y.r
        return And(boolz(x.nan) == boolz(y.nan), boolz(x.pinf) == boolz(y.pinf),
                   boolz(x.ninf) == boolz(y.ninf), Or(Not(And(x.fin, y.fin)), x.r == y.r))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) is not XList \
            and type(b) is not XList:
        if len(a) != len(b):
            return False
        return And(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return False
        return And(*[same(a[k], b[k]) for k in a])
    try:
        return bool(a == b)
    except Unsupported:
        raise


# ------------------------------------------------------------------------------------- arrays
class Fn:
    """memoized function of an index term"""
    __slots__ = ("f", "memo")

    def __init__(self, f):
        self.f, self.memo = f, {}

    def __call__(self, i):
        k = i.get_id()
        r = self.memo.get(k)
        if r is None:
            r = (i, self.f(i))
            self.memo[k] = r
        return r[1]


def mkfn(f):
    return f if isinstance(f, Fn) else Fn(f)


def nz(n):
    """length -> z3 Int"""
    return z3.IntVal(n) if isinstance(n, int) and not isinstance(n, Sym) else (
        n.i if type(n) is SymInt else n)


def nlen(n):
    n = nz(n)
    n = z3.simplify(n)
    return n.as_long() if z3.is_int_value(n) else n


def same_term(a, b):
    a = nz(a)
    b = nz(b)
    return z3.is_true(z3.simplify(a == b))


class SymArr:
    """1-D array: elements fn(i) for 0 <= i < n; `sel` restricts it to the selected i, in order"""
    ndim = 1
    frozen = False

    def __init__(self, n, fn, kind="f", sel=None):
        self.n = nlen(n)
        self.fn = mkfn(fn)
        self.kind = kind
        self.sel = mkfn(sel) if sel is not None else None

    @staticmethod
    def of(items, kind=None):
        items = list(items)
        if kind is None:
            kind = ("b" if items and all(isinstance(x, bool) for x in items) else
                    "i" if items and all(is_int_like(x) for x in items) else
                    "f" if all(is_num(x) for x in items) else "O")
        if kind == "f":
            items = [x if type(x) is SymReal else real(x) for x in items]

        def fn(i):
            if z3.is_int_value(i):
                k = i.as_long()
                if 0 <= k < len(items):
                    return items[k]
                return items[0] if items else 0
            if not items:
                return SymReal(z3.RealVal(0))
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = ite(wrap(i == k), items[k], r)
            return r
        return SymArr(len(items), fn, kind)

    # dv protocol for the loop engine
    def _dv_state(self):
        return (self.n, self.fn, self.kind, self.sel)

    def _dv_set(self, st):
        self.n, self.fn, self.kind, self.sel = st

    @property
    def __class__(self):
        return NdarrayShim if NdarrayShim is not None else SymArr

    @property
    def dtype(self):
        return DType(self.kind)

    @property
    def length(self):
        if self.sel is None:
            return self.n if isinstance(self.n, int) else SymInt(self.n)
        return wrap(CntF(nz(self.n), self.selLam()))

    def selLam(self):
        if self.sel is None:
            return lam(lambda i: z3.BoolVal(True))
        return lam(lambda i: zb(self.sel(i)))

    @property
    def size(self):
        return self.length

    @property
    def shape(self):
        return (self.length,)

    def __len__(self):
        n = self.length
        if isinstance(n, int) and not isinstance(n, Sym):
            return n
        raise Unsupported("len() of a symbolic array (native)")

    def _dv_len(self):
        return self.length

    def __bool__(self):
        if isinstance(self.n, int) and self.n == 1 and self.sel is None:
            return bool(self.at(z3.IntVal(0)))
        raise_modelled(ValueError("The truth value of an array with more than one element is "
                                  "ambiguous."))

    def __hash__(self):
        raise_modelled(TypeError("unhashable type: 'numpy.ndarray'"))

    def at(self, i):
        return self.fn(i)

    def conc(self):
        return isinstance(self.n, int) and self.sel is None

    def items(self):
        if not self.conc():
            raise Unsupported("enumerating a symbolic array")
        return [self.at(z3.IntVal(k)) for k in range(self.n)]

    def __iter__(self):
        if not self.conc():
            raise Unsupported("iterating over a symbolic array (native)")
        return iter(self.items())

    def tolist(self):
        if self.conc():
            return self.items()
        return XList.seq(self.n, self.fn) if self.sel is None else _uns("tolist of a selection")

    # operators
    def _b(self, op, o, rev=False):
        a, b = (o, self) if rev else (self, o)
        return lift(lambda x, y: num_op(op, x, y), a, b)

    def __add__(self, o):
        return self._b("add", o)

    def __radd__(self, o):
        return self._b("add", o, True)

    def __sub__(self, o):
        return self._b("sub", o)

    def __rsub__(self, o):
        return self._b("sub", o, True)

    def __mul__(self, o):
        return self._b("mul", o)

    def __rmul__(self, o):
        return self._b("mul", o, True)

    def __truediv__(self, o):
        return arr_div(self, o)

    def __rtruediv__(self, o):
        return arr_div(o, self)

    def __pow__(self, o):
        return arr_pow(self, o)

    def __rpow__(self, o):
        return self._b("pow", o, True)

    def __mod__(self, o):
        return self._b("mod", o)

    def __floordiv__(self, o):
        return self._b("floordiv", o)

    def __neg__(self):
        return self._b("sub", 0, True)

    def __pos__(self):
        return self

    def __abs__(self):
        return lift(lambda x: abs(x), self)

    def __lt__(self, o):
        return self._b("lt", o)

    def __le__(self, o):
        return self._b("le", o)

    def __gt__(self, o):
        return self._b("lt", o, True)

    def __ge__(self, o):
        return self._b("le", o, True)

    def __eq__(self, o):
        if o is None:
            return lift(lambda x: False, self)
        return self._b("eq", o)

    def __ne__(self, o):
        return ~(self == o)

    def __and__(self, o):
        return lift(lambda x, y: wrap(boolz(And(zb(x), zb(y)))), self, o)

    __rand__ = __and__

    def __or__(self, o):
        return lift(lambda x, y: wrap(boolz(Or(zb(x), zb(y)))), self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return lift(lambda x, y: wrap(z3.Xor(zb(x), zb(y))), self, o)

    __rxor__ = __xor__

    def __invert__(self):
        if self.kind != "b":
            raise Unsupported("~ on a non-boolean array")
        return lift(lambda x: wrap(z3.Not(zb(x))), self)

    def _ip(self, r):
        self.chk()
        if self.kind == "f" or r.kind == self.kind:
            if not compat(self, r):
                raise Unsupported("in-place operation changes the shape")
            self.fn = r.fn
            return self
        raise Unsupported("in-place operation changes the dtype")

    def chk(self):
        if self.frozen:
            raise Unsupported("write through a view")

    def __iadd__(self, o):
        return self._ip(self + o)

    def __isub__(self, o):
        return self._ip(self - o)

    def __imul__(self, o):
        return self._ip(self * o)

    def __itruediv__(self, o):
        return self._ip(self / o)

    def __iand__(self, o):
        return self._ip(self & o)

    def __ior__(self, o):
        return self._ip(self | o)

    # reductions
    def selz(self, i):
        return True if self.sel is None else self.sel(i)

    def sum(self, axis=None, **k):
        _axis(axis, k)
        return a_sum(self)

    def mean(self, axis=None, **k):
        _axis(axis, k)
        return a_mean(self)

    def std(self, axis=None, ddof=0, **k):
        _axis(axis, k)
        var = self.var(ddof=ddof)
        if isinstance(var, SymReal) and E().valid(zi(self.length) > zi(ddof)):
            return SymReal(core.SqrtF(var.r), Or(var.nan, var.ninf), var.pinf)   # not negative
        return f_sqrt(var)

    def var(self, axis=None, ddof=0, **k):
        _axis(axis, k)
        m = a_mean(self)
        d = self - m
        return num_op("div", a_sum(d * d), num_op("sub", self.length, ddof))

    def max(self, axis=None, **k):
        _axis(axis, k)
        return a_max(self)

    def min(self, axis=None, **k):
        _axis(axis, k)
        return a_min(self)

    def any(self, axis=None, **k):
        _axis(axis, k)
        return a_any(self)

    def all(self, axis=None, **k):
        _axis(axis, k)
        return a_all(self)

    def copy(self, *a, **k):
        return SymArr(self.n, self.fn, self.kind, self.sel)

    def flatten(self):
        return self.copy()

    def ravel(self):
        return self.copy()

    def squeeze(self):
        return self

    @property
    def T(self):
        return self

    def astype(self, t, **k):
        kd = kind_of(t)
        if kd == self.kind or kd == "O":
            return self.copy()
        if kd == "f" and self.kind in "ib":
            return lift(real, self).as_kind("f")
        if kd == "i" and self.kind == "f":
            return lift(to_int, self).as_kind("i")
        if kd == "i" and self.kind == "b":
            return lift(lambda x: as_int(x), self).as_kind("i")
        if kd == "b":
            return lift(lambda x: wrap(zb(x)), self).as_kind("b")
        raise Unsupported(f"astype({t})")

    def as_kind(self, k):
        self.kind = k
        return self

    def argmax(self):
        return arg_ext(self, True)

    def argmin(self):
        return arg_ext(self, False)

    def clip(self, lo=None, hi=None):
        return lift(lambda x: f_clip(x, lo, hi), self)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if shape == (-1,):
            return self
        if len(shape) == 1 and same_term(zi(shape[0]), self.n):
            return self
        raise Unsupported("reshape")

    def __contains__(self, v):
        return bool(a_any(self == v))

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"ndarray.{nm}")

    # indexing
    def __getitem__(self, ix):
        if ix is Ellipsis or (isinstance(ix, tuple) and len(ix) == 0):
            return self
        if isinstance(ix, tuple) and len(ix) == 1:
            ix = ix[0]
        if isinstance(ix, tuple):
            raise Unsupported("multi-dimensional index of a 1-D array")
        if isinstance(ix, list):
            ix = mkarr(ix)
        if isinstance(ix, slice):
            if self.sel is not None:
                if ix == slice(None):
                    return self.copy()
                raise Unsupported("slice of a selection")
            lo, n = norm_slice(ix, self.n)
            step = ix.step
            fn = self.fn
            if step in (None, 1):
                r = SymArr(n, lambda i: fn(z3.simplify(i + lo)), self.kind)
            elif step == -1:
                r = SymArr(n, lambda i: fn(z3.simplify(lo - i)), self.kind)
            else:
                raise Unsupported("slice step")
            r.frozen = True
            return r
        if getattr(type(ix), "_dv_series", False) and hasattr(ix, "_dv_toarr"):
            ix = ix._dv_toarr()
        if isinstance(ix, SymArr):
            if ix.kind == "b":
                if not compat(self, ix):
                    raise_modelled(IndexError("boolean index did not match"))
                s0, m = self.sel, ix.fn
                sel = m if s0 is None else Fn(lambda i: wrap(z3.And(zb(s0(i)), zb(m(i)))))
                return SymArr(self.n, self.fn, self.kind, sel)
            if ix.kind == "i" and self.sel is None:
                f, g = self.fn, ix.fn
                return SymArr(ix.n, lambda i: f(zi(g(i))), self.kind, ix.sel)
            raise Unsupported("fancy index")
        i = zi(ix) if is_int_like(ix) else _uns(f"index {type(ix).__name__}")
        return self.pos(i)

    def pos(self, i):
        i = z3.simplify(i)
        if self.sel is None:
            n = nz(self.n)
            neg = z3.is_int_value(i) and i.as_long() < 0
            if neg:
                if not E().branch(n >= -i):
                    raise_modelled(IndexError("index out of bounds"))
                return self.at(z3.simplify(n + i))
            if not z3.is_int_value(i) and E().branch(i < 0):
                if not E().branch(n >= -i):
                    raise_modelled(IndexError("index out of bounds"))
                return self.at(z3.simplify(n + i))
            if not E().branch(i < n):
                raise_modelled(IndexError("index out of bounds"))
            return self.at(i)
        if z3.is_int_value(i) and i.as_long() in (0, -1):
            L = self.selLam()
            if not E().branch(CntF(nz(self.n), L) > 0):
                raise_modelled(IndexError("index 0 is out of bounds for axis 0 with size 0"))
            return self.at((FirstF if i.as_long() == 0 else LastF)(nz(self.n), L))
        raise Unsupported("position in a selection")

    def __setitem__(self, ix, v):
        self.chk()
        if isinstance(ix, tuple) and len(ix) == 1:
            ix = ix[0]
        old = self.fn
        conv = (lambda x: real(x)) if self.kind == "f" else (lambda x: x)
        if isinstance(ix, slice) or ix is Ellipsis:
            if ix is Ellipsis or ix == slice(None):
                if isinstance(v, SymArr):
                    if not compat(self, v):
                        raise_modelled(ValueError("could not broadcast input array"))
                    vf = v.fn
                    self.fn = Fn(lambda i: conv(vf(i)))
                else:
                    self.fn = Fn(lambda i: conv(v))
                return
            if self.sel is not None:
                raise Unsupported("slice store in a selection")
            lo, n = norm_slice(ix, self.n)
            if ix.step not in (None, 1):
                raise Unsupported("slice step")
            n = nz(n)
            if isinstance(v, (list, tuple)):
                v = mkarr(v)
            if isinstance(v, SymArr):
                if not E().branch(nz(v.n) == n):
                    raise_modelled(ValueError("could not broadcast input array"))
                vf = v.fn
                self.fn = Fn(lambda i: ite(wrap(z3.And(lo <= i, i < lo + n)),
                                           conv(vf(z3.simplify(i - lo))), old(i)))
            else:
                self.fn = Fn(lambda i: ite(wrap(z3.And(lo <= i, i < lo + n)), conv(v), old(i)))
            return
        if isinstance(ix, (list, tuple)):
            ix = mkarr(ix)
        if isinstance(ix, SymArr):
            if ix.kind != "b":
                raise Unsupported("fancy store")
            if not compat(self, ix):
                raise_modelled(IndexError("boolean index did not match"))
            m = ix.fn
            if isinstance(v, SymArr):
                if isinstance(v.n, int) and v.n == 1 and v.sel is None:
                    v = v.at(z3.IntVal(0))
                else:
                    # the value must be the same selection
                    if v.sel is None or not same_sel(
                            v, SymArr(self.n, old, self.kind,
                                      m if self.sel is None else Fn(lambda i: wrap(
                                          z3.And(zb(self.sel(i)), zb(m(i))))))):
                        raise Unsupported("masked store of another selection")
                    vf = v.fn
                    self.fn = Fn(lambda i: ite(m(i), conv(vf(i)), old(i)))
                    return
            self.fn = Fn(lambda i: ite(m(i), conv(v), old(i)))
            return
        i0 = zi(ix) if is_int_like(ix) else _uns(f"store index {type(ix).__name__}")
        if self.sel is not None:
            raise Unsupported("store in a selection")
        n = nz(self.n)
        i0 = z3.simplify(i0)
        if (z3.is_int_value(i0) and i0.as_long() < 0) or (
                not z3.is_int_value(i0) and E().branch(i0 < 0)):
            i0 = z3.simplify(n + i0)
        if not E().branch(z3.And(0 <= i0, i0 < n)):
            raise_modelled(IndexError("index out of bounds"))
        if isinstance(v, SymArr):
            v = v.pos(z3.IntVal(0)) if isinstance(v.n, int) and v.n == 1 else _uns("array in cell")
        self.fn = Fn(lambda i: ite(wrap(i == i0), conv(v), old(i)))


NdarrayShim = None  # set by the numpy stub


class DType:
    def __init__(self, kind):
        self.kind = kind

    def __str__(self):
        return {"f": "float64", "i": "int64", "b": "bool", "O": "object"}[self.kind]

    def __eq__(self, o):
        if isinstance(o, str):
            return str(self) == o or (o == "float" and self.kind == "f") or (
                o == "int" and self.kind == "i")
        return kind_of(o) == self.kind

    def __hash__(self):
        return hash(self.kind)

    @property
    def name(self):
        return str(self)


def kind_of(t):
    if isinstance(t, DType):
        return t.kind
    nm = t if isinstance(t, str) else getattr(t, "_dv_kind", None) or getattr(t, "__name__", "")
    nm = str(nm).lower()
    if nm in ("f", "float", "float64", "float32", "double"):
        return "f"
    if nm in ("i", "int", "int64", "int32", "integer"):
        return "i"
    if nm in ("b", "bool", "bool_"):
        return "b"
    if nm in ("o", "object", "str"):
        return "O"
    raise Unsupported(f"dtype {t}")


def _uns(msg):
    raise Unsupported(msg)


def _axis(axis, k):
    k = {a: b for a, b in k.items() if b is not None}
    if axis not in (None, 0) or k:
        raise Unsupported(f"reduction over axis {axis} {k}")


def norm_slice(ix, n):
    """(start, length) as z3 terms of a slice over length n"""
    n = nz(n)
    rev = ix.step == -1

    def clampz(x, dflt):
        if x is None:
            return dflt
        x = zi(x)
        x = z3.If(x < 0, x + n, x)
        return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
    if rev:
        if ix.start is not None or ix.stop is not None:
            raise Unsupported("reversed slice with bounds")
        return z3.simplify(n - 1), z3.simplify(n)
    a, b = clampz(ix.start, z3.IntVal(0)), clampz(ix.stop, n)
    ln = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
    return z3.simplify(a), ln


def same_sel(a, b):
    if a.sel is None and b.sel is None:
        return same_term(a.n, b.n)
    if not same_term(a.n, b.n):
        return False
    la, lb = a.selLam(), b.selLam()
    if la.get_id() == lb.get_id() or la.eq(lb):
        return True
    i = E().fresh_int("ss")
    return E().valid(z3.Implies(z3.And(0 <= i, i < nz(a.n)),
                                zb(a.selz(i)) == zb(b.selz(i))))


def compat(a, b):
    """do two arrays have the same elements positions? decides on the path"""
    if a.sel is None and b.sel is None:
        return same_term(a.n, b.n) or E().branch(nz(a.n) == nz(b.n))
    if same_sel(a, b):
        return True
    raise Unsupported("arrays of different selections")


def constant(a):
    """is a dense array of any length constant?"""
    if isinstance(a.n, int):
        return False
    from .core import has_const
    v = a.at(E_probe())
    return is_num(v) and not any(not isinstance(t, bool) and has_const(t, E_probe()) for t in (
        v.terms() if isinstance(v, Sym) else ()))


def lift(f, *args):
    for a in args:
        if hasattr(type(a), "_dv_lift"):
            return a._dv_lift(f, args)
    if any(hasattr(type(a), "_dv_series") for a in args):
        s = next(a for a in args if hasattr(type(a), "_dv_series"))
        return type(s)(lift(f, *[a.a if hasattr(type(a), "_dv_series") else a for a in args]))
    args = [mkarr(a) if isinstance(a, (list, tuple)) else a for a in args]
    arrs = [a for a in args if isinstance(a, SymArr)]
    if not arrs:
        return f(*args)
    main = arrs[0]
    if main.sel is None and constant(main):
        main = next((a for a in arrs if a.sel is not None), main)
    for a in arrs[1:]:
        if isinstance(main.n, int) and main.n == 1 and main.sel is None:
            main = a
    fns = []
    for a in args:
        if isinstance(a, SymArr):
            if a is not main:
                if isinstance(a.n, int) and a.n == 1 and a.sel is None and not (
                        isinstance(main.n, int) and main.n == 1):
                    v = a.at(z3.IntVal(0))
                    fns.append(lambda i, v=v: v)
                    continue
                if main.sel is not None and a.sel is None and constant(a):
                    if not E().branch(nz(main.length) == nz(a.n)):
                        raise_modelled(ValueError("operands could not be broadcast together"))
                    v = a.at(E_probe())
                    fns.append(lambda i, v=v: v)
                    continue
                if not compat(main, a):
                    raise_modelled(ValueError("operands could not be broadcast together"))
            fns.append(a.fn)
        else:
            fns.append(lambda i, a=a: a)
    r = SymArr(main.n, Fn(lambda i: f(*[g(i) for g in fns])), "f", main.sel)
    probe = r.at(E_probe())
    r.kind = "b" if (isinstance(probe, bool) or type(probe) is SymBool) else (
        "i" if is_int_like(probe) else "f" if is_num(probe) else "O")
    return r


_probe = None


def E_probe():
    global _probe
    if _probe is None:
        _probe = z3.Int("probe!")
    return _probe


def no_flag_div(den):
    """is the denominator array known to be non-zero on its whole range?"""
    if not isinstance(den, SymArr):
        return not isinstance(den, SymReal) or den.fin is True and E().valid(den.r != 0)
    i = E().fresh_int("dz")
    v = real(den.at(i))
    if v.flagged:
        return False
    return E().valid(z3.Implies(z3.And(0 <= i, i < nz(den.n), zb(den.selz(i))), v.r != 0))


def arr_div(a, b):
    ok = no_flag_div(b)

    def f(x, y):
        if ok:
            old = E().ghost.get("nodiv0")
            E().ghost["nodiv0"] = True
            try:
                return num_op("div", x, y)
            finally:
                E().ghost["nodiv0"] = old
        return num_op("div", x, y)
    return lift(f, a, b)


def arr_pow(a, e):
    if is_num(e) and isconc(e) and e < 0:
        return arr_div(1, arr_pow(a, -e))
    return a._b("pow", e)


def a_sum(a, where=None):
    if a.kind == "b":
        return wrap(CntF(nz(a.n), lam(lambda i: z3.And(zb(a.selz(i)), zb(a.at(i))))))
    if a.conc() and a.n <= 6:
        r = 0 if a.kind == "i" else SymReal(z3.RealVal(0))
        for x in a.items():
            r = r + x
        return r
    pr = real(a.at(E_probe()))
    tot = msum(a.n, lambda i: real(a.at(i)).r, a.sel)
    if not pr.flagged:
        if a.kind == "i":
            return wrap(z3.ToInt(tot))
        return SymReal(tot)
    n = nz(a.n)
    fl = lambda g: sb(AnyF(n, lam(lambda i: z3.And(zb(a.selz(i)), boolz(g(real(a.at(i))))))))
    an, ap, am = fl(lambda v: v.nan), fl(lambda v: v.pinf), fl(lambda v: v.ninf)
    # drop flags which cannot be set
    i = E().fresh_int("fl")
    v = real(a.at(i))
    if E().valid(z3.Implies(z3.And(0 <= i, i < n, zb(a.selz(i))), boolz(v.fin))):
        return SymReal(tot)
    nan = Or(an, And(ap, am))
    return SymReal(tot, nan, And(ap, Not(nan)), And(am, Not(nan)))


def monomials(t):
    t = z3.simplify(t, som=True, arith_lhs=False)
    return list(t.children()) if z3.is_app_of(t, z3.Z3_OP_ADD) else [t]


def msum(n, f, sel=None):
    """canonical Sum: expanded into monomials, factors free of the index pulled out"""
    n = nz(n)
    t = z3.Int("t!sum%d" % next(core._tmp))
    body = f(t)
    cond = None if sel is None else zb(sel(t))
    total = z3.RealVal(0)
    for m in monomials(body):
        fac = [m]
        if z3.is_app_of(m, z3.Z3_OP_MUL):
            fac = list(m.children())
        free = [x for x in fac if not core.has_const(x, t)]
        bound = [x for x in fac if core.has_const(x, t)]
        c = z3.RealVal(1)
        for x in free:
            c = c * x
        if cond is not None and not core.has_const(cond, t) and not bound:
            pass
        if not bound:
            if cond is None:
                s = z3.If(n > 0, z3.ToReal(n), z3.RealVal(0))
                if E().valid(n >= 0):
                    s = z3.ToReal(n)
            else:
                s = z3.ToReal(CntF(n, lam(lambda i: z3.substitute(cond, (t, i)))))
        else:
            b = bound[0]
            for x in bound[1:]:
                b = b * x
            if cond is not None:
                b = z3.If(cond, b, z3.RealVal(0))
            b = z3.simplify(b, arith_lhs=False)
            s = SumF(n, lam(lambda i: z3.substitute(b, (t, i))))
        total = total + c * s
    return z3.simplify(total, som=True)


def a_mean(a):
    if isinstance(a.length, int) and not isinstance(a.length, Sym) and a.length == 0:
        return SymReal(z3.RealVal(0), True)
    return num_op("div", a_sum(a), a.length)


def _mask(a):
    return a.selLam()


def _flags_none(a):
    v = real(a.at(E_probe()))
    if not v.flagged:
        return True
    i = E().fresh_int("fl")
    v = real(a.at(i))
    return E().valid(z3.Implies(z3.And(0 <= i, i < nz(a.n), zb(a.selz(i))), boolz(v.fin)))


def _ext(a, F, what):
    if not E().branch(boolz(zb_nonempty(a))):
        raise_modelled(ValueError(f"zero-size array to reduction operation {what}"))
    if a.kind == "b":
        raise Unsupported("min/max of booleans")
    if not _flags_none(a):
        raise Unsupported("min/max with nan/inf")
    t = F(nz(a.n), _mask(a), lam(lambda i: real(a.at(i)).r))
    if a.kind == "i":
        return wrap(z3.ToInt(t))
    return SymReal(t)


def zb_nonempty(a):
    if a.sel is None:
        return nz(a.n) > 0
    return CntF(nz(a.n), _mask(a)) > 0


def _few(xs, before):
    r = xs[0]
    for x in xs[1:]:
        nan = False if is_int_like(x) else real(x).nan
        c = before(r, x)
        c = zb(c) if not isinstance(c, bool) else c
        r = ite(wrap(boolz(Or(c, nan))), x, r)    # nan is kept: nothing is before or after it
    return r


def a_max(a):
    if a.conc() and a.n <= 3:
        return _few(a.items(), lambda r, x: num_op("lt", r, x))
    return _ext(a, MaxF, "maximum")


def a_min(a):
    if a.conc() and a.n <= 3:
        return _few(a.items(), lambda r, x: num_op("lt", x, r))
    return _ext(a, MinF, "minimum")


def a_median(a):
    if not _flags_none(a):
        raise Unsupported("median with nan/inf")
    return SymReal(MedF(nz(a.n), _mask(a), lam(lambda i: real(a.at(i)).r)),
                   Not(boolz(zb_nonempty(a))))


def a_any(a):
    if a.conc() and a.n <= 6:
        return wrap(boolz(Or(*[zb(x) for x in a.items()])))
    pr = a.at(E_probe())
    if pr is False:
        return False
    c = _const_body(a)
    if c is not None:
        return wrap(z3.And(nz(a.n) > 0, c))
    L = lam(lambda i: z3.And(zb(a.selz(i)), zb(a.at(i))))
    return wrap(AnyF(nz(a.n), L))


def _const_body(a):
    """the truth value of the elements if it is the same for all of them"""
    if a.sel is not None:
        return None
    p = E_probe()
    t = z3.simplify(zb(a.at(p)))
    return None if core.has_const(t, p) else t


def a_all(a):
    if a.conc() and a.n <= 6:
        return wrap(boolz(And(*[zb(x) for x in a.items()])))
    pr = a.at(E_probe())
    if pr is True:
        return True
    c = _const_body(a)
    if c is not None:
        return wrap(z3.Or(nz(a.n) <= 0, c))
    L = lam(lambda i: z3.And(zb(a.selz(i)), z3.Not(zb(a.at(i)))))
    return wrap(z3.Not(AnyF(nz(a.n), L)))


def arg_ext(a, is_max):
    if a.sel is not None:
        raise Unsupported("argmax of a selection")
    if a.conc():
        xs = list(a)
        if xs and all(isinstance(x, (bool, int, float)) and x == x for x in xs):
            return xs.index(max(xs) if is_max else min(xs))
    m = a_max(a) if is_max else a_min(a)
    L = lam(lambda i: real(a.at(i)).r == real(m).r)
    return wrap(FirstF(nz(a.n), L))


def f_clip(x, lo, hi):
    r = x
    if lo is not None:
        r = ite(num_op("lt", r, lo) if not isconc(r) or not isconc(lo) else r < lo, lo, r)
    if hi is not None:
        r = ite(num_op("lt", hi, r) if not isconc(r) or not isconc(hi) else hi < r, hi, r)
    return r


def mkarr(x):
    if isinstance(x, SymArr):
        return x
    if hasattr(type(x), "_dv_series"):
        return x.a
    if type(x) is XList:
        if x.sym:
            n, fn = x.n, x.fn
            pr = fn(E_probe())
            if not is_num(pr):
                raise Unsupported("array of a symbolic list of objects")
            r = SymArr(n, fn, "f")
            r.kind = "b" if (isinstance(pr, bool) or type(pr) is SymBool) else (
                "i" if is_int_like(pr) else "f")
            return r
        x = list(x)
    if isinstance(x, (list, tuple, range)):
        if any(isinstance(v, (list, tuple, SymArr)) for v in x):
            raise Unsupported("array of sequences")
        return SymArr.of(x)
    raise Unsupported(f"array of {type(x).__name__}")


class XList:
    """list of symbolic length (fn(i), 0 <= i < n), followed by concrete appended items"""

    def __init__(self, n=0, fn=None, tail=()):
        self.n0, self.fn0, self.tail = nlen(n), (mkfn(fn) if fn else None), list(tail)

    @staticmethod
    def seq(n, fn):
        return XList(n, fn)

    def _dv_state(self):
        return (self.n0, self.fn0, list(self.tail))

    def _dv_set(self, st):
        self.n0, self.fn0, self.tail = st[0], st[1], list(st[2])

    @property
    def __class__(self):
        return list

    @property
    def sym(self):
        return not isinstance(self.n0, int)

    @property
    def n(self):
        return nlen(nz(self.n0) + len(self.tail)) if self.sym else self.n0 + len(self.tail)

    def at(self, i):
        if self.n0 == 0 and isinstance(self.n0, int):
            return SymArr.of(self.tail, "O").at(i)
        if not self.tail:
            return self.fn0(i)
        r = self.fn0(i)
        for k, v in enumerate(self.tail):
            r = ite(wrap(i == nz(self.n0) + k), v, r)
        return r

    @property
    def fn(self):
        c = XList(self.n0, self.fn0, self.tail)
        return Fn(c.at)

    def _dv_len(self):
        n = self.n
        return n if isinstance(n, int) else SymInt(n)

    def __len__(self):
        if self.sym:
            raise Unsupported("len() of a symbolic list (native)")
        return self.n

    def __bool__(self):
        n = self.n
        return n > 0 if isinstance(n, int) else E().branch(n > 0)

    def __iter__(self):
        if self.sym:
            return self._few_items()
        return iter([self.fn0(z3.IntVal(k)) for k in range(self.n0)] + list(self.tail))

    def _few_items(self):
        """natively iterated (unpacked): only a list whose length is known to be small on this path"""
        for k in range(8):
            if not E().branch(nz(self.n) > k):
                return
            yield self.at(z3.IntVal(k))
        raise Unsupported("iterating over a symbolic list (native)")

    def append(self, v):
        self.tail.append(v)

    def extend(self, o):
        if type(o) is XList and o.sym:
            if self.sym or self.n:
                raise Unsupported("extending by a symbolic list")
            self._dv_set(o._dv_state())
            return
        self.tail.extend(list(o))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = XList(self.n0, self.fn0, self.tail)
        r.extend(o)
        return r

    def __radd__(self, o):
        raise Unsupported("list + symbolic list")

    def copy(self):
        return XList(self.n0, self.fn0, self.tail)

    def __getitem__(self, ix):
        if isinstance(ix, slice):
            if ix == slice(None):
                return self.copy()
            if ix.step in (None, 1) and ix.stop is None and type(ix.start) is int and ix.start >= 0 and not self.tail:
                c, n = ix.start, nz(self.n)
                if not E().branch(n >= c):
                    return []
                f = self.fn0
                return XList.seq(z3.simplify(n - c), lambda i: f(i + c))
            raise Unsupported("slice of a symbolic list")
        i = zi(ix)
        n = nz(self.n)
        i = z3.simplify(i)
        if z3.is_int_value(i) and i.as_long() < 0:
            i = z3.simplify(n + i)
        if not E().branch(z3.And(0 <= i, i < n)):
            raise_modelled(IndexError("list index out of range"))
        return self.at(i)

    def __eq__(self, o):
        raise Unsupported("comparison of a symbolic list")

    __hash__ = None

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"list.{nm} on a symbolic list")


# ------------------------------------------------------------------ fresh inputs
def fresh_int(hint="n", lo=None, hi=None):
    v = E().fresh_int(hint)
    if lo is not None:
        E().assume(v >= lo)
    if hi is not None:
        E().assume(v <= hi)
    return SymInt(v)


def fresh_real(hint="x", nan=False, inf=False, pos=False):
    v = E().fresh_real(hint)
    if pos:
        E().assume(v > 0)
    return SymReal(v, E().fresh_bool(hint + "_nan") if nan else False,
                   E().fresh_bool(hint + "_pinf") if inf else False,
                   E().fresh_bool(hint + "_ninf") if inf else False)


def fresh_bool(hint="b"):
    return SymBool(E().fresh_bool(hint))


def fresh_arr(hint, n, pos=False, nan=False, inf=False, kind="f", nonzero=False):
    """array of arbitrary values; registers the element function for instantiation"""
    eng = E()
    n_ = nz(n)
    sort = {"f": core.R, "i": core.I, "b": core.B}[kind]
    f = eng.register_fun(eng.fresh_fun(hint, core.I, sort))
    if pos:
        eng.add_axiom(f, lambda i: z3.Implies(z3.And(0 <= i, i < n_), f(i) > 0))
    if nonzero:
        eng.add_axiom(f, lambda i: z3.Implies(z3.And(0 <= i, i < n_), f(i) != 0))
    fl = []
    for nm, on in (("nan", nan), ("pinf", inf), ("ninf", inf)):
        fl.append(eng.register_fun(eng.fresh_fun(f"{hint}_{nm}", core.I, core.B)) if on else None)
    if nan or inf:
        for a, b in itertools.combinations([g for g in fl if g is not None], 2):
            eng.add_axiom(a, lambda i, a=a, b=b: z3.Not(z3.And(a(i), b(i))))
    if kind == "i":
        r = SymArr(n_, lambda i: SymInt(f(i)), "i")
    elif kind == "b":
        r = SymArr(n_, lambda i: SymBool(f(i)), "b")
    else:
        r = SymArr(n_, lambda i: SymReal(f(i), *[g(i) if g is not None else False for g in fl]))
    r.base = f
    return r
