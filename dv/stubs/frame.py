"""pandas tables as a specification: a table is n base rows, one function of the row per column, and
the predicate telling which rows are left (in order).  Assumed contracts on a dependency."""
from __future__ import annotations

import ast
import sys

import z3

from .. import core, values as V
from ..core import E, Unsupported, raise_modelled
from ..loops import SymSeq, ident
from ..values import (Fn, Or, Sym, SymArr, SymInt, SymReal, XList, a_all, a_any, a_max, a_mean, a_min,
                      a_sum, boolz, is_int_like, is_num, ite, lift, mkarr, nlen, num_op, nz, real, wrap,
                      zb, zi, zr)


def _uns(m):
    raise Unsupported(m)


FmtF = {}


def rounded(v, spec):
    """number read back from its text: exact with the default format (assumed), else rounded"""
    if spec in ("", "r", "s"):
        return v
    f = FmtF.setdefault(spec, z3.Function(f"round!{len(FmtF)}", core.R, core.R))
    r = real(v)
    return SymReal(f(r.r), r.nan, r.pinf, r.ninf)


def untoken(text):
    """the number a text stands for"""
    t = E().tokens.get(text)
    return None if t is None else rounded(*t)


class Index:
    def __init__(self, frame):
        self.frame = frame

    def _dv_len(self):
        return self.frame._dv_len()

    @property
    def size(self):
        return self.frame._dv_len()

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"pandas index .{nm}")


class Series:
    """one column; `a` is the array of the rows left"""
    _dv_series = True

    def __init__(self, a, name=None):
        self.a, self.name = a, name

    # adapters
    def _dv_toarr(self):
        return self.a

    def _dv_nparray(self, dtype=None):
        r = self.a.copy()
        return r if dtype is None else r.astype(dtype)

    def _dv_map(self, f):
        return Series(f(self.a), self.name)

    def _dv_len(self):
        return self.a.length

    def _dv_symiter(self):
        return SymSeq(self.a.n, self.a.fn, self.a.sel)

    def _dv_vmap(self, f):
        from ..loops import vmap
        return Series(vmap(self.a, f), self.name)

    def _dv_terms(self, j):
        return [self.a]

    def _dv_reduce(self, nm):
        return getattr(self, nm)()

    def __iter__(self):
        raise Unsupported("native iteration over a column")

    @property
    def values(self):
        r = self.a.copy()
        r.frozen = True
        return r

    def to_numpy(self, dtype=None, **k):
        if k:
            raise Unsupported("to_numpy options")
        r = self.a.copy()
        return r if dtype is None else r.astype(dtype)

    to_list = tolist = lambda self: self.a.tolist()

    @property
    def dtype(self):
        return self.a.dtype

    @property
    def size(self):
        return self.a.length

    @property
    def shape(self):
        return (self.a.length,)

    @property
    def empty(self):
        return num_op("eq", self.a.length, 0)

    ndim = 1

    def copy(self, deep=True):
        return Series(self.a.copy(), self.name)

    def _valid(self):
        a = self.a
        if a.kind != "f" or not real(a.at(V.E_probe())).flagged:
            return a
        f = a.fn
        return SymArr(a.n, Fn(lambda i: SymReal(f(i).r, False, f(i).pinf, f(i).ninf)), "f",
                      Fn(lambda i: wrap(z3.And(zb(a.selz(i)), z3.Not(boolz(f(i).nan))))))

    def dropna(self):
        return Series(self._valid(), self.name)

    def _red(self, f, skipna, k):
        if k.pop("axis", None) not in (None, 0) or k:
            raise Unsupported("column reduction options")
        return f(self._valid() if skipna else self.a)

    def sum(self, skipna=True, **k):
        return self._red(a_sum, skipna, k)

    def mean(self, skipna=True, **k):
        return self._red(a_mean, skipna, k)

    def min(self, skipna=True, **k):
        return self._red(lambda a: self._ext(a, a_min), skipna, k)

    def max(self, skipna=True, **k):
        return self._red(lambda a: self._ext(a, a_max), skipna, k)

    def _ext(self, a, f):
        if not E().branch(boolz(V.zb_nonempty(a))):
            return float("nan")
        return f(a)

    def count(self):
        return self._valid().length

    def any(self, **k):
        return a_any(self.a)

    def all(self, **k):
        return a_all(self.a)

    def var(self, ddof=1, skipna=True, **k):
        return self._red(lambda a: a.var(ddof=ddof), skipna, k)

    def std(self, ddof=1, skipna=True, **k):
        return self._red(lambda a: a.std(ddof=ddof), skipna, k)

    def sem(self, ddof=1, skipna=True, **k):
        def f(a):
            return num_op("div", a.std(ddof=ddof), V.f_sqrt(a.length))
        return self._red(f, skipna, k)

    def isna(self):
        return Series(lift(V.f_isnan, self.a))

    isnull = isna

    def notna(self):
        return ~self.isna()

    notnull = notna

    def between(self, a, b, inclusive="both"):
        lo = self >= a if inclusive in ("both", "left") else self > a
        hi = self <= b if inclusive in ("both", "right") else self < b
        return lo & hi

    def astype(self, t):
        return Series(self.a.astype(t), self.name)

    def reset_index(self, drop=False, **k):
        return self if drop and not k else _uns("reset_index")

    @property
    def iloc(self):
        return ILoc(self)

    @property
    def loc(self):
        return self

    def __getitem__(self, ix):
        m = ix.a if isinstance(ix, Series) else ix
        if isinstance(m, SymArr) and m.kind == "b":
            return Series(self.a[m], self.name)
        if is_int_like(m) and self.a.sel is None:
            return self.a[m]
        raise Unsupported("label index of a column")

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"pandas Series.{nm}")

    def __bool__(self):
        raise_modelled(ValueError("The truth value of a Series is ambiguous."))

    def _o(self, f, o):
        if isinstance(o, Series):
            o = o.a
        return Series(f(self.a, o))

    def __invert__(self):
        return Series(~self.a)

    def __neg__(self):
        return Series(-self.a)

    def __abs__(self):
        return Series(abs(self.a))

    __hash__ = None


def _op(nm):
    def f(self, o):
        if isinstance(o, (list, tuple)):
            o = mkarr(o)
        return self._o(lambda a, b: getattr(a, nm)(b), o)
    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "rpow", "mod",
           "floordiv", "lt", "le", "gt", "ge", "eq", "ne", "and", "or", "xor"):
    setattr(Series, f"__{_n}__", _op(f"__{_n}__"))


class ILoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, i):
        if isinstance(self.s, Series):
            if is_int_like(i):
                return self.s.a.pos(zi(i))
            if isinstance(i, slice):
                return Series(self.s.a[i], self.s.name)
        elif is_int_like(i):
            return Row(self.s, i)
        raise Unsupported("iloc")


class Row:
    def __init__(self, fr, i):
        self.fr, self.i = fr, i

    def __getitem__(self, c):
        return self.fr[c].a.pos(zi(self.i))

    def __getattr__(self, c):
        if c.startswith("_"):
            raise AttributeError(c)
        return self[c]


class Loc:
    def __init__(self, fr, at=False):
        self.fr, self.at = fr, at

    def _row(self, i):
        """a row label is its position only for tables with the default index"""
        if not self.fr.ranged or self.fr.sel is not None:
            raise Unsupported("row label of a table without the default index")
        i = z3.simplify(zi(i))
        known = E().ghost.setdefault("rows_in_range", {})
        key = (i.get_id(), nz(self.fr.n).get_id())
        if key not in known:
            if not E().branch(z3.And(0 <= i, i < nz(self.fr.n))):
                raise Unsupported("row label out of range")
            known[key] = (i, nz(self.fr.n))
        return i

    def __getitem__(self, ix):
        if isinstance(ix, tuple) and len(ix) == 2:
            r, c = ix
            if is_int_like(r) and isinstance(c, str):
                return self.fr._fn(c)(self._row(r))
            if isinstance(r, slice) and r == slice(None):
                return self.fr[c]
            return self.fr[r][c]
        if isinstance(ix, (Series, SymArr)):
            return self.fr[ix]
        if is_int_like(ix):
            return Row(self.fr, wrap(self._row(ix)))
        raise Unsupported("loc")

    def __setitem__(self, ix, v):
        fr = self.fr
        if not (isinstance(ix, tuple) and len(ix) == 2):
            raise Unsupported("store of a row")
        r, cs = ix
        if isinstance(cs, (list, tuple)) and isinstance(v, (list, tuple)) and len(cs) == len(v):
            for c, w in zip(cs, v):
                self[r, c] = w
            return
        for c in ([cs] if isinstance(cs, str) else cs):
            old = fr._fn(c)
            if is_int_like(r):
                i0 = self._row(r)
                x = real(v)
                fr._set(c, Fn(lambda i, old=old, x=x: ite(wrap(i == i0), x, old(i))))
            elif isinstance(r, slice) and r == slice(None):
                fr[c] = v
            else:
                m = r.a if isinstance(r, Series) else r
                if not isinstance(m, SymArr) or m.kind != "b" or not is_num(v):
                    raise Unsupported("store in a table")
                fr._set(c, Fn(lambda i, old=old, m=m: ite(m.at(i), real(v), old(i))))


class _FMeta(type):
    def __instancecheck__(cls, x):
        return type(x) is Frame


class Frame:
    """table"""

    def __init__(self, n, cols, sel=None, ranged=False):
        object.__setattr__(self, "n", nlen(n))
        object.__setattr__(self, "cols", dict(cols))      # name -> (Fn, kind)
        object.__setattr__(self, "sel", None if sel is None else V.mkfn(sel))
        object.__setattr__(self, "ranged", ranged)

    @property
    def __class__(self):
        from .pd_stub import DataFrame
        return DataFrame

    # loop engine
    def _dv_state(self):
        return (self.n, tuple(self.cols), tuple(c[0] for c in self.cols.values()),
                tuple(c[1] for c in self.cols.values()), self.sel, self.ranged)

    def _dv_set(self, st):
        object.__setattr__(self, "n", st[0])
        object.__setattr__(self, "cols", {c: (f, k) for c, f, k in zip(st[1], st[2], st[3])})
        object.__setattr__(self, "sel", st[4])
        object.__setattr__(self, "ranged", st[5])

    @staticmethod
    def _ph(nm, st):
        """placeholder for a state changed in earlier iterations, and its marks"""
        n, names, fns, kinds, sel, ranged = st
        if any(k != "f" for k in kinds):
            raise Unsupported("loop over a table with columns that are not numbers")
        fs, marks = [], []
        for q, f in enumerate(fns):
            g = z3.Function(f"{nm}c{q}", core.I, core.R)
            h = z3.Function(f"{nm}m{q}", core.I, core.B)
            fs.append(Fn(lambda i, g=g, h=h: SymReal(g(i), h(i))))
            marks += [f"{nm}c{q}", f"{nm}m{q}"]
        s = z3.Function(f"{nm}s", core.I, core.B)
        return (n, names, tuple(fs), kinds, Fn(lambda i: wrap(s(i))), ranged), marks + [f"{nm}s"]

    def _dv_placeholder(self, nm, st):
        # rows are not removed in place inside of a loop
        (n, names, fs, kinds, s, ranged), marks = Frame._ph(nm, st)
        return (n, names, fs, kinds, st[4], ranged), marks

    def _dv_infer(self, run, init, vals, conds, k, marks, j):
        n, names, fns, kinds, sel, ranged = init
        for v in vals:
            if not (V.same_term(v[0], n) and v[1] == names and v[4] is sel):
                raise Unsupported("a loop changes the rows or columns of a table")
        P = self._dv_placeholder("P!" + str(run.kid()) + "!" + str(run.info.locs.index(
            next(l for l in run.info.locs if l[1] is None and l[0] != "local"
                 and run.snap.objs[l[0]] is self))), init)[0]
        return [infer_col([v[2][q] for v in vals], conds, P[2][q], marks, k, j)
                for q in range(len(fns))]

    def _dv_closed(self, form, init, k, sub):
        n, names, fns, kinds, sel, ranged = init
        return (n, names, tuple(closed_col(f, o, k, sub) for f, o in zip(form, fns)), kinds, sel,
                ranged)

    # a table assigned to a name in a loop: its rows may shrink, its columns stay
    def _dv_local_placeholder(self, nm):
        s = z3.Function(f"{nm}s", core.I, core.B)
        return Frame(self.n, self.cols, Fn(lambda i: wrap(s(i)))), [f"{nm}s"]

    def _dv_vinfer(self, P, vals, conds, k, marks, j):
        for v in vals:
            if type(v) is not Frame or not V.same_term(v.n, self.n) or list(v.cols) != list(
                    self.cols) or any(v.cols[c][0] is not self.cols[c][0] for c in self.cols):
                raise Unsupported("a loop changes the columns of a table")
        new = [zb(v._selz(j)) for v in vals]
        r = new[-1]
        for c, x in list(zip(conds, new))[-2::-1]:
            r = z3.If(c, x, r)
        pj = zb(P._selz(j))
        tt = z3.simplify(z3.substitute(r, (pj, z3.BoolVal(True))))
        ff = z3.simplify(z3.substitute(r, (pj, z3.BoolVal(False))))
        if any(core.has_mark(tt, m) for m in marks) or not z3.is_false(ff):
            raise Unsupported("rows of a table without a closed form")
        return (tt, j)

    def _dv_vclosed(self, form, k, K):
        tt, J = form
        s0 = self._selz
        return Frame(self.n, self.cols, Fn(lambda i: wrap(z3.And(zb(s0(i)), z3.Not(core.AnyF(
            k, core.lam(lambda t: z3.Not(z3.substitute(tt, (K, t), (J, i))))))))))

    def _dv_vmap(self, f):
        from ..loops import vmap, vmapn
        return Frame(vmapn(self.n, f), {c: (vmap(g, f), k) for c, (g, k) in self.cols.items()},
                     None if self.sel is None else vmap(self.sel, f), self.ranged)

    def _dv_terms(self, j):
        return [g for g, _ in self.cols.values()] + ([] if self.sel is None else [self.sel])

    def _dv_len(self):
        return self._arr(None).length

    def _dv_same(self, o):
        raise Unsupported("comparison of tables")

    # access
    def _selz(self, i):
        return True if self.sel is None else self.sel(i)

    def _fn(self, c):
        if c not in self.cols:
            raise_modelled(KeyError(c))
        return self.cols[c][0]

    def _set(self, c, f, kind="f"):
        self.cols[c] = (f, kind)

    def _arr(self, c):
        if c is None:
            return SymArr(self.n, lambda i: True, "b", self.sel)
        f = self._fn(c)
        return SymArr(self.n, f, self.cols[c][1], self.sel)

    def _mask(self, m):
        m = m.a if isinstance(m, Series) else m
        if not isinstance(m, SymArr) or m.kind != "b":
            raise Unsupported("index of a table")
        if not V.compat(self._arr(None), m):
            raise Unsupported("mask of another length")
        s0, f = self.sel, m.fn
        new = f if s0 is None else Fn(lambda i: wrap(z3.And(zb(s0(i)), zb(f(i)))))
        h = E().ghost.get("row_mask")
        if h:
            new = h(self, new) or new      # an equivalent name for these rows (shown equivalent)
        return Frame(self.n, self.cols, new)

    def __getitem__(self, c):
        if isinstance(c, str):
            return Series(self._arr(c), c)
        if isinstance(c, (list, tuple)) and all(isinstance(x, str) for x in c):
            for x in c:
                self._fn(x)
            return Frame(self.n, {x: self.cols[x] for x in c}, self.sel, self.ranged)
        return self._mask(c)

    def __setitem__(self, c, v):
        if not isinstance(c, str):
            raise Unsupported("store of columns")
        if is_num(v):
            self._set(c, Fn(lambda i: real(v)))
            return
        a = v.a if isinstance(v, Series) else mkarr(v)
        if not V.compat(self._arr(None), a):
            raise_modelled(ValueError("Length of values does not match length of index"))
        self._set(c, a.fn, a.kind)

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        if nm in self.cols:
            return self[nm]
        if nm in KNOWN_METHODS:
            raise Unsupported(f"pandas DataFrame.{nm}")
        raise_modelled(AttributeError(f"'DataFrame' object has no attribute '{nm}'"))

    def __setattr__(self, nm, v):
        if nm in self.cols:
            self[nm] = v
        elif nm == "attrs":
            object.__setattr__(self, nm, v)
        else:
            raise Unsupported(f"DataFrame.{nm} = ...")

    def __contains__(self, c):
        return c in self.cols

    def __iter__(self):
        return iter(self.cols)

    def __len__(self):
        raise Unsupported("native len of a table")

    def keys(self):
        return list(self.cols)

    @property
    def columns(self):
        return list(self.cols)

    @property
    def shape(self):
        return (self._dv_len(), len(self.cols))

    @property
    def empty(self):
        return num_op("eq", self._dv_len(), 0)

    @property
    def index(self):
        return Index(self)

    @property
    def loc(self):
        return Loc(self)

    @property
    def at(self):
        return Loc(self, True)

    @property
    def iloc(self):
        return ILoc(self)

    def copy(self, deep=True):
        if deep is not True:
            return Frame(self.n, self.cols, self.sel, self.ranged)
        return Frame(self.n, self.cols, self.sel, self.ranged)

    def reset_index(self, drop=False, inplace=False, **k):
        if not drop or k or inplace:
            raise Unsupported("reset_index options")
        return Frame(self.n, self.cols, self.sel, self.sel is None)

    def dropna(self, axis=0, how=None, thresh=None, subset=None, inplace=False, **k):
        if k or axis not in (0, "index"):
            raise Unsupported("dropna options")
        cs = list(self.cols) if subset is None else [subset] if isinstance(subset, str) else list(
            subset)
        fns = [self._fn(c) for c in cs]
        kinds = [self.cols[c][1] for c in cs]

        def nan(f, kd, i):
            return boolz(V.f_isnan(f(i))) if kd == "f" else z3.BoolVal(False)
        s0 = self.sel or (lambda i: True)

        def keep(i):
            ns = [nan(f, kd, i) for f, kd in zip(fns, kinds)]
            if thresh is not None:
                good = z3.Sum([z3.If(x, 0, 1) for x in ns])
                ok = good >= zi(thresh)
            elif how == "all":
                ok = z3.Not(z3.And(*ns)) if ns else z3.BoolVal(True)
            elif how in (None, "any"):
                ok = z3.And(*[z3.Not(x) for x in ns]) if ns else z3.BoolVal(True)
            else:
                raise Unsupported("dropna how")
            return wrap(z3.simplify(z3.And(zb(s0(i)), ok)))
        if inplace:
            object.__setattr__(self, "sel", Fn(keep))
            return None
        return Frame(self.n, self.cols, Fn(keep))

    def query(self, text, inplace=False, **k):
        if inplace or set(k) - {"engine"}:
            raise Unsupported("query options")
        fr = sys._getframe(1)
        while fr is not None and "/dv/" in fr.f_code.co_filename:
            fr = fr.f_back
        t = str(text).strip().replace("@", "__at__")
        try:
            tree = ast.parse(t, mode="eval").body
        except SyntaxError as e:
            raise_modelled(SyntaxError(str(e)))
        return self._mask(self._ev(tree, fr))

    def eval(self, text, **k):
        tree = ast.parse(str(text).strip().replace("@", "__at__"), mode="eval").body
        return self._ev(tree, sys._getframe(1))

    def _ev(self, t, fr):
        if isinstance(t, ast.Constant) and type(t.value) in (int, float):
            return t.value
        if isinstance(t, ast.Name):
            v = untoken(t.id)
            if v is not None:
                return v
            if t.id.startswith("__at__"):
                nm = t.id[6:]
                if fr is None or nm not in fr.f_locals:
                    raise Unsupported(f"query variable {nm}")
                return fr.f_locals[nm]
            if t.id in self.cols:
                return self[t.id]
            if t.id in ("inf", "Inf"):
                return float("inf")
            raise Unsupported(f"name {t.id} in a query")
        if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and isinstance(
                t.slice.value, int):
            return self._ev(t.value, fr)[t.slice.value]
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id.startswith(
                "__at__"):
            return getattr(self._ev(t.value, fr), t.attr)
        if isinstance(t, ast.UnaryOp):
            x = self._ev(t.operand, fr)
            if isinstance(t.op, (ast.Not, ast.Invert)):
                return ~x
            if isinstance(t.op, ast.USub):
                return -x
        if isinstance(t, ast.BoolOp) or isinstance(t, ast.BinOp) and isinstance(
                t.op, (ast.BitAnd, ast.BitOr)):
            xs = [self._ev(x, fr) for x in (t.values if isinstance(t, ast.BoolOp) else
                                            [t.left, t.right])]
            r = xs[0]
            for x in xs[1:]:
                r = r & x if isinstance(t.op, (ast.And, ast.BitAnd)) else r | x
            return r
        if isinstance(t, ast.BinOp):
            a, b = self._ev(t.left, fr), self._ev(t.right, fr)
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                    ast.Div: lambda: a / b}.get(type(t.op), lambda: _uns("query operator"))()
        if isinstance(t, ast.Compare):
            xs = [self._ev(x, fr) for x in [t.left] + t.comparators]
            r = None
            for q, o in enumerate(t.ops):
                a, b = xs[q], xs[q + 1]
                if not isinstance(a, Series) and not isinstance(b, Series):
                    raise Unsupported("query comparison without a column")
                c = {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b,
                     ast.GtE: lambda: a >= b, ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b
                     }.get(type(o), lambda: _uns("query comparison"))()
                r = c if r is None else r & c
            return r
        raise Unsupported(f"query expression {ast.dump(t)[:80]}")

    __hash__ = None


KNOWN_METHODS = set("""abs add agg aggregate align all any apply applymap asfreq assign astype attrs
 axes bfill clip combine corr count cov cummax cumsum describe diff div dot drop drop_duplicates
 dtypes duplicated eq equals explode ffill fillna filter first ge get groupby gt head hist iat info
 insert interpolate isin isna isnull items iterrows itertuples join kurt kurtosis last le lt map mask
 max mean median melt memory_usage merge min mod mul ndim ne nlargest notna notnull nsmallest nunique
 pipe pivot pivot_table plot pop pow prod quantile rank reindex rename replace resample rolling round
 sample select_dtypes sem set_axis set_index shift size skew sort_index sort_values squeeze stack std
 style sub sum swapaxes T tail take to_csv to_dict to_hdf to_numpy transform transpose truncate
 unstack update value_counts values var where xs bool concat""".split())


def infer_col(fs, conds, P, marks, k, j):
    """column after one iteration: kept, or a store (possibly conditional) at the row k"""
    from ..loops import mentions
    if all(ident(f(j), P(j)) for f in fs):
        return ("keep",)
    paths = []
    for f, c in zip(fs, conds):
        if ident(f(j), P(j)):
            continue
        w = f(k)
        if mentions(w, marks, j):
            raise Unsupported("store which depends on earlier iterations")
        if not E().valid(z3.Implies(j != k, boolz(V.same(f(j), P(j))))):
            raise Unsupported("store at another row than the iteration number")
        paths.append((c, w))
    c = z3.simplify(z3.Or(*[p[0] for p in paths]))
    w = paths[-1][1]
    for cc, ww in paths[-2::-1]:
        w = ite(wrap(cc), ww, w)
    return ("store", c, w)


def closed_col(form, old, k, sub):
    if form[0] == "keep":
        return old
    c, w = form[1], form[2]
    return Fn(lambda i: ite(wrap(z3.And(0 <= i, i < k, zb(sub(wrap(c), i)))), sub(w, i), old(i)))


def make_frame(data=None, index=None, columns=None, **k):
    """pandas.DataFrame(...)"""
    if k or index is not None:
        raise Unsupported("DataFrame options")
    if type(data) is Frame:
        return data.copy() if columns is None else data[list(columns)].copy()
    if not isinstance(data, dict):
        raise Unsupported(f"DataFrame of {type(data).__name__}")
    cols, n, sel, first = {}, None, None, None
    for c, v in data.items():
        if columns is not None and c not in columns:
            continue
        if isinstance(v, Series):
            v = v.a
        if not isinstance(v, SymArr):
            if hasattr(v, "_dv_toarr"):
                v = v._dv_toarr()
            elif isinstance(v, (list, tuple)) or type(v) is XList:
                v = mkarr(v)
            else:
                raise Unsupported(f"DataFrame column of {type(v).__name__}")
        if first is None:
            first, n, sel = v, v.n, v.sel
        elif not V.compat(first, v):
            raise_modelled(ValueError("All arrays must be of the same length"))
        cols[c] = (v.fn, v.kind)
    if first is None:
        n = 0
    return Frame(n, cols, sel, sel is None)
