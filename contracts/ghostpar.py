"""Abstract contributions: a row of parameter values is an element of the sort Par (any number of
parameters); the intensity and volume of a contribution are functions of it."""
import z3

from dv import core
from dv.core import E, Unsupported, raise_modelled
from dv.loops import SymRange
from dv.values import Fn, Sym, SymArr, SymReal, SymInt, boolz, is_int_like, ite, nz, wrap, zb, zi

Par = z3.DeclareSort("Par")
IofF = z3.Function("Iof", Par, core.I, core.R)
VofF = z3.Function("Vof", Par, core.R)


class SymPar:
    """one row: as a Series (a row of the table) or as a dict"""

    def __init__(self, p, series=False):
        self.p, self.series = p, series

    @property
    def __class__(self):
        return SymPar if self.series else dict

    def to_dict(self, *a, **k):
        return SymPar(self.p)

    def copy(self):
        return SymPar(self.p, self.series)

    def _dv_dict(self, k):
        if k:
            raise Unsupported("dict(row, **more)")
        return SymPar(self.p)

    def _dv_same(self, o):
        return self.p == o.p if type(o) is SymPar else False

    def _dv_ite(self, c, o):
        return SymPar(z3.If(c, self.p, o.p), self.series)

    def _dv_vmap(self, f):
        return SymPar(f(self.p), self.series)

    def _dv_terms(self, j):
        return []

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"parameter row .{nm}")


def par_terms(v):
    return [v.p]


class Loc:
    def __init__(self, t):
        self.t = t

    def key(self, ix):
        if isinstance(ix, tuple) and len(ix) == 2 and ix[1] == slice(None):
            ix = ix[0]
        if not is_int_like(ix):
            raise Unsupported("row label of a parameter table")
        i = z3.simplify(zi(ix))
        if not E().branch(z3.And(0 <= i, i < nz(self.t.n))):
            raise_modelled(KeyError("row label"))
        return i

    def __getitem__(self, ix):
        i = self.key(ix)
        return SymPar(self.t.fn(i), True)

    def __setitem__(self, ix, v):
        i0 = self.key(ix)
        if type(v) is not SymPar:
            raise Unsupported("row assignment of something else than a row")
        old, p = self.t.fn, v.p
        self.t.fn = Fn(lambda i: z3.If(i == i0, p, old(i)))


class SymTable:
    """parameterSet: n rows labelled 0..n-1 of arbitrary columns"""

    def __init__(self, n, fn):
        self.n, self.fn = n, Fn(fn) if not isinstance(fn, Fn) else fn

    def _dv_state(self):
        return (self.n, self.fn)

    def _dv_set(self, st):
        self.n, self.fn = st

    @property
    def loc(self):
        return Loc(self)

    iloc = loc

    @property
    def index(self):
        return SymRange(nz(self.n))

    @property
    def shape(self):
        return (wrap(nz(self.n)), SymInt(z3.Int("ncols!")))

    def _dv_len(self):
        return wrap(nz(self.n))

    def copy(self):
        return SymTable(self.n, self.fn)

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"parameter table .{nm}")

    def _dv_placeholder(self, nm, st):
        f = z3.Function(nm, core.I, Par)
        return (st[0], Fn(lambda i: f(i))), [nm]

    def _dv_infer(self, run, init, vals, conds, k, marks, j):
        from dv.core import has_const, consts_in
        new = vals[-1][1](j)
        for c, v in list(zip(conds, vals))[-2::-1]:
            new = z3.If(c, v[1](j), new)
        pf = run.placeholder(next(l for l in run.info.locs if l[0] != "local" and
                                  run.snap.objs[l[0]] is self), init)[0][1]
        w = z3.simplify(z3.substitute(new, (j, k)))
        mk = lambda t: any(consts_in(t, lambda a: a.decl().name() == m) if isinstance(m, str)
                           else has_const(t, m) for m in marks)
        if z3.is_true(z3.simplify(new == pf(j))):
            return ("keep",)
        if not mk(w) and E().valid(z3.Implies(j != k, new == pf(j))):
            return ("store", w, k)
        raise Unsupported("table update without a closed form")

    def _dv_closed(self, form, init, k, sub):
        n, fn = init
        if form[0] == "keep":
            return init
        w = form[1]
        return (n, Fn(lambda i: z3.If(z3.And(0 <= i, i < k), sub(w, i), fn(i))))


def fresh_par(hint="par"):
    return SymPar(E().fresh_const(hint, Par))


def fresh_table(n, hint="P"):
    f = E().register_fun(E().fresh_fun(hint, core.I, Par))
    return SymTable(n, lambda i: f(i))
