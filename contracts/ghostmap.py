"""Ghost dictionaries over any number of fit parameters.

The fit parameters are n distinct keys; key number i is `SymKey(i)`.  A `KeyMap` is a dict whose
keys are a subset of them; its content is a list of layers (guard(i), value(i)), newest first.
Keys outside of the n parameters (plain strings) are kept apart in `extra`.
"""
import z3

from dv import core
from dv.core import E, AnyF, PathEnd, Unsupported, lam, raise_modelled
from dv.loops import SymSeq
from dv.values import Fn, SymBool, XList, boolz, is_num, ite, nz, same, token, wrap, zb


class SymKey:
    """name of fit parameter number i: a string of which only identity is known"""

    def __init__(self, i):
        self.i = i

    @property
    def __class__(self):
        return str

    def __hash__(self):
        return 7901     # collisions are decided by ==

    def terms(self):
        return [self.i]

    def __eq__(self, o):
        return wrap(self.i == o.i) if type(o) is SymKey else False

    def __ne__(self, o):
        return wrap(self.i != o.i) if type(o) is SymKey else True

    def __str__(self):
        return token(self, "")

    __fspath__ = __str__

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def _dv_same(self, o):
        return self.i == o.i if type(o) is SymKey else False

    def _dv_ite(self, c, o):
        if type(o) is not SymKey:
            raise Unsupported("if-then-else of a key")
        return SymKey(z3.simplify(z3.If(c, self.i, o.i)))

    def _dv_vmap(self, f):
        return SymKey(f(self.i))

    def _dv_terms(self, j):
        from dv.values import SymInt
        return [SymInt(self.i)]

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"method {nm} of an unknown key")


def always(i):
    return z3.BoolVal(True)


def layered(layers, i, total=False):
    """value at key i of a list of layers (total: i is known to be a key)"""
    num = []
    for q, (g, v) in enumerate(layers):
        if isinstance(g, OldDom) and g.own(i):
            continue
        c = z3.simplify(g(i))
        if total and q == len(layers) - 1:
            c = z3.BoolVal(True)
        if z3.is_false(c):
            continue
        if z3.is_true(c) or E().valid(c):
            return fold(num, v(i))
        if E().valid(z3.Not(c)):
            continue
        x = v(i)
        if is_num(x):
            num.append((c, x))
            continue
        if num:
            raise Unsupported("dict entry of undecided type")
        if E().branch(c):
            return x
    raise Unsupported("dict entry not known to be present")


def fold(num, x):
    for c, y in reversed(num):
        x = ite(wrap(c), y, x)
    return x


class ItemsView:
    """d.items(): live, so the content is that when the iteration starts.  An iteration reads the
    entry of its own key before it writes it; writes to other keys are refused by _dv_infer"""

    def __init__(self, d, item):
        self.d, self.item = d, item

    def _dv_symiter(self):
        self.d._dv_symiter()
        c = self.d.copy()
        return SymSeq(self.d.n, lambda i: self.item(c, i))

    def _dv_len(self):
        return self.d._dv_len()

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic dict")


class KeyMap:
    def __init__(self, n, layers, extra=None):
        self.n, self.layers, self.extra = n, list(layers), dict(extra or {})

    @staticmethod
    def of(n, val):
        return KeyMap(n, [(always, val)])

    @property
    def __class__(self):
        return dict

    # engine protocol
    def _dv_state(self):
        return tuple(self.layers) + tuple(self.extra.items())

    def _dv_set(self, st):
        self.layers = [x for x in st if callable(x[0])]
        self.extra = {k: v for k, v in st if not callable(k)}

    def dom(self, i):
        ds = [g(i) for g, _ in self.layers]
        return z3.simplify(z3.Or(*ds)) if ds else z3.BoolVal(False)

    def full(self):
        """are the keys exactly the n parameters?"""
        j = z3.Int("j!dom")
        c = z3.simplify(self.dom(j))
        return not self.extra and (z3.is_true(c) or E().valid(
            z3.Implies(z3.And(0 <= j, j < nz(self.n)), c)))

    def _dv_symiter(self):
        if not self.full():
            raise Unsupported("iteration over a dict with unknown keys")
        return SymSeq(self.n, SymKey)

    def _dv_len(self):
        if not self.full():
            raise Unsupported("length of a dict with unknown keys")
        return wrap(nz(self.n))

    def __bool__(self):
        return E().branch(nz(self._dv_len()) > 0)

    def __len__(self):
        raise Unsupported("len() of a symbolic dict (native)")

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic dict")

    def __eq__(self, o):
        raise Unsupported("comparison of a symbolic dict")

    __hash__ = None

    def keys(self):
        return self

    def values(self):
        return ItemsView(self, lambda d, i: d.get_at(i, True))

    def items(self):
        return ItemsView(self, lambda d, i: (SymKey(i), d.get_at(i, True)))

    def copy(self):
        return KeyMap(self.n, self.layers, self.extra)

    def _dv_dict(self, k):
        r = self.copy()
        for a, b in k.items():
            r[a] = b
        return r

    def get_at(self, i, total=False):
        return layered(self.layers, i, total)

    def __contains__(self, k):
        if type(k) is SymKey:
            return E().branch(self.dom(k.i))
        return k in self.extra

    def __getitem__(self, k):
        if type(k) is SymKey:
            if not E().branch(self.dom(k.i)):
                raise_modelled(KeyError("parameter name"))
            return self.get_at(k.i)
        if type(k) is not str:
            raise Unsupported("key type")
        if k not in self.extra:
            raise_modelled(KeyError(k))
        return self.extra[k]

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __setitem__(self, k, v):
        if type(k) is SymKey:
            i0 = k.i
            self.layers = [(Mark(i0), v_at(v))] + self.layers
        elif type(k) is str:
            self.extra[k] = v
        else:
            raise Unsupported("key type")

    def update(self, o=(), **k):
        if type(o) is KeyMap:
            self.layers = list(o.layers) + self.layers
            self.extra.update(o.extra)
        elif type(o) is dict:
            for a, b in o.items():
                self[a] = b
        else:
            raise Unsupported("update of a dict")
        for a, b in k.items():
            self[a] = b

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"dict.{nm} on a symbolic dict")

    # values
    def _dv_vmap(self, f):
        def one(g, v):
            return (lambda t: f(g(t))), Fn(lambda t: dvmap(v(t), f))
        return KeyMap(self.n, [one(g, v) for g, v in self.layers], self.extra)

    def _dv_terms(self, j):
        out = []
        for g, v in self.layers:
            out += [g(j), v(j)]
        return out + list(self.extra.values())

    # loops
    def _dv_placeholder(self, nm, st):
        from dv.loops import Poison
        g = z3.Function(nm, core.I, core.B)
        return ((OldDom(g, nm), lambda i: Poison("a dict entry of an earlier iteration")),) + tuple(
            st), [nm]

    def _dv_infer(self, run, init, vals, conds, k, marks, j):
        from dv.loops import mentions
        new = []
        for v in vals:
            ls = [x for x in v if callable(x[0])]
            ex = [x for x in v if not callable(x[0])]
            ex0 = [x for x in init if not callable(x[0])]
            if len(ex) != len(ex0) or any(a[0] != b[0] or a[1] is not b[1] for a, b in zip(ex, ex0)):
                raise Unsupported("a loop sets other keys")
            at = [q for q, x in enumerate(ls) if isinstance(x[0], OldDom) and x[0].k.eq(k)]
            if len(at) != 1:
                raise Unsupported("a loop replaces a dict")
            ls = ls[:at[0]]
            # only the newest write to a key counts; all at the key of this iteration
            for g, _ in ls:
                if not isinstance(g, Mark) or not E().valid(g.i0 == k):
                    raise Unsupported("a loop writes other keys than that of the iteration")
            new.append(ls[0][1] if ls else None)
        if all(w is None for w in new):
            return ("keep",)
        wr = [(c, x(k)) for c, x in zip(conds, new) if x is not None]
        cond = None if len(wr) == len(new) else z3.simplify(z3.Or(*[c for c, _ in wr]))
        for w in [x for _, x in wr] + ([] if cond is None else [wrap(cond)]):
            if mentions(w, marks, j):
                raise Unsupported("dict entry depends on the loop state")
        return ("store", wr, cond)

    def _dv_closed(self, form, init, k, sub):
        if form[0] == "keep":
            return init
        wr, cond = form[1], form[2]
        if cond is None:
            g = lambda i: z3.And(0 <= i, i < k)
        else:
            g = lambda i: z3.And(0 <= i, i < k, sub(cond, i))
        return ((g, lambda i: pick([(sub(c, i), sub(w, i)) for c, w in wr])), *init)


def pick(alts):
    """the value of the path taken"""
    lit = literals(E().pc)
    alts = [(decide(c, lit), x) for c, x in alts]
    alts = [(c, x) for c, x in alts if c is not False]
    if not alts:
        raise PathEnd()
    for c, x in alts:
        if c is True or len(alts) == 1:
            return x
    if all(is_num(x) for _, x in alts):
        return fold(alts[:-1], alts[-1][1])
    for c, x in alts[:-1]:
        if E().valid(c):
            return x
        if not E().valid(z3.Not(c)) and E().branch(c):
            return x
    return alts[-1][1]


def literals(pc):
    """what the path says about single atoms, as a substitution"""
    out, todo = [], list(pc)
    while todo:
        c = todo.pop()
        if z3.is_and(c):
            todo += c.children()
            continue
        if z3.is_not(c) and z3.is_or(c.arg(0)):
            todo += [z3.Not(x) for x in c.arg(0).children()]
            continue
        val = True
        while z3.is_not(c):
            c, val = c.arg(0), not val
        out.append((c, z3.BoolVal(val)))
        if z3.is_eq(c) and c.arg(0).sort() == core.I:
            a, b = c.children()
            if z3.is_int_value(a):
                a, b = b, a
            if val and z3.is_int_value(b):
                out.append((a, b))
            elif not val:
                for p, q in ((a, b), (b, a)):
                    out.append((z3.simplify(z3.ToReal(p)) == z3.simplify(z3.ToReal(q)), z3.BoolVal(False)))
    return out


def decide(c, lit):
    """True or False if the literals settle the condition, else what is left of it"""
    c = z3.simplify(z3.substitute(c, *lit)) if lit else c
    return True if z3.is_true(c) else False if z3.is_false(c) else c


def dvmap(v, f):
    from dv.loops import vmap
    return vmap(v, f)


def v_at(v):
    return lambda i: v


class Mark:
    """guard of a single written key"""

    def __init__(self, i0):
        self.i0 = i0

    def __call__(self, i):
        return i == self.i0


class OldDom:
    """keys written by earlier iterations of a loop (each writes its own key only)"""

    def __init__(self, g, nm):
        self.g = g
        self.k = z3.Int("k!" + nm.split("!")[1])

    def own(self, i):
        """is i the key of the current iteration?"""
        return bool(E().learning) and any(r.k is not None and r.k.eq(self.k) for r in E().learning) \
            and E().valid(i == self.k)

    def __call__(self, i):
        return self.g(i)


def fromkeys(ks, value=None):
    """dict.fromkeys over parameter names"""
    if type(ks) is KeyMap:
        if not ks.full():
            raise Unsupported("dict.fromkeys of unknown keys")
        return KeyMap.of(ks.n, lambda i: value)
    if type(ks) is XList:
        j = z3.Int("j!fk")
        k = ks.at(j)
        if type(k) is not SymKey:
            raise Unsupported("dict.fromkeys")
        n = nz(ks.n)
        if z3.simplify(k.i).eq(j):
            return KeyMap(ks.n, [((lambda i: z3.And(0 <= i, i < n)), lambda i: value)])
        return KeyMap(ks.n, [((lambda i: AnyF(n, lam(lambda t: ks.at(t).i == i))),
                              lambda i: value)])
    raise Unsupported("dict.fromkeys")


class RowLoc:
    def __init__(self, t):
        self.t = t

    def __setitem__(self, ix, v):
        from dv.values import is_int_like, zi
        if isinstance(ix, tuple) and len(ix) == 2 and ix[1] == slice(None):
            ix = ix[0]
        if not is_int_like(ix) or type(v) is not KeyMap:
            raise Unsupported("assignment to a table of contributions")
        i = z3.simplify(zi(ix))
        E().prove("only the configured contributions are set", z3.And(0 <= i, i < nz(self.t.n)))
        self.t.layers = [(Mark(i), v_at(v))] + self.t.layers

    def __getitem__(self, ix):
        raise Unsupported("row of a table of contributions")


class RowTable:
    """parameterSet while it is filled: row number -> dict of parameter values"""

    def __init__(self, n, cols):
        self.n, self.cols, self.layers = n, cols, []

    def _dv_state(self):
        return tuple(self.layers)

    def _dv_set(self, st):
        self.layers = list(st)

    @property
    def loc(self):
        return RowLoc(self)

    @property
    def index(self):
        from dv.loops import SymRange
        return SymRange(nz(self.n))

    def _dv_len(self):
        return wrap(nz(self.n))

    @property
    def shape(self):
        return (wrap(nz(self.n)), wrap(nz(self.cols.n)))

    def dom(self, i):
        ds = [g(i) for g, _ in self.layers]
        return z3.simplify(z3.Or(*ds)) if ds else z3.BoolVal(False)

    def row(self, i):
        return layered(self.layers, i, True)

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"table of contributions .{nm}")

    def _dv_placeholder(self, nm, st):
        from dv.loops import Poison
        g = z3.Function(nm, core.I, core.B)
        return ((OldDom(g, nm), lambda i: Poison("a row of an earlier iteration")),), [nm]

    def _dv_infer(self, run, init, vals, conds, k, marks, j):
        if len(vals) != 1:
            raise Unsupported("rows set in several ways")
        from dv.loops import mentions
        ls = [x for x in vals[0] if not isinstance(x[0], OldDom)]
        if not ls:
            return ("keep",)
        for g, _ in ls:
            if not isinstance(g, Mark) or not E().valid(g.i0 == k):
                raise Unsupported("a loop sets other rows than that of the iteration")
        w = ls[0][1](k)
        if mentions(w, marks, j):
            raise Unsupported("row depends on the loop state")
        return ("store", w)

    def _dv_closed(self, form, init, k, sub):
        if form[0] == "keep":
            return init
        w = form[1]
        return (((lambda i: z3.And(0 <= i, i < k)), lambda i: sub(w, i)), *init)


def ghost_frame(index=None, columns=None, **k):
    """pandas.DataFrame(index=range(n), columns=names): n empty rows"""
    from dv.loops import SymRange
    if k or not isinstance(index, (SymRange, range)):
        raise Unsupported("pandas.DataFrame(...)")
    if isinstance(index, range):
        if index != range(len(index)):
            raise Unsupported("row labels")
        n = len(index)
    else:
        if not E().valid(nz(index.start) == 0):
            raise Unsupported("row labels")
        n = index._dv_n()
    return RowTable(n, fromkeys(columns))
