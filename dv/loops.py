"""Loops over symbolic iterables.

`for` loops: the body is run once for an arbitrary iteration k from an arbitrary state (placeholders
for every modified location); from the new values a closed form in k is derived (sum, store, append,
conjunction, last assignment).  This is an induction: new(k+1) = body(old(k)) for arbitrary old.
`while` loops and loops without a closed form need a loop contract (havoc + invariant).
"""
from __future__ import annotations

import types

import z3

from . import core
from .core import E, AnyF, CntF, LastF, PathEnd, Restart, Unsupported, lam
from .values import (And, Fn, Or, Sym, SymArr, SymBool, SymInt, SymReal, XList, boolz, fresh_bool,
                     is_int_like, is_num, ite, msum, nz, real, same, wrap, zb, zi, zr)


import os
DBG = os.environ.get("DV_DEBUG_LOOPS")


class Undef:
    """value of an unassigned local variable"""

    def __repr__(self):
        return "<undefined>"


UNDEF = Undef()


class Poison:
    """value of a location which the engine cannot describe; any use is unsupported"""

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def __getattr__(self, nm):
        if nm in ("__class__", "__dict__"):
            return object.__getattribute__(self, nm)
        raise Unsupported(f"use of {object.__getattribute__(self, 'why')}")

    def _u(self, *a, **k):
        raise Unsupported(f"use of {object.__getattribute__(self, 'why')}")

    __bool__ = __iter__ = __len__ = __getitem__ = __call__ = __add__ = __radd__ = __eq__ = _u
    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __mul__ = __rmul__ = __sub__ = __rsub__ = _u
    __truediv__ = __rtruediv__ = __str__ = __format__ = __contains__ = __setitem__ = _u
    __setattr__ = __hash__ = __iadd__ = __neg__ = __invert__ = __and__ = __or__ = __pow__ = _u


class TList(list):
    """list display of the code under verification; knows where it was made"""
    site = None


class TDict(dict):
    site = None


class SymRange:
    def __init__(self, n, start=0):
        self.n, self.start = n, start

    def _dv_n(self):
        return z3.simplify(z3.If(nz(self.n) > 0, nz(self.n), z3.IntVal(0)))

    def _dv_item(self, k):
        return wrap(k + nz(self.start)) if not z3.is_int_value(k) else k.as_long()

    def _dv_guard(self, k):
        return True

    def _dv_len(self):
        return wrap(self._dv_n())

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic range")

    def __getitem__(self, i):
        return self._dv_item(zi(i))


class SymZip:
    def __init__(self, its):
        self.its = its

    def _dv_n(self):
        n = None
        for it in self.its:
            k = it._dv_n()
            n = k if n is None else z3.If(k < n, k, n)
        return z3.simplify(n)

    def _dv_item(self, k):
        return tuple(it._dv_item(k) for it in self.its)

    def _dv_guard(self, k):
        g = [it._dv_guard(k) for it in self.its]
        if any(x is not True for x in g) and len(g) > 1:
            raise Unsupported("zip over a selection")
        return True

    def __iter__(self):
        raise Unsupported("native iteration over symbolic zip")


class SymSeq:
    """adapter: array or list as an iterable"""

    def __init__(self, n, item, guard=None):
        self.n, self.item, self.guard = n, item, guard

    def _dv_n(self):
        return nz(self.n)

    def _dv_item(self, k):
        return self.item(k)

    def _dv_guard(self, k):
        return True if self.guard is None else self.guard(k)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic sequence")


class Endless:
    def __init__(self, start=0):
        self.start = start


def symiter(x):
    """symbolic iterable or None for a concrete one"""
    if hasattr(type(x), "_dv_n"):
        return x
    if type(x) is SymArr or isinstance(x, SymArr) and type(x).__mro__[0] is SymArr:
        if x.conc():
            return None
        return SymSeq(x.n, x.fn, x.sel)
    if type(x) is XList:
        return SymSeq(x.n, x.fn) if x.sym else None
    if hasattr(x, "_dv_symiter"):
        return x._dv_symiter()
    return None


# ------------------------------------------------------------------ heap snapshots
def is_obj(x):
    m = getattr(type(x), "__module__", "") or ""
    return m.split(".")[0] == "mcsas3" or isinstance(x, types.SimpleNamespace)


def has_state(x):
    return hasattr(type(x), "_dv_state")


def fields(x):
    out = dict(getattr(x, "__dict__", None) or {})
    for c in type(x).__mro__:
        for s in getattr(c, "__slots__", ()):
            if s.startswith("__"):
                continue
            try:
                out[s] = getattr(x, s)
            except AttributeError:
                pass
    return out


def reach(roots):
    """mutable objects reachable from the roots: path -> object, in a deterministic order"""
    out, seen = {}, set()
    todo = [(k, v) for k, v in roots.items()]
    while todo:
        p, x = todo.pop(0)
        if isinstance(x, Sym) or x is None or type(x) in (int, float, str, bytes, bool, Poison):
            continue
        if type(x) is tuple:
            todo.extend((f"{p}[{i}]", v) for i, v in enumerate(x))
            continue
        if isinstance(x, type) and (x.__module__ or "").split(".")[0] == "mcsas3":
            if id(x) not in seen:
                seen.add(id(x))
                out[p] = x
                for k, v in sorted(vars(x).items()):
                    if not k.startswith("__") and not callable(v) and not isinstance(
                            v, (classmethod, staticmethod, property, types.MemberDescriptorType)):
                        todo.append((f"{p}.{k}", v))
            continue
        if id(x) in seen:
            continue
        if has_state(x):
            seen.add(id(x))
            out[p] = x
            for i, v in enumerate(getattr(x, "_dv_children", lambda: ())()):
                todo.append((f"{p}<{i}>", v))
        elif type(x) in (list, TList):
            seen.add(id(x))
            out[p] = x
            todo.extend((f"{p}[{i}]", v) for i, v in enumerate(x))
        elif type(x) in (dict, TDict):
            seen.add(id(x))
            out[p] = x
            todo.extend((f"{p}[{k!r}]", v) for k, v in x.items() if not callable(v))
        elif is_obj(x):
            seen.add(id(x))
            out[p] = x
            todo.extend((f"{p}.{k}", v) for k, v in sorted(fields(x).items()))
            todo.append((f"{p}.__class__", type(x)))
    return out


def content(x):
    if has_state(x):
        return ("state", x._dv_state())
    if type(x) in (list, TList):
        return ("list", list(x))
    if type(x) in (dict, TDict):
        return ("dict", dict(x))
    if isinstance(x, type):
        return ("attrs", {k: v for k, v in vars(x).items() if not k.startswith("__")})
    return ("attrs", fields(x))


def ident(a, b):
    """cheap equality of two slot contents"""
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym) and type(a) is type(b):
        return all((s is t) or (not isinstance(s, bool) and not isinstance(t, bool) and s.eq(t))
                   or (isinstance(s, bool) and isinstance(t, bool) and s == t)
                   for s, t in zip(a.terms(), b.terms()))
    if type(a) is type(b) and type(a) in (int, float, str, bool):
        return a == b
    if type(a) is type(b) is tuple and len(a) == len(b):
        return all(ident(x, y) for x, y in zip(a, b))
    if type(a) in (list, TList) and type(b) in (list, TList) and len(a) == len(b):
        return all(ident(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return False


class Snap:
    def __init__(self, roots):
        self.objs = reach(roots)
        self.cont = {p: content(x) for p, x in self.objs.items()}

    def diff(self):
        """locations changed since the snapshot: list of (path, key)"""
        out = []
        for p, x in self.objs.items():
            k0, c0 = self.cont[p]
            _k, c1 = content(x)
            if k0 == "state":
                if not ident(tuple(c0), tuple(c1)):
                    out.append((p, None))
            elif k0 == "list":
                if len(c0) != len(c1) or not all(ident(a, b) for a, b in zip(c0, c1)):
                    out.append((p, None))
            else:
                for key in list(dict.fromkeys(list(c0) + list(c1))):
                    if not ident(c0.get(key, UNDEF), c1.get(key, UNDEF)):
                        out.append((p, key))
        return out

    def get(self, loc):
        p, key = loc
        x = self.objs[p]
        k, c = content(x)
        return c if key is None else c.get(key, UNDEF)

    def set(self, loc, v):
        p, key = loc
        x = self.objs[p]
        if key is None:
            if has_state(x):
                x._dv_set(v)
            else:
                x[:] = v
        elif type(x) in (dict, TDict):
            if v is UNDEF:
                x.pop(key, None)
            else:
                x[key] = v
        elif v is UNDEF:
            if key in fields(x):
                delattr(x, key)
        else:
            (type.__setattr__ if isinstance(x, type) else object.__setattr__)(x, key, v)


# ------------------------------------------------------------------ substitution in values
def vmap(v, f):
    """apply f to the z3 terms of a value"""
    if isinstance(v, Sym):
        if type(v) is SymReal:
            g = lambda t: t if isinstance(t, bool) else f(t)
            return SymReal(f(v.r), g(v.nan), g(v.pinf), g(v.ninf))
        return wrap(f(v.terms()[0]))
    if v is None or type(v) in (int, float, str, bool, bytes, Poison, Undef):
        return v
    if type(v) in (tuple, list, TList):
        return (tuple if type(v) is tuple else list)(vmap(x, f) for x in v)
    if type(v) in (dict, TDict):
        return {k: vmap(x, f) for k, x in v.items()}
    if isinstance(v, z3.ExprRef):
        return f(v)
    if type(v) is Fn:
        return Fn(lambda i: vmap(v(i), f))
    if type(v) is SymArr:
        return SymArr(vmapn(v.n, f), Fn(lambda i: vmap(v.fn(i), f)), v.kind,
                      None if v.sel is None else Fn(lambda i: vmap(v.sel(i), f)))
    if type(v) is XList:
        return XList(vmapn(v.n0, f), None if v.fn0 is None else Fn(lambda i: vmap(v.fn0(i), f)),
                     [vmap(x, f) for x in v.tail])
    if hasattr(v, "_dv_vmap"):
        return v._dv_vmap(f)
    if is_obj(v) or callable(v) or isinstance(v, type):
        return v
    return Poison(f"a {type(v).__name__} assigned in a loop")


def vmapn(n, f):
    return n if isinstance(n, int) else f(n)


def vterms(v, j):
    """z3 terms of a value (arrays at the generic index j)"""
    out = []

    def f(t):
        out.append(t)
        return t
    def walk(x):
        if type(x) is Fn:
            walk(x(j))
        elif type(x) is SymArr:
            walk(x.fn(j))
            if not isinstance(x.n, int):
                out.append(x.n)
            if x.sel is not None:
                walk(x.sel(j))
        elif type(x) is XList:
            if x.fn0 is not None and not (isinstance(x.n0, int) and x.n0 == 0):
                walk(x.fn0(j))
            if not isinstance(x.n0, int):
                out.append(x.n0)
            for y in x.tail:
                walk(y)
        elif type(x) in (tuple, list, TList):
            for y in x:
                walk(y)
        elif type(x) in (dict, TDict):
            for y in x.values():
                walk(y)
        elif type(x) is Poison:
            raise Unsupported("use of " + object.__getattribute__(x, "why"))
        elif hasattr(x, "_dv_terms"):
            for y in x._dv_terms(j):
                walk(y)
        else:
            vmap(x, f)
    walk(v)
    return out


def mentions(v, marks, j):
    return any(core.has_mark(t, m) for t in vterms(v, j) for m in marks)


# ------------------------------------------------------------------ loop info
class Info:
    def __init__(self):
        self.mode = "new"       # new -> learn -> ready ; or inv
        self.locs = []          # (path, key) or ("local", name)
        self.obliged = False    # does the body have obligations?
        self.results = []       # per completed body path: (cond, {loc: value}, axioms)
        self.form = {}
        self.k = None
        self.fail = None
        self.incomplete = False  # has another changed location come up in this pass?


class Done:
    done, item, orelse = True, None, True


class LoopRun:
    """run-time object of one execution of one loop"""

    def __init__(self, site, it, names, kind):
        self.site, self.names, self.kind = site, names, kind
        self.count = 0
        eng = E()
        self.sym = None
        if kind == "for":
            if type(it) is Endless:
                self.sym = None
                self.it = iter(int, 1)
            else:
                self.sym = symiter(it)
                self.it = iter(it) if self.sym is None else None
        self.rebind = kind == "while" or self.sym is not None
        occ = eng.loop_occ.get(site, 0)
        eng.loop_occ[site] = occ + 1
        self.key = (site, occ, tuple(map(str, eng.taken)))
        self.info = eng.loop_info.setdefault(self.key, Info())
        self.state = "init"
        self.taken0 = len(eng.taken)

    # --- called at the start of each iteration (and at the end of the last)
    def step(self, loc):
        r = types.SimpleNamespace(done=False, item=None, vals=[loc.get(n, UNDEF)
                                                             for n in self.names])
        if self.kind == "for" and self.sym is None:
            try:
                r.item = next(self.it)
            except StopIteration:
                r.done = True
            return r
        if self.kind == "while":
            return self.step_while(loc, r)
        return self.step_for(loc, r)

    # --- while loops
    def step_while(self, loc, r):
        eng = E()
        self.count += 1
        if self.info.mode == "new":
            if self.count > 1 and len(eng.taken) > self.taken0:
                # an iteration took a symbolic decision: use the loop contract
                self.info.mode = "inv"
                raise Restart()
            if self.count > 2000:
                raise Unsupported("unbounded while loop")
            return r
        return self.step_inv(loc, r)

    def step_inv(self, loc, r):
        """loop with a contract: arbitrary state satisfying the invariant"""
        eng = E()
        lc = eng.loop_contract
        if lc is None:
            raise Unsupported(f"loop at {self.site} needs an invariant: {self.info.fail or ''}")
        if self.state == "init":
            for nm, f in lc.inv(loc):
                eng.prove(f"{lc.name}.loop-invariant-initially.{nm}", f)
            lc.havoc(loc)
            self.havoc_locals(loc, r)
            for nm, f in lc.inv(loc):
                eng.assume(f)
            lc.pre_iteration(loc)
            self.state = "body"
            if self.kind == "for":
                k = eng.fresh_int("k")
                n = self.sym._dv_n()
                eng.assume(z3.And(k >= 0, k <= n))
                if eng.branch(k < n):
                    r.item = self.sym._dv_item(k)
                else:
                    r.done = True
            return r
        for nm, f in lc.inv(loc):
            eng.prove(f"{lc.name}.loop-invariant-preserved.{nm}", f)
        lc.post_iteration(loc)
        raise PathEnd()

    def havoc_locals(self, loc, r):
        own = getattr(E().loop_contract, "local", None)
        for i, n in enumerate(self.names):
            v = loc.get(n, UNDEF)
            x = own(n, v) if own is not None and v is not UNDEF else None
            if x is not None:
                r.vals[i] = x
            elif is_num(v):
                b = isinstance(v, bool) or type(v) is SymBool
                r.vals[i] = (fresh_bool(n) if b else SymInt(E().fresh_int(n)) if is_int_like(v)
                             else SymReal(E().fresh_real(n)))
            elif v is UNDEF:
                r.vals[i] = UNDEF
            else:
                r.vals[i] = Poison(f"local {n} after a loop iteration")

    # --- for loops
    def step_for(self, loc, r):
        eng, info = E(), self.info
        if info.mode == "inv":
            return self.step_inv(loc, r)
        if self.state == "body":
            return self.end_iteration(loc)
        n = self.sym._dv_n()
        self.n = n
        loc = self.ghosts(loc)
        self.snap = Snap(loc)
        self.init = {l: self.read(l, loc) for l in info.locs}
        if info.mode in ("new", "learn"):
            info.mode = "learn"
            return self.start_body(loc, r, learn=True)
        if info.form is None:
            raise Unsupported("loop without a closed form")
        # ready: arbitrary iteration, or exit
        if eng.choose(2, first=1) == 0:
            return self.start_body(loc, r, learn=False)
        self.set_state(loc, r, n)
        self.passed(n)
        r.done = True
        # the loop variable keeps its last value; poisoned unless overwritten
        return r

    @staticmethod
    def ghosts(loc):
        """the local variables, and the ghost objects which a loop may change"""
        more = E().ghost.get("roots")
        return dict(loc, **{f"ghost {k}": x for k, x in more.items()}) if more else loc

    def read(self, l, loc):
        return loc.get(l[1], UNDEF) if l[0] == "local" else self.snap.get(l)

    def start_body(self, loc, r, learn):
        eng, info = E(), self.info
        k = z3.Int("k!%s" % abs(hash(self.key)) if False else f"k!{self.kid()}")
        self.k = k
        eng.assume(z3.And(k >= 0, k < self.n))
        if learn:
            if not eng.learn_wait.get(self.key):
                eng.learn_wait[self.key] = True
                eng.learn_queue.append(self)
                self.outer = [run.info for run in eng.learning]
                self.saved_pc = list(eng.pc)
                self.saved_axioms = {a: list(b) for a, b in eng.axioms.items()}
                self.saved_foralls = list(eng.foralls)
                self.marks0 = None
            eng.learning.append(self)
            self.marks = {}
            for l in info.locs:
                v, marks = self.placeholder(l, self.init[l])
                self.marks[l] = marks
                self.write(l, v, r)
        else:
            self.set_state(loc, r, k)
            self.passed(k)
            if not info.obliged and not z3.is_true(info.pass_cond):
                # other iterations end normally
                eng.assume(z3.Not(z3.substitute(info.pass_cond, (info.k, k))))
        self.pc0, self.obl0 = len(eng.pc), len(eng.obligations)
        eng.loop_ks = eng.loop_ks + [k]
        self.ax0 = len(eng.body_axioms)
        self.state = "body"
        self.learn = learn
        self.snap1 = Snap(dict(loc, **{n: v for n, v in zip(self.names, r.vals)}))
        self.tk = len(eng.taken)
        g = self.sym._dv_guard(k)
        if g is not True and not eng.branch(zb(g)):
            return self.end_iteration(dict(loc, **{n: v for n, v in zip(self.names, r.vals)}))
        r.item = self.sym._dv_item(k)
        return r

    def kid(self):
        eng = E()
        ids = eng.__dict__.setdefault("kids", {})
        return ids.setdefault(self.key, len(ids))

    def end_iteration(self, loc):
        eng, info = E(), self.info
        eng.loop_ks = eng.loop_ks[:-1]
        if not self.learn:
            raise PathEnd()
        eng.learning.remove(self)
        changed = [l for l in self.snap1.diff()]
        for p, key in changed:
            x = self.snap1.objs[p]
            if type(x) is TList:
                eng.sym_lists.add(x.site)
                raise Restart()
            if type(x) is dict and hasattr(type(key), "_dv_same"):
                raise Unsupported("a loop adds unknown keys to a dict")
            if type(x) is TDict and key is not None and set(x) != set(self.snap1.cont[p][1]):
                eng.sym_lists.add(x.site)
                raise Restart()
        known = set(info.locs)
        new = [l for l in changed if l not in known and l[0] in self.snap.objs]
        # objects made in this iteration only are not part of the state
        for n in self.names:
            if ("local", n) not in known:
                new.append(("local", n))
        if new:
            info.locs.extend(new)
            info.results, info.incomplete = [], True     # again, once the other paths are explored
            raise PathEnd()
        # what follows from the rest of the path needs no mention
        cond = [c for q, c in enumerate(eng.pc[self.pc0:], self.pc0) if q not in eng.forced]
        info.obliged |= len(eng.obligations) > self.obl0
        if info.incomplete:
            raise PathEnd()
        vals = {}
        for l in info.locs:
            vals[l] = loc.get(l[1], UNDEF) if l[0] == "local" else self.snap.get(l)
        info.results.append((cond, vals, list(eng.body_axioms[self.ax0:]), dict(self.marks),
                             dict(self.init), self.k, self))
        raise PathEnd()

    def write(self, l, v, r):
        if l[0] == "local":
            r.vals[self.names.index(l[1])] = v
        else:
            self.snap.set(l, v)

    # placeholders
    def placeholder(self, l, v):
        eng = E()
        nm = "P!" + str(self.kid()) + "!" + str(self.info.locs.index(l))
        if l[1] is None and l[0] != "local":
            x = self.snap.objs[l[0]]
            if type(x) is SymArr:
                n, fn, kind, sel = v
                f = z3.Function(nm, core.I, {"f": core.R, "i": core.I, "b": core.B}[kind])
                g = {"f": SymReal, "i": SymInt, "b": SymBool}[kind]
                return (n, Fn(lambda i: g(f(i))), kind, sel), [nm]
            if type(x) is XList:
                c = z3.Int(nm)
                E().assume(c >= 0)
                return (c, Fn(lambda i: Poison("an element of a list being built")), []), [c]
            if hasattr(x, "_dv_placeholder"):
                return x._dv_placeholder(nm, v)
            raise Unsupported(f"loop modifies {l[0]} ({type(x).__name__})")
        if is_num(v):
            if isinstance(v, bool) or type(v) is SymBool:
                c = z3.Bool(nm)
                return SymBool(c), [c]
            if is_int_like(v):
                c = z3.Int(nm)
                return SymInt(c), [c]
            c = z3.Real(nm)
            return SymReal(c), [c]
        if type(v) is SymArr:
            f = z3.Function(nm, core.I, {"f": core.R, "i": core.I, "b": core.B}[v.kind])
            g = {"f": SymReal, "i": SymInt, "b": SymBool}[v.kind]
            return SymArr(v.n, Fn(lambda i: g(f(i))), v.kind, v.sel), [nm]
        if type(v) is not Poison and hasattr(v, "_dv_local_placeholder"):
            return v._dv_local_placeholder(nm)
        return Poison(f"{l} from an earlier iteration"), ["poison!"]

    # closed forms
    def finalize(self):
        info = self.info
        k = self.k
        info.k = k
        conds = []
        eng = E()
        eng.pc, eng.axioms, eng.foralls = self.saved_pc, self.saved_axioms, self.saved_foralls
        if not info.results:
            info.pass_cond, info.axioms, info.mode = z3.BoolVal(False), [], "ready"
            info.form = {l: ("keep",) for l in info.locs}
            return True
        allmarks = [m for marks in info.results[0][3].values() for m in marks]
        j = z3.Int("j!gen")
        for cond, *_ in info.results:
            for c in cond:
                for m in allmarks:
                    if core.has_mark(c, m):
                        # facts about the modified state: only branch conditions matter
                        info.fail = f"a condition in the loop depends on the loop state: {c}"
                        return False
            conds.append(z3.And(*cond) if cond else z3.BoolVal(True))
        info.pass_cond = z3.simplify(merge([list(c) for c, *_ in info.results]))
        info.axioms = [a for res in info.results for a in res[2]]
        for l in info.locs:
            try:
                info.form[l] = self.infer(l, conds, j)
            except Unsupported as e:
                info.form[l] = ("poison", f"{l}: {e}")
            if DBG:
                print("form", l, str(info.form[l])[:300])
        info.mode = "ready"
        return True

    def infer(self, l, conds, j):
        info, k = self.info, self.k
        res = info.results
        init = res[0][4][l]
        vals = [r[1][l] for r in res]
        marks = res[0][3][l]
        allmarks = [m for ms in res[0][3].values() for m in ms if not (isinstance(m, str) and m == "poison!")]
        x = None if l[0] == "local" else self.snap.objs[l[0]]
        obj_state = l[0] != "local" and l[1] is None

        def merged(f):
            r = f(vals[-1])
            for c, v in list(zip(conds, vals))[-2::-1]:
                r = ite(wrap(c), f(v), r)
            return r

        # unchanged on all paths
        P = res[0][6].placeholder(l, init)[0] if not (isinstance(marks[0], str) and marks[0] == "poison!") else None
        if obj_state and type(x) is XList:
            tails = [v[2] for v in vals]
            if all(len(t) == 0 for t in tails):
                return ("keep",)
            if not all(len(t) <= 1 for t in tails):
                raise Unsupported("several appended values in one iteration")
            for t in tails:
                if t and mentions(t[0], allmarks, j):
                    raise Unsupported("appended value depends on the loop state")
            if not all(tails):
                return self.infer_cond_append(conds, tails, init, allmarks, j)
            item = merged(lambda v: v[2][0])
            return ("append", item)
        if obj_state and hasattr(x, "_dv_infer"):
            return ("custom", x._dv_infer(self, init, vals, conds, k, allmarks, j))
        is_arr = (obj_state and type(x) is SymArr) or type(init) is SymArr
        if is_arr:
            get = (lambda v: v[1]) if obj_state else (lambda v: v.fn)
            kind = init[2] if obj_state else init.kind
            Pf = get(P)
            return self.infer_arr(kind, get, merged, Pf, marks, allmarks, k, j)
        if is_num(init):
            isb = isinstance(init, bool) or type(init) is SymBool
            v = merged(lambda z: z)
            if not is_num(v):
                raise Unsupported("loop changes the type of a variable")
            if not mentions(v, allmarks, j):
                return ("last", v, None)
            Pv = P
            if all(ident(z, Pv) for z in vals):
                return ("keep",)
            if isb:
                raise Unsupported("boolean loop state")
            flg = real(v)
            if flg.flagged:
                raise Unsupported("nan/inf in a loop sum")
            d = z3.simplify(zr(v) - zr(Pv), som=True)
            if not any(core.has_const(d, m) for m in allmarks if not isinstance(m, str)) and \
                    not mentions(SymReal(d), allmarks, j):
                return ("sum", d, is_int_like(init) and is_int_like(v))
            return self.infer_condlast(vals, conds, Pv, allmarks, j)
        # other types
        if all(ident(z, P) for z in vals) and P is not None:
            return ("keep",)
        if hasattr(type(init), "_dv_vinfer"):
            return ("vcustom", init._dv_vinfer(P, vals, conds, k, allmarks, j))
        if type(vals[0]) is Poison and all(z is vals[0] for z in vals):
            return ("keep",)
        for v in vals:
            if mentions(v, allmarks, j):
                raise Unsupported("value depends on the loop state")
        if len(vals) == 1:
            return ("last", vals[0], None)
        return ("last", merged(lambda z: z), None)

    def infer_cond_append(self, conds, tails, init, allmarks, j):
        """values appended in some iterations: the i-th of them in the iteration pos(i)"""
        if self.outer:
            raise Unsupported("conditional append in a nested loop")
        got = [(c, t[0]) for c, t in zip(conds, tails) if t]
        c = z3.simplify(z3.Or(*[g[0] for g in got]))
        if mentions(SymBool(c), allmarks, j):
            raise Unsupported("append decided by the loop state")
        item = got[-1][1]
        for cc, v in got[-2::-1]:
            item = ite(wrap(cc), v, item)
        e = E()
        pos = e.register_fun(e.fresh_fun("pos", core.I, core.I))
        return ("cappend", item, c, pos)

    def infer_condlast(self, vals, conds, Pv, allmarks, j):
        upd, others = [], []
        for c, v in zip(conds, vals):
            if ident(v, Pv):
                others.append(c)
            elif mentions(v, allmarks, j):
                raise Unsupported("loop state without a closed form")
            else:
                upd.append((c, v))
        c = z3.Or(*[u[0] for u in upd])
        v = upd[-1][1]
        for cc, vv in upd[-2::-1]:
            v = ite(wrap(cc), vv, v)
        return ("last", v, c)

    def infer_arr(self, kind, get, merged, Pf, marks, allmarks, k, j):
        new = merged(lambda v: get(v)(j))
        old = Pf(j)
        if ident(new, old):
            return ("keep",)
        if kind == "b":
            t = zb(new)
            pj = zb(old)
            tt = z3.simplify(z3.substitute(t, (pj, z3.BoolVal(True))))
            ff = z3.simplify(z3.substitute(t, (pj, z3.BoolVal(False))))
            if not mentions(SymBool(tt), allmarks, j) and z3.is_false(ff):
                return ("conj", tt, j)
            if not mentions(SymBool(ff), allmarks, j) and z3.is_true(tt):
                return ("disj", ff, j)
        else:
            r = real(new)
            if not r.flagged:
                d = z3.simplify(zr(new) - zr(old), som=True)
                if not mentions(SymReal(d), allmarks, j):
                    return ("asum", d, j)
        # store at the index k
        w = merged(lambda v: get(v)(k))
        if not mentions(w, allmarks, j):
            if E().valid(z3.Implies(j != k, boolz(same(new, old)))):
                return ("store", w)
        raise Unsupported("array update without a closed form")

    def value(self, l, form, init, k):
        """the closed form at iteration count k"""
        info = self.info
        K = info.k
        sub = lambda v, t: vmap(v, lambda z: z3.substitute(z, (K, t)))
        x = None if l[0] == "local" else self.snap.objs[l[0]]
        tag = form[0]
        if tag == "keep":
            return init
        if tag == "poison":
            return Poison(form[1])
        if tag == "append":
            n0, fn0, tail = init
            base = XList(n0, fn0, tail)
            m = nz(base.n)
            item = form[1]
            if isinstance(base.n, int) and base.n == 0:
                return (k, Fn(lambda i: sub(item, i)), [])
            bf = base.at
            return (z3.simplify(m + k), Fn(lambda i: ite(
                wrap(i < m), bf(i), sub(item, z3.simplify(i - m)))), [])
        if tag == "cappend":
            item, c, pos = form[1:]
            at = lambda i: z3.substitute(c, (K, i))
            L = lam(at)
            n = CntF(k, L)
            # pos enumerates the iterations below k in which c holds, in their order
            E().add_forall(z3.IntVal(0), n, lambda i: z3.And(
                0 <= pos(i), pos(i) < k, at(pos(i)), CntF(pos(i), L) == i))
            E().add_forall(z3.IntVal(0), k, lambda t: z3.Implies(at(t), z3.And(
                0 <= CntF(t, L), CntF(t, L) < n, pos(CntF(t, L)) == t)))
            base = XList(*init)
            if isinstance(base.n, int) and base.n == 0:
                return (n, Fn(lambda i: sub(item, pos(i))), [])
            m, bf = nz(base.n), base.at
            return (z3.simplify(m + n), Fn(lambda i: ite(
                wrap(i < m), bf(i), sub(item, pos(z3.simplify(i - m))))), [])
        if tag == "custom":
            return x._dv_closed(form[1], init, k, sub)
        if tag == "vcustom":
            return init._dv_vclosed(form[1], k, K)
        if tag == "last":
            v, c = form[1], form[2]
            if c is None:
                last = sub(v, z3.simplify(k - 1))
                if init is UNDEF or not is_num(init) or type(init) is Poison:
                    if E().valid(k >= 1):
                        return last
                    if type(init) in (Undef, Poison) or init is None:
                        # undefined unless an iteration was made
                        if E().branch(k >= 1):
                            return last
                        return init
                    if E().branch(k >= 1):
                        return last
                    return init
                return ite(wrap(k >= 1), last, init)
            L = lam(lambda i: z3.substitute(c, (K, i)))
            return ite(wrap(CntF(k, L) > 0), sub(v, LastF(k, L)), init)
        if tag == "sum":
            s = msum(k, lambda i: z3.substitute(form[1], (K, i)))
            v = z3.simplify(zr(init) + s, som=True)
            return wrap(z3.ToInt(v)) if form[2] else SymReal(v)
        # arrays
        if l[0] != "local" and l[1] is None:
            n, fn, kind, sel = init
        else:
            n, fn, kind, sel = init.n, init.fn, init.kind, init.sel
        if tag == "asum":
            d, J = form[1], form[2]
            f = Fn(lambda i: SymReal(z3.simplify(zr(fn(i)) + msum(
                k, lambda t: z3.substitute(d, (K, t), (J, i))))))
        elif tag == "conj":
            d, J = form[1], form[2]
            f = Fn(lambda i: wrap(z3.And(zb(fn(i)), z3.Not(AnyF(k, lam(
                lambda t: z3.Not(z3.substitute(d, (K, t), (J, i)))))))))
        elif tag == "disj":
            d, J = form[1], form[2]
            f = Fn(lambda i: wrap(z3.Or(zb(fn(i)), AnyF(k, lam(
                lambda t: z3.substitute(d, (K, t), (J, i)))))))
        elif tag == "store":
            w = form[1]
            f = Fn(lambda i: ite(wrap(z3.And(0 <= i, i < k)), sub(w, i), fn(i)))
        else:
            raise Unsupported(tag)
        if l[0] != "local" and l[1] is None:
            return (n, f, kind, sel)
        return SymArr(n, f, kind, sel)

    def set_state(self, loc, r, k):
        for l in self.info.locs:
            self.write(l, self.value(l, self.info.form[l], self.init[l], k), r)

    def passed(self, k):
        """facts about all passed iterations"""
        info, eng = self.info, E()
        for nm, ax in info.axioms:
            eng.axioms.setdefault(nm, []).append(ax)
        pcnd = info.pass_cond
        if not z3.is_true(pcnd):
            eng.add_forall(z3.IntVal(0), k, lambda t: z3.substitute(pcnd, (info.k, t)))


def merge(paths):
    """the disjunction of the paths of a decision tree (lists of literals)"""
    if not all(paths):
        return z3.BoolVal(True)
    neg = lambda c: c.arg(0) if z3.is_not(c) else z3.Not(c)
    first = paths[0][0]
    same = [p[1:] for p in paths if p[0].eq(first)]
    rest = [p for p in paths if not p[0].eq(first)]
    a = merge(same)
    if not rest:
        return first if z3.is_true(a) else z3.And(first, a)
    if not all(p[0].eq(neg(first)) for p in rest):
        return z3.Or(*[z3.And(*p) for p in paths])
    b = merge([p[1:] for p in rest])
    if a.eq(b):
        return a
    return z3.Or(z3.And(first, a), z3.And(neg(first), b))


def finish_learning(eng):
    """called when all paths of a pass are explored: derive the closed forms learnt"""
    q, eng.learn_queue, eng.learn_wait = eng.learn_queue, [], {}
    if not q:
        return False
    eng.no_branch = True
    # a loop is settled after the loops in its body
    waiting = {id(i) for run in q for i in run.outer}
    try:
        for run in q:
            if run.info.incomplete or id(run.info) in waiting:
                continue
            if not run.finalize():
                run.info.mode = "inv"
    finally:
        eng.no_branch = False
    return True
