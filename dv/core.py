"""Core of the VC generator: path exploration by re-execution, obligations, SMT back end.

The real functions run natively (CPython) on symbolic values.  A symbolic truth value asks
`Engine.branch`, which explores both sides by running the function again with the other decision.
Loops over symbolic iterables are cut by `loops.py`.  `Engine.prove` generates one obligation.
"""
from __future__ import annotations

import itertools
import time
import traceback

import z3

z3.set_param("model.completion", True)
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(BaseException):
    """A construct outside the verified subset: the obligation is undecided, never a violation."""


class PathEnd(BaseException):
    """End of a path (after the inductive step of a loop, or an infeasible assumption)."""


class Restart(BaseException):
    """A loop summary changed: run the exploration again from the start."""


class SymbolicCond(BaseException):
    """Raised in detect mode by a condition which is not constant."""


class Modelled:
    """Exceptions raised on purpose by a library stub carry this mark."""


def raise_modelled(exc):
    exc._dv_modelled = True
    raise exc


# ---------------------------------------------------------------------------------------------
# aggregates over index ranges: uninterpreted functions of (n, lambdas), axiomatized on demand
_tmp = itertools.count()


def lam(fn):
    """the z3 lambda of a python function of one index; bound names depend on the nesting only"""
    t = z3.Int(f"t!{next(_tmp)}")
    body = fn(t)
    if not z3.is_expr(body):
        body = z3.BoolVal(body) if isinstance(body, bool) else z3.RealVal(body)
    if body.sort() == I:
        body = z3.ToReal(body)
    body = z3.simplify(body, arith_lhs=False)
    k = 0
    while has_const(body, z3.Int(f"i!{k}")):
        k += 1
    v = z3.Int(f"i!{k}")
    return z3.Lambda([v], z3.substitute(body, (t, v)))


AI_R = z3.ArraySort(I, R)
AI_B = z3.ArraySort(I, B)
SumF = z3.Function("Sum", I, AI_R, R)            # sum_{0<=i<n} f(i)
CntF = z3.Function("Cnt", I, AI_B, I)            # number of 0<=i<n with m(i)
FirstF = z3.Function("First", I, AI_B, I)        # least such i
LastF = z3.Function("Last", I, AI_B, I)          # greatest such i
MaxF = z3.Function("Max", I, AI_B, AI_R, R)      # max of f(i) over m(i)
MinF = z3.Function("Min", I, AI_B, AI_R, R)
MedF = z3.Function("Median", I, AI_B, AI_R, R)   # only extensionality is known
AnyF = z3.Function("Any", I, AI_B, B)            # exists i
ChiF = z3.Function("Chi", I, AI_R, R, R, R)      # reduced chi-square of a model intensity
AGGS = {f.name(): f for f in (SumF, CntF, FirstF, LastF, MaxF, MinF, MedF, AnyF, ChiF)}
AGG_NAMES = frozenset(AGGS)

# real functions with a few ground axioms
SqrtF = z3.Function("sqrt", R, R)
SinF = z3.Function("sin", R, R)
CosF = z3.Function("cos", R, R)
Log10F = z3.Function("log10", R, R)
Exp10F = z3.Function("exp10", R, R)
LnF = z3.Function("ln", R, R)
ExpF = z3.Function("exp", R, R)
FloorF = z3.Function("floor", R, I)
NextF = z3.Function("nextafter_up", R, R)
PowF = z3.Function("pow", R, R, R)
AbsIsF = None
InvF = z3.Function("inv", R, R)                  # 1/x for x != 0
PI = z3.Real("pi!")
PI_AX = z3.And(PI > z3.Q(314159, 100000), PI < z3.Q(314160, 100000))


_NAMES = {}


def names_in(e):
    """names of the uninterpreted symbols in e (also below lambdas); memoized over shared sub-terms"""
    if len(_NAMES) > 400000:
        _NAMES.clear()
    r = _NAMES.get(e.get_id())
    if r is not None:
        return r[1]
    todo = [(e, None)]
    while todo:
        x, ch = todo.pop()
        i = x.get_id()
        if i in _NAMES:
            continue
        if ch is None:
            ch = [x.body()] if z3.is_quantifier(x) else x.children()
            new = [c for c in ch if c.get_id() not in _NAMES]
            if new:
                todo.append((x, ch))
                todo.extend((c, None) for c in new)
                continue
        own = ()
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                own = (d.name(),)
        sets = [_NAMES[c.get_id()][1] for c in ch]
        if not own and len(sets) == 1:
            s = sets[0]
        else:
            big = max(sets, key=len) if sets else frozenset()
            s = big if all(t <= big for t in sets) and (not own or own[0] in big) else frozenset(
                own).union(*sets)
        _NAMES[i] = (x, s)
    return _NAMES[e.get_id()][1]


def has_const(e, c):
    """does expression e contain constant c (as a sub-term, also below lambdas)?"""
    return c.decl().name() in names_in(e)


def has_mark(e, m):
    return (m if isinstance(m, str) else m.decl().name()) in names_in(e)


def consts_in(e, pred):
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x) and pred(x):
            out.append(x)
        todo.extend(x.children())
    return out


_FV = {}


def _fv(e):
    """1 + the largest de Bruijn index that is free in e (0: none); memoized over shared sub-terms"""
    if len(_FV) > 400000:
        _FV.clear()
    r = _FV.get(e.get_id())
    if r is not None:
        return r[1]
    todo = [e]
    while todo:
        x = todo[-1]
        i = x.get_id()
        if i in _FV:
            todo.pop()
            continue
        if z3.is_var(x):
            _FV[i] = (x, z3.get_var_index(x) + 1)
            todo.pop()
            continue
        ch = [x.body()] if z3.is_quantifier(x) else x.children()
        new = [c for c in ch if c.get_id() not in _FV]
        if new:
            todo.extend(new)
            continue
        m = max((_FV[c.get_id()][1] for c in ch), default=0)
        if z3.is_quantifier(x):
            m = max(0, m - x.num_vars())
        _FV[i] = (x, m)
        todo.pop()
    return _FV[e.get_id()][1]


def has_var(e):
    """does e contain a de Bruijn variable that is free in e?"""
    return _fv(e) > 0


_APPS = {}


def _apps_of(e, names):
    """the applications of the named functions in e (memoized per formula), innermost first"""
    key = (e.get_id(), names)
    r = _APPS.get(key)
    if r is not None:
        return r[1]
    if len(_APPS) > 200000:
        _APPS.clear()
    out, seen = {}, set()

    def go(x):
        i = x.get_id()
        if i in seen:
            return
        seen.add(i)
        if names.isdisjoint(names_in(x)):
            return
        if z3.is_quantifier(x):
            go(x.body())
            return
        for c in x.children():
            go(c)
        if x.num_args() > 0 and x.decl().name() in names and not has_var(x):
            out[i] = x
    go(e)
    r = list(out.values())
    _APPS[key] = (e, r)
    return r


def collect_apps(exprs, names):
    """ground applications (no free de Bruijn variable) of the named functions; innermost first"""
    names = frozenset(names)
    out = {}
    for e in exprs:
        for x in _apps_of(e, names):
            out.setdefault(x.get_id(), x)
    return list(out.values())


class BodyFun:
    """function symbol introduced in a loop body: takes the iteration indices first"""

    def __init__(self, f, ks):
        self.f, self.ks = f, ks

    def __call__(self, *a):
        return self.f(*self.ks, *a)

    def name(self):
        return self.f.name()


class Result:
    def __init__(self, status, model=None, reason="", secs=0.0, backend="z3", smt=None):
        self.status, self.model, self.reason = status, model, reason
        self.secs, self.backend, self.smt = secs, backend, smt


class Obligation:
    def __init__(self, name, status, secs, backend, detail="", model=None, path=None):
        self.name, self.status, self.secs = name, status, secs
        self.backend, self.detail, self.model, self.path = backend, detail, model, path


def _numeral(x):
    return z3.is_rational_value(x) or z3.is_int_value(x) or z3.is_algebraic_value(x)


_NL = {}
_NORM = {}
_ABS = {}
_AGGKEEP = []


def norm(e):
    r = _NORM.get(e.get_id())
    if r is None:
        if len(_NORM) > 100000:
            _NORM.clear()
        r = z3.simplify(e, arith_lhs=False)
        _NORM[e.get_id()] = (e, r)
        _NORM[r.get_id()] = (r, r)
        return r
    return r[1]


class Engine:
    def __init__(self, timeout_ms=20000, branch_timeout_ms=3000, max_paths=4000, cvc5=False):
        self.timeout_ms = timeout_ms
        self.branch_timeout_ms = branch_timeout_ms
        self.max_paths = max_paths
        self.use_cvc5 = cvc5
        self.obligations = []
        self.solver_secs = 0.0
        self.queries = 0
        self.loop_info = {}      # key -> loop summary under construction
        self.paths = 0
        self.path_outcomes = []
        self.bool_detect = 0
        self.no_branch = False
        self.feasible_posts = {}
        self.deadline = None
        self._cache = {}
        self.path_ids = {}
        self.sym_lists = set()
        self.reset_path([])

    # ---- per path state
    def reset_path(self, prefix):
        self.pc = []             # assumed z3 formulas
        self.forced = set()      # positions of those which follow from the ones before
        self.prefix = list(prefix)
        self.taken = []          # decisions made so far on this path
        self.pending = []        # alternatives to explore (prefixes)
        self.counter = itertools.count()
        self.tokens = {}         # token string -> symbolic value
        self.token_ids = {}
        self._inst = {}          # ground instances made on this path
        self._inst_keep = []
        self.axioms = {}         # function name -> list of python callables(args) -> z3 Bool
        self.foralls = []        # (lo, hi, fn(idx)->z3 Bool): instantiated on ground index terms
        self.hint_idx = []       # extra ground index terms
        self.writes = None
        self.loop_ks = []        # iteration indices of the loop bodies being executed
        self.body_axioms = []
        self.body_counters = {}
        self.loop_contract = None
        self.serial = itertools.count(1)
        self.births = {}
        self.keep = []           # keeps objects alive so that id() stays unique
        self.ghost = {}
        self.loop_cands = []
        self.loop_occ = {}
        self.call_depth = 0
        self.trace = []

    # ---- fresh symbols
    def fresh_name(self, hint):
        if not self.loop_ks:
            return f"{hint}!{next(self.counter)}"
        # symbols made in a loop body are functions of the iteration; their names carry the
        # decisions of the path, so that different paths do not share them
        key = (tuple(map(str, self.taken)), tuple(k.get_id() for k in self.loop_ks))
        pid = self.path_ids.setdefault(key, len(self.path_ids))
        c = self.body_counters
        c[pid] = c.get(pid, 0) + 1
        return f"{hint}!L{pid}_{c[pid]}"

    def fresh_const(self, hint, sort):
        if not self.loop_ks:
            return z3.Const(self.fresh_name(hint), sort)
        ks = self.loop_ks
        f = self.register_fun(z3.Function(self.fresh_name(hint), *[k.sort() for k in ks], sort))
        return f(*ks)

    def fresh_int(self, hint="n"):
        return self.fresh_const(hint, I)

    def fresh_real(self, hint="x"):
        return self.fresh_const(hint, R)

    def fresh_bool(self, hint="b"):
        return self.fresh_const(hint, B)

    def fresh_fun(self, hint, *sorts):
        ks = list(self.loop_ks)
        f = z3.Function(self.fresh_name(hint), *[k.sort() for k in ks], *sorts)
        return BodyFun(f, ks) if ks else f

    def add_axiom(self, fun, fn):
        if isinstance(fun, BodyFun) and fun.ks:
            ks = fun.ks

            def inst(*args, fn=fn):
                return z3.substitute(fn(*args[len(ks):]), *zip(ks, args[:len(ks)]))
            self.axioms.setdefault(fun.name(), []).append(inst)
            self.body_axioms.append((fun.name(), inst))
        else:
            self.axioms.setdefault(fun.name(), []).append(fn)

    def add_forall(self, lo, hi, fn):
        self.foralls.append((lo, hi, fn))

    # ---- logic
    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        c = norm(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        self.pc.append(c)

    def branch(self, cond, why=""):
        """truth value of a symbolic condition on this path"""
        if cond is True or cond is False:
            return cond
        c = norm(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.bool_detect:
            raise SymbolicCond()
        if self.no_branch:
            if self.valid(c):
                return True
            if self.valid(z3.Not(c)):
                return False
            raise Unsupported("a decision outside of a path")
        pos = len(self.taken)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            if d == "T!":       # forced: the other side was found infeasible
                self.taken.append(d)
                self.force(c)
                return True
            if d == "F!":
                self.taken.append(d)
                self.force(z3.Not(c))
                return False
            self.taken.append(d)
            self.pc.append(c if d else z3.Not(c))
            return bool(d)
        rt = self.feasible(c)
        rf = self.feasible(z3.Not(c))
        if rt and rf:
            self.pending.append(self.taken + [0])
            self.taken.append(1)
            self.pc.append(c)
            return True
        if rt:
            self.taken.append("T!")
            self.force(c)
            return True
        if rf:
            self.taken.append("F!")
            self.force(z3.Not(c))
            return False
        raise PathEnd()  # the path itself is infeasible

    def force(self, c):
        self.forced.add(len(self.pc))
        self.pc.append(c)

    def choose(self, n, first=0):
        """demonic choice between n alternatives (all are explored), first one first"""
        pos = len(self.taken)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.taken.append(d)
            return d[1]
        order = [first] + [x for x in range(n) if x != first]
        for alt in reversed(order[1:]):
            self.pending.append(self.taken + [("c", alt)])
        self.taken.append(("c", order[0]))
        return order[0]

    def feasible(self, c):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget used up")
        r = self.check(self.pc + [c], self.branch_timeout_ms, light=True)
        return r.status != "unsat"

    def valid(self, cond, timeout_ms=None):
        """is cond provable here (used for engine-internal questions, not recorded)?"""
        if cond is True:
            return True
        c = norm(cond) if not isinstance(cond, bool) else cond
        if c is False or z3.is_false(c):
            return False
        if z3.is_true(c):
            return True
        return self.check(self.pc + [z3.Not(c)], timeout_ms or self.branch_timeout_ms).status == "unsat"

    def prove(self, name, cond, detail=""):
        t0 = time.time()
        if cond is True:
            cond = z3.BoolVal(True)
        if cond is False:
            cond = z3.BoolVal(False)
        c = norm(cond)
        if z3.is_true(c):
            self.obligations.append(Obligation(name, "proved", 0.0, "simplifier"))
            return True
        r = None
        if self.ghost.get("light_first"):
            r = self.check(self.pc + [z3.Not(c)], 3000, light=True)
        if r is None or r.status != "unsat":
            r = self.check(self.pc + [z3.Not(c)], self.timeout_ms, final=True)
        st = {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}[r.status]
        ob = Obligation(name, st, time.time() - t0, r.backend, detail or r.reason, r.model,
                        list(self.taken))
        if st != "proved":
            ob.goal = c
            ob.smt = r.smt
        self.obligations.append(ob)
        # the rest of the path may rely on it
        self.pc.append(c)
        return st == "proved"

    # ---- SMT
    def instantiate(self, formulas, light=False):
        """ground instances of the axioms of aggregates, base functions and foralls"""
        facts = []
        names = set(AGGS) | set(self.axioms) | {
            "sqrt", "log10", "exp10", "sin", "cos", "ln", "exp", "nextafter_up", "floor", "pow",
            "inv"}
        done = set()
        work = list(formulas)
        use_foralls = bool(self.foralls)
        rounds = 2 if light else self.ghost.get("rounds", 4)
        for _round in range(rounds):
            apps = collect_apps(work, names)
            new = []
            by = {}
            for a in apps:
                by.setdefault(a.decl().name(), []).append(a)
            # index terms: arguments of sort Int of base functions and select indices, plus hints
            idx = {}
            for a in collect_apps(work, self.index_names()):
                for c in a.children():
                    if c.sort() == I and not has_var(c):
                        idx.setdefault(c.get_id(), c)
            for c in self.hint_idx:
                idx.setdefault(c.get_id(), c)
            idx = list(idx.values())
            self._inst_keep.extend(apps)     # the keys below use their ids
            self._inst_keep.extend(idx)

            def add(key, mk):
                if key in done:
                    return
                done.add(key)
                f = self._inst.get(key)
                if f is None:
                    if self.deadline and time.time() > self.deadline:
                        raise Unsupported("time budget used up")
                    f = norm(mk())
                    self._inst[key] = f
                if not z3.is_true(f):
                    new.append(f)

            def sk(key):
                return z3.Int("sk!" + "_".join(map(str, key)))

            def at(l, t):
                return z3.simplify(z3.Select(l, t))

            # --- base functions
            for nm, fns in self.axioms.items():
                for a in by.get(nm, ()):
                    for k, fn in enumerate(fns):
                        add(("ax", nm, k, id(fn), a.get_id()), lambda: fn(*a.children()))
            # --- foralls
            if use_foralls:
                for k, (lo, hi, fn) in enumerate(self.foralls):
                    for t in idx:
                        add(("fa", k, id(fn), t.get_id()),
                            lambda: z3.Implies(z3.And(lo <= t, t < hi), fn(t)))
            # --- real functions
            for a in by.get("inv", ()):
                x = a.arg(0)
                add(("inv", a.get_id()), lambda: z3.And(
                    z3.Implies(x != 0, a * x == 1), z3.Implies(x > 0, a > 0),
                    z3.Implies(x < 0, a < 0)))
            for p, q in itertools.combinations(by.get("inv", ()), 2):
                x, y = p.arg(0), q.arg(0)
                add(("invp", p.get_id(), q.get_id()), lambda: z3.And(
                    z3.Implies(x == y, p == q), z3.Implies(z3.And(0 < x, x < y), p > q),
                    z3.Implies(z3.And(0 < y, y < x), q > p)))
            for a in by.get("sqrt", ()):
                x = a.arg(0)
                add(("sqrt", a.get_id()), lambda: z3.And(a >= 0, z3.Implies(x >= 0, a * a == x)))
            for p, q in itertools.combinations(by.get("sqrt", ()), 2):
                x, y = p.arg(0), q.arg(0)
                add(("sqrtp", p.get_id(), q.get_id()), lambda: z3.Implies(x == y, p == q))
            for a in by.get("exp10", ()):
                x = a.arg(0)
                add(("exp10", a.get_id()), lambda: z3.And(a > 0, Log10F(a) == x))
            for a in by.get("log10", ()):
                x = a.arg(0)
                if not (z3.is_app(x) and x.decl().name() == "exp10"):
                    add(("log10", a.get_id()), lambda: z3.Implies(x > 0, Exp10F(a) == x))
            for a in by.get("ln", ()):
                x = a.arg(0)
                if not (z3.is_app(x) and x.decl().name() == "exp"):
                    add(("ln", a.get_id()), lambda: z3.Implies(x > 0, ExpF(a) == x))
            for a in by.get("exp", ()):
                x = a.arg(0)
                add(("exp", a.get_id()), lambda: z3.And(a > 0, LnF(a) == x))
            for nm in ("exp10", "exp"):
                for p, q in itertools.combinations(by.get(nm, ()), 2):
                    x, y = p.arg(0), q.arg(0)
                    add((nm + "p", p.get_id(), q.get_id()),
                        lambda: z3.And((x < y) == (p < q), (x == y) == (p == q)))
            for nm in ("log10", "ln"):
                for p, q in itertools.combinations(by.get(nm, ()), 2):
                    x, y = p.arg(0), q.arg(0)
                    add((nm + "p", p.get_id(), q.get_id()),
                        lambda: z3.Implies(z3.And(x > 0, y > 0),
                                           z3.And((x < y) == (p < q), (x == y) == (p == q))))
            for a in by.get("sin", ()):
                add(("sin", a.get_id()), lambda: z3.And(a >= -1, a <= 1))
            for a in by.get("cos", ()):
                add(("cos", a.get_id()), lambda: z3.And(a >= -1, a <= 1))
            for a in by.get("nextafter_up", ()):
                add(("next", a.get_id()), lambda: a > a.arg(0))
            for a in by.get("floor", ()):
                x = a.arg(0)
                add(("floor", a.get_id()),
                    lambda: z3.And(z3.ToReal(a) <= x, x < z3.ToReal(a) + 1))
            # --- aggregates, single
            for a in by.get("Sum", ()):
                n, f = a.children()
                add(("s0", a.get_id()), lambda: z3.Implies(n <= 0, a == 0))

                def nonneg(a=a, n=n, f=f):
                    s = sk(("nn", a.get_id()))
                    return z3.Or(a >= 0, z3.And(0 <= s, s < n, at(f, s) < 0))
                add(("snn", a.get_id()), nonneg)
            for a in by.get("Cnt", ()):
                n, m = a.children()

                def cnt(a=a, n=n, m=m):
                    s = sk(("c", a.get_id()))
                    s2 = sk(("c2", a.get_id()))
                    return z3.And(
                        a >= 0, z3.Implies(n >= 0, a <= n), z3.Implies(n <= 0, a == 0),
                        z3.Implies(a > 0, z3.And(0 <= s, s < n, at(m, s))),
                        z3.Implies(a > 1, z3.And(0 <= s2, s2 < n, at(m, s2), s != s2)),
                        # all n are in, or one is missing
                        z3.Implies(z3.And(n > 0, a < n),
                                   z3.And(0 <= sk(("c3", a.get_id())), sk(("c3", a.get_id())) < n,
                                          z3.Not(at(m, sk(("c3", a.get_id())))))))
                add(("c", a.get_id()), cnt)
                for t in idx:
                    s = sk(("c", a.get_id()))
                    add(("ct", a.get_id(), t.get_id()), lambda: z3.Implies(
                        z3.And(0 <= t, t < n, at(m, t)),
                        z3.And(a >= 1, z3.Or(t == s, a >= 2))))
                    add(("cm", a.get_id(), t.get_id()), lambda: z3.Implies(
                        z3.And(0 <= t, t < n, z3.Not(at(m, t))), a <= n - 1))
            for a in by.get("Any", ()):
                n, m = a.children()

                def anyax(a=a, n=n, m=m):
                    s = sk(("any", a.get_id()))
                    return z3.Implies(a, z3.And(0 <= s, s < n, at(m, s)))
                add(("any", a.get_id()), anyax)
                for t in idx:
                    add(("anyt", a.get_id(), t.get_id()), lambda: z3.Implies(
                        z3.And(0 <= t, t < n, at(m, t)), a))
            for nm in ("First", "Last"):
                for a in by.get(nm, ()):
                    n, m = a.children()

                    def fst(a=a, n=n, m=m):
                        s = sk(("f", a.get_id()))
                        # if any element exists, the value is one of them
                        return z3.Or(z3.And(0 <= a, a < n, at(m, a)), CntF(n, m) == 0)
                    add((nm, a.get_id()), fst)
                    for t in idx:
                        if t.get_id() == a.get_id():
                            continue
                        add((nm, "t", a.get_id(), t.get_id()), lambda: z3.Implies(
                            z3.And(0 <= t, t < n, at(m, t)), a <= t if nm == "First" else a >= t))
            for nm in ("Max", "Min"):
                for a in by.get(nm, ()):
                    n, m, f = a.children()

                    def mx(a=a, n=n, m=m, f=f):
                        s = sk((nm, a.get_id()))
                        return z3.Or(z3.And(0 <= s, s < n, at(m, s), a == at(f, s)),
                                     CntF(n, m) == 0)
                    add((nm, a.get_id()), mx)
                    for t in idx:
                        add((nm, "t", a.get_id(), t.get_id()), lambda: z3.Implies(
                            z3.And(0 <= t, t < n, at(m, t)),
                            (at(f, t) <= a) if nm == "Max" else (at(f, t) >= a)))
            # --- aggregates, pairs
            if not (light and _round > 0):
                for p, q in itertools.combinations(by.get("Sum", ()), 2):
                    n, f = p.children()
                    k, g = q.children()
                    if n.get_id() == k.get_id() and f.get_id() == g.get_id():
                        continue

                    def ext(p=p, q=q, n=n, k=k, f=f, g=g):
                        s = sk(("se", p.get_id(), q.get_id()))
                        fs, gs = at(f, s), at(g, s)
                        r = [z3.Or(n != k, p == q, z3.And(0 <= s, s < n, fs != gs)),
                             # monotone
                             z3.Or(n != k, p <= q, z3.And(0 <= s, s < n, fs != gs)),
                             z3.Or(n != k + 1, k < 0, p == q + at(f, k),
                                   z3.And(0 <= s, s < k, fs != gs)),
                             z3.Or(k != n + 1, n < 0, q == p + at(g, n),
                                   z3.And(0 <= s, s < n, fs != gs))]
                        return z3.And(*r)
                    add(("se", p.get_id(), q.get_id()), ext)

                    def mono(p=p, q=q, n=n, k=k, f=f, g=g):
                        s = sk(("sm", p.get_id(), q.get_id()))
                        s2 = sk(("sm2", p.get_id(), q.get_id()))
                        return z3.And(
                            z3.Or(n != k, p <= q, z3.And(0 <= s, s < n, at(f, s) > at(g, s))),
                            z3.Or(n != k, p >= q, z3.And(0 <= s2, s2 < n, at(f, s2) < at(g, s2))))
                    if not light:
                        add(("sm", p.get_id(), q.get_id()), mono)
                    for t in self.update_idx():
                        if light:
                            break

                        def upd(p=p, q=q, n=n, k=k, f=f, g=g, t=t):
                            s = sk(("su", p.get_id(), q.get_id(), t.get_id()))
                            return z3.Or(n != k, z3.Not(z3.And(0 <= t, t < n)),
                                         p - q == at(f, t) - at(g, t),
                                         z3.And(0 <= s, s < n, s != t, at(f, s) != at(g, s)))
                        add(("su", p.get_id(), q.get_id(), t.get_id()), upd)
                for p, q in itertools.combinations(by.get("Cnt", ()), 2):
                    n, f = p.children()
                    k, g = q.children()

                    def extc(p=p, q=q, n=n, k=k, f=f, g=g):
                        s = sk(("ce", p.get_id(), q.get_id()))
                        s2 = sk(("cl", p.get_id(), q.get_id()))
                        s3 = sk(("cl2", p.get_id(), q.get_id()))
                        d = at(f, s) != at(g, s)
                        one = lambda b: z3.If(b, 1, 0)
                        return z3.And(
                            z3.Or(n != k, p == q, z3.And(0 <= s, s < n, d)),
                            # m implies m': fewer
                            z3.Or(n != k, p <= q, z3.And(0 <= s2, s2 < n, at(f, s2), z3.Not(at(g, s2)))),
                            z3.Or(n != k, q <= p, z3.And(0 <= s3, s3 < n, at(g, s3), z3.Not(at(f, s3)))),
                            z3.Or(n != k + 1, k < 0, p == q + one(at(f, k)), z3.And(0 <= s, s < k, d)),
                            z3.Or(k != n + 1, n < 0, q == p + one(at(g, n)), z3.And(0 <= s, s < n, d)))
                    add(("ce", p.get_id(), q.get_id()), extc)
                for nm in ("First", "Last", "Any"):
                    for p, q in itertools.combinations(by.get(nm, ()) if not light or not self.ghost.get("light_first") else (), 2):
                        n, f = p.children()
                        k, g = q.children()

                        def extf(p=p, q=q, n=n, k=k, f=f, g=g):
                            s = sk((nm + "e", p.get_id(), q.get_id()))
                            return z3.Or(n != k, p == q,
                                         z3.And(0 <= s, s < n, at(f, s) != at(g, s)))
                        add((nm + "e", p.get_id(), q.get_id()), extf)
                for p, q in itertools.combinations(by.get("Chi", ()), 2):
                    def extx(p=p, q=q):
                        s = sk(("chi", p.get_id(), q.get_id()))
                        n, f, a1, b1 = p.children()
                        k, g, a2, b2 = q.children()
                        return z3.Or(n != k, a1 != a2, b1 != b2, p == q,
                                     z3.And(0 <= s, s < n, at(f, s) != at(g, s)))
                    add(("chi", p.get_id(), q.get_id()), extx)
                for nm in ("Max", "Min", "Median"):
                    for p, q in itertools.combinations(by.get(nm, ()), 2):
                        n, m, f = p.children()
                        k, m2, g = q.children()

                        def extm(p=p, q=q, n=n, k=k, f=f, g=g, m=m, m2=m2):
                            s = sk((nm + "e", p.get_id(), q.get_id()))
                            return z3.Or(n != k, p == q,
                                         z3.And(0 <= s, s < n, z3.Or(
                                             at(m, s) != at(m2, s),
                                             z3.And(at(m, s), at(f, s) != at(g, s)))))
                        add((nm + "e", p.get_id(), q.get_id()), extm)
            facts.extend(new)
            if not new:
                break
            work = work + new
        return facts

    index_fun_names = None

    def index_names(self):
        # base functions (arguments of sort Int are index terms): all functions with axioms or
        # registered as data
        return self.data_funs

    data_funs = frozenset()

    def register_fun(self, f):
        self.data_funs = frozenset(self.data_funs | {f.name()})
        return f

    def update_idx(self):
        out = {}
        for t in self.ghost.get("update_idx", ()):
            out[t.get_id()] = t
        return list(out.values())

    def note_update_idx(self, t):
        self.ghost.setdefault("update_idx", []).append(t)

    def check(self, formulas, timeout_ms, light=False, final=False):
        key = (tuple(sorted(f.get_id() for f in formulas)), len(self.foralls), len(self.hint_idx),
               len(self.update_idx()), light, final)
        if key in self._cache:
            return self._cache[key]
        self.queries += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget used up")
        t0 = time.time()
        base = list(formulas) + [PI_AX]
        r = self._solve(base, min(timeout_ms, 2000), light=light)
        if r.status != "unsat":
            facts = self.instantiate(base, light=light)
            if facts:
                r = self._solve(base + facts, timeout_ms, light=light)
            if r.status == "unknown" and final:
                r2 = self._solve(base + facts, timeout_ms, tactic="qfnra")
                if r2.status != "unknown":
                    r = r2
                else:
                    r2 = self._cvc5(base + facts, timeout_ms)
                    if r2 is not None and r2.status == "unsat":
                        r = r2
        r.secs = time.time() - t0
        self.solver_secs += r.secs
        # keep the formulas alive: ids are reused otherwise
        self._cache[key] = r
        self._keep = getattr(self, "_keep", [])
        self._keep.append(list(formulas))
        return r

    def abstract(self, formulas):
        """replace ground aggregate applications by constants (named by the application)"""
        return [self._abstract1(f) for f in formulas]

    def _abstract1(self, f):
        r = _ABS.get(f.get_id())
        if r is not None:
            return r[1]
        if len(_ABS) > 100000:
            _ABS.clear()
        g = f
        for _ in range(10):
            apps = _apps_of(g, AGG_NAMES)
            if not apps:
                break
            # outermost-safe: substitute all at once, larger terms first
            _AGGKEEP.extend(apps)
            pairs = sorted(((a, z3.Const(f"agg!{a.get_id()}", a.sort())) for a in apps),
                           key=lambda p: -self._size(p[0]))
            g = z3.substitute(g, *pairs)
        _ABS[f.get_id()] = (f, g)
        return g

    def _size(self, e):
        memo = getattr(self, "_sizes", None)
        if memo is None:
            memo = self._sizes = {}
        k = e.get_id()
        if k in memo:
            return memo[k][0]
        if z3.is_quantifier(e):
            s = 1 + self._size(e.body())
        else:
            s = 1 + sum(self._size(c) for c in e.children())
        memo[k] = (s, e)
        return s

    def _nonlinear(self, f):
        """f with its products and quotients of variables replaced by constants (memoized)"""
        r = _NL.get(f.get_id())
        if r is not None:
            return r[1]
        if len(_NL) > 100000:
            _NL.clear()
        found, seen, todo = [], set(), [f]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x) or not z3.is_app(x):
                continue
            k = x.decl().kind()
            ch = x.children()
            if (k == z3.Z3_OP_MUL and sum(not _numeral(c) for c in ch) > 1) or (
                    k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER)
                    and not _numeral(ch[1])):
                if k == z3.Z3_OP_MUL:
                    num = [c for c in ch if _numeral(c)]
                    oth = [c for c in ch if not _numeral(c)]
                    key = oth[0]
                    for c in oth[1:]:
                        key = key * c
                else:
                    num, key = [], x
                _AGGKEEP.append(key)
                c = z3.Const(f"nl!{key.get_id()}", x.sort())
                for q in num:
                    c = q * c
                found.append((x, c))
                continue        # outermost is enough
            todo.extend(ch)
        g = z3.substitute(f, *found) if found else f
        _NL[f.get_id()] = (f, g)
        return g

    def _solve(self, formulas, timeout_ms, tactic=None, light=False):
        fs = self.abstract([norm(f) for f in formulas])
        if tactic is None:
            ls = [self._nonlinear(f) for f in fs]
            if any(l.get_id() != f.get_id() for l, f in zip(ls, fs)):
                # products as unknown numbers first: that is enough for most
                r = self._run(ls, min(timeout_ms, 4000), None)
                if r.status == "unsat":
                    return r
                if light and r.status == "sat":
                    return Result("unknown", reason="nonlinear")     # good enough for a branch
        return self._run(fs, timeout_ms, tactic)

    def _run(self, fs, timeout_ms, tactic):
        if tactic == "qfnra":
            s = z3.Then("simplify", "solve-eqs", "purify-arith", "smt").solver()
        else:
            s = z3.Solver()
        s.set("timeout", int(timeout_ms))
        s.set("random_seed", 1)
        s.add(*fs)
        try:
            st = s.check()
        except z3.Z3Exception as e:
            return Result("unknown", reason=str(e))
        if st == z3.unsat:
            return Result("unsat")
        if st == z3.sat:
            return Result("sat", model=s.model(), smt=s)
        return Result("unknown", reason=s.reason_unknown(), smt=s)

    def _cvc5(self, formulas, timeout_ms):
        try:
            import cvc5
        except ImportError:
            return None
        s = z3.Solver()
        s.add(*self.abstract([norm(f) for f in formulas]))
        text = "(set-logic ALL)\n" + s.to_smt2()
        return cvc5_check(text, timeout_ms)

    # ---- exploration
    def explore(self, thunk, label):
        """run thunk on all paths; thunk is called anew for each path"""
        global ENGINE
        restarts = 0
        while True:
            obl_mark = len(self.obligations)
            try:
                self._explore_once(thunk, label)
                return
            except Restart:
                del self.obligations[obl_mark:]
                restarts += 1
                if restarts > 200:
                    raise Unsupported("no fixpoint for the loop summaries")

    def _explore_once(self, thunk, label):
        from . import loops
        set_engine(self)
        self.learn_queue, self.learn_wait, self.learning = [], {}, []
        for info in self.loop_info.values():
            if info.mode == "learn":
                info.results, info.incomplete = [], False
        stack = [[]]
        n = 0
        self.paths_this = 0
        while stack:
            prefix = stack.pop()
            n += 1
            if n > self.max_paths:
                raise Unsupported(f"more than {self.max_paths} paths in {label}")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget used up")
            self.reset_path(prefix)
            self.learning = []
            try:
                thunk()
            except PathEnd:
                pass
            except Unsupported as e:
                if any(run.info.incomplete for run in self.learning):
                    stack.extend(self.pending)
                    continue
                if self.learning and self.loop_contract is not None:
                    run = self.learning[0]
                    run.info.mode, run.info.fail = "inv", str(e)
                    raise Restart()
                raise
            stack.extend(self.pending)
        self.paths += n
        if loops.finish_learning(self):
            raise Restart()


def cvc5_check(text, timeout_ms):
    import cvc5
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(int(timeout_ms)))
        slv.setOption("nl-ext-tplanes", "true")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(slv, sm)
            if "unsat" in str(out):
                res = "unsat"
            elif "sat" in str(out) and res is None:
                res = "sat"
        return Result(res or "unknown", backend="cvc5")
    except Exception as e:  # the second opinion is optional
        return Result("unknown", reason=f"cvc5: {e}", backend="cvc5")


ENGINE: Engine | None = None


def set_engine(e):
    global ENGINE
    ENGINE = e


def E() -> Engine:
    return ENGINE
