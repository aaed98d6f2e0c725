"""Contracts and the verification of functions against them."""
from __future__ import annotations

import contextlib
import importlib
import inspect
import time
import traceback

import z3

from . import core, instrument, shared
from .core import E, Engine, PathEnd, Unsupported
from .instrument import engine_fault
from .values import boolz

REGISTRY = {}


class VC:
    """one verification task: a function run by the explorer on every path"""

    def __init__(self, fn, name, props, functions, helper=None, uses=(), budget=240, own=None,
       paths=4000):
        self.fn, self.name, self.props, self.functions = fn, name, props, functions
        self.helper, self.uses, self.budget = helper, uses, budget
        self.own = [own] if isinstance(own, str) else own


def vc(name, props, functions, helper=None, uses=(), budget=240, own=None,
       paths=4000):
    """register; `functions` are the /repo functions whose real bodies this task runs.
    helper: name under which callers use this contract instead of the body;
    own: the properties whose statement the obligations without a Cnn. prefix are part of"""
    def deco(fn):
        v = VC(fn, name, list(props), list(functions), helper, tuple(uses), budget, own)
        v.paths = paths
        REGISTRY[name] = v
        return v
    return deco


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None


class Ctx:
    """handed to the task on every path"""

    def __init__(self, eng, demoted=()):
        self.eng, self.demoted = eng, set(demoted)
        self.stack = contextlib.ExitStack()
        self.patched = []
        self.covers = {}
        self.used = set()
        self.shared_allowed = set()

    def get(self, path):
        """module:attr.attr"""
        m, _, a = path.partition(":")
        o = importlib.import_module(m)
        for p in a.split(".") if a else ():
            o = getattr(o, p)
        return o

    def patch(self, path, new):
        """replace a function by its contract; silently skipped if the code has no such function"""
        m, _, a = path.partition(":")
        o = importlib.import_module(m)
        ps = a.split(".")
        for p in ps[:-1]:
            o = getattr(o, p, None)
            if o is None:
                return False
        if not hasattr(o, ps[-1]):
            return False
        old = o.__dict__.get(ps[-1], None)
        type.__setattr__(o, ps[-1], new) if isinstance(o, type) else setattr(o, ps[-1], new)
        self.patched.append((o, ps[-1], old))
        return True

    def use(self, helper, path, new):
        """use a helper contract unless its own verification failed (then its body runs inline)"""
        if helper in self.demoted:
            return False
        self.used.add(helper)
        return self.patch(path, new)

    def shared_changes(self):
        """changes of state shared between instances (a frame condition), except by patch()"""
        mine = {f"{o.__name__}.{k}" for o, k, _ in self.patched if isinstance(o, type)}
        return [c for c in shared.changes() if c not in mine]

    def unpatch(self):
        for o, k, old in reversed(self.patched):
            if old is None:
                delattr(o, k)
            elif isinstance(o, type):
                type.__setattr__(o, k, old)
            else:
                setattr(o, k, old)
        self.patched = []

    def assume(self, c):
        self.eng.assume(boolz(c))

    def prove(self, name, c, detail=""):
        return self.eng.prove(name, boolz(c), detail)

    def prove_all(self, prefix, pairs):
        for nm, f in pairs:
            self.prove(f"{prefix}.{nm}", f)

    def fail(self, name, detail=""):
        """this point must not be reachable"""
        return self.eng.prove(name, z3.BoolVal(False), detail)

    def cover(self, name):
        """reachability: some path must get here with satisfiable assumptions"""
        if self.covers.get(name) == "sat":
            return
        r = self.eng.check(self.eng.pc, 4000)
        self.covers[name] = r.status if r.status != "unsat" else self.covers.get(name, "unsat")

    def call(self, f, *a, **k):
        """call the function under verification; exceptions become an outcome"""
        try:
            return Outcome(f(*a, **k))
        except (Unsupported, PathEnd, core.Restart, core.SymbolicCond):
            raise
        except Exception as e:
            if engine_fault(e):
                raise Unsupported(f"engine: {type(e).__name__}: {e}\n" + "".join(
                    traceback.format_tb(e.__traceback__)[-3:])) from e
            return Outcome(None, e)


def describe_model(m, limit=40):
    if m is None:
        return None
    out = {}
    for d in m.decls()[:400]:
        n = d.name()
        if n.startswith(("agg!", "sk!", "t!")) or d.arity() > 0:
            continue
        out[n] = str(m[d])
        if len(out) >= limit:
            break
    return out


def run_vc(v, demoted=(), timeout_ms=20000, budget=None):
    eng = Engine(timeout_ms=timeout_ms, max_paths=v.paths)
    eng.deadline = time.time() + (budget or v.budget)
    t0 = time.time()
    covers = {}
    used = set()
    err = None

    def thunk():
        ctx = Ctx(eng, demoted)
        ctx.covers = covers
        ctx.used = used
        shared.restore()
        try:
            v.fn(ctx)
        except (Unsupported, PathEnd, core.Restart, core.SymbolicCond):
            raise
        except Exception as e:
            # an error in the task itself, never a violation
            raise Unsupported(f"task error: {type(e).__name__}: {e}\n" + "".join(
                traceback.format_tb(e.__traceback__)[-4:])) from e
        finally:
            ctx.unpatch()
            ch = [c for c in shared.changes() if c not in ctx.shared_allowed]
            shared.restore()
        if ch:
            raise Unsupported(f"frame: state shared between instances is changed: {', '.join(ch)}")
    try:
        eng.explore(thunk, v.name)
    except Unsupported as e:
        err = f"{e}"
        if not str(e).startswith(("engine", "task")):
            fr = [f for f in traceback.extract_tb(e.__traceback__)]
            loc = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in fr][-9:]
            err += "  at " + " < ".join(reversed(loc))
    except RecursionError as e:
        err = "recursion limit"
    except (Exception, PathEnd, core.SymbolicCond) as e:
        err = f"engine crash: {type(e).__name__}: {e}\n" + "".join(
            traceback.format_tb(e.__traceback__)[-4:])
    agg = {}
    for o in eng.obligations:
        a = agg.setdefault(o.name, dict(name=o.name, status="proved", count=0, secs=0.0,
                                        backends=[], detail="", model=None))
        a["count"] += 1
        a["secs"] += o.secs
        if o.backend not in a["backends"]:
            a["backends"].append(o.backend)
        rank = {"proved": 0, "unknown": 1, "refuted": 2}
        if rank[o.status] > rank[a["status"]]:
            a["status"] = o.status
            a["detail"] = (o.detail or "") + f" path={o.path}"
            a["goal"] = str(getattr(o, "goal", ""))[:2000]
            a["model"] = describe_model(o.model)
    bad = [k for k, s in covers.items() if s == "unsat"]
    return dict(vc=v.name, props=v.props, functions=v.functions, helper=v.helper, own=v.own,
                obligations=list(agg.values()), n=len(eng.obligations), covers=covers,
                vacuous=bad, error=err, paths=eng.paths, queries=eng.queries,
                solver_secs=round(eng.solver_secs, 3), secs=round(time.time() - t0, 3),
                used=sorted(used))


def proved(res):
    return (not res["error"] and res["n"] > 0 and not res["vacuous"] and res["covers"]
            and all(o["status"] == "proved" for o in res["obligations"]))
