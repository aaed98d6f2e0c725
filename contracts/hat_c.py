"""C17, C18: the runner (McHat)"""
import sys

import z3

from dv import core
from dv.contract import vc
from dv.core import E, AnyF, PathEnd, Unsupported, lam, raise_modelled
from dv.loops import SymSeq
from dv.stubs.np_stub import np
from dv.values import (And, SymInt, SymReal, XList, a_max, a_min, boolz, fresh_arr, fresh_int, fresh_real,
                       is_num, ite, nz, real, same, wrap, zi, zr)

from . import kv as kv_
from .ghostmap import KeyMap, SymKey
from .index_c import in_entry, of_index, watch

HAT = "mcsas3.mc_hat:McHat"
M = "mcsas3.mc_hat"


# ---------------------------------------------------------------- limits of one fit parameter
class LimitVal:
    """the limits given for fit parameter i: a list [lo, hi] (kind 0), 'auto' (1), other text (2)"""
    F = None

    def __init__(self, i):
        self.i = i

    @property
    def kind(self):
        return LimitVal.F["kind"](self.i)

    @property
    def __class__(self):
        return str if E().branch(self.kind != 0) else list

    def _list(self):
        return not E().branch(self.kind != 0)

    def __eq__(self, o):
        if type(o) is LimitVal:
            raise Unsupported("comparison of two limits")
        if isinstance(o, str):
            if o == "auto":
                return wrap(self.kind == 1)
            f = E().ghost.setdefault(("textis", o), E().fresh_fun("textis", core.I, core.B))
            return wrap(z3.And(self.kind == 2, f(self.i)))
        raise Unsupported("comparison of limits")

    def __ne__(self, o):
        return ~self.__eq__(o)

    __hash__ = None

    def items(self):
        raise_modelled(AttributeError("items"))

    def __getitem__(self, k):
        if not self._list() or not isinstance(k, int):
            raise Unsupported("part of a text")
        return SymReal(LimitVal.F[("lo", "hi", "hi" if k == -1 else None)[k]](self.i))

    def __len__(self):
        if not self._list():
            raise Unsupported("length of a text")
        return 2

    def __iter__(self):
        len(self)
        return iter([self[0], self[1]])

    def _dv_dict(self, k):
        raise Unsupported("dict of limits")

    def _dv_same(self, o):
        return self.i == o.i if type(o) is LimitVal else False

    def _dv_ite(self, c, o):
        if type(o) is not LimitVal:
            raise Unsupported("if-then-else of limits")
        return LimitVal(z3.simplify(z3.If(c, self.i, o.i)))

    def _dv_vmap(self, f):
        return LimitVal(f(self.i))

    def _dv_terms(self, j):
        return [SymInt(self.i)]

    def __str__(self):
        return "<limits>"

    __repr__ = __str__

    def __format__(self, s):
        return "<limits>"


def limit_map():
    n = fresh_int("npars", 0)
    E().ghost["keys_n"] = n
    e = E()
    LimitVal.F = dict(kind=e.register_fun(e.fresh_fun("kind", core.I, core.I)),
                      lo=e.register_fun(e.fresh_fun("lo", core.I, core.R)),
                      hi=e.register_fun(e.fresh_fun("hi", core.I, core.R)))
    kf = LimitVal.F["kind"]
    e.add_forall(z3.IntVal(0), nz(n), lambda i: z3.And(0 <= kf(i), kf(i) <= 2))
    return n, KeyMap.of(n, LimitVal)


def meas_data(nq=None):
    """1-D (one Q) or 2-D data (two)"""
    m = fresh_int("m", 1)
    nq = nq or 1 + E().choose(2)
    qs = [fresh_arr(f"Q{i}", m) for i in range(nq)]
    return dict(Q=qs, I=fresh_arr("I", m), ISigma=fresh_arr("S", m)), qs


def q_range(qs):
    lo, hi = a_min(qs[0]), a_max(qs[0])
    for q in qs[1:]:
        a, b = a_min(q), a_max(q)
        lo, hi = ite(a < lo, a, lo), ite(b > hi, b, hi)
    return zr(lo), zr(hi)


def two(x):
    """the two numbers of a pair of limits, or None"""
    if type(x) is LimitVal:
        return None
    try:
        a = list(x)
    except TypeError:
        return None
    return a if len(a) == 2 and all(is_num(t) for t in a) else None


def check_filled(v, cur, n, qlo, qhi, pre=""):
    """the limits in force now"""
    if type(cur) is not KeyMap:
        raise Unsupported("limits are not a dict over the fit parameters")
    j = z3.Int("j!dom")
    v.prove(pre + "every fit parameter keeps an entry, and no other has one", And(
        z3.BoolVal(not cur.extra), z3.Implies(z3.And(0 <= j, j < nz(n)), cur.dom(j))))
    i = E().fresh_int("par")
    E().assume(z3.And(0 <= i, i < nz(n)))
    E().hint_idx.append(i)
    kind = LimitVal.F["kind"](i)
    w = cur.get_at(i)
    if E().branch(kind == 1):
        v.cover("auto")
        p = two(w)
        v.prove(pre + "'auto' is replaced by two limits", z3.BoolVal(p is not None))
        if p is not None:
            v.prove(pre + "auto limits are pi/Qmax and pi/Qmin", And(
                real(p[0]).fin, real(p[1]).fin, zr(p[0]) * qhi == core.PI, zr(p[1]) * qlo == core.PI))
    else:
        v.cover("given limits")
        if type(w) is LimitVal:
            v.prove(pre + "given limits stay", w.i == i)
        else:
            p = two(w)
            v.prove(pre + "given limits stay", And(
                z3.BoolVal(p is not None), kind == 0, *([] if p is None else [
                    zr(p[0]) == LimitVal.F["lo"](i), zr(p[1]) == LimitVal.F["hi"](i)])))
    v.prove(pre + "no text but 'auto' is accepted", kind != 2)
    v.prove(pre + "auto limits only for positive Q", z3.Implies(kind == 1, qlo > 0))


def check_given(v, km, n):
    """the dict of the caller is as before"""
    i = E().fresh_int("par")
    E().hint_idx.append(i)
    w = km.get_at(i, True)
    v.prove("the limits passed by the caller are not changed", z3.Implies(
        z3.And(0 <= i, i < nz(n)), And(z3.BoolVal(type(w) is LimitVal and not km.extra),
                                       km.dom(i), w.i == i if type(w) is LimitVal else False)))


def reason(n, qlo):
    """is there a reason to refuse?"""
    kf = LimitVal.F["kind"]
    return AnyF(nz(n), lam(lambda i: z3.Or(kf(i) == 2, z3.And(kf(i) == 1, qlo <= 0))))


def make_hat(v, **k):
    return v.get(HAT)(**dict(dict(staticParameters={}, nContrib=fresh_int("nContrib", 1)), **k))


@vc("McHat.fillFitParameterLimits", ["C18"], [HAT + ".fillFitParameterLimits", HAT + ".__init__"],
    own="C18")
def vc_fill(v):
    n, km = limit_map()
    data, qs = meas_data()
    r = v.call(lambda: make_hat(v, fitParameterLimits=km))
    if not r.ok:
        v.fail("creating a run does not raise", repr(r.exc))
        return
    h = r.value
    q0 = [q.copy() for q in qs]
    v.cover("precondition")
    r = v.call(lambda: h.fillFitParameterLimits(data))
    qlo, qhi = q_range(q0)
    if r.ok:
        v.cover("filled")
        check_filled(v, h._modelArgs["fitParameterLimits"], n, qlo, qhi)
        v.prove("data with other text or nonpositive Q are refused", z3.Not(reason(n, qlo)))
    else:
        v.cover("refused")
        v.prove("legal limits are not refused", reason(n, qlo), repr(r.exc))
    check_given(v, km, n)
    if len(data["Q"]) != len(qs):
        raise Unsupported("data changed")
    j = E().fresh_int("j")
    for a, b in zip(data["Q"], q0):
        v.prove("the data are not changed", And(nz(a.n) == nz(b.n), z3.Implies(
            z3.And(0 <= j, j < nz(b.n)), zr(a.at(j)) == zr(b.at(j)))))


# ---------------------------------------------------------------- runs
class GLock:
    """multiprocessing.Lock: a mutual exclusion between the worker processes"""
    __module__ = "ghost"
    made = 0

    def __init__(self):
        self.held = False
        self.log = []

    def acquire(self, block=True, timeout=None):
        if block is not True or timeout is not None:
            raise Unsupported("acquire without waiting")
        if self.held:
            self.log.append("deadlock")
            raise Unsupported("lock acquired twice")
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise_modelled(ValueError("semaphore or lock released too many times"))
        self.held = False

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class Outputs:
    """what the workers returned: opaque texts"""

    def __init__(self, n):
        self.n = n

    def _dv_symiter(self):
        return SymSeq(self.n, lambda k: "output")

    def _dv_len(self):
        return wrap(nz(self.n))

    def _dv_sorted(self, **k):
        return self

    def __iter__(self):
        raise Unsupported("native iteration")

    def _dv_vmap(self, f):
        return self

    def _dv_terms(self, j):
        return []


class GPool:
    """multiprocessing.Pool: each task is run once, in a worker which has run the initializer"""
    __module__ = "ghost"

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.init, self.args = initializer, tuple(initargs)
        self.closed = False
        if processes is not None and bool(wrap(nz(processes) < 1)):
            raise_modelled(ValueError("Number of processes must be at least 1"))
        E().ghost["pools"].append(self)

    def _run(self, f, args):
        """every task in `args` once: log of an arbitrary one"""
        v, h, n = (E().ghost[x] for x in ("v", "hat", "nRep"))
        if self.closed:
            raise_modelled(ValueError("Pool not running"))
        if type(args) is list or not hasattr(args, "_dv_len"):
            raise Unsupported("tasks given one by one")
        ln, at = nz(args._dv_len()), args.at
        mod = sys.modules[M]
        before = mod.STORE_LOCK
        if self.init is not None:
            self.init(*self.args)
        lock = mod.STORE_LOCK
        v.prove("the workers hold a lock common to all processes", z3.BoolVal(
            type(lock) is GLock and lock in E().ghost["locks"]))
        v.prove("each repetition is one task", ln == nz(n))
        got = []
        for nm in ("t1", "t2") if type(v) is not Mute else ("t1",):
            k = E().fresh_int(nm)
            E().assume(z3.And(0 <= k, k < nz(n)))
            E().hint_idx.append(k)
            log = []
            E().ghost["worker"] = log
            try:
                a = at(k)
                f(*a)
            finally:
                E().ghost["worker"] = None
            v.prove("a task is exactly one repetition", z3.BoolVal(len(log) == 1))
            if len(log) != 1:
                raise PathEnd()
            check_args(v, log[0])
            got.append((k, zi(log[0]["repetition"])))
        (k1, r1), (k2, r2) = got[0], got[-1]
        v.prove("each repetition number is one of 0 to n-1", z3.And(0 <= r1, r1 < nz(n)))
        v.prove("no repetition is run twice", z3.Implies(k1 != k2, r1 != r2))
        v.cover("parallel")
        mod.STORE_LOCK = before
        E().ghost["ran"].append("parallel")
        return Outputs(n)

    def starmap(self, f, args, chunksize=None):
        return self._run(f, args)

    def map(self, f, args, chunksize=None):
        return self._run(lambda x: f(x), args)

    def close(self):
        self.closed = True

    terminate = close

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"Pool.{nm}")


def same_data(d, e):
    """equal measurement data (workers get copies)"""
    if d is e:
        return z3.BoolVal(True)
    if not isinstance(d, dict) or d.keys() != e.keys() or len(d["Q"]) != len(e["Q"]):
        return z3.BoolVal(False)
    j = E().fresh_int("j")
    return And(*[And(nz(a.n) == nz(b.n), z3.Implies(z3.And(0 <= j, j < nz(b.n)),
                                                    boolz(same(a.at(j), b.at(j)))))
                 for a, b in zip([*d["Q"], d["I"], d["ISigma"]], [*e["Q"], e["I"], e["ISigma"]])])


class Mute:
    """obligations of another VC"""

    def prove(self, *a):
        pass

    cover = prove


def check_args(v, c):
    g = E().ghost
    if type(v) is Mute:
        return
    v.prove("a repetition gets the data, the result file and the index of the run", And(
        same_data(c["measData"], g["data"]), z3.BoolVal(c["filename"] == g["file"]),
        ix := boolz(same(c["resultIndex"], g["index"])) if c["resultIndex"] is not None else z3.BoolVal(
            g["index"] is g["hatindex"])))
    v.prove("C09.a repetition gets the index of the run", ix)


def c_runOnce(self, measData, filename, repetition=0, bufferStdIO=False, resultIndex=None):
    """contract of McHat.runOnce (its own VC): optimizes and stores this repetition once"""
    g = E().ghost
    if g.get("onrun"):
        g["onrun"](self)
    c = dict(measData=measData, filename=filename, repetition=repetition, resultIndex=resultIndex)
    if g.get("worker") is not None:
        g["worker"].append(c)
        return "output"
    check_args(g["v"], c)
    self._glog.append(repetition)


def use_processes(v):
    g = E().ghost
    g["locks"], g["pools"], g["ran"], g["worker"] = [], [], [], None

    def lock():
        x = GLock()
        g["locks"].append(x)
        return x

    def no(*a, **k):
        raise Unsupported("another way to run processes")
    import concurrent.futures                                                       # noqa: F401
    import multiprocessing                                                          # noqa: F401
    import threading                                                                # noqa: F401
    v.patch("multiprocessing:Pool", GPool)
    v.patch("multiprocessing:Lock", lock)
    v.patch("multiprocessing:RLock", lock)
    v.patch("multiprocessing:cpu_count", lambda: g.setdefault("ncpu", fresh_int("ncpu", 1)))
    for nm in ("multiprocessing:Process", "multiprocessing:get_context", "multiprocessing:Manager",
               "concurrent.futures:ProcessPoolExecutor", "concurrent.futures:ThreadPoolExecutor",
               "threading:Thread"):
        v.patch(nm, no)


def run_setup(v, limits):
    g = E().ghost
    use_processes(v)
    v.patch(HAT + ".runOnce", c_runOnce)
    n, idx0 = fresh_int("nRep", 1), fresh_int("hatIndex", 0)
    g.update(v=v, nRep=n, hatindex=idx0, file="<result file>")
    r = v.call(lambda: make_hat(v, fitParameterLimits=limits, nRep=n, nCores=fresh_int("nCores", 0),
                                resultIndex=idx0))
    if not r.ok:
        v.fail("creating a run does not raise", repr(r.exc))
        return None
    h = r.value
    h._glog = XList()
    g["hat"] = h
    g["index"] = idx0 if E().choose(2) else fresh_int("runIndex", 0)
    return h


def do_run(v, h, data):
    g = E().ghost
    g["data"] = data
    kw = {} if g["index"] is g["hatindex"] else {"resultIndex": g["index"]}
    return v.call(lambda: h.run(data, g["file"], **kw))


@vc("McHat.run", ["C17", "C09"], [HAT + ".run", HAT + ".__init__", M + ":initStoreLock"], own="C17")
def vc_run(v):
    h = run_setup(v, {"radius": [fresh_real("lo"), fresh_real("hi")]})
    if h is None:
        return
    data, _ = meas_data()
    n = E().ghost["nRep"]
    v.cover("precondition")
    r = do_run(v, h, data)
    if not r.ok:
        v.fail("run does not raise", repr(r.exc))
        return
    log = h._glog
    if E().ghost["ran"]:
        v.prove("the repetitions are run once", z3.BoolVal(E().ghost["ran"] == ["parallel"]))
        v.prove("no repetition is run outside of the workers", nz(log._dv_len()) == 0)
        return
    v.cover("serial")
    v.prove("n repetitions are run", nz(log._dv_len()) == nz(n))
    a, b = E().fresh_int("a"), E().fresh_int("b")
    E().hint_idx.extend([a, b])
    rng = z3.And(0 <= a, a < nz(n), 0 <= b, b < nz(n), a != b)
    ra, rb = zi(log.at(a)), zi(log.at(b))
    v.prove("each repetition number is one of 0 to n-1", z3.Implies(
        rng, z3.And(0 <= ra, ra < nz(n))))
    v.prove("no repetition is run twice", z3.Implies(rng, ra != rb))
    v.prove("no repetition is run twice (one repetition)", z3.Implies(
        z3.And(0 <= a, a < nz(n)), z3.And(0 <= ra, ra < nz(n))))


@vc("McHat.run: limits", ["C18"], [HAT + ".run", HAT + ".fillFitParameterLimits", HAT + ".__init__"],
    own="C18")
def vc_run_limits(v):
    n, km = limit_map()
    h = run_setup(v, km)
    if h is None:
        return
    data, qs = meas_data(1)
    qlo, qhi = q_range(qs)
    seen = []

    def onrun(hat):
        if not E().learning:
            v.cover("repetition")
            seen.append(1)
            check_filled(v, hat._modelArgs["fitParameterLimits"], n, qlo, qhi, "at a repetition: ")
    E().ghost["onrun"] = onrun
    E().ghost["v"] = Mute()          # the rest is C17
    v.cover("precondition")
    r = do_run(v, h, data)
    if r.ok:
        v.cover("run")
        check_filled(v, h._modelArgs["fitParameterLimits"], n, qlo, qhi, "after the run: ")
    else:
        v.cover("refused")
        v.prove("legal limits are not refused", reason(n, qlo), repr(r.exc))
    check_given(v, km, n)


# ---------------------------------------------------------------- one repetition
class GKernel:
    __module__ = "ghost"

    def __init__(self, how):
        self.how = how

    def release(self):
        if self.how == 2:
            raise_modelled(RuntimeError("release"))


class GTable:
    """the contributions"""
    __module__ = "ghost"

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"contributions .{nm}")


class Interrupt(BaseException):
    pass


def indexof(n):
    from mcsas3.mc_hdf import ResultIndex
    return ResultIndex(n)


def once_env(v):
    """contracts of what runOnce calls"""
    g = E().ghost
    ev = g["events"] = []
    g["gen"] = {}
    g["keepalive"] = []
    g["draw"] = 0

    def m_init(self, *a, **k):
        """McModel: generators seeded with `seed`; draws the contributions"""
        if a:
            raise Unsupported("positional model arguments")
        g["keepalive"].append(self)
        seed = k.get("seed", type(self).seed)
        g["gen"][id(self)] = [("seed", seed, len(g["gen"])), 0]
        for a_, b_ in k.items():
            object.__setattr__(self, a_, b_)
        object.__setattr__(self, "resultIndex", indexof(k.get("resultIndex", 1)))
        ev.append(("model", self, k))
        m_reset(self)

    def m_reset(self):
        """McModel.resetParameterSet: draws new contributions from the model's generators"""
        st = g["gen"].get(id(self))
        if st is None:
            raise Unsupported("a model of unknown origin")
        st[1] += 1
        object.__setattr__(self, "parameterSet", GTable())
        ev.append(("draw", self, st[0], st[1]))

    def c_init(self, measData=None, model=None, opt=None, loadFromFile=None, loadFromRepetition=None,
               resultIndex=1):
        if loadFromFile is not None or loadFromRepetition is not None:
            raise Unsupported("a run with loaded state")
        self._model, self._opt, self.resultIndex = model, opt, indexof(resultIndex)
        m = nz(measData["I"].n)
        object.__setattr__(model, "volumes", fresh_arr("volumes", fresh_int("nV", 1)))
        object.__setattr__(model, "kernel", lambda *a: None)
        opt.modelI, opt.gof = fresh_arr("modelI", wrap(m)), fresh_real("gof")
        opt.step = opt.accepted = 0
        ev.append(("core", self, measData, model, opt, resultIndex))

    def c_opt(self):
        ev.append(("optimize", self))
        how = g["kernel"]
        object.__setattr__(self._model, "kernel", (lambda *a: None) if how == 0 else GKernel(how))
        self._opt.gof, self._opt.accepted = fresh_real("gof"), fresh_int("acc", 0)
        self._opt.step = fresh_int("step", 0)

    def writing(what, obj, fname):
        lock = sys.modules[M].STORE_LOCK
        if lock is not None:
            v.prove("result file writes hold the common lock", z3.BoolVal(
                type(lock) is GLock and lock.held))
        ev.append((what, obj, fname, getattr(getattr(obj, "_opt", None), "repetition", None)))
        if g["fail"] == what:
            if g["failhow"]:
                raise_modelled(OSError("cannot write"))
            raise Interrupt()

    def c_store(self, filename=None):
        v.prove("C09.a repetition is stored under the index of the run", And(of_index(self, g["index"]), of_index(
            self._model, g["index"])))
        writing("store", self, filename)

    def kv(filename, path, pairs):
        pairs = list(pairs)
        v.prove("C09.the settings of a run are stored under its index", in_entry(path, g["index"]), str(path))
        v.prove("C09.the settings of a run are stored where loading reads them", in_entry(
            path, g["index"], "optimization"), str(path))
        ev.append(("names", {k for k, _ in pairs}))
        writing("kv", None, filename)
    v.patch("mcsas3.mc_model:McModel.__init__", m_init)
    v.patch("mcsas3.mc_model:McModel.resetParameterSet", m_reset)
    v.patch("mcsas3.mc_core:McCore.__init__", c_init)
    v.patch("mcsas3.mc_core:McCore.optimize", c_opt)
    v.patch("mcsas3.mc_core:McCore.store", c_store)
    v.patch(M + ":storeKVPairs", kv)
    return ev


def one(v, h, rep, data, lock):
    """one repetition on the real runOnce; returns the draws its contributions come from"""
    g = E().ghost
    ev = g["events"]
    del ev[:]
    mod = sys.modules[M]
    kw = {} if g["index"] is g["hatindex"] else {"resultIndex": g["index"]}
    mod.STORE_LOCK = lock
    so, se = sys.stdout, sys.stderr
    try:
        try:
            r = v.call(lambda: h.runOnce(data, g["file"], rep, g["buffer"], **kw))
        except Interrupt:
            r = None
    finally:
        sys.stdout, sys.stderr = so, se
        changed = mod.STORE_LOCK is not lock
        mod.STORE_LOCK = None
    if changed:
        raise Unsupported("the lock is exchanged")
    if lock is not None:
        v.prove("the lock is released after the writes, also if they fail", z3.BoolVal(not lock.held))
    if r is None:
        v.cover("interrupted")
        raise PathEnd()
    if not r.ok and g["fail"] is None:
        v.fail("a repetition does not raise", repr(r.exc))
        raise PathEnd()
    cores = [e for e in ev if e[0] == "core"]
    opts = [e for e in ev if e[0] == "optimize"]
    v.prove("one fit per repetition", z3.BoolVal(len(cores) == 1 and len(opts) == 1))
    if len(cores) != 1 or len(opts) != 1:
        raise PathEnd()
    _, mc, d, model, opt, idx = cores[0]
    v.prove("a repetition gets the data, the result file and the index of the run", And(
        z3.BoolVal(d is data), boolz(same(idx, g["index"]))))
    v.prove("C09.a repetition gets the index of the run", boolz(same(idx, g["index"])))
    draws = [e for e in ev[:ev.index(cores[0])] if e[0] == "draw" and e[1] is model]
    v.prove("a repetition starts from contributions drawn for it", z3.BoolVal(bool(draws)))
    sts = [e for e in ev if e[0] == "store"]
    v.prove("a repetition is stored once, after its fit", z3.BoolVal(
        len(sts) == 1 and sts[0][1] is mc and ev.index(sts[0]) > ev.index(opts[0])))
    if len(sts) != 1 or not draws:
        raise PathEnd()
    v.prove("a repetition is stored in the result file of the run", z3.BoolVal(
        all(e[2] is g["file"] for e in ev if e[0] in ("store", "kv"))))
    if g["fail"] is None:
        v.prove("C09.the settings of a run are stored", z3.BoolVal({"nRep", "nCores"} <= set().union(
            *(e[1] for e in ev if e[0] == "names"))))
    repn = sts[0][3]
    v.prove("a repetition is stored under its own number", z3.BoolVal(False) if repn is None else
            boolz(same(repn, rep)))
    for e in ev:
        if e[0] == "model":
            lim = e[2].get("fitParameterLimits")
            v.prove("C18.the model gets the limits in force", z3.BoolVal(
                lim is g["limits"] or (isinstance(lim, dict) and list(lim) == list(g["limits"]) and all(
                    lim[k] is g["limits"][k] for k in lim))))
    return draws[-1][2:4]


@vc("McHat.runOnce", ["C17", "C18", "C09"], [HAT + ".runOnce", HAT + ".store", HAT + ".__init__",
                                      "mcsas3.mc_opt:McOpt.__init__"], own="C17")
def vc_runonce(v):
    g = E().ghost
    once_env(v)
    g["fail"] = (None, "store", "kv")[E().choose(3)]
    g["failhow"] = g["fail"] is None or E().choose(2)
    g["kernel"] = 0 if g["fail"] else E().choose(3)
    g["buffer"] = bool(E().choose(2))
    idx0 = g["hatindex"] = fresh_int("hatIndex", 0)
    g["index"] = idx0 if g["fail"] or E().choose(2) else fresh_int("runIndex", 0)
    g["file"] = "<result file>"
    sd = E().choose(3)
    lim = g["limits"] = {"radius": [fresh_real("lo"), fresh_real("hi")]}
    kw = dict(fitParameterLimits=lim, resultIndex=idx0)
    if sd:
        kw["seed"] = fresh_int("seed", 0) if sd == 1 else None
    data, _ = meas_data()
    a, b, c = (fresh_int(f"rep{i}", 0) for i in "abc")
    v.assume(And(a != b, b != c, a != c))
    r1, r2 = v.call(lambda: make_hat(v, **kw)), v.call(lambda: make_hat(v, **kw))
    if not (r1.ok and r2.ok):
        v.fail("creating a run does not raise", repr(r1.exc or r2.exc))
        return
    h, h2 = r1.value, r2.value            # h2: the copy a worker gets
    v.cover("precondition")
    lock = GLock() if E().choose(2) else None
    da = one(v, h, a, data, lock)
    v.cover("first repetition")
    seed, used = kw.get("seed", v.get("mcsas3.mc_model:McModel").seed), da[0][1]
    if seed is None or used is None:
        v.prove("a run without seed is not seeded, one with a seed is", z3.BoolVal(seed is used))
    else:
        v.prove("the first repetition uses the seed that is set", z3.Implies(
            zi(a) == 0, boolz(same(used, seed))))
    db = one(v, h, b, data, lock)
    v.cover("next repetition")
    dc = one(v, h2, c, data, lock)
    v.cover("other worker")
    for x, y in ((da, db), (da, dc), (db, dc)):
        (kx, sx, ix), nx = x
        (ky, sy, iy), ny = y
        if ix == iy:
            v.prove("repetitions use different random numbers", z3.BoolVal(nx != ny))
        elif sx is None and sy is None:
            v.prove("repetitions use different random numbers", z3.BoolVal(True))
        elif sx is None or sy is None:
            raise Unsupported("seeds of different kind")
        else:
            v.prove("repetitions use different random numbers", z3.Not(boolz(same(sx, sy))))


@vc("McHat.store, load", ["C09"], [HAT + ".store", HAT + ".load", HAT + ".__init__"], own="C09", budget=60)
def vc_hat_store(v):
    kv_.use(v, M)
    n = fresh_int("resultIndex", 0)
    watch(v, n)
    nr, nc = fresh_int("nRep", 1), fresh_int("nCores", 0)
    r = v.call(lambda: make_hat(v, fitParameterLimits={"radius": [fresh_real("lo"), fresh_real("hi")]}, resultIndex=n,
                                nRep=nr, nCores=nc))
    if not r.ok:
        v.fail("creating a run does not raise", repr(r.exc))
        return
    h = r.value
    v.cover("precondition")
    v.prove("a run keeps its result index", of_index(h, n))
    f = "<result file>"
    r = v.call(h.store, f)
    if not r.ok:
        v.fail("the settings of a run can be stored", repr(r.exc))
        return
    kv_.file(f).readonly = True
    r = v.call(lambda: make_hat(v, fitParameterLimits={}, loadFromFile=f, resultIndex=n))
    if not r.ok:
        v.fail("the settings of a run can be loaded", repr(r.exc))
        return
    v.cover("loaded")
    v.prove("the settings of a run come back as stored", And(is_num(r.value.nRep), is_num(r.value.nCores), boolz(same(
        r.value.nRep, nr)), boolz(same(r.value.nCores, nc))))
