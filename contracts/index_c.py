"""C09: what belongs to a result is kept under its index, and only there"""
from pathlib import PurePath

import z3

from dv import core
from dv.contract import vc
from dv.core import E, Unsupported
from dv.stubs import h5_stub as h5
from dv.values import And, SymInt, boolz, fresh_int, fresh_real, is_int_like, nz, same, wrap

from . import kv

RI = "mcsas3.mc_hdf:ResultIndex"


def in_entry(path, n, *below):
    """is this path below the entry of result n (and there, below the names given)?"""
    ps = kv.names(path) if not isinstance(path, list) else path
    if len(ps) < 2 + len(below) or ps[0] != "analyses" or list(map(str.__str__, ps[2:2 + len(below)])) != list(below):
        return False
    x = h5.parts(ps[1])
    if len(x) == 1 and isinstance(x[0], str):
        d = x[0][8:]
        if not x[0].startswith("MCResult") or not d.isdigit() or str(int(d)) != d:
            return False
        return wrap(nz(n) == int(d))
    if len(x) != 2 or x[0] != "MCResult" or not isinstance(x[1], SymInt):
        return False
    return wrap(nz(x[1]) == nz(n))


def of_index(o, n):
    """the object's result index is n"""
    r = getattr(o, "resultIndex", None)
    i = getattr(r, "resultIndex", None)
    return is_int_like(i) and same(i, n)


def watch(v, n):
    """every path that is read or written from here on is of result n"""
    def check(op, path, f):
        if not E().learning:
            v.cover(op)
        v.prove("C09.entries are read from the result's own index only" if op == "read" else
                "C09.entries are written under the result's own index only", in_entry(path, n), "/".join(map(str.__str__, path)))
    E().ghost["kv_check"] = check


@vc("ResultIndex", ["C09"], [RI + ".nxsEntryPoint"], own="C09", budget=60)
def vc_index(v):
    R = v.get(RI)
    kind = E().choose(5)
    n = (lambda: fresh_int("index"), lambda: fresh_real("index", nan=True, inf=True), lambda: h5.fresh_text("index"),
         lambda: None, lambda: [fresh_int("index")])[kind]()
    v.cover("precondition")
    if kind == 0 and not E().choose(2):
        r = v.call(R)
        if r.ok:
            v.cover("default")
            v.prove("without an index, results are kept under a valid one", in_entry(r.value.nxsEntryPoint, r.value.resultIndex))
        else:
            v.fail("the index may be omitted", repr(r.exc))
        return
    r = v.call(R, n)
    if kind:
        v.cover("no integer")
        v.prove("an index that is not an integer is refused", not r.ok)
        return
    if not r.ok:
        v.cover("refused")
        v.prove("only negative indices are refused", wrap(nz(n) < 0), repr(r.exc))
        return
    v.cover("accepted")
    v.prove("negative indices are refused", wrap(nz(n) >= 0))
    v.prove("the index is kept", of_index(type("o", (), {"resultIndex": r.value})(), n))
    p = v.call(lambda: r.value.nxsEntryPoint)
    v.prove("the entry is that of the index", p.ok and isinstance(p.value, PurePath) and len(kv.names(p.value)) == 2 and
            str.__str__(str(p.value)).startswith("/") and in_entry(p.value, n))
    m = fresh_int("other", 0)
    r2 = v.call(R, m)
    if not (r2.ok and p.ok):
        v.fail("a further result can be created", repr(r2.exc))
        return
    v.cover("two results")
    # same entry only for the same index; entries are never above or below one another
    v.prove("different indices have different entries", wrap(z3.Implies(
        boolz(in_entry(r2.value.nxsEntryPoint, n)), nz(m) == nz(n))))
    v.prove("entries are not within one another", len(kv.names(r2.value.nxsEntryPoint)) == len(kv.names(p.value)))
    # an index changed later on is checked alike
    r3 = v.call(setattr, r2.value, "resultIndex", n2 := fresh_int("changed"))
    v.prove("negative indices are refused, also when changed later", wrap(nz(n2) >= 0) if r3.ok else wrap(nz(n2) < 0))


NEW = dict(McOpt="mcsas3.mc_opt:McOpt", McModel="mcsas3.mc_model:McModel", McHat="mcsas3.mc_hat:McHat",
           McData1D="mcsas3.mc_data_1d:McData1D", McData2D="mcsas3.mc_data_2d:McData2D")


@vc("objects of a result", ["C09"], [p + ".__init__" for p in NEW.values()], own="C09", budget=60)
def vc_new(v):
    """settings, model, run and data keep the index they are created with, and refuse an illegal one"""
    from .settings_c import limits, model_env
    model_env(v)
    for p in (NEW["McData1D"], "mcsas3.mc_data:McData"):
        v.patch(p + ".from_file", lambda self, f=None: None)
    nm = list(NEW)[E().choose(len(NEW))]
    kw = dict(McModel=dict(fitParameterLimits=limits(), staticParameters={}), McHat=dict(
        fitParameterLimits=limits(), staticParameters={})).get(nm, {})
    kind = E().choose(3)
    n = (lambda: fresh_int("index"), lambda: fresh_real("index"), lambda: h5.fresh_text("index"))[kind]()
    v.cover("precondition")
    r = v.call(lambda: v.get(NEW[nm])(resultIndex=n, **kw))
    if kind:
        v.prove(f"{nm}: an index that is not an integer is refused", not r.ok)
    elif r.ok:
        v.cover("created " + nm)
        v.prove(f"{nm}: a negative index is refused", wrap(nz(n) >= 0))
        v.prove(f"{nm}: the result index is the one given", of_index(r.value, n))
    else:
        v.cover("refused")
        v.prove(f"{nm}: only a negative index is refused", wrap(nz(n) < 0), repr(r.exc))
