"""The result file as the callers of mc_hdf see it: the contracts of storeKV, storeKVPairs, loadKV and
loadKVPairs (established for their bodies under C07) over a map from paths to values.

The file may hold anything before: an entry that is not stored here is absent or has unknown content."""
from pathlib import Path, PurePath

import z3

from dv import instrument
from dv.core import E, Unsupported, raise_modelled
from dv.stubs import h5_stub as h5
from dv.stubs.frame import Frame
from dv.values import SymArr, SymBool, XList, is_num

from dv.loops import TDict

from .ghostmap import KeyMap

T = instrument.BUILTINS


class Stale:
    """content of the file from before"""

    def __init__(self, path):
        self.path = path

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"{nm} of an entry that was in the file before")


def names(p):
    s = str(p) if isinstance(p, PurePath) else p
    if not isinstance(s, str):
        raise Unsupported(f"path {type(p).__name__}")
    s = str.__str__(s)
    return [x for x in s.split("/") if x]


def relation(a, b):
    """of two paths: 0 the same, -1 a above b, 1 a below b, None apart"""
    for x, y in zip(a, b):
        if not h5.eq_names(x, y):
            return None
    return 0 if len(a) == len(b) else (-1 if len(a) < len(b) else 1)


def is_plain(v):
    return type(v) in (dict, TDict)


def is_dict(v):
    return type(v) is KeyMap or is_plain(v)


def plain(v):
    """a symbolic dict without any of the unknown keys is an ordinary one"""
    if type(v) is KeyMap and not v.full() and z3.is_false(z3.simplify(v.dom(z3.Int("j!dom")))):
        return dict(v.extra)
    return v


def is_table(v):
    return type(v) is Frame or getattr(type(v), "_dv_table", False)


class KV:
    """one file"""

    def __init__(self, fresh=False):
        self.layers, self.fresh, self.readonly, self.log = [], fresh, False, []

    def put(self, path, v):
        v = plain(v.copy()) if is_dict(v) else v
        self.layers.insert(0, (names(path), v))

    def find(self, p, layers=None):
        """(exists, value) at path p"""
        ls = self.layers if layers is None else layers
        for k, (q, v) in enumerate(ls):
            r = relation(q, p)
            if r is None:
                continue
            if r == 0:
                return True, v
            if r == -1:
                for nm in p[len(q):]:
                    if is_table(v):
                        v = columns(v)
                    if is_plain(v):
                        hit = [x for x in v if h5.eq_names(str(x), nm)]
                        if not hit or v[hit[0]] is None:
                            return False, None
                        v = v[hit[0]]
                    elif is_dict(v):
                        if nm in v.extra:
                            v = v.extra[nm]
                            continue
                        raise Unsupported("an entry of a dict of unknown keys")
                    else:
                        return False, None
                return True, v
            # entries below p: a group
            ok, old = self.find(p, ls[k + 1:])
            d = {}
            if ok and type(old) is Stale:
                return True, old
            if ok and is_plain(old):
                d.update(old)
            elif ok and is_dict(old):
                raise Unsupported("entries added to a dict of unknown keys")
            x = d
            for nm in q[len(p):-1]:
                x[nm] = dict(x[nm]) if is_plain(x.get(nm)) else {}
                x = x[nm]
            x[q[-1]] = v
            return True, d
        if self.fresh:
            return False, None
        key = ("before",) + tuple(map(str.__str__, p))
        known = E().ghost.setdefault("before", {})
        if key not in known:
            known[key] = bool(E().choose(2))
        return (True, Stale(p)) if known[key] else (False, None)


def columns(t):
    if type(t) is Frame:
        if t.sel is not None:
            raise Unsupported("reading a table of selected rows")
        return {c: SymArr(t.n, f, kind=k) for c, (f, k) in t.cols.items()}
    raise Unsupported("reading a table")


def file(f):
    fs = E().ghost.setdefault("kv", {})
    k = str.__str__(str(f))
    if k not in fs:
        fs[k] = KV()
    return fs[k]


def note(op, f, path):
    d = file(f)
    p = names(path)
    d.log.append((op, p))
    h = E().ghost.get("kv_check")
    if h is not None:
        h(op, p, f)
    if op == "write" and d.readonly:
        E().prove("the result file is not changed", False)
    return d, p


# ------------------------------------------------------------------ contracts
def storeKV(filename, path, value=None):
    if filename is None or path is None:
        raise_modelled(AssertionError("filename and path"))
    d, p = note("write", filename, path)
    check_storable(value)
    if value is not None:
        d.put(path, value)


def check_storable(v):
    if v is None or isinstance(v, (str, Path)) or is_num(v) or isinstance(v, bool) or type(v) is SymBool:
        return
    if type(v) is KeyMap:
        for x in v.extra.values():
            check_storable(x)
        return
    if is_plain(v):
        for k, x in v.items():
            if not isinstance(k, str):
                raise_modelled(TypeError("path component"))
            check_storable(x)
        return
    if isinstance(v, (list, tuple)) or is_table(v) or getattr(type(v), "_dv_gseries", False) or hasattr(
            v, "_dv_nparray") or type(v) in (SymArr, XList, h5.Empty, Stale) or hasattr(v, "_dv_series"):
        return
    raise Unsupported(f"storing a {type(v).__name__}")


def storeKVPairs(filename, path, pairs):
    if filename is None or path is None:
        raise_modelled(AssertionError("filename and path"))
    if type(pairs) is KeyMap or hasattr(pairs, "_dv_symiter"):
        note("write", filename, path)
        raise Unsupported("pairs with unknown keys")
    for k, x in pairs:
        storeKV(filename, path / k, x)


def loadKV(filename, path, datatype=None, default=None, dbg=False):
    d, p = note("read", filename, path)
    ok, x = d.find(p)
    return read(x, datatype) if ok else default


def loadKVPairs(filename, path, keys):
    if filename is None or path is None:
        raise_modelled(AssertionError("filename and path"))
    for k in keys:
        d, p = note("read", filename, path / k)
        ok, x = d.find(p)
        if not ok:
            raise_modelled(KeyError(k))
        yield k, read(x, None)


def read(v, dt):
    """what was stored as v, read with a datatype"""
    if type(v) is Stale:
        return v
    if dt in ("dict", "dictToPandas"):
        if is_table(v):
            v = columns(v)
        if not is_dict(v):
            raise_modelled(AttributeError("'Dataset' object has no attribute 'items'"))
        v = in_dict(v)
        if dt == "dict":
            return v
        import pandas
        c, i, x = v.pop("columns"), v.pop("index"), v.pop("data")
        return pandas.DataFrame(data=x, columns=c, index=i)
    if is_dict(v) or is_table(v):
        raise_modelled(TypeError("Accessing a group is done with bytes or str"))
    if isinstance(v, Path):
        v = v.as_posix()
    if isinstance(v, str):
        if dt is None:
            return v.encode()
        if dt == "str" or dt is T["str"]:
            return v
        if dt is Path:
            return Path(v)
        raise Unsupported(f"text read as {dt}")
    if type(v) is h5.Empty:
        if dt is None:
            return v
        raise Unsupported("empty dataset read as a type")
    v = array_of(v)
    if dt is None:
        return raw_texts(v)
    if isinstance(dt, str):
        raise Unsupported(f"value read as {dt}")
    return dt(raw_texts(v))


def array_of(v):
    if isinstance(v, (list, tuple)) or type(v) in (XList, h5.ListOf):
        import numpy as np
        return np.array(v)
    if hasattr(v, "_dv_series") or hasattr(v, "_dv_gseries"):
        return v.to_numpy()
    return v.copy() if hasattr(v, "copy") else v


def raw_texts(v):
    if type(v) is h5.TextArr:
        f = v.fn
        return h5.TextArr(v.n, lambda i: h5.Bytes(f(i).t), "bytes")
    return v


def in_dict(v):
    """entries of a dict: texts decoded, None is not stored"""
    def one(x):
        if type(x) is Stale:
            return x
        if is_dict(x):
            return in_dict(x)
        if is_table(x):
            return in_dict(columns(x))
        if isinstance(x, Path):
            return x.as_posix()
        if isinstance(x, str) or type(x) is h5.Empty:
            return x
        return array_of(x)
    v = plain(v)
    if type(v) is KeyMap:
        c = v.copy()
        if not c.full() and not c.extra:
            raise Unsupported("a dict with unknown keys")
        return KeyMap(c.n, [(c.dom, lambda i: one(c.get_at(i, True)))],
                      {k: one(x) for k, x in c.extra.items() if x is not None})
    return {k: one(x) for k, x in v.items() if x is not None}


def use(v, *modules):
    """callers use the contracts"""
    E().ghost["texts"] = True
    for m in ("mcsas3.mc_hdf",) + modules:
        for f in (storeKV, storeKVPairs, loadKV, loadKVPairs):
            v.patch(f"{m}:{f.__name__}", f)
