"""C07: entries of a result file (mc_hdf)"""
from pathlib import Path, PurePosixPath

import z3

from dv import core, instrument
from dv.contract import vc
from dv.core import E, Unsupported, lam, raise_modelled
from dv.loops import SymSeq, symiter
from dv.stubs import h5_stub as h5
from dv.values import (And, Fn, SymArr, SymBool, SymInt, SymReal, XList, boolz, fresh_arr, fresh_bool, fresh_int,
                       fresh_real, is_int_like, is_num, nz, same, wrap, zi, zr)

from .ghostmap import KeyMap, SymKey

M = "mcsas3.mc_hdf"
T = instrument.BUILTINS


# ------------------------------------------------------------------ ghost values
class Opq:
    """any supported value"""

    def __init__(self, t):
        self.t = t

    def _dv_same(self, o):
        return self.t == o.t if type(o) is Opq else False

    def _dv_vmap(self, f):
        return Opq(f(self.t))

    def _dv_terms(self, j):
        return []

    def __str__(self):
        return "<value>"

    __format__ = lambda self, spec: "<value>"

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"{nm} of a value of any type")


class Table:
    """a table of any columns"""
    _dv_table = True

    def __init__(self, entries):
        self.entries = entries

    def items(self):
        return self.entries.items()

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"table .{nm}")

    def __getitem__(self, k):
        return self.entries[k]

    @property
    def columns(self):
        return self.entries.keys()

    def _dv_symiter(self):
        return self.entries._dv_symiter()

    def to_dict(self, *a, **k):
        raise Unsupported("table.to_dict")


class GSeries:
    """a column"""
    _dv_gseries = True

    def __init__(self, a, string=False):
        self.a, self.string = a, string

    @property
    def dtype(self):
        if self.string:      # pandas' own string type
            d = h5.TDType("object")
            d.__class__ = StrDType
            return d
        return self.a.dtype

    @property
    def shape(self):
        return self.a.shape

    def to_numpy(self, dtype=None, **k):
        if k:
            raise Unsupported("to_numpy")
        return self.a._dv_nparray(dtype) if hasattr(self.a, "_dv_nparray") else self.a.copy()

    def _dv_nparray(self, dtype=None):
        return self.to_numpy(dtype)

    @property
    def values(self):
        if self.string:
            raise Unsupported("array of the string type of pandas")
        return self.a

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"series .{nm}")


class StrDType(h5.TDType):
    def __str__(self):
        return "str"


def opaque(hint="value"):
    return Opq(E().fresh_const(hint, h5.Any_))


def name(hint="key"):
    return str.__str__(h5.fresh_text(hint))


def texts(dt):
    n, f = fresh_int("n", 0), E().register_fun(E().fresh_fun("text", core.I, h5.Txt))
    return h5.TextArr(n.i, lambda i: h5.Text(f(i)), dt)


def numbers(hint="x", kind="f"):
    return fresh_arr(hint, fresh_int("n", 0), kind=kind)


def path_value():
    a, b, c = name("dir"), name("file"), name("suffix")
    return Path(f"{a}/{b}.{c}") if E().choose(2) else Path(f"/{a}/{b}.{c}")


KINDS = {
    "integer": lambda: fresh_int("v"), "number": lambda: fresh_real("v", nan=True, inf=True),
    "truth value": lambda: fresh_bool("v"), "text": lambda: h5.fresh_text("v"), "path": path_value,
    "empty dataset": lambda: h5.Empty("f"), "timestamp": lambda: h5.Stamp(fresh_real("v")),
    "list": lambda: XList.seq(*_seq()), "tuple of two": lambda: (fresh_real("v"), fresh_real("w")),
    "nested list": lambda: h5.ListOf(h5.OpArr.fresh()), "nested tuple": lambda: h5.ListOf(h5.OpArr.fresh(), tuple),
    "list of texts": lambda: texts("<U7").tolist(),
    "numbers": lambda: numbers(), "integers": lambda: numbers(kind="i"), "truth values": lambda: numbers(kind="b"),
    "array of any shape": h5.OpArr.fresh, "texts": lambda: texts("<U7"), "texts as objects": lambda: texts("object"),
    "column": lambda: GSeries(numbers()), "column of texts": lambda: GSeries(texts("object"), True),
    "column of text objects": lambda: GSeries(texts("object")),
    "quantity": lambda: h5.Quantity(fresh_real("v"), h5.Unit(h5.fresh_text("unit"))),
    "quantity array": lambda: h5.Quantity(numbers(), h5.Unit(h5.fresh_text("unit"))),
}


def _seq():
    a = numbers()
    return nz(a.n), a.fn


def expected(kind, v):
    """what is read back, as (datatype, predicate)"""
    def is_text(t, raw=False):
        def f(r):
            if raw and isinstance(r, bytes):
                r = r.decode()
            return isinstance(r, str) and same(r, t)
        return f
    arr = lambda a: (lambda r: getattr(type(r), "_dv_ndarray", False) or type(r) is SymArr) and (
        lambda r: equal_arrays(r, a))
    if kind == "integer":
        isi = lambda r: is_int_like(r) and not isinstance(r, bool) and type(r) is not SymBool
        return [(None, lambda r: isi(r) and same(r, v)), (T["int"], lambda r: isi(r) and same(r, v))]
    if kind == "number":
        return [(None, lambda r: is_num(r) and same(r, v)), (T["float"], lambda r: is_num(r) and same(r, v))]
    if kind == "truth value":
        isb = lambda r: isinstance(r, bool) or type(r) is SymBool
        return [(None, lambda r: isb(r) and same(r, v)), (T["bool"], lambda r: isb(r) and same(r, v))]
    if kind == "text":
        return [(None, is_text(v, True)), ("str", is_text(v)), (T["str"], is_text(v))]
    if kind == "path":
        t = v.as_posix()
        return [("str", is_text(t)), (Path, lambda r: isinstance(r, Path) and r.as_posix() == t)]
    if kind == "timestamp":
        return [(None, lambda r: is_num(r) and same(r, v.x))]
    if kind == "list":
        return [(None, lambda r: equal_arrays(r, v)), (T["list"], lambda r: type(r) in (XList, list) and
                                                      equal_arrays(r, v))]
    if kind == "tuple of two":
        return [(None, lambda r: equal_arrays(r, v)), (T["list"], lambda r: isinstance(r, list) and
                                                      equal_arrays(r, v))]
    if kind in ("nested list", "nested tuple"):
        return [(None, lambda r: same(r, v.arr)), (T["list"], lambda r: type(r) is h5.ListOf and isinstance(r, list) and
                                                   same(r.arr, v.arr))]
    if kind == "empty dataset":
        return [(None, lambda r: isinstance(r, h5.Empty))]
    if kind == "list of texts":
        return [(None, lambda r: equal_texts(r, v))]
    if kind in ("numbers", "integers", "truth values"):
        return [(None, lambda r: type(r) is SymArr and r.kind == v.kind and equal_arrays(r, v))]
    if kind == "array of any shape":
        return [(None, lambda r: same(r, v))]
    if kind in ("texts", "texts as objects"):
        return [(None, lambda r: equal_texts(r, v))]
    if kind == "column":
        return [(None, lambda r: type(r) is SymArr and equal_arrays(r, v.a))]
    if kind in ("column of texts", "column of text objects"):
        return [(None, lambda r: equal_texts(r, v.a))]
    if kind == "quantity":
        return [(None, lambda r: is_num(r) and same(r, v.m)), (T["float"], lambda r: is_num(r) and same(r, v.m))]
    return [(None, lambda r: type(r) is SymArr and equal_arrays(r, v.m))]


def seq_of(x):
    """(length, item(i)) of any sequence"""
    if type(x) in (SymArr, XList):
        return nz(x.n), x.at
    if type(x) is h5.TextArr:
        return nz(x.n), x.at
    if isinstance(x, (list, tuple)):
        a = SymArr.of(x, None if all(is_num(y) for y in x) else "O")
        return z3.IntVal(len(x)), a.at
    raise Unsupported(f"sequence {type(x).__name__}")


def equal_arrays(r, v):
    n, f = seq_of(r)
    m, g = seq_of(v)
    j = E().fresh_int("j")
    E().hint_idx.append(j)
    return And(wrap(n == m), wrap(z3.Implies(z3.And(0 <= j, j < m), boolz(same(f(j), g(j))))))


def equal_texts(r, v):
    n, f = seq_of(r)
    m, g = seq_of(v)
    j = E().fresh_int("j")
    a, b = f(j), g(j)
    if isinstance(a, bytes):
        a = a.decode()
    return And(wrap(n == m), wrap(z3.Implies(z3.And(0 <= j, j < m), boolz(
        isinstance(a, str) and same(a, b)))))


# ------------------------------------------------------------------ ghost file
def inside(p, q):
    """is q at or below p?"""
    p, q = p.rstrip("/"), q.rstrip("/")
    return q == p or q.startswith(p + "/")


class Frame:
    """which changes of the file are allowed: those at or below `target` and groups on the way"""

    def __init__(self, v, target=None, groups_only=False):
        self.v, self.target, self.groups_only, self.ops = v, target, groups_only, 0

    def __call__(self, op, path):
        self.ops += 1
        if self.target is None:
            ok, what = False, "reading changes nothing"
        elif op == "group":
            ok = inside(path, self.target) or (inside(self.target, path) and not self.groups_only)
            what = "only the stored entry is written"
        else:
            ok, what = inside(self.target, path) and not self.groups_only, "only the stored entry is written"
            if self.groups_only:
                what = "storing None writes no entry"
        self.v.prove(f"C07.frame: {what}", bool(ok), f"{op} {path}")


def file_before(v, P, new=None):
    """the file before the call: absent, or with any content"""
    f = Path("/" + name("folder")) / (name("file") + ".h5")
    E().ghost["texts"] = True
    if E().choose(2):
        h5.fs()[str(f)] = h5.FileData(opened=True)
    return f


def entry_path():
    a, k = name("group"), name("key")
    dotted = PurePosixPath("/") / (a + "." + name("g")) / (k + "." + name("k"))
    return [PurePosixPath("/") / a / k, PurePosixPath("/") / k, dotted][E().choose(3)]


def quiet(v):
    E().ghost["frame"] = Frame(v)


def find(f, path):
    d = h5.fs().get(str(f))
    return None if d is None else d.root.peek(str(path))


def reads(v, load, f, P, what, exp):
    """reading the entry gives what was stored"""
    for dt, ok in exp:
        E().ghost["frame"] = Frame(v)
        r = v.call(load, f, P, datatype=dt, default=opaque("default"))
        v.prove(f"C07.a stored {what} can be read", r.ok, f"{r.exc!r}")
        if r.ok:
            v.prove(f"C07.a stored {what} reads back as stored", ok(r.value))
        v.prove("C07.the file is closed after reading", h5.nothing_open())


@vc("mc_hdf.storeKV: a value", ["C07"], [M + ":storeKV", M + ":loadKV"], budget=200)
def store_value(v):
    store, load = v.get(M + ":storeKV"), v.get(M + ":loadKV")
    kind = list(KINDS)[E().choose(len(KINDS))]
    P = entry_path()
    f = file_before(v, P)
    val = KINDS[kind]()
    fr = E().ghost["frame"] = Frame(v, str(P))
    blocked = blocked_by_dataset(f, P)
    r = v.call(store, filename=f, path=P, value=val)
    quiet(v)
    if blocked:
        return      # the place of a group is taken by a dataset: refused by HDF5
    v.prove(f"C07.a {kind} can be stored", r.ok, f"{r.exc!r}")
    v.prove("C07.the file is closed after storing", h5.nothing_open())
    if not r.ok:
        return
    v.cover(f"stored {kind}")
    reads(v, load, f, P, kind, expected(kind, val))
    if kind.startswith("quantity"):
        d = find(f, P)
        v.prove("C07.the unit is stored along", isinstance(d, h5.Dataset) and "unit" in d.attrs.d and
                same(d.attrs.d["unit"], val.u.text))


def blocked_by_dataset(f, P):
    """explores what the file has at the parents of P; True if a dataset is one of them"""
    d = h5.fs().get(str(f))
    if d is None:
        return False
    node = d.root
    for nm in P.parts[1:-1]:
        node = node.child(nm)
        if node is None:
            return False
        if isinstance(node, h5.Dataset):
            return True
    return False


@vc("mc_hdf.storeKV: nothing", ["C07"], [M + ":storeKV", M + ":loadKV"], budget=100)
def store_none(v):
    store, load = v.get(M + ":storeKV"), v.get(M + ":loadKV")
    P = entry_path()
    f = file_before(v, P)
    blocked = blocked_by_dataset(f, P)
    E().ghost["frame"] = Frame(v, str(P), groups_only=True)
    r = v.call(store, filename=f, path=P, value=None)
    if blocked:
        return
    v.prove("C07.storing None is no error", r.ok, f"{r.exc!r}")
    v.prove("C07.the file is closed after storing", h5.nothing_open())
    v.cover("stored nothing")


@vc("mc_hdf.loadKV: an absent entry", ["C07"], [M + ":loadKV"], budget=100)
def load_absent(v):
    load = v.get(M + ":loadKV")
    E().ghost["texts"] = True
    f = Path("/" + name("file"))
    a, k = name("group"), name("key")
    d = h5.fs()[str(f)] = h5.FileData()
    where = E().choose(4)
    if where >= 1:
        d.root.put(a, h5.Group("/" + a, d) if where < 3 else h5.Dataset(fresh_real("x"), "/" + a, d))
    if where == 2:
        d.root.child(a).put(name("other"), h5.Dataset(fresh_real("x"), "/x", d))
        E().ghost["distinct_names"] = lambda x, y: True
    quiet(v)
    dflt = opaque("default")
    dts = [None, "str", "dict", "dictToPandas", T["int"], T["float"], T["list"], T["str"], Path]
    if where == 2:
        # names are unknown texts: the other entry is another one
        for x in ("k",):
            E().assume(h5.parts(k)[0].t != h5.parts(d.root.child(a).children[0][0])[0].t)
    r = v.call(load, f, PurePosixPath("/") / a / k, datatype=dts[E().choose(len(dts))], default=dflt)
    v.prove("C07.reading an absent key is no error", r.ok, f"{r.exc!r}")
    if r.ok:
        v.prove("C07.reading an absent key gives the default", r.value is dflt)
    v.prove("C07.the file is closed after reading", h5.nothing_open())
    v.cover("absent")


# ------------------------------------------------------------------ dicts and tables
class Calls:
    """contracts of storeKV and storeKVPairs for their callers: the calls are recorded as
    (number of the key, value) below one path"""

    def __init__(self, v, f, P, before=None):
        self.v, self.f, self.P, self.before = v, f, P, before
        self.out = XList()
        E().ghost.setdefault("roots", {})["calls"] = self.out
        v.patch(M + ":storeKV", self.storeKV)
        v.patch(M + ":storeKVPairs", self.storeKVPairs)

    def check(self, filename, path):
        if self.before is not None and not E().loop_ks:
            self.before()
        self.v.prove("C07.entries are stored in the given file", str(filename) == str(self.f))

    def add(self, k, value):
        if type(k) is not SymKey:
            raise Unsupported("a key of another dict")
        self.out.append((SymInt(k.i), value))

    def storeKV(self, filename, path, value=None):
        self.check(filename, path)
        self.v.prove("C07.entries are stored below the path of their dict",
                     str(path.parent) == str(self.P), f"{path}")
        tk = h5.E().tokens.get(path.name)
        if tk is None or type(tk[0]) is not SymKey:
            raise Unsupported("name of an entry")
        self.add(tk[0], value)

    def storeKVPairs(self, filename, path, pairs):
        self.check(filename, path)
        self.v.prove("C07.entries are stored below the path of their dict", str(path) == str(self.P), f"{path}")
        s = symiter(pairs)
        if s is None:
            for k, x in pairs:
                self.add(k, x)
            return
        n0 = self.out.n
        if not (isinstance(n0, int) and n0 == 0):
            raise Unsupported("several calls")
        if s._dv_guard(z3.Int("probe!")) is not True:
            raise Unsupported("a selection of pairs")

        def item(i):
            k, x = s._dv_item(i)
            if type(k) is not SymKey:
                raise Unsupported("a key of another dict")
            return (SymInt(k.i), x)
        self.out._dv_set((s._dv_n(), Fn(item), []))

    def exactly(self, n, values, what):
        """the recorded calls: one for each of the n keys, with its value"""
        v = self.v
        m = nz(self.out.n)
        v.prove(f"C07.every entry of {what} is stored once", m == nz(n))
        j = E().fresh_int("j")
        E().hint_idx.append(j)
        E().assume(z3.And(0 <= j, j < nz(n), m == nz(n)))
        k, x = self.out.at(j)
        # entries are distinct; here in the order of the keys or any permutation which is the identity
        v.prove(f"C07.the entries of {what} are stored under their own keys", k.i == j)
        v.prove(f"C07.the entries of {what} are stored with their values", same(x, values(j)))


def entries_map(n):
    f = E().register_fun(E().fresh_fun("entry", core.I, h5.Any_))
    return (lambda i: Opq(f(i))), KeyMap.of(n, lambda i: Opq(f(i)))


@vc("mc_hdf.storeKV: a dict or table", ["C07"], [M + ":storeKV"], budget=150)
def store_dict(v):
    store = v.get(M + ":storeKV")
    P = entry_path()
    f = file_before(v, P)
    n = fresh_int("n", 0)
    val, d = entries_map(n)
    what = "a table" if E().choose(2) else "a dict"
    blocked = blocked_by_dataset(f, P)
    E().ghost["frame"] = Frame(v, str(P))

    def before():
        g = find(f, P)
        v.prove("C07.what was stored before is gone when the entries of a dict are stored",
                g is None or isinstance(g, h5.Group) and not g.opened and not g.listing(True))
        v.prove("C07.the file is closed before the entries are stored", h5.nothing_open())
    c = Calls(v, f, P, before)
    r = v.call(store, filename=f, path=P, value=Table(d) if what == "a table" else d)
    if blocked:
        return
    v.prove(f"C07.{what} can be stored", r.ok, f"{r.exc!r}")
    if not r.ok:
        return
    g = find(f, P)
    v.prove("C07.an empty dict is stored, too", z3.Or(nz(n) > 0, z3.BoolVal(isinstance(g, h5.Group))))
    before()
    v.prove("C07.the file is closed after storing", h5.nothing_open())
    c.exactly(n, val, what)
    v.cover(f"stored {what}")


@vc("mc_hdf.storeKVPairs", ["C07"], [M + ":storeKVPairs"], budget=100)
def store_pairs(v):
    store = v.get(M + ":storeKVPairs")
    P = entry_path()
    f = Path("/" + name("file"))
    n = fresh_int("n", 0)
    val, d = entries_map(n)
    quiet(v)
    c = Calls(v, f, P)
    v.patched_pairs = True
    if E().choose(2):
        # an entry which cannot be stored is reported
        def broken(*a, **k):
            raise_modelled(TypeError("cannot be stored"))
        v.patch(M + ":storeKV", broken)
        r = v.call(store, f, P, [(name(), opaque())])
        v.prove("C07.an entry which cannot be stored is reported", not r.ok)
        return
    pairs = d.items()
    if E().choose(2):
        pairs = XList.seq(nz(n), lambda i: (SymKey(i), val(i)))
    r = v.call(store, f, P, pairs)
    v.prove("C07.pairs can be stored", r.ok, f"{r.exc!r}")
    if r.ok:
        c.exactly(n, val, "a list of pairs")
        v.cover("stored pairs")


# ------------------------------------------------------------------ reading dicts
class SubGroup(h5.Group):
    """a group below a group: what is read of it is known by its number"""

    def __init__(self, i, path, file):
        super().__init__(path, file, opened=True)
        self.i = i


class Sub:
    """the dict read from a group"""

    def __init__(self, i):
        self.i = i

    @property
    def __class__(self):
        return dict

    def _dv_same(self, o):
        return self.i == o.i if type(o) is Sub else False

    def _dv_vmap(self, f):
        return Sub(f(self.i))

    def _dv_terms(self, j):
        return []


NODES = ("number", "text", "numbers", "array", "texts", "empty dataset", "group")


class Nodes:
    """the n entries of a group: entry i is of kind number kind(i)"""

    def __init__(self, file):
        fun = lambda h, *s: E().register_fun(E().fresh_fun(h, *s))
        self.kind = fun("kind", core.I, core.I)
        self.r, self.t = fun("number", core.I, core.R), fun("text", core.I, h5.Txt)
        self.a, self.x = fun("array", core.I, h5.Any_), fun("numbers", core.I, core.I, core.R)
        self.ts, self.len = fun("texts", core.I, core.I, h5.Txt), fun("len", core.I, core.I)
        self.file = file

    def which(self, i):
        for q in range(len(NODES) - 1):
            if E().branch(self.kind(i) == q):
                return NODES[q]
        return NODES[-1]

    def value(self, i, what, raw):
        """the content of entry i; as stored (raw) or as it is to be read"""
        T = h5.Bytes if raw else h5.Text
        if what == "number":
            return SymReal(self.r(i))
        if what == "text":
            return T(self.t(i))
        if what == "array":
            return h5.OpArr(self.a(i))
        if what == "empty dataset":
            return h5.Empty("f")
        n = self.len(i)
        E().assume(n >= 0)
        if what == "numbers":
            return SymArr(n, lambda k: SymReal(self.x(i, k)))
        return h5.TextArr(n, lambda k: T(self.ts(i, k)), "bytes" if raw else "<U7")

    def node(self, i):
        w = self.which(i)
        p = f"/g/{SymKey(i)}"
        if w == "group":
            return SubGroup(i, p, self.file)
        return h5.Dataset(self.value(i, w, True), p, self.file)


def contract_loadDict(v):
    """recursion: of a group below, its contract is used"""
    real = getattr(v.get(M), "loadDict", None)
    if real is None:
        return

    def f(group):
        return Sub(group.i) if type(group) is SubGroup else real(group)
    v.patch(M + ":loadDict", f)


@vc("mc_hdf.loadKV: a dict", ["C07"], [M + ":loadKV", M + ":loadDict"], budget=200)
def load_dict(v):
    load = v.get(M + ":loadKV")
    contract_loadDict(v)
    E().ghost["texts"] = True
    P = PurePosixPath("/") / name("group") / name("key")
    f = Path("/" + name("file"))
    n = fresh_int("n", 0)
    E().ghost["keys_n"] = n
    E().ghost["newdict"] = lambda: KeyMap(n, [])
    d = h5.fs()[str(f)] = h5.FileData()
    quiet(v)
    nodes = Nodes(d)
    par = h5.Group("/" + P.parts[1], d)
    d.root.put(P.parts[1], par)
    par.put(P.parts[2], h5.SymGroup(nz(n), SymKey, nodes.node, str(P), d))
    r = v.call(load, f, P, datatype="dict", default=None)
    v.prove("C07.a stored dict can be read", r.ok, f"{r.exc!r}")
    v.prove("C07.the file is closed after reading", h5.nothing_open())
    if not r.ok:
        return
    got = r.value
    if type(got) is not KeyMap:
        raise Unsupported(f"the dict read is a {type(got).__name__}")
    v.prove("C07.a dict has no other entries than the stored ones", not got.extra)
    j = E().fresh_int("j")
    E().hint_idx.append(j)
    v.prove("C07.a dict has all of its entries when read", z3.Implies(
        z3.And(0 <= j, j < nz(n)), got.dom(j)))
    v.prove("C07.a dict has no further entries when read", z3.Implies(
        got.dom(j), z3.And(0 <= j, j < nz(n))))
    E().assume(z3.And(0 <= j, j < nz(n)))
    w = nodes.which(j)
    x = got.get_at(j, True)
    what = f"C07.a {w} in a dict reads back as stored"
    if w == "group":
        v.prove(what, type(x) is Sub and same(x, Sub(j)))
    else:
        e = nodes.value(j, w, False)
        if w == "number":
            v.prove(what, is_num(x) and same(x, e))
        elif w == "text":
            v.prove(what, isinstance(x, str) and same(x, e))
        elif w == "array":
            v.prove(what, same(x, e))
        elif w == "empty dataset":
            v.prove(what, isinstance(x, h5.Empty))
        elif w == "numbers":
            v.prove(what, type(x) is SymArr and equal_arrays(x, e))
        else:
            empty = type(x) is not h5.TextArr and E().valid(nz(seq_of(x)[0]) == 0)
            ok = empty or type(x) is h5.TextArr
            v.prove(what, And(ok, empty and wrap(nz(e.n) == 0) or equal_texts(x, e)))
            if type(x) is h5.TextArr and x.dt == "bytes":
                # of the encoded form only if it is empty
                v.prove("C07.texts in a dict are decoded", nz(e.n) == 0)
    v.cover(f"read {w}")


@vc("mc_hdf.loadKV: a table", ["C07"], [M + ":loadKV", M + ":loadDict"], budget=150)
def load_table(v):
    """the three parts of a table (split orientation)"""
    load = v.get(M + ":loadKV")
    E().ghost["texts"] = True
    P = PurePosixPath("/") / name("group")
    f = Path("/" + name("file"))
    d = h5.fs()[str(f)] = h5.FileData()
    quiet(v)
    data, index = h5.OpArr.fresh("data"), numbers("index", kind="i")
    cols = texts("bytes")
    cf = cols.fn
    cols = h5.TextArr(cols.n, lambda i: h5.Bytes(cf(i).t), "bytes")
    g = h5.Group(str(P), d)
    d.root.put(P.parts[1], g)
    for k, x in (("columns", cols), ("data", data), ("index", index)):
        g.put(k, h5.Dataset(x, f"{P}/{k}", d))
    made = []

    class Made:
        _dv_table = True

        def __init__(self, data=None, columns=None, index=None):
            self.data, self.columns, self.index = data, columns, index
            made.append(self)
    E().ghost["DataFrame"] = Made
    r = v.call(load, f, P, datatype="dictToPandas", default=None)
    v.prove("C07.a stored table can be read", r.ok, f"{r.exc!r}")
    v.prove("C07.the file is closed after reading", h5.nothing_open())
    if not r.ok:
        return
    t = r.value
    v.prove("C07.a table is read as one", type(t) is Made)
    v.prove("C07.the values of a table read back as stored", same(t.data, data))
    v.prove("C07.the row labels of a table read back as stored", t.index is not None and equal_arrays(t.index, index))
    v.prove("C07.the column labels of a table read back as stored", equal_text_labels(t.columns, cols))
    v.cover("table")


def equal_text_labels(r, v):
    n, f = seq_of(r)
    m, g = seq_of(v)
    j = E().fresh_int("j")
    E().assume(z3.And(0 <= j, j < m))
    a = f(j)
    return And(wrap(n == m), isinstance(a, str) and same(a, h5.Text(g(j).t)))


@vc("mc_hdf.loadKVPairs", ["C07"], [M + ":loadKVPairs"], budget=100)
def load_pairs(v):
    load = v.get(M + ":loadKVPairs")
    E().ghost["texts"] = True
    P = PurePosixPath("/") / name("group")
    f = Path("/" + name("file"))
    d = h5.fs()[str(f)] = h5.FileData()
    quiet(v)
    g = h5.Group(str(P), d)
    d.root.put(P.parts[1], g)
    names, vals = ["a", "b", "c"], {}
    for k, w in zip(names, ("number", "numbers", "absent")):
        vals[k] = fresh_real("x") if w == "number" else numbers()
        if w != "absent":
            g.put(k, h5.Dataset(vals[k], f"{P}/{k}", d))
    ks = [[], ["a"], ["b", "a"], ["a", "b"], ["a", "c"]][E().choose(5)]
    r = v.call(lambda: list(load(f, P, ks)))
    if "c" in ks:
        v.prove("C07.loading an absent key is an error", isinstance(r.exc, KeyError))
        v.prove("C07.the file is closed after an error", h5.nothing_open())
        return
    v.prove("C07.pairs can be loaded", r.ok, f"{r.exc!r}")
    if not r.ok:
        return
    v.prove("C07.the keys are the requested ones, in order", [k for k, _ in r.value] == ks)
    for k, x in r.value:
        v.prove("C07.pairs load as stored", same(x, vals[k]) if k == "a" else equal_arrays(x, vals[k]))
    v.prove("C07.the file is closed after reading", h5.nothing_open())
    v.cover("loaded pairs")
