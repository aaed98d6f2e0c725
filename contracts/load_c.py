"""C24: reading of data files (from_file, from_csv, from_pdh, from_pandas, from_nexus)"""
import ast
import functools
import glob
import os
import pathlib

import z3

from dv import core, instrument, loops
from dv.contract import vc
from dv.core import E, Unsupported, raise_modelled
from dv.stubs.frame import Frame
from dv.stubs.img import Img, Pix, boolean, fresh_img
from dv.stubs.np_stub import IdxArr, NdArrayShim
from dv.values import And, DType, Fn, SymArr, XList, boolz, fresh_arr, fresh_int, num_op, nz, real, same, wrap, zb

D1 = "mcsas3.mc_data_1d:McData1D"
D2 = "mcsas3.mc_data_2d:McData2D"
BASE = "mcsas3.mc_data:McData"
EXT = {"from_pdh": [".pdh"], "from_csv": [".csv", ".dat", ".txt"], "from_nexus": [".h5", ".hdf5", ".nx", ".nxs"]}
KNOWN = {e: k for k, es in EXT.items() for e in es}


# ---------------------------------------------------------------- which reader
@functools.cache
def suffixes():
    """the file name endings which code could tell apart: the documented ones, everything looking like one in the
    source, and representatives of all others"""
    out = list(KNOWN)
    more = [".PDH", ".Csv", ".NXS", "", ".zzz", ".pdh.zzz", ".zzz.pdh", ".csv.", ".pdhx", ".xpdh", ".h5x", ".tar.h5", ".h"]
    for f in sorted(glob.glob(os.path.join(instrument.REPO_SRC, "mcsas3", "mc_data*.py"))):
        for n in ast.walk(ast.parse(open(f, encoding="utf8").read())):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) <= 8:
                x = n.value.lstrip(".")
                if x.isalnum():
                    more += ["." + x]
    return out + sorted({x for x in more if x not in out})


LOADERS = [None, "from_pdh", "from_csv", "from_nexus", "from_pandas", "from_zzz"]


def ghost_files(v, p, there):
    """p is a file (there), or nothing is there"""
    def look(real_):
        def f(self, *a, **k):
            if str.__str__(str(self)) == p:
                return bool(there)
            raise Unsupported("look at another file")
        return f
    for nm in ("is_file", "exists"):
        v.patch("pathlib:Path." + nm, look(nm))
    for nm in ("isfile", "exists"):
        v.patch("os.path:" + nm, lambda q, *a: look(nm)(os.fspath(q)))
    import stat as st_

    class S:
        st_mode = st_.S_IFREG | 0o644

    def stat(self, *a, **k):
        if look("stat")(self):
            return S
        raise_modelled(FileNotFoundError(2, "No such file or directory", p))
    v.patch("pathlib:Path.stat", stat)


def recorder(v, cls):
    log = []

    def rec(nm):
        def f(self, filename=None, *a, **k):
            if a or k:
                raise Unsupported("other arguments of a reader")
            log.append((nm, filename if filename is not None else self.filename))
            self.rawData = "read"
        return f
    for k in EXT:
        v.patch(cls + "." + k, rec(k))
        if cls != BASE:
            v.patch(BASE + "." + k, rec(k))
    return log


@vc("McData.from_file: the reader", ["C24"], [BASE + ".from_file", D1 + ".__init__", D2 + ".__init__"], own="C24",
    budget=100, paths=20000)
def vc_file(v):
    sx = suffixes()
    s = sx[E().choose(len(sx))]
    folder, cls, how = (("", D1, 0), ("/some where/", D2, 1), ("a.pdh/", D1, 2), ("../b.csv/", D1, 3),
                        ("a/", D2, 0), ("a.h5/", D1, 1))[E().choose(6)]
    p = folder + "data" + s
    ext = pathlib.PurePath(p).suffix
    loader = LOADERS[E().choose(len(LOADERS))]
    want = KNOWN.get(ext) or (loader if loader in EXT else None)
    if ext in KNOWN and loader in EXT and loader != want:
        return          # the name and the selected loader contradict each other: left open
    there = bool(E().choose(2))
    log = recorder(v, cls)
    ghost_files(v, p, there)
    C = v.get(cls)
    if not E().learning:
        v.cover("precondition")
    given = pathlib.Path(p)
    kw = dict(loader=loader) if loader is not None else {}

    def act():
        if how == 0:
            return C(filename=given, **kw)
        o = C(**kw)
        if how == 1:
            o.from_file(given)
        elif how == 2:
            o.from_file(p)
        else:
            o.filename = given
            o.from_file()
        return o
    r = v.call(act)
    if not there:
        v.cover("missing")
        v.prove("a missing file is refused", z3.BoolVal(not r.ok))
        v.prove("nothing is read of a missing file", z3.BoolVal(not log))
        return
    if want is None:
        v.cover("undetermined")
        v.prove("a file of undetermined type is refused", z3.BoolVal(not r.ok and not log), p)
        return
    v.cover("read")
    if not r.ok:
        v.fail("a file of known type is accepted", f"{p} {loader} {r.exc!r}")
        return
    v.prove("the reader is that of the extension, or else the selected one", z3.BoolVal([x for x, _ in log] == [want]),
            f"{p} {loader}: {log}")
    v.prove("the reader gets the file", z3.BoolVal(all(str(f) == str(given) for _, f in log)))
    v.prove("the data are those read", z3.BoolVal(r.value.rawData == "read"))
    v.prove("the file name is kept", z3.BoolVal(r.value.filename == given))


@vc("McData.from_file: no file given", ["C24"], [BASE + ".from_file"], own="C24", budget=60)
def vc_nofile(v):
    cls = (D1, D2)[E().choose(2)]
    log = recorder(v, cls)
    o = v.get(cls)()
    v.cover("precondition")
    r = v.call(o.from_file)
    v.prove("without a file name nothing is read", z3.BoolVal(not r.ok and not log))


# ---------------------------------------------------------------- tables
def recorded_prepare(v, seen):
    def prepare(self):
        seen.append((self.rawData, self.rawData2D))
    for c in (BASE, D1, D2):
        if "prepare" in v.get(c).__dict__:
            v.patch(c + ".prepare", prepare)


@vc("McData1D.from_pandas", ["C24"], [D1 + ".from_pandas", D1 + ".__init__"], own="C24", budget=100)
def vc_table(v):
    seen = []
    recorded_prepare(v, seen)
    n = fresh_int("n", 0)
    kinds = ["f", "f", "f"]
    case = E().choose(3)
    cols = ["Q", "I", "ISigma"]
    extra = [(), ("QSigma",)][E().choose(2)]
    if case == 1:
        k = 1 + E().choose(7)
        cols = [c for j, c in enumerate(cols) if not k >> j & 1]
    if case == 2:
        kinds[E().choose(3)] = "ibO"[E().choose(3)]
    ks = dict(zip(("Q", "I", "ISigma"), kinds))
    data = {c: fresh_arr(c, n, nan=True, inf=True) for c in (*extra, *reversed(cols))}
    df = Frame(n, {c: (a.fn, ks.get(c, "f")) for c, a in data.items()})
    st = df._dv_state()
    ok = len(cols) == 3 and set(ks.values()) == {"f"}
    bad = None
    if case == 0 and E().choose(2):
        bad = [{c: a for c, a in data.items()}, list(data.values()), "Q I ISigma"][E().choose(3)]
        ok = False
    v.cover("precondition")
    how = E().choose(2)

    def act():
        C = v.get(D1)
        t = df if bad is None else bad
        if how:
            return C(df=t)
        o = C()
        o.from_pandas(t)
        return o
    r = v.call(act)
    if not ok:
        v.cover("refused")
        v.prove("a table without Q, I and ISigma columns of float numbers is refused", z3.BoolVal(not r.ok and not seen))
        return
    if not r.ok:
        v.fail("a table with Q, I and ISigma is accepted", repr(r.exc))
        return
    v.cover("accepted")
    x = r.value.rawData
    v.prove("the table is processed, once", z3.BoolVal(len(seen) == 1 and seen[0][0] is x))
    columns(v, x, n, {c: SymArr(n, f[0], "f") for c, f in zip(st[1], zip(st[2], st[3]))})


def columns(v, x, n, want, exact=True):
    """x is a table of these columns"""
    if type(x) is not Frame:
        raise Unsupported(f"the data are a {type(x).__name__}")
    v.prove("all columns are read", z3.BoolVal(set(want) <= set(x.cols) and (not exact or set(x.cols) == set(want))),
            f"{list(x.cols)}")
    v.prove("one row per datapoint", wrap(nz(x.n) == nz(n)) if x.sel is None else z3.BoolVal(False))
    i = E().fresh_int("i")
    E().hint_idx.append(i)
    for c, a in want.items():
        if c in x.cols:
            v.prove(f"{c} is unchanged", z3.Implies(z3.And(0 <= i, i < nz(n)), boolz(same(x.cols[c][0](i), a.at(i)))))


# ---------------------------------------------------------------- text files
def ghost_csv(v, calls, n):
    def read_csv(f=None, *a, **k):
        if a:
            raise Unsupported("positional arguments of read_csv")
        f = k.pop("filepath_or_buffer", f)
        t = Frame(n, {c: (fresh_arr(c, n).fn, "f") for c in ("Q", "I", "ISigma")})
        calls.append((f, dict(k), t, t._dv_state()))
        return t
    E().ghost["read_csv"] = read_csv


def read_as_table(v, calls, tables, fname, want):
    v.prove("the file is read once", z3.BoolVal(len(calls) == 1 and str(calls[0][0]) == str(fname)))
    if len(calls) == 1:
        k = calls[0][1]
        v.prove("the file is read with the arguments set for it", z3.BoolVal(
            set(k) == set(want) and all(same(k[x], want[x]) is True or E().valid(boolz(same(k[x], want[x])))
                                       for x in want)), f"{k} instead of {want}")
    v.prove("the table read is used as it is", z3.BoolVal(
        len(tables) == 1 and tables[0] is calls[0][2] and tables[0]._dv_state() == calls[0][3]))


def arguments():
    return ({"sep": r"\s+", "header": None, "names": ["Q", "I", "ISigma"]}, {"sep": ";", "skiprows": 4},
            {}, {"sep": ",", "nrows": 3, "skiprows": 1, "usecols": [0, 1, 2], "comment": None})[E().choose(4)]


def ghost_table(v, tables):
    def from_pandas(self, df=None):
        tables.append(df)
    v.patch(D1 + ".from_pandas", from_pandas)


@vc("McData1D.from_csv", ["C24"], [D1 + ".from_csv", D1 + ".__init__"], own="C24", budget=60)
def vc_csv(v):
    calls, tables = [], []
    args, more = arguments(), arguments()
    fname = pathlib.Path("a.dat")
    how = E().choose(3)
    C = v.get(D1)
    o = C(csvargs=dict(args)) if how else C()
    if not how:
        args = {"sep": r"\s+", "header": None, "names": ["Q", "I", "ISigma"]}
    ghost_csv(v, calls, fresh_int("n", 0))
    ghost_table(v, tables)
    v.cover("precondition")
    if how == 2:
        r = v.call(o.from_csv, fname, dict(more))
        want = {**args, **more}
    else:
        r = v.call(o.from_csv, fname)
        want = args
    if not r.ok:
        v.fail("a text file is read", repr(r.exc))
        return
    v.cover("read")
    read_as_table(v, calls, tables, fname, want)
    v.prove("the settings are not changed", z3.BoolVal(o.csvargs == args))


class Line(str):
    """line k of a file: it starts with <?xml iff X(k)"""

    def __new__(cls, X, k):
        s = str.__new__(cls, "line")
        s.X, s.k = X, k
        return s

    def startswith(self, t, *a):
        if t != "<?xml" or a:
            raise Unsupported("start of a line")
        return wrap(self.X(self.k))

    def _dv_vmap(self, f):
        return Line(self.X, f(self.k))

    def _dv_terms(self, j):
        return []

    def strip(self, *a):
        raise Unsupported("text of a line")

    find = split = lower = upper = lstrip = rstrip = __contains__ = __getitem__ = index = endswith = strip


@vc("McData1D.from_pdh", ["C24"], [D1 + ".from_pdh"], own="C24", budget=60)
def vc_pdh(v):
    calls, tables = [], []
    fname = pathlib.Path("a.pdh")
    o = v.get(D1)()
    args = dict(o.csvargs)
    ghost_csv(v, calls, fresh_int("n", 0))
    ghost_table(v, tables)
    m = fresh_int("lines", 0)
    X = E().register_fun(E().fresh_fun("xml", core.I, core.B))
    first = core.FirstF(nz(m), core.lam(lambda i: X(i)))
    v.assume(z3.And(core.CntF(nz(m), core.lam(lambda i: X(i))) >= 1, first >= 5))
    E().hint_idx.append(first)
    E().ghost["light_first"], E().ghost["rounds"] = True, 2

    class FD:
        def readlines(self):
            return XList.seq(nz(m), lambda k: Line(X, k))

        def _dv_symiter(self):
            return loops.symiter(self.readlines())

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def close(self):
            pass

        def __getattr__(self, nm):
            if nm.startswith("_"):
                raise AttributeError(nm)
            raise Unsupported(f"file .{nm}")

    def ghost_open(f, mode="r", **k):
        if mode != "r" or str(f) != str(fname):
            raise Unsupported("opening of another file")
        return FD()
    E().ghost["open"] = ghost_open
    v.cover("precondition")
    r = v.call(o.from_pdh, fname)
    if not r.ok:
        v.fail("a PDH file is read", repr(r.exc))
        return
    v.cover("read")
    read_as_table(v, calls, tables, fname, {**args, "skiprows": 5, "nrows": wrap(first - 5)})
    v.prove("the settings are not changed", z3.BoolVal(o.csvargs == args))


# ---------------------------------------------------------------- NeXus files
class Texts:
    """numpy array of a few texts, as an attribute has it: objects (str) or bytes"""
    _dv_ndarray = True
    ndim = 1

    def __init__(self, xs, kind):
        self.xs, self.kind = list(xs), kind
        self.size, self.shape = len(self.xs), (len(self.xs),)

    @property
    def __class__(self):
        return NdArrayShim

    def astype(self, t, *a, **k):
        nm = t if isinstance(t, str) else getattr(t, "__name__", "?")
        if nm not in ("str", "U"):
            raise Unsupported(f"astype({t}) of texts")
        return Texts(self.xs, "U")

    def values(self):
        return [x.encode() for x in self.xs] if self.kind == "S" else list(self.xs)

    tolist = values

    def __contains__(self, x):
        return x in self.values()

    def __iter__(self):
        return iter(self.values())

    def __len__(self):
        return len(self.xs)

    def __getitem__(self, i):
        if type(i) is not int:
            raise Unsupported("index of texts")
        return self.values()[i]

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"array of texts .{nm}")


class Lead:
    """an array with a leading dimension of one"""
    _dv_ndarray = True
    ndim = 2

    def __init__(self, a):
        self.a = a
        self.shape = (1, a.length)

    @property
    def __class__(self):
        return NdArrayShim

    def squeeze(self):
        return self.a

    flatten = ravel = squeeze

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"array .{nm}")


class Cube:
    """a few images of one shape (Q components); lead: with another dimension of one in between"""
    _dv_ndarray = True

    def __init__(self, planes, lead=False):
        self.planes, self.lead = list(planes), lead
        self.ndim = 4 if lead else 3

    @property
    def __class__(self):
        return NdArrayShim

    @property
    def shape(self):
        h, w = self.planes[0].shape
        return (len(self.planes), *((1,) if self.lead else ()), h, w)

    def _dv_len(self):
        return len(self.planes)

    def __len__(self):
        return len(self.planes)

    def squeeze(self):
        return self.planes[0] if len(self.planes) == 1 else Cube(self.planes)

    def copy(self):
        return Cube([p.copy() for p in self.planes], self.lead)

    def __iter__(self):
        if self.lead:
            raise Unsupported("iteration over an array")
        return iter(self.planes)

    def __getitem__(self, ix):
        if isinstance(ix, tuple):
            if any(x != slice(None) for x in ix[1:] if x is not Ellipsis):
                raise Unsupported("part of an image")
            ix = ix[0]
        if self.lead:
            raise Unsupported("index of an array")
        if type(ix) is IdxArr and ix.form == "item":
            ix = ix.v[0]
        if type(ix) is IdxArr or type(ix) in (list,) or type(ix).__name__ == "TList":
            pos = list(ix.v) if type(ix) is IdxArr else list(ix)
            if not all(type(k) is int for k in pos):
                raise Unsupported("index of an array")
            if any(not -len(self.planes) <= k < len(self.planes) for k in pos):
                raise_modelled(IndexError("index is out of bounds"))
            return Cube([self.planes[k] for k in pos], type(ix) is IdxArr and ix.form == "col")
        if type(ix) is not int:
            raise Unsupported("index of an array")
        if not -len(self.planes) <= ix < len(self.planes):
            raise_modelled(IndexError("index is out of bounds"))
        return self.planes[ix]

    def any(self, axis=None):
        if self.lead or axis not in ((1, 2), (-2, -1), (-1, -2), (2, 1)):
            raise Unsupported("any of an array")
        return SymArr.of([p.any() for p in self.planes], "b")

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"array .{nm}")


class At:
    def __init__(self, d):
        self.d = d

    def __contains__(self, k):
        return str.__str__(k) in self.d

    def __getitem__(self, k):
        if k not in self:
            raise_modelled(KeyError(k))
        return self.d[k]

    def get(self, k, default=None):
        return self.d.get(k, default)

    def keys(self):
        return list(self.d)

    def __iter__(self):
        return iter(list(self.d))

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"attributes .{nm}")


class Node:
    """group or dataset of a file which is only read"""

    def __init__(self, name, value=None, attrs=None):
        self.name, self.value, self.attrs, self.sub, self.root = name, value, At(attrs or {}), {}, self

    def add(self, nm, value=None, attrs=None):
        n = self.sub[nm] = Node(self.name.rstrip("/") + "/" + nm, value, attrs)
        n.root = self.root
        return n

    def find(self, p):
        p = str.__str__(str(p))
        n = self.root if p.startswith("/") else self
        for x in p.split("/"):
            if x not in ("", "."):
                n = n.sub.get(x)
                if n is None:
                    return None
        return n

    def __getitem__(self, p):
        if self.value is not None:
            if p == () or p is Ellipsis or p == slice(None):
                return self.value
            raise Unsupported("part of a dataset")
        n = self.find(p)
        if n is None:
            raise_modelled(KeyError(f"Unable to open object (object '{p}' doesn't exist)"))
        return n

    def __contains__(self, p):
        return self.value is None and self.find(p) is not None

    def get(self, p, default=None):
        n = self.find(p)
        return default if n is None else n

    @property
    def ndim(self):
        return self.value.ndim

    @property
    def shape(self):
        return self.value.shape

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"node .{nm}")


def ghost_h5(v, root, fname):
    class H5:
        pass

    class G(type):
        def __instancecheck__(cls, x):
            return type(x) is Node and x.value is None

    class D(type):
        def __instancecheck__(cls, x):
            return type(x) is Node and x.value is not None

    class Group(metaclass=G):
        pass

    class Dataset(metaclass=D):
        pass

    def File(f=None, mode="r", **k):
        v.prove("the given file is read, and only read", z3.BoolVal(str(f) == str(fname) and mode == "r"))
        return root
    H5.File, H5.Group, H5.Dataset = File, Group, Dataset
    v.patch("mcsas3.mc_data:h5py", H5)


def chain(root, t, depth):
    g = root
    for nm in ["entry", "sub.1", "I"][:depth]:
        g.attrs.d["default"] = t(nm)
        g = g.add(nm)
        g.add("unused")
    return g


def text_kind():
    return (lambda x: x, lambda x: x.encode())[E().choose(2)]


def open_reader(v, cls, root, seen, **kw):
    fname = pathlib.Path("x.nxs")
    ghost_h5(v, root, fname)
    recorded_prepare(v, seen)
    o = v.get(cls)(**kw)
    how = E().choose(2)
    if how:
        o.filename = fname
        return o, v.call(o.from_nexus)
    return o, v.call(o.from_nexus, fname)


def arrays(g, names, n, lead):
    out = {}
    for c, nm in names.items():
        a = fresh_arr(c, n, nan=True, inf=True)
        out[c] = a
        g.add(nm, Lead(a.copy()) if lead else a.copy())
    return out


@vc("McData.from_nexus: default path", ["C24"], [BASE + ".from_nexus"], own="C24", budget=140, paths=40000)
def vc_nexus(v):
    n = fresh_int("n", 2)
    depth = E().choose(3)
    t = text_kind()
    root = Node("/")
    g = chain(root, t, depth)
    sig = ("I", "data")[E().choose(2)]
    q, other = (("Q", "q"), ("q", "Q"))[E().choose(2)]
    unc, mask = E().choose(4), E().choose(2)
    lead = bool(E().choose(2))
    names = dict(I=sig, Q=q, ISigma="err", decoy="ISigma", decoy2="I" if sig != "I" else "data", mask="m")
    a = arrays(g, names, n, lead)
    g.attrs.d["signal"] = t(sig)
    if unc in (1, 3):
        g.attrs.d[sig + "_uncertainty"] = t("err")
    if unc in (2, 3):
        g.sub[sig].attrs.d["uncertainties"] = t("err") if unc == 2 else t("ISigma")
    if mask:
        g.attrs.d["mask"] = t("m")
    form = E().choose(5)
    g.attrs.d[("axes", "I_axes")[E().choose(2)]] = (q, q.encode(), Texts([q], "O"), Texts([".", q], "S"),
                                                    Texts([q, "x"], "O"))[form]
    seen = []
    v.cover("precondition")
    o, r = open_reader(v, D1, root, seen)
    if not r.ok:
        v.fail("a NeXus file with signal and Q axis is read", repr(r.exc))
        return
    v.cover("read")
    want = {k: a[k] for k in ("I", "Q")}
    want["ISigma"] = a["ISigma"] if unc else SymArr(n, lambda i: num_op("mul", a["I"].at(i), 0.001))
    if mask:
        want["mask"] = a["mask"]
    v.prove("the data are processed, once", z3.BoolVal(len(seen) == 1 and seen[0][0] is o.rawData))
    v.prove("one-dimensional data", z3.BoolVal(o.rawData2D is None))
    columns(v, o.rawData, n, want, exact=False)


class Levels:
    """groups 0..K, each the default group of the one before; a path to group k, and the name of the default group
    of group k, are texts with a mark that stands for the number k"""

    def __init__(self, K, leaf, as_text):
        self.K, self.leaf, self.as_text, self.terms = K, leaf, as_text, []

    def mark(self, kind, k):
        self.terms.append(z3.simplify(k))
        return f"\x01{kind}{len(self.terms) - 1}\x02"

    def level(self, p):
        """the number of the group at this path, or the dataset in the last group"""
        k, node = z3.IntVal(0), None
        for x in p.split("/"):
            if x in ("", "."):
                continue
            if node is not None:
                raise Unsupported("path below a dataset")
            if x.startswith("\x01p") and x.count("\x01") == 1 and x.endswith("\x02"):
                k = self.terms[int(x[2:-1])]
            elif x.startswith("\x01d") and x.count("\x01") == 1 and x.endswith("\x02"):
                if not E().valid(self.terms[int(x[2:-1])] == k):
                    raise Unsupported("default group of another group")
                k = z3.simplify(k + 1)
            elif "\x01" in x or not E().valid(k == self.K):
                raise Unsupported("another path")
            else:
                node = self.leaf.sub.get(x)
                if node is None:
                    raise_modelled(KeyError(f"Unable to open object (object '{x}' doesn't exist)"))
        return k if node is None else node

    def at(self, p, start=""):
        p = str.__str__(str(p))
        r = self.level(p if p.startswith("/") or not start else start + "/" + p)
        return r if type(r) is Node else Level(self, r)


class Level:
    """group k"""
    value = None

    def __init__(self, ls, k):
        self.ls, self.k = ls, k

    @property
    def attrs(self):
        return self

    @property
    def name(self):
        return "/" + self.ls.mark("p", self.k)

    def __getitem__(self, p):
        if p == "default" and getattr(self, "k", None) is not None and E().valid(self.k < self.ls.K):
            return self.ls.as_text(self.ls.mark("d", self.k))
        if E().valid(self.k == self.ls.K) and p in self.ls.leaf.attrs.d and "/" not in p:
            if p in self.ls.leaf.sub:
                raise Unsupported("a name which is an attribute and a dataset")
            return self.ls.leaf.attrs[p]
        if "/" not in p and "\x01" not in p and p not in self.ls.leaf.sub:
            if not E().valid(self.k == self.ls.K):
                raise Unsupported("attribute of a group on the way")
            raise_modelled(KeyError(p))
        return self.ls.at(p, "/" + self.ls.mark("p", self.k))

    def __contains__(self, p):
        if p == "default":
            return E().branch(self.k < self.ls.K)
        if not E().valid(self.k == self.ls.K):
            raise Unsupported("content of a group on the way")
        return p in self.ls.leaf.attrs or p in self.ls.leaf.sub

    def get(self, p, default=None):
        return self[p] if p in self else default

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass

    def __getattr__(self, nm):
        if nm.startswith("_") or nm == "k":
            raise AttributeError(nm)
        raise Unsupported(f"group .{nm}")


class ChainLoop:
    """every path or group kept by the loop is that of the group reached, one of 0..K"""
    name = "C24"

    def __init__(self, ls):
        self.ls, self.k, self.forms, self.calls = ls, None, {}, 0

    def number(self, v):
        if type(v) is Level:
            return v.k
        if isinstance(v, pathlib.PurePath):
            v = str(v)
        if type(v) is str and v.startswith("/"):
            r = self.ls.level(v)
            return None if type(r) is Node else r
        return None

    @staticmethod
    def form(v):
        return (type(v), type(v) is str and v.endswith("/"))

    def local(self, n, v):
        k = self.number(v)
        if k is None or not z3.is_int_value(k) or k.as_long():
            return None
        self.forms[n] = self.form(v)
        if type(v) is Level:
            return Level(self.ls, self.k)
        t = "/" + self.ls.mark("p", self.k)
        return type(v)(t + "/" if v is not None and self.form(v)[1] else t)

    def havoc(self, loc):
        self.k = E().fresh_int("level")
        E().assume(z3.And(0 <= self.k, self.k <= self.ls.K))

    def inv(self, loc):
        self.calls += 1
        if self.calls < 3:      # before the loop, and before the iteration: as local() makes it
            return []
        out = []
        for n, f in self.forms.items():
            v = loc.get(n)
            k = self.number(v)
            if k is None or self.form(v) != f:
                raise Unsupported(f"{n} in the search for the data")
            out.append(("the next default group is followed", z3.And(k == self.k + 1, k <= self.ls.K)))
        return out

    def pre_iteration(self, loc):
        pass

    post_iteration = pre_iteration


@vc("McData.from_nexus: any number of default groups", ["C24"], [BASE + ".from_nexus"], own="C24", budget=60)
def vc_nexus_chain(v):
    n, K = fresh_int("n", 2), fresh_int("K", 0)
    t = text_kind()
    g = Node("/leaf")
    a = arrays(g, dict(I="I", Q="Q", ISigma="err"), n, False)
    g.attrs.d["signal"], g.attrs.d["axes"] = t("I"), t("Q")
    unc = E().choose(2)
    if unc:
        g.attrs.d["I_uncertainty"] = t("err")
    ls = Levels(nz(K), g, t)
    E().loop_contract = ChainLoop(ls)
    seen = []
    v.cover("precondition")
    o, r = open_reader(v, D1, Level(ls, z3.IntVal(0)), seen)
    if not r.ok:
        v.fail("the data at the end of the default groups are read", repr(r.exc))
        return
    v.cover("read")
    want = dict(a)
    if not unc:
        want["ISigma"] = SymArr(n, lambda i: num_op("mul", a["I"].at(i), 0.001))
    v.prove("the data are processed, once", z3.BoolVal(len(seen) == 1 and seen[0][0] is o.rawData))
    columns(v, o.rawData, n, want, exact=False)


@vc("McData.from_nexus: missing parts", ["C24"], [BASE + ".from_nexus"], own="C24", budget=60)
def vc_nexus_bad(v):
    n = fresh_int("n", 2)
    t = text_kind()
    root = Node("/")
    g = chain(root, t, E().choose(3))
    arrays(g, dict(I="I", Q="Q", ISigma="ISigma"), n, False)
    g.attrs.d["signal"], g.attrs.d["axes"] = t("I"), t("Q")
    case = E().choose(5)
    if case == 0:
        del g.attrs.d["signal"]
    if case == 1:
        del g.attrs.d["axes"]
    if case == 2:
        g.attrs.d["axes"] = t("x")
    if case == 3:
        del g.sub[("I", "Q")[E().choose(2)]]
    if case == 4:
        g.attrs.d["default"] = t("nothing")
    seen = []
    v.cover("precondition")
    o, r = open_reader(v, D1, root, seen)
    v.prove("a file without signal or Q axis is refused", z3.BoolVal(not r.ok and not seen))


@vc("McData.from_nexus: given paths", ["C24"], [BASE + ".from_nexus"], own="C24", budget=60)
def vc_nexus_paths(v):
    n = fresh_int("n", 2)
    root = Node("/")
    t = text_kind()
    g = chain(root, t, 1)
    g.attrs.d["signal"], g.attrs.d["axes"] = t("decoyI"), t("Q")
    arrays(g, dict(a="decoyI", b="Q", c="decoyI_uncertainty"), n, False)
    h = root.add("other").add("sub")
    lead = bool(E().choose(2))
    a = arrays(h, dict(I="signal", Q="k", ISigma="s", mask="m"), n, lead)
    d = {k: "/other/sub/" + x for k, x in (("ISigma", "s"), ("Q", "k"), ("I", "signal"))}
    mask = E().choose(2)
    if mask:
        d["mask"] = "other/sub/m"
    bad = E().choose(5)
    if bad == 1:
        del d[("Q", "I", "ISigma")[E().choose(3)]]
    if bad == 2:
        d[("Q", "I", "ISigma")[E().choose(3)]] = "/other/nothing"
    given = dict(d)
    if bad == 3:
        d = list(d.values())
    seen = []
    v.cover("precondition")
    o, r = open_reader(v, D1, root, seen, pathDict=d)
    if bad in (1, 2, 3):
        v.cover("refused")
        v.prove("a missing path is refused", z3.BoolVal(not r.ok and not seen))
        return
    if not r.ok:
        v.fail("the datasets at the given paths are read", repr(r.exc))
        return
    v.cover("read")
    v.prove("the data are processed, once", z3.BoolVal(len(seen) == 1 and seen[0][0] is o.rawData))
    v.prove("the paths are kept", z3.BoolVal(o.pathDict == given))
    columns(v, o.rawData, n, {k: a[k] for k in given}, exact=False)


class PixTable:
    """the table of the pixels of some images: kept as it is (only stored, not used for the fit)"""
    _dv_table = True

    def __init__(self, data=None, **k):
        if k or not isinstance(data, dict) or not all(type(x) is Pix for x in data.values()):
            raise Unsupported("another table")
        self.data = dict(data)

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"table .{nm}")


@vc("McData.from_nexus: images", ["C24"], [BASE + ".from_nexus"], own="C24", budget=100)
def vc_nexus_2d(v):
    h, w = fresh_int("h", 2), fresh_int("w", 2)
    root = Node("/")
    path = E().choose(2)
    g = chain(root, lambda x: x, 1)
    zero = E().choose(3)
    im = {k: fresh_img(k, h, w, nan=True, inf=True) for k in ("I", "ISigma")}
    mask = E().choose(2)
    if mask:
        im["mask"] = fresh_img("mask", h, w, kind="b")
    qs = [fresh_img("Qa", h, w), fresh_img("Qb", h, w)]
    for p in qs:
        i, j = E().fresh_int("i"), E().fresh_int("j")       # no component is zero as a whole
        v.assume(z3.And(0 <= i, i < nz(h), 0 <= j, j < nz(w), boolean(p.fn(i, j))))
        E().ghost.setdefault("any2_at", []).append((i, j))
    planes = list(qs)
    planes.insert(zero, Img(h, w, lambda i, j: real(0.0), kind="f"))
    unc = E().choose(2) or path
    for k, x in im.items():
        g.add(k, x.copy())
    g.add("Q", Cube([p.copy() for p in planes]))
    g.attrs.d.update(signal="I", axes="Q")
    if unc:
        g.attrs.d["I_uncertainty"] = "ISigma"
    if mask:
        g.attrs.d["mask"] = "mask"
    kw = {}
    if path:
        kw["pathDict"] = {k: g.name + "/" + k for k in ("Q", *im)}
    seen = []
    E().ghost["DataFrame"] = PixTable
    v.cover("precondition")
    o, r = open_reader(v, D2, root, seen, **kw)
    if not r.ok:
        v.fail("a 2-D NeXus file is read", repr(r.exc))
        return
    v.cover("read")
    v.prove("the data are processed, once", z3.BoolVal(len(seen) == 1 and seen[0][1] is o.rawData2D))
    d = o.rawData2D
    want = dict(im, Qy=qs[0], Qx=qs[1])
    if not unc:
        want["ISigma"] = Img(h, w, lambda i, j: num_op("mul", im["I"].fn(i, j), 0.001))
    v.prove("the images are kept", z3.BoolVal(isinstance(d, dict) and set(want) <= set(d)))
    if not (isinstance(d, dict) and set(want) <= set(d)):
        return
    i, j = E().fresh_int("i"), E().fresh_int("j")
    E().hint_idx.extend([i, j])
    for k, x in want.items():
        if type(d[k]) is not Img:
            raise Unsupported(f"{k} is a {type(d[k]).__name__}")
        v.prove(f"image {k} is unchanged", And(
            wrap(z3.And(nz(d[k].h) == nz(h), nz(d[k].w) == nz(w))),
            wrap(z3.Implies(z3.And(0 <= i, i < nz(h), 0 <= j, j < nz(w)), boolz(same(d[k].fn(i, j), x.fn(i, j)))))))
