"""h5py over a ghost file system, as assumed contracts, and the ghost values kept in it.

A ghost group is a list of (name, node); an *open* group stands for any content: a name asked for
the first time is absent, a dataset or a group (all three are explored).  Every change is reported
to E().ghost["frame"](operation, path), which decides whether it is allowed.
"""
import z3

from .. import core
from ..core import E, Unsupported, raise_modelled
from ..loops import SymSeq
from ..values import (DType, Fn, Sym, SymArr, SymBool, SymInt, SymReal, XList, And, boolz, canon_key, is_num, mkarr,
                      nz, same, wrap)
from .np_stub import StubModule

Txt = z3.DeclareSort("Txt")
Any_ = z3.DeclareSort("Opaque")


# ------------------------------------------------------------------ texts
class _Term:
    def __init__(self, t):
        self.t = t

    def terms(self):
        return [self.t]


def text_token(t):
    from ..values import token
    return token(_Term(t), "")


def _refuse(nm, what):
    def f(self, *a, **k):
        raise Unsupported(f"{nm} of an unknown {what}")
    f.__name__ = nm
    return f


KEEP = {"__new__", "__init__", "__class__", "__getattribute__", "__str__", "__repr__", "__hash__", "__eq__", "__ne__",
        "__format__", "__reduce__", "__reduce_ex__", "__init_subclass__", "__subclasshook__", "__doc__", "__dir__",
        "__setattr__", "__delattr__", "__sizeof__", "__getnewargs__", "encode", "decode", "__getstate__"}


class Text(str):
    """a text of which nothing is known"""

    def __new__(cls, t):
        s = str.__new__(cls, text_token(t))
        s.t = t
        return s

    def __eq__(self, o):
        if type(o) is Text:
            return True if self.t.eq(o.t) else wrap(self.t == o.t)
        if isinstance(o, str) and str.__eq__(self, o):
            return True
        if isinstance(o, str):
            raise Unsupported("comparison of an unknown text")
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else ~r

    def __hash__(self):
        return 7919

    def __str__(self):
        return str.__str__(self)

    def __format__(self, spec):
        if spec:
            raise Unsupported("formatted text")
        return str.__str__(self)

    def _dv_str(self):
        return self

    def encode(self, *a, **k):
        return Bytes(self.t)

    def _dv_same(self, o):
        if type(o) is Text:
            return self.t == o.t
        return isinstance(o, str) and str.__eq__(self, o)

    def _dv_ite(self, c, o):
        if type(o) is not Text:
            raise Unsupported("if-then-else of a text")
        return Text(z3.simplify(z3.If(c, self.t, o.t)))

    def _dv_vmap(self, f):
        return Text(f(self.t))

    def _dv_terms(self, j):
        return []


class Bytes(bytes):
    """the encoded form of a text"""

    def __new__(cls, t):
        s = bytes.__new__(cls, text_token(t).encode())
        s.t = t
        return s

    def __eq__(self, o):
        if type(o) is Bytes:
            return True if self.t.eq(o.t) else wrap(self.t == o.t)
        if isinstance(o, bytes):
            raise Unsupported("comparison of an unknown text")
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else ~r

    def __hash__(self):
        return 7907

    def decode(self, enc="utf-8", *a, **k):
        if str(enc).lower().replace("-", "").replace("_", "") != "utf8":
            raise Unsupported("decoding of another encoding")
        return Text(self.t)

    def _dv_same(self, o):
        return self.t == o.t if type(o) is Bytes else False

    def _dv_ite(self, c, o):
        if type(o) is not Bytes:
            raise Unsupported("if-then-else of a text")
        return Bytes(z3.simplify(z3.If(c, self.t, o.t)))

    def _dv_vmap(self, f):
        return Bytes(f(self.t))

    def _dv_terms(self, j):
        return []


for _c, _w in ((Text, "text"), (Bytes, "byte string")):
    for _n in dir(_c):
        if _n not in KEEP and not _n.startswith("_dv"):
            if callable(getattr(_c, _n)):
                setattr(_c, _n, _refuse(_n, _w))


def fresh_text(hint="text"):
    return Text(E().fresh_const(hint, Txt))


def lit(s):
    """the term of a known text"""
    c = z3.Const("lit!" + s, Txt)
    known = E().ghost.setdefault("lits", {})
    if s not in known:
        for o in known.values():
            E().assume(c != o)
        known[s] = c
    return c


class TDType:
    def __init__(self, nm):
        self.nm = nm
        self.kind = "U" if nm.startswith("<U") else "O"

    def __str__(self):
        return "object" if self.nm in ("vlen", "bytes") else self.nm

    __repr__ = __str__

    @property
    def name(self):
        return str(self)

    def __eq__(self, o):
        if isinstance(o, TDType):
            return str(self) == str(o)
        if isinstance(o, str):
            return str(self) == o
        k = getattr(o, "_dv_kind", None) or getattr(o, "__name__", "")
        return k == "object" and str(self) == "object"

    def __hash__(self):
        return hash(str(self))


class TextArr:
    """1-D array of texts: dtype <U, object, object marked as variable-length str (vlen), or bytes"""
    _dv_ndarray = True
    ndim = 1

    def __init__(self, n, fn, dt="<U7"):
        self.n, self.fn, self.dt = n, fn if isinstance(fn, Fn) else Fn(fn), dt

    @property
    def __class__(self):
        from .np_stub import NdArrayShim
        return NdArrayShim

    @property
    def dtype(self):
        return TDType(self.dt)

    @property
    def shape(self):
        return (wrap(nz(self.n)),)

    @property
    def size(self):
        return wrap(nz(self.n))

    def _dv_len(self):
        return self.size

    def copy(self):
        return TextArr(self.n, self.fn, self.dt)

    def _dv_nparray(self, dtype=None):
        return self.copy() if dtype is None else self.astype(dtype)

    def tolist(self):
        return XList.seq(nz(self.n), self.fn)

    def astype(self, t, *a, **k):
        dt = t.nm if isinstance(t, TDType) else t if isinstance(t, str) else getattr(t, "_dv_kind", None) or \
            getattr(t, "__name__", "?")
        dt = {"object": "object", "O": "object", "str": "<U7", "<U7": "<U7", "vlen": "vlen", "U": "<U7"}.get(dt)
        if dt is None:
            raise Unsupported(f"astype({t}) of texts")
        if self.dt == "bytes" and dt != "object":
            raise Unsupported("array of bytes to text")
        return TextArr(self.n, self.fn, "bytes" if self.dt == "bytes" else dt)

    def _dv_symiter(self):
        return SymSeq(self.n, self.fn)

    def at(self, i):
        return self.fn(i)

    def __getitem__(self, ix):
        if isinstance(ix, tuple) and ix == ():
            return self.copy()
        from ..values import is_int_like, zi
        if not is_int_like(ix):
            raise Unsupported("index of an array of texts")
        i, n = z3.simplify(zi(ix)), nz(self.n)
        if z3.is_int_value(i) and i.as_long() < 0:
            i = z3.simplify(n + i)
        if not E().branch(z3.And(0 <= i, i < n)):
            raise_modelled(IndexError("index is out of bounds"))
        return self.fn(i)

    def _dv_same(self, o):
        if type(o) is not TextArr or (self.dt == "bytes") != (o.dt == "bytes"):
            return False
        j = E().fresh_int("j")
        return And(wrap(nz(self.n) == nz(o.n)), wrap(z3.Implies(
            z3.And(0 <= j, j < nz(self.n)), boolz(same(self.fn(j), o.fn(j))))))

    def _dv_vmap(self, f):
        return TextArr(f(nz(self.n)), Fn(lambda i: self.fn(i)._dv_vmap(f)), self.dt)

    def _dv_terms(self, j):
        return []

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"array of texts .{nm}")


def text_list(xs):
    """np.array of a list of texts, or None"""
    if type(xs) is XList and xs.sym:
        if isinstance(xs.at(z3.Int("probe!")), Text):
            return TextArr(nz(xs.n), xs.fn)
        return None
    xs = list(xs)
    if xs and all(isinstance(x, str) for x in xs):
        return text_arr(xs)
    return None


def text_arr(xs):
    ts = [x.t if isinstance(x, Text) else lit(str(x)) for x in xs]

    def fn(i):
        if z3.is_int_value(i) and 0 <= i.as_long() < len(xs):
            return xs[i.as_long()] if isinstance(xs[i.as_long()], Text) else Text(ts[i.as_long()])
        r = ts[-1]
        for k in range(len(ts) - 2, -1, -1):
            r = z3.If(i == k, ts[k], r)
        return Text(r)
    return TextArr(len(xs), fn)


# ------------------------------------------------------------------ arrays of any shape, tables, units
class Elem:
    """an element or row of an array of any shape"""

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"array row .{nm}")


class OpArr:
    """a numeric array of any shape and content"""
    _dv_ndarray = True

    def __init__(self, t):
        self.t = t
        self.size = SymInt(E().fresh_int("size"))
        E().assume(self.size.i >= 0)
        self.shape = ("shape of", t)
        self.dtype = DType("f")

    @property
    def __class__(self):
        from .np_stub import NdArrayShim
        return NdArrayShim

    @staticmethod
    def fresh(hint="array"):
        return OpArr(E().fresh_const(hint, Any_))

    def copy(self):
        r = object.__new__(OpArr)
        r.__dict__.update(self.__dict__)
        return r

    def _dv_nparray(self, dtype=None):
        if dtype is not None:
            raise Unsupported("conversion of an array")
        return self.copy()

    def _dv_list(self):
        return ListOf(self.copy())

    def _dv_len(self):
        """rows: none or some"""
        n = E().fresh_int("rows")
        E().assume(z3.And(n >= 0, (n == 0) == (self.size.i == 0)))
        return SymInt(n)

    def __getitem__(self, ix):
        if isinstance(ix, tuple) and ix == ():
            return self.copy()
        if ix == 0 and isinstance(ix, int):
            if not E().branch(self.size.i > 0):
                raise_modelled(IndexError("index 0 is out of bounds"))
            return Elem()
        raise Unsupported("index of an array")

    def _dv_same(self, o):
        return self.t == o.t if type(o) is OpArr else False

    def _dv_vmap(self, f):
        r = self.copy()
        r.t = f(self.t)
        return r

    def _dv_terms(self, j):
        return []

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"array .{nm}")


class ListOf:
    """a list or tuple (perhaps nested) of numbers, of any length"""

    def __init__(self, arr, cls=list):
        self.arr, self.cls = arr, cls

    @property
    def __class__(self):
        return self.cls

    def _dv_nparray(self, dtype=None):
        return self.arr._dv_nparray(dtype)

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"list .{nm}")


class Quantity:
    def __init__(self, m=None, u=None):
        self.m = self.magnitude = m
        self.u = self.units = u

    def _other(self, *a, **k):
        """converted: other numbers, another unit"""
        from ..values import fresh_arr, fresh_real
        m = self.m
        return Quantity(fresh_arr("converted", m.n) if type(m) is SymArr else fresh_real("converted"),
                        Unit(fresh_text("unit")))

    to_base_units = to_root_units = to_reduced_units = to_compact = _other

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"quantity .{nm}")


class Unit:
    def __init__(self, text):
        self.text = text

    def _dv_str(self):
        return self.text

    def __str__(self):
        return str.__str__(self.text)


class Stamp:
    """pandas.Timestamp"""

    def __init__(self, x):
        self.x = x

    def timestamp(self):
        return self.x

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"timestamp .{nm}")


# ------------------------------------------------------------------ names
def eq_names(a, b):
    """are two names the same? (decides by a case split where both contain unknown parts)"""
    if str.__eq__(a, b):
        return True
    ta, tb = parts(a), parts(b)
    if not any(not isinstance(x, str) for x in ta + tb):
        return False
    if len(ta) == len(tb) == 1 and isinstance(ta[0], _Term) and isinstance(tb[0], _Term):
        return E().branch(ta[0].t == tb[0].t)
    # literal parts around one number each
    num = lambda p: [x for x in p if not isinstance(x, str)]
    na, nb = num(ta), num(tb)
    if all(isinstance(x, Sym) for x in na + nb):
        if len(na) == 1 and len(nb) == 1:
            sh = lambda p: ("".join(p[:p_ix(p)]), "".join(p[p_ix(p) + 1:]))
            if sh(ta) == sh(tb):
                return E().branch(nz(na[0]) == nz(nb[0]))
            if prefix_free(sh(ta), sh(tb)):
                return False
            raise Unsupported(f"comparison of the names {a} and {b}")
        if len(na) + len(nb) == 1:
            (p, s) = (ta, b) if na else (tb, a)
            x = (na + nb)[0]
            i = p_ix(p)
            pre, post = "".join(p[:i]), "".join(p[i + 1:])
            if len(s) < len(pre) + len(post) + 1 or not s.startswith(pre) or not s.endswith(post):
                return False
            mid = s[len(pre):len(s) - len(post)]
            if not (mid.isdigit() and str(int(mid)) == mid):
                return False
            return E().branch(nz(x) == int(mid))
    k = [x for x in ta + tb if isinstance(x, _Term)]
    h = E().ghost.get("distinct_names")
    if h is not None and h(a, b):
        return False
    raise Unsupported(f"comparison of the names {a} and {b} ({k})")


def prefix_free(x, y):
    """can no numbers make the two patterns equal?  (different beginning before the digits)"""
    a, b = x[0], y[0]
    n = min(len(a), len(b))
    if a[:n] != b[:n]:
        return True
    rest = a[n:] or b[n:]
    return bool(rest) and not all(c.isdigit() for c in rest)


def p_ix(p):
    return [i for i, x in enumerate(p) if not isinstance(x, str)][0]


def parts(s, also=()):
    """split a name into known parts (str), numbers (SymInt) and unknown texts (_Term)"""
    import re
    from ..values import TOK
    out, pos = [], 0
    s = str.__str__(s)
    for m in re.finditer(re.escape(TOK) + r"\d+X", s):
        v, spec = E().tokens[m.group()]
        if m.start() > pos:
            out.append(s[pos:m.start()])
        if spec or not isinstance(v, (_Term, SymInt, *also)) and type(v) not in also:
            raise Unsupported("formatted value in a name")
        out.append(v)
        pos = m.end()
    if pos < len(s) or not out:
        out.append(s[pos:])
    return out


# ------------------------------------------------------------------ nodes
def fs():
    return E().ghost.setdefault("h5", {})


def changed(op, path):
    h = E().ghost.get("frame")
    if h is None:
        raise Unsupported("a change of a file outside of a contract about files")
    h(op, path)


class Attrs:
    def __init__(self, node, d=None, opened=False):
        self.node, self.d, self.opened = node, dict(d or {}), opened

    def __getitem__(self, k):
        self.node.check()
        if k not in self:
            raise_modelled(KeyError(k))
        return self.d[k]

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __contains__(self, k):
        self.node.check()
        if k not in self.d and self.opened:
            raise Unsupported("unknown attributes")
        return k in self.d

    def __setitem__(self, k, v):
        self.node.write()
        changed("attribute", self.node.path)
        self.d[k] = v

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"attrs.{nm}")


class Empty:
    """h5py.Empty: a dataset without a value"""
    shape = size = None

    def __init__(self, dtype=None):
        self.dtype = TDType(str(dtype))

    def copy(self):
        return self

    def _dv_same(self, o):
        return type(o) is Empty

    def _dv_vmap(self, f):
        return self

    def _dv_terms(self, j):
        return []


class Node:
    file = None

    def check(self):
        f = self.file
        if f is not None and not f.handle:
            raise_modelled(ValueError("Not a location (the file is closed)"))

    def write(self):
        self.check()
        f = self.file
        if f is not None and f.handle and f.handle[-1] == "r":
            raise_modelled(OSError("no write intent on file"))

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"h5py object .{nm}")


class Dataset(Node):
    def __init__(self, value=None, path="", file=None, attrs=None, known=True):
        self.value, self.path, self.file, self.known = value, path, file, known
        self.attrs = Attrs(self, attrs, not known)

    def __getitem__(self, ix):
        self.check()
        if not (isinstance(ix, tuple) and ix == ()) and ix is not Ellipsis and ix != slice(None):
            raise Unsupported("part of a dataset")
        if not self.known:
            raise Unsupported("content of an unknown dataset")
        v = self.value
        return v.copy() if hasattr(v, "copy") else v

    @property
    def shape(self):
        self.check()
        v = self[()]
        return v.shape if hasattr(v, "shape") else ()

    @property
    def size(self):
        v = self[()]
        return v.size if hasattr(v, "size") and not isinstance(v, Sym) else 1

    @property
    def dtype(self):
        return self[()].dtype

    def __contains__(self, k):
        raise_modelled(TypeError("Can't iterate over a scalar dataset"))

    def asstr(self, *a):
        raise Unsupported("asstr of a dataset")


class Group(Node):
    def __init__(self, path="", file=None, opened=False, attrs=None):
        self.path, self.file, self.opened, self.children = path, file, opened, []
        self.attrs = Attrs(self, attrs, opened)

    # tree
    def child(self, nm):
        for k, (n, c) in enumerate(self.children):
            if eq_names(n, nm):
                return c
        if not self.opened:
            return None
        w = E().choose(3)
        p = join(self.path, nm)
        c = None if w == 0 else Dataset(None, p, self.file, known=False) if w == 1 else \
            Group(p, self.file, opened=True)
        self.children.append((nm, c))
        return c

    def put(self, nm, node):
        self.children = [(n, c) for n, c in self.children if not str.__eq__(n, nm) and
                         (c is not None or not eq_names(n, nm))] + [(nm, node)]

    def walk(self, path):
        """(node or None) at a path"""
        self.check()
        return self.peek(path)

    def peek(self, path):
        path = key(path)
        node = self.file_root() if path.startswith("/") else self
        for nm in [x for x in path.split("/") if x not in ("", ".")]:
            if type(node) is Dataset:
                return None
            node = node.child(nm)
            if node is None:
                return None
        return node

    def file_root(self):
        return self.file.root if self.file is not None else self

    def __contains__(self, path):
        return self.walk(path) is not None

    def __getitem__(self, path):
        r = self.walk(path)
        if r is None:
            raise_modelled(KeyError(f"Unable to open object (object '{path}' doesn't exist)"))
        return r

    def get(self, path, default=None):
        r = self.walk(path)
        return default if r is None else r

    def split(self, path):
        path = key(path)
        head, _, nm = path.rstrip("/").rpartition("/")
        if not nm:
            raise Unsupported("an operation on the root of a file")
        if path.startswith("/"):
            head = "/" + head
        return head, nm

    def __delitem__(self, path):
        self.write()
        if self.walk(path) is None:
            raise_modelled(KeyError(f"Couldn't delete link (component not found: {path})"))
        head, nm = self.split(path)
        par = self.walk(head) if head else self
        changed("delete", join(par.path, nm))
        for k, (n, c) in enumerate(par.children):
            if eq_names(n, nm):
                par.children[k] = (n, None)
                return
        raise Unsupported("deletion of an unknown child")

    def make(self, path):
        """create the groups on the way which are missing"""
        self.write()
        path = key(path)
        node = self.file_root() if path.startswith("/") else self
        for nm in [x for x in path.split("/") if x not in ("", ".")]:
            c = node.child(nm)
            if type(c) is Dataset:
                raise_modelled(TypeError("Incompatible object (Dataset) already exists"))
            if c is None:
                p = join(node.path, nm)
                changed("group", p)
                c = Group(p, self.file)
                node.put(nm, c)
            node = c
        return node

    def require_group(self, path):
        return self.make(path)

    def create_group(self, path):
        if self.walk(path) is not None:
            raise_modelled(ValueError("Unable to create group (name already exists)"))
        return self.make(path)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        self.write()
        if k or data is None:
            raise Unsupported(f"create_dataset({sorted(k)})")
        head, nm = self.split(name)
        par = self.make(head) if head else self
        if par.child(nm) is not None:
            raise_modelled(ValueError("Unable to create dataset (name already exists)"))
        p = join(par.path, nm)
        v = stored(data, shape, dtype)
        changed("dataset", p)
        d = Dataset(v, p, self.file)
        par.put(nm, d)
        return d

    def __setitem__(self, name, v):
        self.create_dataset(name, data=v)

    def listing(self, spec=False):
        spec or self.check()
        if self.opened:
            raise Unsupported("the entries of an unknown group")
        return [(n, c) for n, c in self.children if c is not None]

    def items(self):
        return self.listing()

    def keys(self):
        return [n for n, _ in self.listing()]

    def values(self):
        return [c for _, c in self.listing()]

    def __iter__(self):
        return iter(self.keys())

    def _dv_len(self):
        return len(self.listing())


class SymGroup(Group):
    """a group with any number of entries: entry number i is (name(i), node(i))"""

    def __init__(self, n, name, node, path="", file=None):
        super().__init__(path, file)
        self.n, self.name_at, self.node_at = n, name, node

    def items(self):
        self.check()
        return SymSeq(self.n, lambda i: (self.name_at(i), self.node_at(i)))

    def keys(self):
        self.check()
        return SymSeq(self.n, self.name_at)

    def _dv_symiter(self):
        return self.keys()

    def values(self):
        self.check()
        return SymSeq(self.n, self.node_at)

    def child(self, nm):
        raise Unsupported("an entry of a group of unknown entries")

    def __iter__(self):
        raise Unsupported("native iteration over a group")

    def __getitem__(self, nm):
        if hasattr(nm, "i") and not isinstance(nm, Sym):
            return self.node_at(nm.i)
        raise Unsupported("an entry of a group of unknown entries")

    def __contains__(self, nm):
        raise Unsupported("an entry of a group of unknown entries")


def key(p):
    if hasattr(p, "__fspath__") or not isinstance(p, (str, bytes)):
        raise_modelled(TypeError(f"Accessing a group is done with bytes or str, not {type(p)}"))
    return str.__str__(p) if isinstance(p, str) else p.decode()


def join(a, b):
    return a.rstrip("/") + "/" + b


def special_dtype(**k):
    if set(k) == {"vlen"} and (k["vlen"] is str or getattr(k["vlen"], "_dv_native", None) is str):
        return TDType("vlen")
    raise Unsupported("special_dtype")


def string_dtype(encoding="utf-8", length=None):
    if length is not None or encoding != "utf-8":
        raise Unsupported("string_dtype")
    return TDType("vlen")


def stored(v, shape=None, dtype=None):
    """what reading a dataset made of v gives"""
    if hasattr(v, "_dv_series") or hasattr(v, "_dv_gseries"):
        v = v.to_numpy()
    if isinstance(v, (list, tuple)) or type(v) in (ListOf, XList):
        from .np_stub import np
        v = np.array(v)
    if type(v) is TextArr:
        if dtype is not None and not isinstance(dtype, TDType):
            raise Unsupported("dtype of stored texts")
        dt = v.dt if dtype is None or str(dtype.nm) == "object" else dtype.nm
        if shape is not None and (len(shape) != 1 or not E().valid(nz(shape[0]) == nz(v.n))):
            raise Unsupported("shape of stored texts")
        if dt == "bytes":
            return v.copy()
        if dt != "vlen":
            raise_modelled(TypeError("No conversion path for dtype / Object dtype has no native HDF5 equivalent"))
        f = v.fn
        return TextArr(v.n, lambda i: Bytes(f(i).t), "bytes")
    if dtype is not None and not (isinstance(dtype, DType) and getattr(v, "dtype", None) == dtype):
        raise Unsupported("dtype of a stored value")
    if type(v) is Empty:
        return v
    if type(v) is OpArr:
        if shape is not None and shape is not v.shape:
            raise Unsupported("shape of a stored array")
        return v.copy()
    if type(v) is SymArr:
        if v.kind == "O":
            raise_modelled(TypeError("Object dtype has no native HDF5 equivalent"))
        if shape is not None and (len(shape) != 1 or not E().valid(nz(shape[0]) == nz(v.length))):
            raise Unsupported("shape of a stored array")
        return v.copy()
    if shape is not None:
        raise Unsupported("shape of a stored scalar")
    if is_num(v):
        return v
    if type(v) is Text:
        return Bytes(v.t)
    if type(v) is Bytes:
        return v
    if isinstance(v, str):
        return str.__str__(v).encode()
    if isinstance(v, bytes):
        return v
    raise_modelled(TypeError(f"Object dtype has no native HDF5 equivalent ({type(v).__name__})"))


class FileData:
    """one file: its content and the modes it is open with"""

    def __init__(self, opened=False):
        self.handle = []
        self.root = Group("/", self, opened)


class _FMeta(type):
    def __instancecheck__(cls, x):
        return type(x) is FileHandle


class FileHandle(Group):
    def __init__(self, data, mode):
        self.data, self.mode = data, mode
        self.file = data
        self.path = "/"

    @property
    def children(self):
        return self.data.root.children

    @children.setter
    def children(self, v):
        self.data.root.children = v

    @property
    def opened(self):
        return self.data.root.opened

    @property
    def attrs(self):
        return self.data.root.attrs

    def child(self, nm):
        return self.data.root.child(nm)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        if self.data.handle:
            self.data.handle.pop()


def name_of(f):
    import os
    try:
        return str.__str__(os.fspath(f))
    except TypeError:
        raise Unsupported("file name")


class File(metaclass=_FMeta):
    def __new__(cls, name, mode="r", *a, **k):
        if a or k:
            raise Unsupported("h5py.File(...)")
        d = fs().get(name_of(name))
        if mode in ("r", "r+"):
            if d is None:
                raise_modelled(FileNotFoundError("Unable to open file (no such file)"))
        elif mode == "a":
            if d is None:
                d = fs()[name_of(name)] = FileData()
        elif mode in ("w", "w-", "x"):
            if d is not None:
                if mode != "w":
                    raise_modelled(FileExistsError("Unable to create file (file exists)"))
                changed("truncate", "/")
            d = fs()[name_of(name)] = FileData()
        else:
            raise_modelled(ValueError("Invalid mode"))
        if d.handle and (mode != "r" or d.handle[-1] != "r"):
            # opened twice, once for writing
            raise Unsupported("a file opened twice")
        d.handle.append(mode)
        return FileHandle(d, mode)


def nothing_open():
    return all(not d.handle for d in fs().values())


class _GMeta(type):
    def __instancecheck__(cls, x):
        return isinstance_(x, Group)


def isinstance_(x, c):
    return c in type(x).__mro__


def modules():
    h5py = StubModule("h5py")
    h5py.File, h5py.Group, h5py.Dataset, h5py.Empty = File, Group, Dataset, Empty
    h5py.special_dtype, h5py.string_dtype = special_dtype, string_dtype
    return {"h5py": h5py}
