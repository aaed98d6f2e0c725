"""C22: the command line (cli_tools and the three entry points)"""
import os
import pathlib
import sys

import z3

from dv import core
from dv.contract import vc
from dv.core import E, PathEnd, Unsupported, raise_modelled
from dv.values import And, SymInt, boolz, fresh_int, same, wrap

M = "mcsas3.cli_tools"
OPT, HIST = M + ":McSAS3_cli_optimize", M + ":McSAS3_cli_histogram"
_str, _fspath = str, os.fspath
ORDER = ("text", "abs", "real")


def B(nm):
    g = E().ghost.setdefault("bools", {})
    if nm not in g:
        g[nm] = E().fresh_bool(nm.replace(" ", "_"))
    return g[nm]


def br(f):
    return E().branch(f)


# ---------------------------------------------------------------- ghost files
def names_equal(a, b):
    """are two names (key, form) equal as texts?"""
    (k1, f1), (k2, f2) = a, b
    if k1 == k2:
        if f1 == f2:
            return True
        raise Unsupported("comparison of two forms of one name")
    if f1 != f2 or {k1, k2} != {"result", "data"}:
        raise Unsupported("comparison of other names")
    return br(B("same " + f1))


class Name(str):
    """the text of a path"""

    def __new__(cls, p):
        self = _str.__new__(cls, "/ghost/" + p.key)
        self.p = p
        return self

    def __eq__(self, o):
        if type(o) is Name:
            return names_equal(self.p.id, o.p.id)
        raise Unsupported("comparison of a file name")

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = _str.__hash__

    def endswith(self, s, *a):
        return ends(self.p, s)

    def __fspath__(self):
        return self

    def lower(self):
        raise Unsupported("text of a file name")

    upper = split = rsplit = replace = strip = rstrip = partition = rpartition = startswith = find = lower
    casefold = __getitem__ = __contains__ = rfind = lower


def ends(p, s):
    if p.key in ("readcfg", "runcfg", "histcfg") and s == ".yaml":
        return br(B(p.key + " ends"))
    raise Unsupported("suffix of a file name")


class Suffix(str):
    def __new__(cls, p, low=False):
        self = _str.__new__(cls, ".ghost")
        self.p, self.low = p, low
        return self

    def __eq__(self, o):
        if o == ".yaml" and type(o) is _str:
            return br(B(self.p.key + (" suffix low" if self.low else " suffix")))
        if type(o) is _str and self.low and o != o.lower():
            return False
        if type(o) is _str:
            return br(z3.And(z3.Not(B(self.p.key + " suffix")), z3.Not(B(self.p.key + " suffix low"))
                             if o.lower() != ".yaml" else B(self.p.key + " suffix low"),
                             B(self.p.key + " suffix is " + o)))
        raise Unsupported("comparison of a suffix")

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = _str.__hash__

    def lower(self):
        return Suffix(self.p, True)

    casefold = lower

    def endswith(self, *a):
        raise Unsupported("text of a suffix")

    startswith = upper = strip = __getitem__ = __contains__ = lstrip = replace = endswith


def isghost(p):
    return type(p) in (GPath, Name)


def gp(p):
    return p.p if type(p) is Name else p


def exists(p, what="exists"):
    p = gp(p)
    fs = E().ghost["fs"]
    k = fs["alias"](p.key)
    st = fs["state"].get(k)
    if st is not None:
        return st
    return br(B(f"{what} {k}"))


class GPath(pathlib.PosixPath):
    """a path: which file it names is unknown"""
    def __init__(self, *a):
        super().__init__(*a)
        self.key, self.form = None, "text"

    @property
    def id(self):
        return self.key, self.form

    def _as(self, form):
        r = path(self.key)
        r.form = form if ORDER.index(form) > ORDER.index(self.form) else self.form
        return r

    def with_segments(self, *a):
        raise Unsupported("another path")

    def __str__(self):
        return Name(self)

    __fspath__ = __str__
    as_posix = __str__

    def __repr__(self):
        return f"GPath({self.key})"

    def __format__(self, s):
        return self.key

    def __eq__(self, o):
        if type(o) is GPath:
            return names_equal(self.id, o.id)
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.key)

    @property
    def suffix(self):
        return Suffix(self)

    @property
    def name(self):
        return Name(self)

    def with_suffix(self, s):
        if self.key == "result" and s == ".pdf":
            return path("plot")
        raise Unsupported("another path")

    @property
    def parent(self):
        raise Unsupported("parent directory")

    parents = stem = parts = suffixes = parent

    def exists(self, **k):
        return exists(self)

    def is_file(self):
        return exists(self) and exists(self, "isfile")

    def is_dir(self):
        return exists(self) and not exists(self, "isfile")

    def absolute(self):
        return self._as("abs")

    def resolve(self, strict=False):
        if strict and not exists(self):
            raise_modelled(FileNotFoundError(self.key))
        return self._as("real")

    def samefile(self, o):
        if not isghost(o):
            raise Unsupported("samefile")
        o = gp(o)
        for p in (self, o):
            if not exists(p):
                raise_modelled(FileNotFoundError(p.key))
        if self.key == o.key:
            return True
        if {self.key, o.key} == {"result", "data"}:
            return br(B("samefile"))
        raise Unsupported("samefile")

    def unlink(self, missing_ok=False):
        if not exists(self):
            if missing_ok:
                return
            raise_modelled(FileNotFoundError(self.key))
        event("delete", self.key)
        E().ghost["fs"]["state"][E().ghost["fs"]["alias"](self.key)] = False

    def open(self, mode="r", *a, **k):
        return g_open(self, mode)

    def read_text(self, *a, **k):
        return g_open(self).read()

    def rename(self, *a, **k):
        raise Unsupported("file operation")

    replace = write_text = write_bytes = touch = mkdir = rmdir = stat = lstat = chmod = iterdir = glob = rename
    symlink_to = hardlink_to = is_symlink = expanduser = readlink = read_bytes = rename
    relative_to = with_name = with_stem = joinpath = __truediv__ = rename


def path(key):
    p = GPath("/ghost/" + key)
    p.key = key
    return p


def event(*a):
    E().ghost["log"].append(a)


class GFile:
    """an open text file"""
    __module__ = "ghost"

    def __init__(self, p):
        self.p = p

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def read(self):
        return Text(self.p)

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"file.{nm}")


class Text:
    __module__ = "ghost"

    def __init__(self, p):
        self.p = p


def g_open(p, mode="r", *a, **k):
    if not isghost(p):
        raise Unsupported("open of another file")
    p = gp(p)
    event("open", p.key, mode)
    if mode not in ("r", "rt"):
        E().ghost["v"].fail("the commands write no file by themselves", mode)
        raise PathEnd()
    if not exists(p):
        raise_modelled(FileNotFoundError(p.key))
    return GFile(p)


def y_load(f, *a, **k):
    if type(f) not in (GFile, Text):
        raise Unsupported("yaml of something else")
    c = E().ghost["content"].get(f.p.key)
    if type(c) is not dict:
        raise Unsupported("yaml file")
    return dict(c)


def y_all(f, *a, **k):
    if type(f) not in (GFile, Text):
        raise Unsupported("yaml of something else")
    c = E().ghost["content"].get(f.p.key)
    if type(c) is not list:
        raise Unsupported("yaml file")
    return iter([dict(x) for x in c])


class Tok:
    """some value from a configuration file"""
    __module__ = "ghost"

    def __init__(self, nm):
        self.nm = nm

    def __repr__(self):
        return f"<{self.nm}>"

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self


def os_patches(v):
    real = {n: getattr(os.path, n) for n in ("exists", "isfile", "realpath", "abspath", "samefile", "isdir",
                                             "lexists", "islink", "splitext", "basename", "normpath", "dirname")}
    meth = dict(exists="exists", isfile="is_file", realpath="resolve", abspath="absolute", samefile="samefile",
                isdir="is_dir")

    def mk(n):
        def f(p, *a, **k):
            if not isghost(p):
                return real[n](p, *a, **k)
            if n not in meth:
                raise Unsupported(f"os.path.{n}")
            r = getattr(gp(p), meth[n])(*a)
            return Name(r) if type(r) is GPath else r
        return f
    for n in real:
        v.patch("os.path:" + n, mk(n))

    def rm(p, *a, **k):
        if not isghost(p):
            raise Unsupported("removal of another file")
        gp(p).unlink()

    def no(*a, **k):
        raise Unsupported("file operation")
    for n in ("remove", "unlink"):
        v.patch("os:" + n, rm)
    for n in ("rename", "replace", "rmdir", "removedirs", "truncate", "system", "renames"):
        v.patch("os:" + n, no)
    import shutil
    import subprocess
    assert shutil and subprocess
    for n in ("rmtree", "move", "copy", "copyfile", "copy2"):
        v.patch("shutil:" + n, no)
    for n in ("run", "Popen", "call", "check_call", "check_output"):
        v.patch("subprocess:" + n, no)


# ---------------------------------------------------------------- the steps, as recorders
def recorders(v):
    import inspect
    g = E().ghost
    g["keepalive"] = []

    def bound(cls, name, a, k, more=()):
        try:
            b = inspect.signature(g["real"][cls, name]).bind(*a, **k)
        except TypeError as e:
            raise_modelled(TypeError(_str(e)))
        d = dict(b.arguments)
        d.update(d.pop("kwargs", {}))
        d.pop("self", None)
        return d

    class Step:
        __module__ = "ghost"

        def __getattr__(self, nm):
            if nm.startswith("_"):
                raise AttributeError(nm)
            raise Unsupported(f"attribute {nm} of a step")

    class McData1D(Step):
        def __init__(self, *a, **k):
            d = bound("data", "__init__", (self,) + a, k)
            self.args = d
            self.resultIndex = d.pop("resultIndex", 1)
            event("load", d.get("filename"), d.get("loadFromFile"), self)
            if d.get("filename") is not None and isghost(d["filename"]):
                exists(d["filename"]) or raise_modelled(FileNotFoundError("data"))
            self.measData = dict(Q=[Tok("Q")], I=Tok("I"), ISigma=Tok("ISigma"))

        def store(self, *a, **k):
            d = bound("data", "store", (self,) + a, k)
            if d.get("path") is not None:
                raise Unsupported("store under another path")
            event("store", d.get("filename"), self)
            wrote(d.get("filename"))

    class McHat(Step):
        def __init__(self, *a, **k):
            d = bound("hat", "__init__", (self,) + a, k)
            for x, y in d.items():
                setattr(self, x, y)
            self.given = set(d)

        def run(self, *a, **k):
            d = bound("hat", "run", (self,) + a, k)
            event("run", d.get("measData"), d.get("filename"), d.get("resultIndex"), self)
            wrote(d.get("filename"))

    class McAnalysis(Step):
        def __init__(self, *a, **k):
            d = bound("ana", "__init__", (self,) + a, k)
            event("analysis", d, self)
            wrote(d.get("inputFile"))

    class McPlot(Step):
        def __init__(self, *a, **k):
            pass

        def resultCard(self, *a, **k):
            d = bound("plot", "resultCard", (self,) + a, k)
            event("plot", d)

    def wrote(p):
        if isghost(p):
            g["fs"]["state"][g["fs"]["alias"](gp(p).key)] = True
    for key, mod, cls, rec in (("data", "mc_data_1d", "McData1D", McData1D), ("hat", "mc_hat", "McHat", McHat),
                               ("ana", "mc_analysis", "McAnalysis", McAnalysis),
                               ("plot", "mc_plot", "McPlot", McPlot)):
        c = v.get(f"mcsas3.{mod}:{cls}")
        g.setdefault("real", {})
        for nm in ("__init__", "store", "run", "resultCard"):
            if hasattr(c, nm):
                g["real"][key, nm] = getattr(c, nm)
        v.patch(f"mcsas3.{mod}:{cls}", rec)
        v.patch(f"{M}:{cls}", rec)


def env(v):
    g = E().ghost
    g["v"], g["log"] = v, []
    g["content"] = dict(readcfg={"nbins": Tok("nbins")}, runcfg={"nRep": Tok("nRep"), "modelName": Tok("model")},
                        histcfg=[{"parameter": Tok("par1")}, {"parameter": Tok("par2")}])
    g["hascores"] = E().choose(2)
    if g["hascores"]:
        g["cores"] = g["content"]["runcfg"]["nCores"] = fresh_int("cfgCores")
    import yaml
    yaml.safe_load, yaml.safe_load_all = y_load, y_all
    g["open"] = g_open
    g["DataFrame"] = lambda *a, **k: GTable(*a, **k)
    T, A, C, S = B("same text"), B("same abs"), B("same real"), B("samefile")
    E().assume(z3.And(z3.Implies(T, A), z3.Implies(A, C), z3.Implies(C, S)))
    for k in ("readcfg", "runcfg", "histcfg"):
        E().assume(z3.And(z3.Implies(B(k + " suffix"), B(k + " suffix low")),
                          z3.Implies(B(k + " suffix"), B(k + " ends"))))
    # result and data are names of one file if they are the same after resolving
    E().assume(z3.Implies(S, z3.And(B("exists result") == B("exists data"),
                                    B("isfile result") == B("isfile data"))))

    def alias(k):
        if k in ("data", "result") and g["fs"]["state"] and br(C):
            return "data"
        return k
    g["fs"] = dict(state={}, alias=alias)
    os_patches(v)
    recorders(v)


class GTable:
    """a table of histogram ranges"""
    __module__ = "ghost"
    _dv_table = True

    def __init__(self, rows=None, **k):
        if type(rows) not in (list, tuple) or k:
            raise Unsupported("another table")
        self.rows = [dict(x) for x in rows]


def is_key(p, key):
    return isghost(p) and gp(p).key == key


def isidx(x, idx):
    return z3.BoolVal(False) if x is None else boolz(same(x, idx))


def eqdict(a, b):
    return set(a) == set(b) and all(a[k] is b[k] for k in b)


def samemeas(a, b):
    return isinstance(a, dict) and set(a) == set(b) and a["I"] is b["I"] and a["ISigma"] is b["ISigma"] and \
        len(a["Q"]) == len(b["Q"]) and all(x is y for x, y in zip(a["Q"], b["Q"]))


def run_real(v, cls, kw):
    sys_exit = None
    try:
        r = v.call(lambda: v.get(cls)(**kw))
    except SystemExit as e:
        r, sys_exit = None, e
    if sys_exit is not None:
        raise Unsupported("the command exits")
    return r


@vc("McSAS3_cli_optimize", ["C22"], [OPT + ".__attrs_post_init__", OPT + ".run", OPT + ".checkConfig",
                                     OPT + ".fileExists"], own="C22")
def vc_opt(v):
    g = E().ghost
    env(v)
    idx, nt = fresh_int("index", 0), fresh_int("nThreads")
    dele = B("delete requested")
    dele_v = br(dele)
    kw = dict(dataFile=path("data"), resultFile=path("result"), readConfigFile=path("readcfg"),
              runConfigFile=path("runcfg"), resultIndex=idx, deleteIfExists=dele_v, nThreads=nt)
    ex = {k: z3.And(B("exists " + k), B("isfile " + k)) for k in ("data", "result", "readcfg", "runcfg")}
    v.cover("precondition")
    r = run_real(v, OPT, kw)
    log = g["log"]
    must_refuse = z3.Or(z3.Not(B("exists data")), *[z3.Or(z3.Not(B("exists " + k)), z3.Not(B(k + " ends")))
                                                    for k in ("readcfg", "runcfg")])
    legal = z3.And(ex["data"], *[z3.And(ex[k], B(k + " suffix")) for k in ("readcfg", "runcfg")])
    dels = [e for e in log if e[0] == "delete"]
    v.prove("only the result file is deleted", z3.BoolVal(all(e[1] == "result" for e in dels)))
    if log:
        v.prove("missing or wrong inputs are refused before anything is read or written", z3.Not(must_refuse))
    if not r.ok:
        v.cover("refused")
        v.prove("existing inputs with .yaml configurations are not refused", z3.Not(legal), repr(r.exc))
        if dels:
            v.prove("nothing is deleted if not asked for", z3.BoolVal(dele_v))
            v.prove("the data file is not deleted", z3.Not(B("same real")))
        return
    v.prove("missing or wrong inputs are refused", z3.Not(must_refuse))
    v.cover("run")
    if dels:
        v.cover("deleted")
        v.prove("nothing is deleted if not asked for", z3.BoolVal(dele_v))
        v.prove("the data file is not deleted", z3.Not(B("same real")))
        v.prove("a result just written is not deleted",
                z3.BoolVal(log.index(dels[-1]) < min(log.index(e) for e in log if e[0] in ("store", "run"))
                           if any(e[0] in ("store", "run") for e in log) else True))
    else:
        v.prove("an existing result file is deleted if asked for", z3.Not(z3.And(
            z3.BoolVal(dele_v), B("exists result"), B("isfile result"), z3.Not(B("samefile")))))
    loads, stores, runs = ([e for e in log if e[0] == n] for n in ("load", "store", "run"))
    v.prove("data are read once from the data file, with the settings of the reading configuration",
            z3.BoolVal(len(loads) == 1 and is_key(loads[0][1], "data") and loads[0][2] is None and eqdict(
                {k: x for k, x in loads[0][3].args.items() if k != "filename"}, g["content"]["readcfg"])))
    v.prove("one optimization is run on the data, and kept in the result file", z3.BoolVal(
        len(runs) == 1 and is_key(runs[0][2], "result") and len(loads) == 1 and samemeas(
            runs[0][1], loads[0][3].measData)))
    v.prove("the data are kept in the result file", z3.BoolVal(
        len(stores) == 1 and is_key(stores[0][1], "result") and stores[0][2] is loads[0][3]))
    if len(loads) != 1 or len(runs) != 1:
        return
    h = runs[0][4]
    hi = vars(h).get("resultIndex")
    v.prove("the result index is passed to every step", And(
        isidx(loads[0][3].resultIndex, idx), isidx(runs[0][3] if runs[0][3] is not None else hi, idx),
        isidx(hi if hi is not None else 1, idx)))
    cores = vars(h).get("nCores")
    want = g["content"]["runcfg"]
    v.prove("a number of threads above zero is used", z3.Implies(
        boolz(nt > 0), isidx(cores, nt)))
    v.prove("without a number of threads, the configured number of cores is used", z3.Implies(
        boolz(nt <= 0), isidx(cores, g["cores"]) if g["hascores"] else z3.BoolVal("nCores" not in vars(h))))
    v.prove("the settings of the run configuration are used", z3.BoolVal(
        all(vars(h).get(k) is want[k] for k in want if k != "nCores")))


@vc("McSAS3_cli_histogram", ["C22"], [HIST + ".__attrs_post_init__", HIST + ".run", HIST + ".checkConfig"],
    own="C22")
def vc_hist(v):
    g = E().ghost
    env(v)
    idx = fresh_int("index", 0)
    kw = dict(resultFile=path("result"), histConfigFile=path("histcfg"), resultIndex=idx)
    E().assume(z3.And(B("exists result"), B("isfile result")))
    v.cover("precondition")
    r = run_real(v, HIST, kw)
    log = g["log"]
    dels = [e for e in log if e[0] == "delete"]
    must_refuse = z3.Or(z3.Not(B("exists histcfg")), z3.Not(B("histcfg ends")))
    legal = z3.And(B("exists histcfg"), B("isfile histcfg"), B("histcfg suffix"))
    v.prove("only an earlier plot of this result is deleted", z3.BoolVal(all(e[1] == "plot" for e in dels)))
    if log:
        v.prove("missing or wrong inputs are refused before anything is read or written", z3.Not(must_refuse))
    if not r.ok:
        v.cover("refused")
        v.prove("existing inputs with .yaml configurations are not refused", z3.Not(legal), repr(r.exc))
        return
    v.prove("missing or wrong inputs are refused", z3.Not(must_refuse))
    v.cover("run")
    loads, ana, plots = ([e for e in log if e[0] == n] for n in ("load", "analysis", "plot"))
    v.prove("data are read from the result file", z3.BoolVal(
        len(loads) == 1 and loads[0][1] is None and is_key(loads[0][2], "result")))
    v.prove("one analysis of the result file with the data", z3.BoolVal(
        len(ana) == 1 and is_key(ana[0][1].get("inputFile"), "result") and len(loads) == 1 and samemeas(
            ana[0][1].get("measData"), loads[0][3].measData) and ana[0][1].get("store") is True))
    if len(loads) != 1 or len(ana) != 1:
        return
    t = ana[0][1].get("histRanges")
    v.prove("the ranges of the configuration are used, in order", z3.BoolVal(
        type(t) is GTable and len(t.rows) == 2 and all(eqdict(a, b) for a, b in zip(
            t.rows, g["content"]["histcfg"]))))
    v.prove("the result index is passed to every step", And(
        isidx(loads[0][3].resultIndex, idx), isidx(ana[0][1].get("resultIndex", 1), idx)))


# ---------------------------------------------------------------- entry points
class IntArg(str):
    """a command-line argument which is a decimal integer"""
    def __new__(cls, text, val):
        self = _str.__new__(cls, text)
        self.val = val
        return self

    def _dv_int(self):
        return self.val


def entry(v, mod, which, run):
    g = E().ghost
    g["v"], calls = v, []

    def rec(nm):
        def f(*a, **k):
            if a:
                raise_modelled(TypeError("positional arguments"))
            calls.append((nm, k))
        return f
    import logging
    assert logging
    v.patch("logging:basicConfig", lambda *a, **k: None)
    v.patch(OPT, rec("opt"))
    v.patch(HIST, rec("hist"))
    if mod:
        v.patch(mod + ":McSAS3_cli_optimize", rec("opt"))
        v.patch(mod + ":McSAS3_cli_histogram", rec("hist"))
    paths = {"-f": ("dataFile", "some dir/data.csv"), "-F": ("readConfigFile", "/abs/read.yaml"),
             "-r": ("resultFile", "out/res.nxs"), "-R": ("runConfigFile", "run.yaml"),
             "-H": ("histConfigFile", "hist.yaml")}
    opts = {"opt": ["-f", "-F", "-r", "-R"], "hist": ["-r", "-H"]}
    argv = ["mcsas3"]
    use = [o for o in paths if any(o in opts[w] for w in which)]
    for o in use:
        argv += [o, paths[o][1]]
    want = {paths[o][0]: pathlib.Path(paths[o][1]).absolute() for o in use}
    gi = E().choose(2)
    if gi:
        want["resultIndex"] = fresh_int("index")
        argv += ["-i", IntArg("7", want["resultIndex"])]
    else:
        want["resultIndex"] = 1
    if "opt" in which:
        want["deleteIfExists"], want["nThreads"] = bool(E().choose(2)), 0
        if want["deleteIfExists"]:
            argv += ["-d"]
        if E().choose(2):
            want["nThreads"] = fresh_int("nThreads")
            argv += ["-t", IntArg("5", want["nThreads"])]
    v.patch("sys:argv", argv)
    so, se = sys.stdout, sys.stderr
    v.cover("precondition")
    try:
        try:
            r = v.call(run)
        except SystemExit as e:
            if e.code not in (0, None):
                v.fail("legal arguments are accepted", repr(e.code))
                return
            r = None
    finally:
        sys.stdout, sys.stderr = so, se
    if r is not None and not r.ok:
        v.fail("legal arguments are accepted", repr(r.exc))
        return
    v.cover("called")
    v.prove("the steps are run once each, in order", z3.BoolVal([c[0] for c in calls] == which))
    keys = dict(opt=["dataFile", "resultFile", "readConfigFile", "runConfigFile", "resultIndex", "deleteIfExists",
                     "nThreads"], hist=["resultFile", "histConfigFile", "resultIndex"])
    for nm, k in calls:
        ok = []
        for x in keys[nm]:
            a, b = k.get(x), want[x]
            if x in ("resultIndex", "nThreads"):
                ok.append(isidx(a, b))
            elif x == "deleteIfExists":
                ok.append(z3.BoolVal(a is b))
            else:
                ok.append(z3.BoolVal(isinstance(a, pathlib.Path) and a == b))
        v.prove(f"the arguments reach the {nm} command", And(z3.BoolVal(set(k) == set(keys[nm])), *ok))


@vc("python -m mcsas3", ["C22"], ["mcsas3.__main__"], own="C22")
def vc_main(v):
    from dv import instrument
    entry(v, None, ["opt", "hist"], lambda: instrument.run_main("mcsas3.__main__"))


@vc("mcsas3-runner", ["C22"], ["mcsas3.mcsas3_cli_runner:main"], own="C22")
def vc_runner(v):
    m = "mcsas3.mcsas3_cli_runner"
    entry(v, m, ["opt"], lambda: v.get(m + ":main")())


@vc("mcsas3-histogrammer", ["C22"], ["mcsas3.mcsas3_cli_histogrammer:main"], own="C22")
def vc_histogrammer(v):
    m = "mcsas3.mcsas3_cli_histogrammer"
    entry(v, m, ["hist"], lambda: v.get(m + ":main")())
