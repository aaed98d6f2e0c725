"""C07: entries of the result file on the real code and real files"""
from pathlib import Path, PurePosixPath

import numpy as np

from .base import Bad, harness, need

TEXTS = ["", "a", "Ångström µ", "two words", "1.5", "None", "x" * 300, "sub/dir file.txt", "b'q'"]


def val(rng, kind=None):
    """a JSON description of a value"""
    k = kind or str(rng.choice(["int", "float", "bool", "str", "path", "time", "list", "tuple", "floats",
                                "ints", "bools", "grid", "texts", "otexts", "series", "quantity", "qarray", "table",
                                "dict", "none"]))
    n = int(rng.choice([0, 1, 2, 5]))
    x = lambda: float(rng.choice([0.0, -1.5, 1e-30, 1e300, np.pi, np.nan, np.inf, -np.inf]))
    if k == "int":
        return [k, int(rng.choice([0, 1, -7, 2 ** 40]))]
    if k in ("float", "time"):
        return [k, float(rng.choice([0.0, 1.5, 1e9, 1600000000.125])) if k == "time" else x()]
    if k == "bool":
        return [k, bool(rng.integers(2))]
    if k in ("str", "path"):
        t = str(rng.choice(TEXTS))
        return [k, t if k == "str" else t or "p"]
    if k in ("list", "tuple", "floats", "series", "qarray"):
        return [k, [x() for _ in range(n)]]
    if k == "ints":
        return [k, [int(v) for v in rng.integers(-9, 9, n)]]
    if k == "bools":
        return [k, [bool(v) for v in rng.integers(0, 2, n)]]
    if k == "grid":
        return [k, [[x() for _ in range(3)] for _ in range(max(n, 1))]]
    if k in ("texts", "otexts"):
        return [k, [str(rng.choice(TEXTS)) for _ in range(n)]]
    if k == "quantity":
        return [k, x()]
    if k == "table":
        n = max(n, 1)
        return [k, dict(Q=[x() for _ in range(n)], I=[float(i) for i in range(n)],
                        name=[str(rng.choice(TEXTS)) for _ in range(n)])]
    if k == "dict":
        ks = ["int", "float", "bool", "str", "path", "list", "floats", "texts", "none", "table", "dict1"]
        return [k, {q: val(rng, str(rng.choice(ks))) for q in ("a", "b", "q w")[:int(rng.integers(0, 4))]}]
    if k == "dict1":
        return ["dict", {q: val(rng, str(rng.choice(["int", "str", "floats", "texts"]))) for q in ("a", "c")}]
    return ["none", None]


def build(d):
    import pandas
    k, v = d
    if k == "path":
        return Path(v)
    if k == "time":
        return pandas.Timestamp(v, unit="s")
    if k == "tuple":
        return tuple(v)
    if k in ("floats", "grid"):
        return np.array(v, dtype=float)
    if k == "ints":
        return np.array(v, dtype=int)
    if k == "bools":
        return np.array(v, dtype=bool)
    if k == "texts":
        return np.array(v, dtype=str)
    if k == "otexts":
        return np.array(v, dtype=object)
    if k == "series":
        return pandas.Series(v, dtype=float)
    if k == "quantity":
        import pint
        return pint.UnitRegistry().Quantity(v, "nanometer")
    if k == "qarray":
        import pint
        return pint.UnitRegistry().Quantity(np.array(v, dtype=float), "nanometer")
    if k == "table":
        return pandas.DataFrame(v)
    if k == "dict":
        return {a: build(b) for a, b in v.items()}
    return v


def nothing(d):
    return d[0] == "none"


def same(got, d, what, indict=False):
    k, v = d
    if k in ("dict", "table"):
        need(isinstance(got, dict), f"{what}: {type(got).__name__} instead of a dict")
        sub = {a: b for a, b in v.items() if not nothing(b)} if k == "dict" else {
            a: ["otexts" if a == "name" else "floats", b] for a, b in v.items()}
        need(set(got) == set(sub), f"{what}: keys {sorted(got)} instead of {sorted(sub)}")
        for a, b in sub.items():
            same(got[a], b, f"{what}/{a}", True)
        return
    if k in ("str", "path"):
        got = got if not isinstance(got, bytes) or indict else got.decode()
        need(isinstance(got, (str, Path)) and str(got) == str(Path(v) if k == "path" else v),
             f"{what}: {got!r} instead of {v!r}")
        return
    if k in ("texts", "otexts"):
        got = list(got)
        if not indict:
            got = [g.decode() if isinstance(g, bytes) else g for g in got]
        need(got == list(v), f"{what}: {got!r} instead of {v!r}")
        return
    a, b = np.asarray(got), np.asarray(v, dtype=float)
    need(a.dtype.kind in {"int": "iu", "float": "f", "bool": "b", "time": "f", "ints": "iu", "bools": "b",
                          }.get(k, "fiu") and a.shape == b.shape and
         np.array_equal(a.astype(float), b, equal_nan=True), f"{what}: {got!r} instead of {v!r}")


READ = {"int": int, "float": float, "bool": bool, "str": str, "path": Path, "list": list, "dict": "dict", "table": "dict"}


def raw(f):
    """everything in the file: path -> (kind, content, attributes)"""
    import h5py
    out = {}
    with h5py.File(f, "r") as h:
        def one(name, o):
            at = {k: str(v) for k, v in o.attrs.items()}
            out[name] = ("group", None, at) if isinstance(o, h5py.Group) else (
                "data", (str(o.dtype), o.shape, repr(o[()].tolist() if hasattr(o[()], "tolist") else o[()])), at)
        one("", h)
        h.visititems(one)
    return out


KEYS = ["a", "ab", "g/a", "g/ab", "g/h/a", "g/h/a b", "é", "g.1/x.y"]


def gen(rng):
    return dict(ops=[[str(rng.choice(KEYS)), val(rng), bool(rng.integers(2))] for _ in range(int(rng.integers(1, 9)))])


@harness("C07", gen, weight=2, fixed=[
    dict(ops=[["a", ["dict", {"a": ["list", []], "b": ["int", 1]}], True]]),
    dict(ops=[["a", ["dict", {"a": ["table", dict(Q=[1.0], I=[2.0], name=["x"])]}], True]])],
    rule="sequences of up to 8 stores of random values under 7 keys; the whole file is compared after each")
def entries(case):
    from mcsas3.mc_hdf import loadKV, storeKV, storeKVPairs
    f = Path("r.h5")
    root = PurePosixPath("/top/entry")
    import h5py
    with h5py.File(f, "w") as h:
        h["other"] = [1, 2]
        h["top/x"] = "keep"
        h["top"].attrs["default"] = "entry"
    vals = {}
    for key, d, single in case["ops"]:
        before = raw(f)
        v = build(d)
        p = root / key
        if single:
            storeKV(f, path=p, value=v)
        else:
            storeKVPairs(f, p.parent, [(p.name, v)])
        after = raw(f)
        if d[0] != "none":
            vals[key] = d
        if d[0] == "none":
            new = {k for k in after if k not in before}
            need(all(after[k][0] == "group" for k in new) and all(after.get(k) == x for k, x in before.items()),
                 "storing None changes the file")
        mine = str(p)[1:]
        for k, x in before.items():
            if k != mine and not k.startswith(mine + "/"):
                need(after.get(k) == x, f"storing {key} changes {k}: {x} -> {after.get(k)}")
        for k in after:
            if k not in before and k != mine and not k.startswith(mine + "/"):
                need(mine.startswith(k + "/") and after[k][0] == "group", f"storing {key} makes {k}")
        for k, d2 in vals.items():
            for t in {None if d2[0] in ("dict", "table") else "x", READ.get(d2[0])} | ({"str"} if d2[0] == "str" else set()):
                t = None if t == "x" else t
                if t is None and d2[0] in ("dict", "table"):
                    continue
                got = loadKV(f, root / k, datatype=t, default="D")
                if t is int or t is float or t is bool:
                    need(type(got) is t, f"{k} read as {t}: {got!r}")
                if t in ("str", str):
                    need(type(got) is str, f"{k} read as str: {got!r}")
                if t is list:
                    need(type(got) is list, f"{k} read as list: {got!r}")
                if t is Path:
                    need(isinstance(got, Path), f"{k} read as Path: {got!r}")
                same(got, d2, f"{k} after storing {key}")
            if d2[0] in ("quantity", "qarray"):
                need(after[str(root / k)[1:]][2].get("unit") == "nanometer", f"unit of {k}")
    for k in KEYS + ["nowhere", "g/nowhere/x"]:
        if k not in vals and not any(x.startswith(k + "/") for x in vals) and not any(
                k.startswith(x + "/") for x in vals):
            need(loadKV(f, root / k, default=17) == 17, f"default of the absent key {k}")
            need(loadKV(f, root / k, datatype="dict", default=None) is None, f"default of the absent key {k}")


def genp(rng):
    return dict(pairs=[[k, val(rng, str(rng.choice(["int", "float", "bool", "floats", "ints", "list"])))]
                       for k in ("x", "y", "z")[:int(rng.integers(1, 4))]],
                order=[int(i) for i in rng.permutation(3)])


@harness("C07", genp, rule="loadKVPairs of what storeKVPairs stored, in any order of keys")
def pairs(case):
    from mcsas3.mc_hdf import loadKVPairs, storeKVPairs
    f, p = Path("r.h5"), PurePosixPath("/e/s")
    storeKVPairs(f, p, [(k, build(d)) for k, d in case["pairs"]])
    b = raw(f)
    d = dict(map(tuple, [(k, v) for k, v in case["pairs"]]))
    ks = [case["pairs"][i][0] for i in case["order"] if i < len(case["pairs"])]
    got = list(loadKVPairs(f, p, ks))
    need([k for k, _ in got] == ks, f"keys {got}")
    for k, v in got:
        same(v, d[k], k)
    need(raw(f) == b, "reading changes the file")
    try:
        list(loadKVPairs(f, p, ["absent"]))
    except KeyError:
        return
    raise Bad("an absent key was loaded")


def gent(rng):
    n, m = int(rng.choice([1, 2, 5])), int(rng.integers(1, 4))
    names = [["radius", "b", "é µ"][i] for i in rng.permutation(3)[:m]]
    return dict(names=names, data=[[float(x) for x in 10 ** rng.uniform(-3, 3, m)] for _ in range(n)],
                index=[int(i) for i in (rng.permutation(20)[:n] if rng.integers(2) else range(n))])


@harness("C07", gent, weight=0.5, rule="tables stored as a dict of data, index and columns, read as a table")
def tables(case):
    import pandas
    from mcsas3.mc_hdf import loadKV, storeKV
    f, p = Path("r.h5"), PurePosixPath("/e/t")
    t = pandas.DataFrame(case["data"], columns=case["names"], index=case["index"])
    storeKV(f, p, t.to_dict(orient="split"))
    b = raw(f)
    got = loadKV(f, p, datatype="dictToPandas")
    need(isinstance(got, pandas.DataFrame), f"{type(got).__name__} instead of a table")
    need(list(got.columns) == case["names"], f"column names {list(got.columns)} instead of {case['names']}")
    need([int(i) for i in got.index] == case["index"], f"row labels {list(got.index)} instead of {case['index']}")
    need(np.array_equal(got.to_numpy(dtype=float), np.array(case["data"])), "values of a table")
    need(raw(f) == b, "reading changes the file")
