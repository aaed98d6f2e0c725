"""C24: reading of data files on the real code (files of all supported kinds in a scratch directory)"""
from pathlib import Path

import numpy as np

from .base import Bad, harness, need, need_close, need_equal

EXT = {"from_pdh": [".pdh"], "from_csv": [".csv", ".dat", ".txt"], "from_nexus": [".h5", ".hdf5", ".nx", ".nxs"]}
OTHER = [".PDH", ".asc", "", ".xyz", ".dta", ".csvx", ".h5x", ".hdf", ".pdh~"]


def data(rng, n):
    q = np.sort(np.round(10 ** rng.uniform(-2, 0.5, n), 9))
    return [q.tolist(), np.round(10 ** rng.uniform(-1, 2, n), 7).tolist(), np.round(10 ** rng.uniform(-3, 0, n), 7).tolist()]


def gen_kind(rng):
    kind = str(rng.choice(list(EXT)))
    ext = str(rng.choice(EXT[kind] if rng.integers(2) else OTHER))
    return dict(kind=kind, ext=ext, loader=bool(rng.integers(2)), d=data(rng, int(rng.choice([2, 3, 7]))),
                how=int(rng.integers(3)), missing=bool(rng.integers(4) == 0), two=bool(rng.integers(2)),
                sep=str(rng.choice([";", ",", " "])), head=int(rng.integers(3)), extra=bool(rng.integers(3) == 0))


def write(case, p):
    import h5py
    q, i, s = case["d"]
    if case["kind"] == "from_nexus":
        with h5py.File(p, "w") as f:
            f.attrs["default"] = "e"
            g = f.create_group("e")
            g.attrs["signal"], g.attrs["axes"], g.attrs["I_uncertainty"] = "I", "Q", "s"
            g["I"], g["Q"], g["s"] = np.array(i), np.array(q), np.array(s)
        return
    rows = [case.get("sep", " ").join(repr(x) for x in r) for r in zip(q, i, s)]
    if case["kind"] == "from_pdh":
        rows = [" ".join(repr(x) for x in r) for r in zip(q, i, s)]
        rows = ["title", "SAXS BOX", "1 2 3", "0.1 0.2 0.3", "4 5 6"] + rows + ["<?xml version='1.0'?>", "<a>", "1 2 3",
                                                                             "<?xml again?>", "</a>"]
    else:
        rows = ["# header"] * case["head"] + rows
    open(p, "w").write("\n".join(rows) + "\n")


def is_data(o, d, what):
    need(o.rawData is not None and all(c in o.rawData for c in ("Q", "I", "ISigma")), f"{what}: no data")
    for c, x in zip(("Q", "I", "ISigma"), d):
        need(len(o.rawData[c]) == len(x), f"{what}: {len(o.rawData[c])} instead of {len(x)} datapoints")
        need_close(o.rawData[c].values, x, f"{what}: {c}", rtol=1e-13)


@harness("C24", gen_kind, weight=2, rule="files of each kind under known and unknown extensions, with and without "
         "a selected loader, existing or not, read by the constructor or by from_file")
def kinds(case):
    from mcsas3.mc_data_1d import McData1D
    p = Path("data" + case["ext"])
    ext = [k for k in EXT if case["ext"] in EXT[k]]
    known = bool(ext) or case["loader"]
    kw = dict(loader=case["kind"]) if case["loader"] else {}
    if case["kind"] == "from_csv" and (case["sep"] != " " or case["head"]):
        kw["csvargs"] = dict(sep=case["sep"], header=None, names=["Q", "I", "ISigma"], skiprows=case["head"])
        if case["sep"] == " ":
            kw["csvargs"]["sep"] = r"\s+"
    elif case["kind"] == "from_csv":
        case = dict(case, head=0, sep=" ")
    if not case["missing"]:
        write(case, p)
    elif case["two"]:
        p.mkdir()
    what = f"{case['kind']} file {p.name!r}, loader {kw.get('loader')}"
    try:
        if case["how"] == 0:
            o = McData1D(filename=p, nbins=0, **kw)
        else:
            o = McData1D(nbins=0, **kw)
            if case["how"] == 2:
                o.filename = p
                o.from_file()
            else:
                o.from_file(str(p) if case["two"] else p)
    except Exception as e:
        need(case["missing"] or not known, f"{what} refused: {type(e).__name__}: {e}")
        return
    need(not case["missing"], f"missing {what} accepted")
    need(known, f"{what}: type not determined, but accepted")
    is_data(o, case["d"], what)
    need(o.filename == p, f"{what}: file name {o.filename}")


def gen_table(rng):
    cols = ["Q", "I", "ISigma", "QSigma"]
    k = int(rng.integers(8))
    drop = [] if k > 3 else [cols[k]]
    types = {c: str(rng.choice(["float", "float", "float", "float32", "int", "str", "obj", "bool"])) if rng.integers(3) == 0
             else "float" for c in cols}
    rng.shuffle(cols)
    return dict(cols=[str(c) for c in cols if c not in drop], types=types, frame=int(rng.integers(5)), d=data(rng, 4))


@harness("C24", gen_table, rule="tables with missing columns and columns of other types")
def tables(case):
    import pandas
    from mcsas3.mc_data_1d import McData1D
    d = dict(zip(("Q", "I", "ISigma", "QSigma"), case["d"] + case["d"][:1]))

    def col(c):
        x, t = np.array(d[c]), case["types"][c]
        if t == "str":
            return [repr(v) for v in x]
        if t == "obj":
            return np.array(list(x), dtype=object)
        return x.astype({"float": float, "int": int, "bool": bool, "float32": "float32"}[t])
    df = pandas.DataFrame({c: col(c) for c in case["cols"]})
    ok = all(c in df for c in ("Q", "I", "ISigma")) and all(case["types"][c] in ("float", "float32")
                                                           for c in ("Q", "I", "ISigma"))
    if case["frame"] == 0:
        df, ok = {c: df[c].values for c in df}, False
    try:
        o = McData1D(df=df, nbins=0)
    except Exception as e:
        need(not ok, f"table refused: {type(e).__name__}: {e}")
        return
    need(ok, f"table with columns {[(c, case['types'][c]) for c in case['cols']]} accepted")
    for c in df:
        need_equal(o.rawData[c].values, df[c].values, f"column {c}")


def gen_csv(rng):
    return dict(d=data(rng, 3), sep=str(rng.choice([";", ",", " "])), head=int(rng.integers(3)), key=int(rng.integers(2)))


@harness("C24", gen_csv, rule="two text files read with the same object, the first one with arguments of its own")
def texts(case):
    from mcsas3.mc_data_1d import McData1D
    a, b = Path("a.csv"), Path("b.csv")
    write(dict(kind="from_csv", d=case["d"], sep=case["sep"], head=case["head"]), a)
    write(dict(kind="from_csv", d=case["d"][::-1], sep=" ", head=0), b)
    o = McData1D(nbins=0)
    own = dict(sep=case["sep"] if case["sep"] != " " else r"\s+", skiprows=case["head"])
    if case["key"]:
        o.from_csv(a, csvargs=own)
    else:
        o.from_csv(a, own)
    is_data(o, case["d"], "text file with arguments of its own")
    o.from_csv(b)
    is_data(o, case["d"][::-1], "text file after another")


def gen_nexus(rng):
    n = int(rng.choice([2, 3, 8]))
    d = data(rng, n)
    if rng.integers(4) == 0:
        d[1][0] = -d[1][0]
    two = bool(rng.integers(3) == 0)
    return dict(d=d, chain=[str(rng.choice(["entry", "sub", "a.b", "é1", "I", "Q", "default"])) for _ in range(int(rng.integers(4)))],
                sig=str(rng.choice(["I", "data", "Iq", "signal"])), q=str(rng.choice(["q", "Q"])),
                axes=str(rng.choice(["axes", "I_axes"])), axtype=str(rng.choice(["str", "bytes", "list", "blist"])),
                unc=str(rng.choice(["group", "data", "no", "both"])), mask=bool(rng.integers(2)),
                txt=str(rng.choice(["str", "bytes"])), lead=bool(rng.integers(2)), two=two,
                z=int(rng.choice([0, 1, 2, 2, 2])), h=int(rng.integers(2, 5)), w=int(rng.integers(2, 5)), seed=int(rng.integers(1e6)),
                lack=str(rng.choice(["", "", "", "", "signal", "axes", "q", "chain"])), path=bool(rng.integers(3) == 0),
                dt=str(rng.choice(["f8", "f8", "f4"])))


@harness("C24", gen_nexus, weight=2, rule="NeXus files: chains of up to 3 default groups, texts and bytes, 1-D and 2-D data")
def nexus(case):
    import h5py
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_data_2d import McData2D
    t = (lambda x: x.encode()) if case["txt"] == "bytes" else (lambda x: x)
    rng = np.random.default_rng(case["seed"])
    two = case["two"]
    if two:
        h, w = case["h"], case["w"]
        I, S = rng.uniform(1, 5, (h, w)), rng.uniform(0.1, 1, (h, w))
        qa, qb = rng.uniform(0.1, 1, (h, w)), rng.uniform(0.1, 1, (h, w))
        Q = [qa, qb]
        Q.insert(case["z"], np.zeros((h, w)))
        Q = np.stack(Q)
    else:
        Q, I, S = [np.array(x).astype(case["dt"]) for x in case["d"]]
    M = (rng.uniform(0, 1, I.shape) < 0.2)
    M.flat[0] = False
    p = Path("x.nxs")
    shape = (lambda x: x) if two or not case["lead"] else (lambda x: x[None, :])
    with h5py.File(p, "w") as f:
        g = f
        for k, c in enumerate(case["chain"]):
            g.attrs["default"] = t(c)
            last = k == len(case["chain"]) - 1
            if not (case["lack"] == "chain" and last):
                g = g.create_group(c)
                g.create_group("unused")
        sig = case["sig"]
        if case["lack"] != "signal":
            g.attrs["signal"] = t(sig)
        ax = [".", case["q"]] if case["axtype"] != "str" or case["lead"] else [case["q"]]
        if case["lack"] == "q":
            ax = ["x" for _ in ax]
        if case["lack"] != "axes":
            g.attrs[case["axes"]] = {"str": case["q"] if case["lack"] != "q" else "x", "bytes": case["q"].encode() if
                                     case["lack"] != "q" else b"x", "list": ax, "blist": np.array(ax, dtype="S")}[case["axtype"]]
        g.create_dataset(sig, data=shape(I))
        g.create_dataset(case["q"], data=shape(Q))
        if case["unc"] != "no":
            g.create_dataset("err", data=shape(S))
        if case["unc"] in ("group", "both"):
            g.attrs[sig + "_uncertainty"] = t("err")
        if case["unc"] in ("data", "both"):
            g[sig].attrs["uncertainties"] = t("err" if case["unc"] == "data" else "nothing")
        if case["mask"]:
            g.create_dataset("m", data=shape(M))
            g.attrs["mask"] = t("m")
        g.create_dataset("ISigma" if sig != "ISigma" else "x", data=shape(S * 3))
        root = g.name.rstrip("/")
    kw = dict(nbins=0)
    lack = case["lack"] and not (case["lack"] == "chain" and not case["chain"])
    if case["path"]:
        if case["unc"] == "no":
            return
        lack = False
        kw["pathDict"] = dict(Q=f"{root}/{case['q']}", I=f"{root}/{sig}", ISigma=f"{root}/err")
        if case["mask"]:
            kw["pathDict"]["mask"] = f"{root}/m"
        if case["lack"]:
            del kw["pathDict"][{"signal": "I", "axes": "Q", "q": "Q", "chain": "ISigma"}[case["lack"]]]
            lack = True
    try:
        o = (McData2D if two else McData1D)(filename=p, **kw)
    except Exception as e:
        need(lack, f"NeXus file refused: {type(e).__name__}: {e}")
        return
    need(not lack, f"NeXus file without {case['lack']} accepted")
    sig_ = S if case["unc"] != "no" or case["path"] else I * 0.001
    if two:
        for k, x in (("I", I), ("ISigma", sig_), ("Qy", qa), ("Qx", qb)):
            if k == "ISigma" and case["unc"] == "no" and not case["path"]:
                need_close(o.rawData2D[k], x, f"image {k}", rtol=1e-12)
            else:
                need_equal(o.rawData2D[k], x, f"image {k}")
            need_close(o.rawData[k].values, x.flatten(), f"{k}", rtol=1e-12)
        need(o.is2D(), "not recognized as 2-D")
        if case["mask"]:
            need("mask" in o.rawData2D, "mask lost")
            need_equal(o.rawData2D["mask"], M, "mask")
        return
    need(not o.is2D(), "taken as 2-D")
    need_equal(o.rawData["Q"].values, Q, "Q")
    need_equal(o.rawData["I"].values, I, "I")
    if case["unc"] != "no" or case["path"]:
        need_equal(o.rawData["ISigma"].values, S, "ISigma")
    else:
        need_close(o.rawData["ISigma"].values, sig_, "ISigma", rtol=1e-6)
    need("mask" in o.rawData or not case["mask"], "mask lost")
    if case["mask"]:
        need_equal(o.rawData["mask"].values, M, "mask")
