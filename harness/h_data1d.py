"""C01-C04: processing of 1D datasets on the real code, with real pandas tables"""
import numpy as np

from .base import Bad, harness, need, need_close, need_equal


def table(rng, positive=False):
    n = int(rng.choice([1, 2, 3, 5, 9, 17]))
    q = np.round(10 ** rng.uniform(-2, 0.5, n), int(rng.choice([1, 3, 12])))
    if positive:
        q = np.maximum(q, 0.02)
    elif rng.integers(4) == 0:
        q[rng.integers(n)] *= -1
    if rng.integers(3):
        q = np.sort(q)
    if n > 2 and rng.integers(3) == 0:
        q[1] = q[0]
    I = 10 ** rng.uniform(-1, 2, n)
    if rng.integers(5) == 0:
        I[rng.integers(n)] *= -1
    S = 10 ** rng.uniform(-3, 1, n)
    d = dict(Q=q.tolist(), I=I.tolist(), ISigma=S.tolist())
    if rng.integers(2):
        d["QSigma"] = (q * 0.01 + 0.001).tolist()
    if rng.integers(4) == 0:
        d["extra"] = rng.uniform(0, 1, n).tolist()
    nan = [[str(rng.choice(list(d))), int(rng.integers(n))] for _ in range(int(rng.choice([0, 0, 1, 2])))]
    lab = str(rng.choice(["range", "dup", "offset", "text"]))
    cols = list(d)
    rng.shuffle(cols)
    return dict(cols=[str(c) for c in cols], data=d, nan=nan, labels=lab)


def edges(rng, q):
    lo, hi = sorted(10 ** rng.uniform(-2.2, 0.8, 2))
    k = int(rng.integers(6))
    if k == 0:
        lo = None
    if k == 1:
        hi = None
    if k == 2:
        lo = float(rng.choice(q))
    if k == 3:
        hi = float(rng.choice(q))
    if k == 4:
        lo = hi = None
    return [lo, hi]


def gen(rng):
    t = table(rng)
    q = t["data"]["Q"]
    om = [edges(rng, q) for _ in range(int(rng.choice([0, 1, 2, 3])))]
    om = [[a if a is not None else -1.0, b if b is not None else a_max(q)] for a, b in om]
    return dict(t=t, rng=edges(rng, q), omit=om if rng.integers(4) else None,
                nb=int(rng.choice([0, 1, 2, 3, 7, 30, 100])), iemin=float(rng.choice([0.01, 0.0, 0.2, 0.05])),
                nudge=float(rng.choice([0.0, 0.0, 0.01, -0.3])),
                link=str(rng.choice(["rawData", "clippedData", "binnedData"])),
                relink=str(rng.choice(["", "rawData", "clippedData", "binnedData"])),
                deflt=bool(rng.integers(4) == 0))


def a_max(q):
    return float(np.max(q)) + 1


def frame(t):
    import pandas as pd
    df = pd.DataFrame({c: np.array(t["data"][c], float) for c in t["cols"]})
    for c, i in t["nan"]:
        if c in df:
            df.loc[df.index[i], c] = np.nan
    n = len(df)
    df.index = dict(range=range(n), dup=[0] * n, offset=range(n + 3, 3, -1),
                    text=[f"r{i}" for i in range(n)])[t["labels"]]
    return df


def kept(df, lo, hi):
    rows = []
    for i in range(len(df)):
        r = df.iloc[i]
        if lo <= r["Q"] < hi and not any(np.isnan(x) for x in r.values):
            rows.append(i)
    return rows


def omitted(df, rows, om):
    return [i for i in rows if not any(a <= df.iloc[i]["Q"] < b for a, b in (om or []))]


def check_rows(what, df, rows, got):
    need(list(got.columns) == list(df.columns), f"{what}: columns {list(got.columns)}")
    need_equal(got.values, df.values[rows], f"{what}: datapoints")


def setup(case):
    from mcsas3.mc_data_1d import McData1D
    df = frame(case["t"])
    lo, hi = case["rng"]
    kw = dict(nbins=case["nb"], IEmin=case["iemin"], qNudge=case["nudge"], measDataLink=case["link"])
    if not (lo is None and hi is None and case["deflt"]):
        kw["dataRange"] = [-np.inf if lo is None else lo, np.inf if hi is None else hi]
    if case["omit"] is not None:
        kw["omitQRanges"] = case["omit"]
    lo, hi = -np.inf if lo is None else lo, np.inf if hi is None else hi
    cl = kept(df, lo, hi)
    om = omitted(df, cl, case["omit"])
    ref = df.copy(deep=True)
    try:
        o = McData1D(df=df, **kw)
    except AssertionError:
        need(not cl, "data with datapoints in range refused")
        return None
    except Exception:
        # nothing left to rebin: no statement
        if not om and cl and case["nb"]:
            return None
        raise
    need(cl, "data without any datapoint in range accepted")
    return o, ref, cl, om


@harness("C01", gen, rule="random tables (duplicate labels, unsorted, missing values, extra columns), "
         "ranges with edges on datapoints, infinite and default ranges")
def clip(case):
    c = dict(case, omit=None, nb=0)
    r = setup(c)
    if r is None:
        return
    o, ref, cl, _ = r
    check_rows("clipped data", ref, cl, o.clippedData)
    check_rows("raw data", ref, list(range(len(ref))), o.rawData)
    o.dataRange = [0.1, 0.5]
    try:
        o.clip()
    except AssertionError:
        need(not kept(ref, 0.1, 0.5), "clipping again refused")
        return
    check_rows("data clipped again", ref, kept(ref, 0.1, 0.5), o.clippedData)


@harness("C02", gen, rule="as C01, with up to three omitted ranges (overlapping, edges on datapoints)")
def omit(case):
    c = dict(case, nb=0)
    r = setup(c)
    if r is None:
        return
    o, ref, cl, om = r
    check_rows("data with omitted ranges", ref, om, o.clippedData)
    check_rows("data prepared for fitting", ref, om, o.binnedData)
    check_rows("raw data", ref, list(range(len(ref))), o.rawData)


@harness("C02", lambda rng: dict(bad=int(rng.integers(8)), t=table(rng, True)), weight=0.2,
         fixed=[dict(bad=k, t=dict(cols=["Q", "I", "ISigma"], data=dict(
             Q=[.1, .2, .3], I=[1., 2., 3.], ISigma=[.1, .1, .1]), nan=[], labels="range")) for k in range(8)],
         rule="malformed omitted ranges")
def malformed(case):
    from mcsas3.mc_data_1d import McData1D
    df = frame(case["t"])
    bad = [[[0.1]], [[0.1, 0.2, 0.3]], [[]], ((0.1, 0.2),), 0.1, {"a": [0.1, 0.2]}, [[0.1, 0.2], [0.3]],
           "0.1 0.2"][case["bad"]]
    try:
        McData1D(df=df.dropna(), nbins=0, omitQRanges=bad)
    except Exception:
        return
    if len(df.dropna()):
        raise Bad(f"malformed omitted ranges {bad!r} accepted")


def gen3(rng):
    c = gen(rng)
    c["t"] = table(rng, True)
    c["nb"] = int(rng.choice([1, 2, 3, 7, 30, 100]))
    c["nudge"], c["link"] = 0.0, "binnedData"
    return c


@harness("C03", gen3, rule="random positive Q (duplicates, single Q, edges on datapoints), 1 to 100 bins, "
         "with and without QSigma")
def rebin(case):
    r = setup(case)
    if r is not None and r[3]:
        check_bins(case, *r)


def check_bins(case, o, ref, cl, om):
    d = ref.iloc[om]
    q, I, S = [d[c].values for c in ("Q", "I", "ISigma")]
    nb, b = case["nb"], o.binnedData
    need(len(b) <= nb, f"{len(b)} datapoints from {nb} bins")
    e = np.geomspace(q.min(), q.max(), nb + 1)
    inner = e[1:-1]
    if len(inner) and np.min(np.abs(np.log(q[:, None] / inner[None]))) < 1e-9:
        # a datapoint on a limit: which bin it is in depends on rounding
        m = len(set(q))
        need(0 < len(b) <= m, f"{len(b)} datapoints from {m} different Q")
        return
    k = np.searchsorted(inner, q, side="right")
    want = []
    for j in range(nb):
        w = k == j
        m = int(w.sum())
        if m == 0:
            continue
        if m == 1:
            want.append([q[w][0], I[w][0], max(S[w][0], I[w][0] * case["iemin"])])
        else:
            sem = np.std(I[w], ddof=1) / np.sqrt(m)
            want.append([q[w].mean(), I[w].mean(), max(sem, np.sqrt((S[w] ** 2).sum()) / m,
                                                       I[w].mean() * case["iemin"])])
    want = np.array(want)
    need(len(b) == len(want), f"{len(b)} datapoints instead of {len(want)}")
    for i, c in enumerate(("Q", "I", "ISigma")):
        need_close(b[c].values, want[:, i], f"binned {c}", rtol=1e-9)
    check_rows("clipped data", ref, om, o.clippedData)


@harness("C04", gen, rule="random tables and settings, every stage, with and without a later selection")
def link(case):
    if min(case["t"]["data"]["Q"]) <= 0:
        case = dict(case, nb=0)     # rebinning is for positive Q
    r = setup(case)
    if r is None:
        return
    o, ref, cl, om = r
    if case["nb"] == 0:
        check_rows("binned data without rebinning", ref, om, o.binnedData)
    elif om:
        check_bins(case, *r)
    check_rows("clipped data", ref, om, o.clippedData)
    check_rows("raw data", ref, list(range(len(ref))), o.rawData)
    for st in ([case["link"]] + ([case["relink"]] if case["relink"] else [])):
        if st != case["link"] or case["relink"]:
            o.linkMeasData(st)
        d, m = getattr(o, st), o.measData
        if st == "rawData":
            d = ref
        need(set(m) >= {"Q", "I", "ISigma"} and len(m["Q"]) == 1, f"measData has {list(m)}")
        need_close(m["Q"][0], d["Q"].values + case["nudge"], f"Q of {st}", rtol=1e-12, atol=1e-13)
        need_equal(m["I"], d["I"].values, f"I of {st}")
        need_equal(m["ISigma"], d["ISigma"].values, f"sigma of {st}")
    for bad in ("", "rawdata", "measData", "csvargs"):
        try:
            o.linkMeasData(bad)
        except Exception:
            continue
        raise Bad(f"stage {bad!r} accepted")
