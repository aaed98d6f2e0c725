"""C05: 2-D data on the real code"""
import numpy as np

from .base import Bad, harness, need, need_equal


def gen(rng):
    h, w = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    f = lambda a, b: np.round(rng.uniform(a, b, (h, w)), 2)
    kind = rng.integers(3)
    Qx = f(-1, 1) if kind == 0 else np.tile(np.linspace(-1, 1, w), (h, 1))
    Qy = f(-1, 1) if kind == 0 else np.tile(np.linspace(-0.8, 1, h)[:, None], (1, w))
    I, S = rng.uniform(-1, 5, (h, w)), rng.uniform(0.1, 1, (h, w))
    special = [[str(rng.choice(["nan", "inf", "-inf", "zero", "snan"])), int(rng.integers(h)), int(rng.integers(w))]
               for _ in range(int(rng.choice([0, 0, 1, 3])))]
    m = (rng.uniform(0, 1, (h, w)) < 0.2).astype(float) if rng.integers(2) else None
    if m is not None and rng.integers(2):
        m *= rng.choice([1, 2, 4, 255], (h, w))
    lim = lambda: [float(rng.choice([0, 0, 0.1, 0.3])), float(rng.choice([np.inf, 0.7, 0.9, 2])) ]
    r = [lim(), lim(), lim()]
    r = [[a, None if np.isinf(b) else b] for a, b in r]
    return dict(I=I.tolist(), S=S.tolist(), Qx=Qx.tolist(), Qy=Qy.tolist(), special=special,
                mask=None if m is None else m.tolist(), mk=str(rng.choice(["bool", "float", "int"])),
                lim=r, nudge=rng.choice([0, 0.01, -0.3], 2).tolist(), nb=int(rng.choice([0, 100])),
                link=str(rng.choice(["binnedData", "clippedData"])), deflt=bool(rng.integers(4) == 0))


@harness("C05", gen, rule="random images up to 6 x 6 with masks, invalid pixels, limits, offsets and stages")
def image(case):
    from mcsas3.mc_data_2d import McData2D
    I, S, Qx, Qy = (np.array(case[k], float) for k in ("I", "S", "Qx", "Qy"))
    for k, i, j in case["special"]:
        if k == "zero":
            S[i, j] = 0
        elif k == "snan":
            continue
        else:
            I[i, j] = float(k)
    d = dict(I=I, ISigma=S, Q=np.stack([Qy, Qx]), Qx=Qx, Qy=Qy)
    mask = np.zeros(I.shape, bool)
    if case["mask"] is not None:
        mask = np.array(case["mask"]) != 0
        d["mask"] = np.array(case["mask"]).astype(case["mk"])
    o = McData2D(nbins=case["nb"], measDataLink=case["link"], qNudge=list(case["nudge"]))
    lim = [[a, np.inf if b is None else b] for a, b in case["lim"]]
    if case["deflt"]:
        lim = [[0, np.inf]] * 3
    else:
        o.dataRange, o.orthoQ1Range, o.orthoQ0Range = lim
    o.rawData2D = d
    ref = {k: v.copy() for k, v in d.items()}
    ins = lambda x, r: (x > r[0]) & (x < r[1])
    ok = (~mask & np.isfinite(I) & (S != 0) & ins(np.sqrt(Qx ** 2 + Qy ** 2), lim[0])
          & ins(np.abs(Qx), lim[1]) & ins(np.abs(Qy), lim[2]))
    try:
        o.prepare()
    except (AssertionError, ValueError):
        need(not ok.any(), "image with valid pixels refused")
        return
    if case["deflt"] or case["nb"]:
        o.linkMeasData()
    m = o.measData
    # without the offsets, every entry is identified by its values
    got = sorted(zip(m["I"].tolist(), m["ISigma"].tolist(), (m["Q"][0]).tolist(), (m["Q"][1]).tolist()))
    want = sorted(zip(I[ok].tolist(), S[ok].tolist(), (Qy[ok] + case["nudge"][0]).tolist(),
                      (Qx[ok] + case["nudge"][1]).tolist()))
    need_equal(np.array(got), np.array(want), "fitted datapoints")
    for k in ref:
        need_equal(d[k], ref[k], f"image data {k} changed")
    c = o.clippedData["I2D"]
    model = np.arange(len(m["I"]), dtype=float) * 1.5 + 1
    R = o.reconstruct2D(model.copy())
    need(R.shape == c.shape, f"shape {R.shape} instead of {c.shape}")
    need(int(np.isfinite(R).sum()) == len(model), "number of reconstructed pixels")
    for v, i in zip(model, m["I"]):
        p = np.argwhere(R == v)
        need(len(p) == 1 and c[tuple(p[0])] == i, "value put at another pixel")
