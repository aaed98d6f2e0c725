"""C14: scaling and background fit on the real code"""
import numpy as np

from .base import Bad, harness, need, need_close


def gen(rng):
    n = int(rng.integers(1, 20))
    q = np.geomspace(0.01, 1, n)
    M = 10 ** rng.uniform(-2, 2) * (q ** -float(rng.choice([0, 1, 3])) + rng.uniform(0, 1, n) + 0.1)
    sc, bg = float(10 ** rng.uniform(-3, 3)) * rng.choice([1, 1, 1, -1]), float(rng.choice([0, 1, -1, 20]))
    I = M * sc + bg + rng.normal(0, 0.1, n)
    if rng.integers(3) == 0:
        I[rng.integers(n)] = 0.0
    if rng.integers(6) == 0:
        I[:] = np.round(I)
    kind = str(rng.choice(["ok", "ok", "ok", "nan", "inf", "snan", "sinf", "short", "empty", "2d", "neg"]))
    b = None
    if rng.integers(3) == 0:
        b = [[float(v) for v in np.sort(rng.uniform(-2, 5, 2))], [float(v) for v in np.sort(rng.uniform(-3, 3, 2))]]
        if rng.integers(3) == 0:
            b[0][1] = None
    return dict(I=I.tolist(), S=(np.abs(I) * 0.1 + rng.uniform(0.01, 1, n)).tolist(), M=M.tolist(), kind=kind,
                at=int(rng.integers(n)), b=b, guess=bool(rng.integers(2)),
                g=[float(rng.uniform(0, 3)), float(rng.uniform(-1, 1))])


@harness("C14", gen, rule="random data, models, bounds and guesses; every kind of invalid data")
def osb(case):
    from mcsas3.osb import optimizeScalingAndBackground as OSB
    I, S, M = (np.array(case[k], float) for k in "ISM")
    k, at = case["kind"], case["at"]
    if k == "neg":
        I = -np.abs(I)
    bad = k not in ("ok", "neg")
    if k in ("nan", "inf"):
        I[at] = np.nan if k == "nan" else np.inf
    if k in ("snan", "sinf"):
        S[at] = np.nan if k == "snan" else -np.inf
    if k == "short":
        S = np.append(S, 1.0)
    if k == "empty":
        I, S = I[:0], S[:0]
    if k == "2d":
        I, S = np.stack([I, I]), np.stack([S, S])
    b = case["b"]
    try:
        o = OSB(I, S) if b is None else OSB(I, S, b)
    except Exception as e:
        need(bad, f"valid data refused: {type(e).__name__} {e}")
        return
    need(not bad, f"invalid data ({k}) accepted")
    I0, S0, M0 = I.copy(), S.copy(), M.copy()
    mean = abs(float(np.mean(I)))
    lim = b if b is not None else [[0, None], [-mean, mean]]
    g = [float(np.clip(v, -np.inf if lo is None else lo, np.inf if hi is None else hi))
         for v, (lo, hi) in zip(case["g"], lim)]    # a given guess has to be within the bounds
    got = o.xBounds
    need(len(got) == 2 and all(
        (got[i][j] is None) == (lim[i][j] is None) and (lim[i][j] is None or np.isclose(
            float(got[i][j]), lim[i][j], rtol=1e-9, atol=1e-12)) for i in (0, 1) for j in (0, 1)),
        f"bounds {got} instead of {lim}")
    import mcsas3.osb as mod
    seen, real = [], mod.scipy.optimize.minimize

    def minimize(fun, x0, *a, **kw):
        seen.append(np.array(x0, float))
        return real(fun, x0, *a, **kw)
    mod.scipy.optimize.minimize = minimize
    try:
        x, f = o.match(M) if case["guess"] else o.match(M, np.array(g))
    finally:
        mod.scipy.optimize.minimize = real
    x = np.asarray(x, float)
    chi = float(np.mean(((I0 - (M0 * x[0] + x[1])) / S0) ** 2))
    need_close(f, chi, "returned value is not the reduced chi-square", rtol=1e-7, atol=1e-12)
    tol = 1e-9 * (1 + mean)
    for i, nm in ((0, "scaling"), (1, "background")):
        lo, hi = lim[i]
        need((lo is None or x[i] >= lo - tol) and (hi is None or x[i] <= hi + tol),
             f"{nm} {x[i]} outside of [{lo}, {hi}]")
    if case["guess"] and b is None and seen:
        need(seen[0][0] >= -tol and abs(seen[0][1]) <= mean + tol,
             f"guess {seen[0]} outside of the default bounds (mean {mean})")
    need(np.array_equal(I, I0) and np.array_equal(S, S0) and np.array_equal(M, M0), "data changed")
