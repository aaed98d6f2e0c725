"""scipy: minimize (TNC) and interp1d as assumed contracts."""
from ..core import E, Unsupported
from .np_stub import StubModule

scipy = StubModule("scipy")


def modules():
    o = StubModule("scipy.optimize")
    ip = StubModule("scipy.interpolate")
    scipy.optimize, scipy.interpolate = o, ip
    scipy.__path__ = []
    o.minimize = lambda *a, **k: E().ghost["minimize"](*a, **k)
    ip.interp1d = lambda *a, **k: E().ghost["interp1d"](*a, **k)
    return {"scipy": scipy, "scipy.optimize": o, "scipy.interpolate": ip}
