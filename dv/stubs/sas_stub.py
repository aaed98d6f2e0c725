"""sasmodels: opaque library; the tests of the properties say what is assumed about it."""
from ..core import E, Unsupported
from .np_stub import StubModule

sasmodels = StubModule("sasmodels")


class MixtureKernel:
    pass


class ProductKernel:
    pass


def modules():
    m = {"sasmodels": sasmodels}
    for nm in ("core", "direct_model", "mixture", "product"):
        s = StubModule("sasmodels." + nm)
        setattr(sasmodels, nm, s)
        m["sasmodels." + nm] = s
    sasmodels.mixture.MixtureKernel = MixtureKernel
    sasmodels.product.ProductKernel = ProductKernel
    sasmodels.direct_model.call_Fq = lambda k, p: E().ghost["call_Fq"](k, p)
    sasmodels.direct_model.call_kernel = lambda k, p: E().ghost["call_kernel"](k, p)
    sasmodels.core.load_model = lambda n, dtype=None: E().ghost["load_model"](n, dtype)
    sasmodels.__path__ = []
    return m
