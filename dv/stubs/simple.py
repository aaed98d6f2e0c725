"""Stub modules without behaviour of their own, and module installation."""
import importlib.abc
import importlib.util
import sys

from .np_stub import StubModule, np


def mod(name, **k):
    m = StubModule(name)
    for a, b in k.items():
        setattr(m, a, b)
    m.__path__ = []
    return m


def install_all():
    from . import sas_stub, scipy_stub
    np.__path__ = []
    mods = {"numpy": np, "numpy.random": np.random, "numpy.testing": np.testing}
    mods.update(sas_stub.modules())
    mods.update(scipy_stub.modules())
    try:
        from . import pd_stub
        mods.update(pd_stub.modules())
    except ImportError as e:
        if "pd_stub" not in str(e):
            raise
        mods["pandas"] = mod("pandas", DataFrame=type("DataFrame", (), {}),
                             Series=type("Series", (), {}), Timestamp=type("Timestamp", (), {}))
    try:
        from . import h5_stub
        mods.update(h5_stub.modules())
    except ImportError as e:
        if "h5_stub" not in str(e):
            raise
        mods["h5py"] = mod("h5py")
    from .h5_stub import Quantity
    mods["pint"] = mod("pint", Quantity=Quantity)
    mpl = mod("matplotlib")
    mpl.pyplot = mod("matplotlib.pyplot")
    mods.update({"matplotlib": mpl, "matplotlib.pyplot": mpl.pyplot, "yaml": mod("yaml")})
    for k, v in mods.items():
        sys.modules[k] = v
    sys.meta_path.insert(0, Plotting())


class Plotting(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """submodules of matplotlib: importable, without any specification"""

    def find_spec(self, name, path, target=None):
        if name.startswith("matplotlib."):
            return importlib.util.spec_from_loader(name, self)

    def create_module(self, spec):
        return mod(spec.name)

    def exec_module(self, module):
        pass
