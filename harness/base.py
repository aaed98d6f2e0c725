"""Concrete side: the contracts evaluated at run time on the real code (CPython, real libraries).

Used to (1) search a failing input when an obligation is refuted, (2) cross-check the verifier,
(3) stand in - labelled bounded - for a function which a change has put outside of its reach.
"""
import contextlib
import io
import json
import os
import sys
import tempfile
import time
import warnings

import numpy as np

REG = {}


class Bad(Exception):
    """the property does not hold for this case"""


def need(c, msg):
    if not c:
        raise Bad(msg)


def close(a, b, rtol=1e-7, atol=0.0):
    try:
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return False
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def need_close(a, b, msg, rtol=1e-7, atol=0.0):
    if not close(a, b, rtol, atol):
        raise Bad(f"{msg}: got {np.asarray(a).tolist()!r:.300}, expected {np.asarray(b).tolist()!r:.300}")


def need_equal(a, b, msg):
    a_, b_ = np.asarray(a), np.asarray(b)
    ok = a_.shape == b_.shape and (
        np.array_equal(a_, b_, equal_nan=True) if a_.dtype.kind in "fc" and b_.dtype.kind in "fc"
        else bool(np.all(a_ == b_)))
    if not ok:
        raise Bad(f"{msg}: got {a_.tolist()!r:.300}, expected {b_.tolist()!r:.300}")


class H:
    def __init__(self, prop, name, gen, run, weight=1.0, fixed=(), rule=""):
        self.prop, self.name, self.gen, self.run = prop, name, gen, run
        self.weight, self.fixed, self.rule = weight, list(fixed), rule


def harness(props, gen, weight=1.0, fixed=(), rule=""):
    """register run(case): raises Bad if the property is violated. gen(rng) -> JSON-able case"""
    if isinstance(props, str):
        props = [props]

    def deco(run):
        for p in props:
            REG.setdefault(p, []).append(H(p, run.__name__, gen, run, weight, fixed, rule))
        return run
    return deco


@contextlib.contextmanager
def quiet():
    so, se = sys.stdout, sys.stderr
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        sys.stdout = sys.stderr = io.StringIO()
        try:
            yield
        finally:
            sys.stdout, sys.stderr = so, se


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="mcsas_verif_")
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def run_case(h, case):
    """None, or the message of the violation"""
    try:
        with quiet(), scratch():
            h.run(case)
    except Bad as e:
        return str(e)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if "/mcsas3/" in f.filename]
        if last:
            return (f"unexpected {type(e).__name__} in {os.path.basename(last[-1].filename)}:"
                    f"{last[-1].lineno}: {e}")[:600]
        if isinstance(e, (LookupError, ValueError, ArithmeticError)) or (
                isinstance(e, TypeError) and "argument" not in str(e)):
            return f"the result has another form: {type(e).__name__}: {e}"[:600]
        raise
    return None


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    return x


def load_all():
    import importlib
    import pkgutil
    import harness
    for m in pkgutil.iter_modules(harness.__path__):
        if m.name.startswith("h_"):
            importlib.import_module("harness." + m.name)
