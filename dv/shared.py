"""State outside of the instances: module variables, class attributes, mutable default arguments.

The contracts are about instances; they are inductive only if no function under verification changes
state shared between instances. That frame condition is checked on every path: if it is violated the
task is not accepted as proved, unless the task itself states what happens (ctx.shared_ok())."""
import collections
import types

import attr

collections_dq = collections.deque
SNAP = []
_SEEN = set()
KEEP = []


def _mine(m):
    return isinstance(m, str) and m.split(".")[0] == "mcsas3"


def _walk(o, where):
    if id(o) in _SEEN:
        return
    t = type(o)
    if t in (dict, list, set, collections_dq) or t.__name__ in ("TList", "TDict"):
        _SEEN.add(id(o)); KEEP.append(o)
        SNAP.append((where, o, o.copy()))
        for k, v in (o.items() if issubclass(t, dict) else enumerate(o)):
            _walk(v, f"{where}[{k!r}]")
    elif t.__name__ == "XList":
        _SEEN.add(id(o)); KEEP.append(o)
        SNAP.append((where, o, o._dv_state()))
        for k, v in enumerate(o.tail):
            _walk(v, f"{where}[{k}]")
    elif t is tuple:
        for k, v in enumerate(o):
            _walk(v, f"{where}[{k}]")
    elif isinstance(o, type):
        if not _mine(o.__module__):
            return
        _SEEN.add(id(o)); KEEP.append(o)
        d = dict(vars(o))
        SNAP.append((where, o, d))
        for k, v in d.items():
            _walk(v, f"{o.__name__}.{k}")
    elif t is types.FunctionType:
        if not _mine(o.__module__):
            return
        _SEEN.add(id(o)); KEEP.append(o)
        for v in o.__defaults__ or ():
            _walk(v, f"default argument of {o.__qualname__}")
        for k, v in (o.__kwdefaults__ or {}).items():
            _walk(v, f"default argument {k} of {o.__qualname__}")
        SNAP.append((o.__qualname__, o.__dict__, dict(o.__dict__)))
        for c in o.__closure__ or ():
            try:
                _walk(c.cell_contents, f"closure of {o.__qualname__}")
            except ValueError:
                pass
    elif t in (staticmethod, classmethod):
        _walk(o.__func__, where)
    elif t is property:
        _walk(o.fget, where)
    elif isinstance(o, attr.Attribute):
        _walk(o.default, f"default of {where}.{o.name}")
    elif _mine(getattr(t, "__module__", None)) and hasattr(o, "__dict__"):
        _SEEN.add(id(o)); KEEP.append(o)
        SNAP.append((where, o, dict(vars(o))))
        for k, v in vars(o).items():
            _walk(v, f"{where}.{k}")


def snapshot(module):
    """called once, directly after the module was executed"""
    d = {k: v for k, v in vars(module).items() if not k.startswith("__") and k != "dvrt__"}
    SNAP.append((module.__name__, module, d))
    for k, v in d.items():
        _walk(v, k)


def _same(a, b):
    return a is b or (type(a) is type(b) and isinstance(a, (int, float, str, bytes)) and a == b)


def _ignore(k, v):
    return (isinstance(k, str) and k.startswith("__")) or k == "dvrt__" or \
        isinstance(v, types.ModuleType)


def changes():
    """what differs from the state after loading"""
    out = []
    for where, o, old in SNAP:
        if type(o).__name__ == "XList":
            if len(o.tail) != len(old[2]) or o.n0 is not old[0] or not all(
                    _same(a, b) for a, b in zip(o.tail, old[2])):
                out.append(where)
        elif isinstance(o, (list, collections_dq)):
            if len(o) != len(old) or not all(_same(a, b) for a, b in zip(o, old)):
                out.append(where)
        elif isinstance(o, set):
            if not (o <= old and old <= o):
                out.append(where)
        elif isinstance(o, dict):
            if o.keys() != old.keys() or not all(_same(o[k], old[k]) for k in old):
                out.append(where)
        else:
            now = vars(o)
            for k in set(now) | set(old):
                v = now.get(k, old.get(k))
                if _ignore(k, v) or type(v).__name__ in ("getset_descriptor", "member_descriptor"):
                    continue
                if k not in now or k not in old or not _same(now[k], old[k]):
                    out.append(f"{where}.{k}" if not isinstance(o, type) else f"{o.__name__}.{k}")
    return out


def restore():
    for where, o, old in SNAP:
        if type(o).__name__ == "XList":
            o._dv_set(old)
        elif isinstance(o, (list, collections_dq)):
            o.clear()
            o.extend(old)
        elif isinstance(o, set):
            o.clear(); o.update(old)
        elif isinstance(o, dict):
            o.clear(); o.update(old)
        else:
            now = dict(vars(o))
            for k in set(now) | set(old):
                v = now.get(k, old.get(k))
                if _ignore(k, v) or type(v).__name__ in ("getset_descriptor", "member_descriptor"):
                    continue
                if k in old:
                    if k not in now or now[k] is not old[k]:
                        (type.__setattr__ if isinstance(o, type) else setattr)(o, k, old[k])
                else:
                    (type.__delattr__ if isinstance(o, type) else delattr)(o, k)
