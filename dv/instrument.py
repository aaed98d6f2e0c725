"""Loader: the real modules of /repo, with loops, comprehensions, list displays, `is` and except
handlers rewritten so that the loop engine sees them.  Everything else runs as written."""
from __future__ import annotations

import re
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys
import types

import z3

from . import core, loops
from .core import E, Unsupported, raise_modelled
from .loops import LoopRun, TDict, TList
from .values import (Sym, SymArr, SymBool, SymInt, SymReal, XList, a_all, a_any, a_max, a_min,
                     a_sum, as_int, f_floor, is_int_like, is_num, ite, num_op, real, to_int, wrap,
                     nz, zb, zi)

REPO_SRC = os.environ.get("DV_REPO_SRC", "/repo/src")


class Names(ast.NodeVisitor):
    def __init__(self):
        self.out, self.glob = [], set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.out:
            self.out.append(n.id)

    def visit_Global(self, n):
        self.glob |= set(n.names)

    visit_Nonlocal = visit_Global

    def visit_FunctionDef(self, n):
        if n.name not in self.out:
            self.out.append(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for g in n.generators:
            self.visit(g.iter)

    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def visit_ExceptHandler(self, n):
        if n.name and n.name not in self.out:
            self.out.append(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.out.append((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import


def assigned(nodes):
    v = Names()
    for n in nodes:
        v.visit(n)
    return [n for n in dict.fromkeys(v.out) if n not in v.glob and not n.startswith("dvrt__")]


def expr(src):
    return ast.parse(src, mode="eval").body


class Tr(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname, self.n, self.fdepth = fname, 0, 0
        self.hoist = None

    def nid(self):
        self.n += 1
        return self.n

    def site(self, node):
        return f"{os.path.basename(self.fname)}:{node.lineno}:{self.nid()}"

    # statements hold hoisted comprehension functions in front
    def stmts(self, body):
        out = []
        for s in body:
            old, self.hoist = self.hoist, []
            r = self.visit(s)
            pre, self.hoist = self.hoist, old
            out.extend(pre)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if f in ("body", "orelse", "finalbody") and isinstance(v, list) and (
                    not v or isinstance(v[0], ast.stmt)):
                setattr(node, f, self.stmts(v))
            elif isinstance(v, list):
                new = []
                for x in v:
                    if isinstance(x, ast.AST):
                        x = self.visit(x)
                        if x is None:
                            continue
                        if isinstance(x, list):
                            new.extend(x)
                            continue
                    new.append(x)
                v[:] = new
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        self.fdepth += 1
        self.generic_visit(node)
        self.fdepth -= 1
        return node

    def visit_AnnAssign(self, node):
        if self.fdepth:
            self.generic_visit(node)
            if node.value is None:
                return ast.Pass()
            return ast.Assign(targets=[node.target], value=node.value)
        node.value = self.visit(node.value) if node.value else None
        return node

    def visit_Lambda(self, node):
        self.lam = getattr(self, "lam", 0) + 1
        self.generic_visit(node)
        self.lam -= 1
        return node

    def loop(self, node, itexpr, target, body, orelse, cond=None):
        i = self.nid()
        L, S = f"dvv_L{i}", f"dvv_S{i}"
        names = assigned(([target] if target is not None else []) + body)
        site = self.site(node)
        pre = ast.parse(f"{L} = dvrt__.loop({site!r}, None, {tuple(names)!r})").body[0]
        pre.value.args[1] = itexpr if itexpr is not None else ast.Constant(None)
        src = [f"{S} = {L}.step(locals())"]
        inner = ast.parse("\n".join(src)).body
        for k, nme in enumerate(names):
            inner += ast.parse(f"if {L}.sym is not None or {S}.vals[{k}] is not dvrt__.UNDEF: "
                               f"{nme} = {S}.vals[{k}]").body if False else []
        if names:
            st = f"if {L}.rebind: " + "; ".join(
                f"{nme} = {S}.vals[{k}]" for k, nme in enumerate(names))
            inner += ast.parse(st).body
        done = ast.parse(f"if {S}.done:\n    break").body[0]
        done.body = list(orelse) + done.body
        inner.append(done)
        if cond is not None:
            c = ast.parse("if not (0):\n    break").body[0]
            c.test.operand = cond
            c.body = list(orelse) + c.body
            inner.append(c)
        if target is not None:
            inner.append(ast.Assign(targets=[target], value=expr(f"{S}.item")))
        inner += body
        w = ast.While(test=ast.Constant(True), body=inner, orelse=[])
        return [pre, w]

    def visit_For(self, node):
        if self.fdepth == 0:
            return self.generic_visit(node)
        it = self.visit(node.iter)
        tgt = self.visit(node.target)
        body = self.stmts(node.body)
        orelse = self.stmts(node.orelse)
        return self.fix(self.loop(node, it, tgt, body, orelse), node)

    def counting(self, node):
        """`while i < e: ...; i += 1` as a for loop over range(i, e), with e checked to stay"""
        t, b = node.test, node.body
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt)
                and isinstance(t.left, ast.Name) and not node.orelse and len(b) > 1):
            return None
        last, var, end = b[-1], t.left.id, t.comparators[0]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add)
                and isinstance(last.target, ast.Name) and last.target.id == var
                and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        if var in assigned(b[:-1]) or any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield))
                                          for y in b for x in ast.walk(y)):
            return None
        if not all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.expr_context, ast.BinOp, ast.Add,
                                  ast.Sub)) for x in ast.walk(end)):
            return None
        i = self.nid()
        src = (f"dvv_s{i} = {var}\ndvv_e{i} = 0\n"
               f"for {var} in range(dvv_s{i}, dvv_e{i}):\n    dvrt__.stable(dvv_e{i}, 0)\n"
               f"{var} = max(dvv_s{i}, dvv_e{i})")
        m = ast.parse(src).body
        m[1].value = end
        m[2].body[0].value.args[1] = end
        m[2].body = b[:-1] + m[2].body
        import copy
        m = copy.deepcopy(m)
        return self.fix(m, node)

    def visit_While(self, node):
        if self.fdepth == 0:
            return self.generic_visit(node)
        c = self.counting(node)
        if c is not None:
            return self.stmts(c)
        old, self.hoist = self.hoist, None
        cond = self.visit(node.test)
        self.hoist = old
        body = self.stmts(node.body)
        orelse = self.stmts(node.orelse)
        return self.fix(self.loop(node, None, None, body, orelse, cond), node)

    def fix(self, nodes, ref):
        for n in nodes:
            ast.copy_location(n, ref)
            for c in ast.walk(n):
                if not hasattr(c, "lineno"):
                    c.lineno, c.col_offset = ref.lineno, ref.col_offset
                    c.end_lineno, c.end_col_offset = ref.lineno, ref.col_offset
        return nodes

    def comp(self, node, kind):
        if self.hoist is None or self.fdepth == 0 or getattr(self, "lam", 0) or any(
                g.is_async for g in node.generators):
            return self.generic_visit(node)
        i = self.nid()
        name = f"dvv_comp{i}"
        if kind == "dict":
            leaf = ast.parse("dvrt__.dset(dvv_r, 0, 0)").body[0]
            leaf.value.args[1:] = [node.key, node.value]
        else:
            leaf = ast.parse("dvv_r.append(0)").body[0]
            leaf.value.args[0] = node.elt
        body = [leaf]
        gens = node.generators
        for gi in range(len(gens) - 1, -1, -1):
            g = gens[gi]
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            it = g.iter if gi else ast.Name("dvv_it", ast.Load())
            body = [ast.For(target=g.target, iter=it, body=body, orelse=[])]
        init = f"dvrt__.mkcdict({self.site(node)!r})" if kind == "dict" else "[]"
        fd = ast.parse(f"def {name}(dvv_it):\n    dvv_r = {init}\n    return dvv_r").body[0]
        fd.body[1:1] = body
        ast.copy_location(fd, node)
        self.fix([fd], node)
        it0 = self.visit(gens[0].iter)
        fd = self.visit(fd)
        self.hoist.append(fd)
        call = ast.Call(func=ast.Name(name, ast.Load()), args=[it0], keywords=[])
        if kind == "set":
            call = ast.Call(func=ast.Name("set", ast.Load()), args=[call], keywords=[])
        self.fix([call], node)
        return call

    def visit_ListComp(self, node):
        return self.comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self.comp(node, "list")

    def visit_SetComp(self, node):
        return self.comp(node, "set")

    def visit_DictComp(self, node):
        return self.comp(node, "dict")

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.fdepth:
            c = expr(f"dvrt__.mklist(0, {self.site(node)!r})")
            c.args[0] = node
            return self.fix([c], node)[0]
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if self.fdepth:
            c = expr(f"dvrt__.mkdict(0, {self.site(node)!r})")
            c.args[0] = node
            return self.fix([c], node)[0]
        return node

    def visit_Call(self, node):
        first = isinstance(node.func, ast.Name) and node.func.id == "next" and not node.keywords and node.args and (
            isinstance(node.args[0], ast.GeneratorExp))
        self.generic_visit(node)
        if first and not isinstance(node.args[0], ast.GeneratorExp):    # became a list
            node.func = expr("dvrt__.nextgen")
            self.fix([node.func], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            f = "is_" if isinstance(node.ops[0], ast.Is) else "isnot"
            c = expr(f"dvrt__.{f}(0, 0)")
            c.args = [node.left, node.comparators[0]]
            return self.fix([c], node)[0]
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            f = "in_" if isinstance(node.ops[0], ast.In) else "notin"
            c = expr(f"dvrt__.{f}(0, 0)")
            c.args = [node.left, node.comparators[0]]
            return self.fix([c], node)[0]
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        h = ast.parse("dvrt__.check_exc()").body
        node.body = self.fix(h, node) + node.body
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        return node


def engine_fault(e):
    """was this exception caused by the engine (and not by the verified code)?"""
    if getattr(e, "_dv_modelled", False):
        return False
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    if last and "/dv/" in last:
        return True
    if last and "/contracts/" in last and isinstance(e, (TypeError, AttributeError, NotImplementedError)):
        return True
    if isinstance(e, TypeError) and re.search(r"\(\) (got an unexpected keyword|got multiple values|takes |missing )", str(e)):
        return True         # an argument which a contract does not describe
    if isinstance(e, (TypeError, AttributeError, NotImplementedError, IndexError)):
        s = str(e)
        for w in ("Sym", "XList", "Fn", "Shim", "Stub", "Poison", "XDict", "TDict", "TList"):
            if w in s:
                return True
    return False


class RT:
    """run-time support object `__dv` of the instrumented modules"""
    UNDEF = loops.UNDEF

    @staticmethod
    def loop(site, it, names):
        L = LoopRun(site, it, names, "while" if it is None else "for")
        return L

    @staticmethod
    def nextgen(x, *default):
        """next() of a generator expression"""
        if len(x) if type(x) is not XList else E().branch(nz(x.n) > 0):
            return x[0]
        if default:
            return default[0]
        raise_modelled(StopIteration())

    @staticmethod
    def mklist(x, site):
        if E() is not None and site in E().sym_lists:
            return XList(0, None, x)
        r = TList(x)
        r.site = site
        return r

    @staticmethod
    def mkdict(x, site):
        if not x and E() is not None and "newdict" in E().ghost:
            return E().ghost["newdict"]()
        if not x and E() is not None and "keys_n" in E().ghost:
            return RT.mkcdict(site)
        return x

    @staticmethod
    def mkcdict(site):
        if E() is not None and site in E().sym_lists:
            from contracts.ghostmap import KeyMap
            if "keys_n" not in E().ghost:
                raise Unsupported("dict over unknown keys")
            return KeyMap(E().ghost["keys_n"], [])
        r = TDict()
        r.site = site
        return r

    @staticmethod
    def stable(a, b):
        """the end of a counting while loop is not changed by its body"""
        if a is b:
            return
        from .values import same, boolz
        if not E().valid(boolz(same(a, b))):
            raise Unsupported("a while loop whose end changes")

    @staticmethod
    def dset(d, k, v):
        if type(d) is TDict and type(k).__name__ == "SymKey":
            E().sym_lists.add(d.site)
            raise core.Restart()
        d[k] = v

    @staticmethod
    def is_(a, b):
        if type(a) is loops.Poison or type(b) is loops.Poison:
            raise Unsupported("identity test of an unknown value")
        if (type(a) is SymBool and isinstance(b, bool)) or (
                type(b) is SymBool and isinstance(a, bool)):
            return a == b
        return a is b

    @staticmethod
    def isnot(a, b):
        r = RT.is_(a, b)
        return (not r) if isinstance(r, bool) and not isinstance(r, Sym) else ~r

    @staticmethod
    def in_(a, b):
        if type(b) is SymArr:
            return a_any(b == a)
        if isinstance(b, (tuple, list)) and type(b) is not XList and (
                isinstance(a, Sym) or any(isinstance(x, Sym) for x in b)):
            for x in b:
                if x is a or (x == a):
                    return True
            return False
        return a in b

    @staticmethod
    def notin(a, b):
        r = RT.in_(a, b)
        return (not r) if isinstance(r, bool) and not isinstance(r, Sym) else ~r

    @staticmethod
    def check_exc():
        e = sys.exc_info()[1]
        if e is not None and isinstance(e, Exception) and engine_fault(e):
            raise Unsupported(f"engine: {type(e).__name__}: {e}") from e


# ------------------------------------------------------------------ builtins
def mkshim(name, native, conv):
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, native)

        def __subclasscheck__(cls, c):
            return issubclass(c, native)

        def __eq__(cls, o):
            return o is cls or o is native

        def __hash__(cls):
            return hash(native)

        def __or__(cls, o):
            return native | o

        def __ror__(cls, o):
            return o | native

        def __getattr__(cls, nm):
            return getattr(native, nm)

    def new(cls, *a, **k):
        return conv(*a, **k)
    return Meta(name, (), {"__new__": new, "_dv_native": native, "__module__": "builtins",
                           "_dv_kind": name})


def c_int(x=0, *a):
    if isinstance(x, Sym):
        return to_int(x)
    if type(x) is SymArr:
        if x.conc() and x.n == 1:
            return to_int(x.items()[0])
        raise Unsupported("int(array)")
    if hasattr(x, "_dv_int"):
        return x._dv_int()
    if isinstance(x, str) and core_tok(x):
        v, spec = E().tokens[x]
        if type(v) is SymInt and spec == "":
            return v
        raise Unsupported("int of a formatted value")
    return int(x, *a)


def core_tok(s):
    return E() is not None and s in E().tokens


def c_float(x=0.0):
    if isinstance(x, Sym):
        return real(x)
    if type(x) is SymArr:
        if x.conc() and x.n == 1:
            return real(x.items()[0])
        raise Unsupported("float(array)")
    if isinstance(x, str) and core_tok(x):
        v, spec = E().tokens[x]
        if spec == "":
            return real(v)
        raise Unsupported("float of a formatted value")
    return float(x)


def c_str(x="", *a):
    if hasattr(x, "_dv_str"):
        return x._dv_str()
    return str(x, *a)


def c_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) in (SymInt, SymReal):
        return x != 0
    return bool(x)


def c_list(x=()):
    if hasattr(type(x), "_dv_list"):
        return x._dv_list()
    s = loops.symiter(x)
    if s is not None:
        if type(x) is XList:
            return x.copy()
        if s._dv_guard(core.z3.Int("probe!")) is not True:
            raise Unsupported("list of a selection")
        return XList.seq(s._dv_n(), s._dv_item)
    if type(x) is XList:
        return x.copy()
    return list(x)


def c_tuple(x=()):
    s = loops.symiter(x)
    if s is not None:
        raise Unsupported("tuple of a symbolic sequence")
    return tuple(x)


def c_dict(*a, **k):
    if a and hasattr(a[0], "_dv_dict"):
        return a[0]._dv_dict(k)
    if a and type(a[0]) is XList:
        a = (list(a[0]),) + a[1:]
    if not a and not k and E() is not None and "newdict" in E().ghost:
        return E().ghost["newdict"]()
    return dict(*a, **k)


class DictShimNS:
    pass


def c_fromkeys(ks, value=None):
    if type(ks).__name__ == "KeyMap" or (type(ks) is XList and ks.sym):
        from contracts.ghostmap import fromkeys
        return fromkeys(ks, value)
    return dict.fromkeys(ks, value)


def c_len(x):
    if hasattr(type(x), "_dv_len"):
        return x._dv_len()
    return len(x)


def c_range(*a):
    if not any(isinstance(x, Sym) for x in a):
        return range(*a)
    if len(a) == 1:
        return loops.SymRange(zi(a[0]))
    if len(a) == 3 and not (isinstance(a[2], int) and a[2] == 1):
        raise Unsupported("symbolic range with a step")
    return loops.SymRange(z3.simplify(zi(a[1]) - zi(a[0])), zi(a[0]))


def c_sum(x, start=0):
    if type(x) is SymArr:
        return a_sum(x) if isinstance(start, int) and start == 0 else a_sum(x) + start
    if type(x) is XList and x.sym:
        from .values import mkarr
        return a_sum(mkarr(x)) + start
    if loops.symiter(x) is not None:
        raise Unsupported("sum of a symbolic iterable")
    return sum(x, start)


def _first(f, nat):
    def g(*a, **k):
        if len(a) == 1 and type(a[0]) is SymArr and not k:
            return f(a[0])
        if len(a) == 1 and loops.symiter(a[0]) is not None:
            raise Unsupported(f"{nat.__name__} of a symbolic iterable")
        return nat(*a, **k)
    return g


def c_any(x):
    if type(x) is SymArr:
        return a_any(x)
    if type(x) is XList and x.sym:
        from .values import mkarr
        return a_any(mkarr(x))
    if loops.symiter(x) is not None:
        raise Unsupported("any of a symbolic iterable")
    return any(x)


def c_all(x):
    if type(x) is SymArr:
        return a_all(x)
    if type(x) is XList and x.sym:
        from .values import mkarr
        return a_all(mkarr(x))
    if loops.symiter(x) is not None:
        raise Unsupported("all of a symbolic iterable")
    return all(x)


def c_enumerate(x, start=0):
    s = loops.symiter(x)
    if s is None:
        return enumerate(x, start)
    g = s._dv_guard(z3.Int("probe!"))
    if g is not True:
        raise Unsupported("enumerate over a selection")
    return loops.SymZip([loops.SymRange(s._dv_n(), start), s])


def c_zip(*xs, **k):
    ss = [loops.symiter(x) for x in xs]
    if all(s is None for s in ss):
        return zip(*xs, **k)
    its = []
    for x, s in zip(xs, ss):
        if s is None:
            if hasattr(x, "__len__"):
                x = list(x)
                s = loops.SymSeq(len(x), SymArr.of(x, "O").at)
            else:
                raise Unsupported("zip of symbolic and unsized iterables")
        its.append(s)
    return loops.SymZip(its)


def c_sorted(x, **k):
    if hasattr(x, "_dv_sorted"):
        return x._dv_sorted(**k)
    if loops.symiter(x) is not None:
        raise Unsupported("sorted of a symbolic iterable")
    x = list(x)
    if len(x) > 3 and any(isinstance(v, Sym) for v in x):
        raise Unsupported("sorted of symbolic values")
    return sorted(x, **k)


def c_map(f, *its):
    if any(loops.symiter(x) is not None for x in its):
        raise Unsupported("map over a symbolic iterable")
    return map(f, *its)


def c_reversed(x):
    s = loops.symiter(x)
    if s is None:
        return reversed(x)
    n = s._dv_n()
    return loops.SymSeq(n, lambda k: s._dv_item(z3.simplify(n - 1 - k)))


def c_print(*a, **k):
    for x in a:
        str(x)


def c_open(*a, **k):
    h = E().ghost.get("open") if E() is not None else None
    if h is None:
        raise Unsupported("open()")
    return h(*a, **k)


def c_iter(x, *a):
    if loops.symiter(x) is not None:
        raise Unsupported("iter of a symbolic iterable")
    return iter(x, *a)


def make_builtins():
    b = dict(vars(builtins))
    b.update(
        int=mkshim("int", int, c_int), float=mkshim("float", float, c_float),
        str=mkshim("str", str, c_str), bool=mkshim("bool", bool, c_bool),
        list=mkshim("list", list, c_list), tuple=mkshim("tuple", tuple, c_tuple),
        dict=mkshim("dict", dict, c_dict),
        len=c_len, range=c_range, sum=c_sum, min=_first(a_min, min), max=_first(a_max, max),
        any=c_any, all=c_all, enumerate=c_enumerate, zip=c_zip, sorted=c_sorted, map=c_map,
        reversed=c_reversed, print=c_print, open=c_open, iter=c_iter,
    )
    return b


BUILTINS = make_builtins()
BUILTINS["dict"].fromkeys = staticmethod(c_fromkeys)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] != "mcsas3":
            return None
        p = os.path.join(REPO_SRC, *name.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            s = importlib.util.spec_from_file_location(name, f, loader=self,
                                                       submodule_search_locations=[p])
            return s
        f = p + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        self.exec_as(module, module.__spec__.origin)
        from . import shared
        shared.snapshot(module)

    def exec_as(self, module, f):
        src = open(f, encoding="utf8").read()
        tree = ast.parse(src, f)
        tr = Tr(f)
        tree.body = tr.stmts(tree.body)
        ast.fix_missing_locations(tree)
        module.__dict__["__builtins__"] = BUILTINS
        module.__dict__["dvrt__"] = RT
        SOURCES[module.__name__] = f
        exec(compile(tree, f, "exec"), module.__dict__)


def run_main(name):
    """run a module of mcsas3 as the main program"""
    m = types.ModuleType("__main__")
    f = os.path.join(REPO_SRC, *name.split(".")) + ".py"
    m.__file__, m.__package__ = f, name.rpartition(".")[0]
    SOURCES["__main__"] = f
    Finder().exec_as(m, f)


SOURCES = {}


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    sys.dont_write_bytecode = True
