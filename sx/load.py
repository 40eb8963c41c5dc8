"""
sx.load - loads the modules of /repo/interoperability from the working tree.

mode "sym"   the source is parsed, instrumented (see Rewriter) and executed with
             symbolic-aware builtins
mode "plain" the source is executed as it is

In both modes only the environment is replaced: clock, threads, randomness, uuid,
logging, sockets (see stubs).
"""
import ast
import builtins
import copy
import operator
import os
import sys
import types

from . import core, vals, stubs
from .vals import (SYM, SymInt, SymBool, SymStr, SymBytes, SymFix, SymDict, SymSet, SymByteArray, Opaque,
                   is_sym, has_sym, sx_type, seq_elems, mkbytes, SymSeq)

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.join(REPO, "interoperability")

CATCH = (Exception, SystemExit, KeyboardInterrupt, GeneratorExit)


# ------------------------------------------------------------------ rewriting
_SETOPS = {ast.Sub: "__sx_sub__", ast.BitAnd: "__sx_and__", ast.BitOr: "__sx_or__", ast.BitXor: "__sx_xor__"}


class Rewriter(ast.NodeTransformer):
    SKIP_CALL = {"super", "locals", "globals", "vars", "eval", "exec", "dir"}

    def __init__(self, modname):
        self.mod = modname
        self.scope = []

    def _n(self, name):
        return ast.Name(id=name, ctx=ast.Load())

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.SKIP_CALL:
            return node
        return ast.copy_location(
            ast.Call(func=self._n("__sx_call__"), args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                c = ast.Call(func=self._n("__sx_in__"), args=[node.left, node.comparators[0]], keywords=[])
                if isinstance(op, ast.NotIn):
                    c = ast.UnaryOp(op=ast.Not(), operand=c)
                return ast.copy_location(c, node)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(node.comparators[0], ast.Constant) \
                    and isinstance(node.comparators[0].value, bool):
                c = ast.Call(func=self._n("__sx_is__"), args=[node.left, node.comparators[0]], keywords=[])
                if isinstance(op, ast.IsNot):
                    c = ast.UnaryOp(op=ast.Not(), operand=c)
                return ast.copy_location(c, node)
        return node

    def visit_For(self, node):
        """a long loop over a constant range gets a second, uninstrumented copy, taken when
        everything it reads is a plain value or a symbolic text: only its speed differs"""
        fast = self.fast_copy(node)
        self.generic_visit(node)
        if fast is None:
            return node
        f, names, assigned = fast
        key = self._n("__sx_key")
        st = lambda i: ast.Name(id=i, ctx=ast.Store())
        memo = self._n("__sx_memo__")
        getkey = ast.Assign(targets=[st("__sx_key")], value=ast.Call(func=self._n("__sx_plain__"), args=[
            ast.Constant(value="%s:%d" % (self.mod, node.lineno)),
            ast.Call(func=self._n("locals"), args=[], keywords=[]), ast.Constant(value=names)], keywords=[]))
        out = lambda c: ast.Tuple(elts=[ast.Name(id=a, ctx=c()) for a in assigned], ctx=c())
        again = ast.Assign(targets=[out(ast.Store)], value=ast.Subscript(value=memo, slice=key, ctx=ast.Load()))
        save = ast.Assign(targets=[ast.Subscript(value=memo, slice=key, ctx=ast.Store())], value=out(ast.Load))
        test = ast.If(test=ast.Compare(left=key, ops=[ast.In()], comparators=[memo]), body=[again],
                      orelse=[ast.If(test=key, body=[f, save], orelse=[node])])
        return [ast.copy_location(getkey, node), ast.copy_location(test, node)]

    def fast_copy(self, node):
        it = node.iter
        if not (self.scope and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 2
                and all(isinstance(a, ast.Constant) and type(a.value) is int for a in it.args)
                and it.args[1].value - it.args[0].value >= 64 and isinstance(node.target, ast.Name) and not node.orelse):
            return None
        names = set()
        assigned = {node.target.id}
        inraise = set()
        for st in node.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                assigned.add(st.targets[0].id)
            for x in ast.walk(st):
                if isinstance(x, ast.Raise):
                    inraise.update(id(y) for y in ast.walk(x))
        for st in node.body:
            for x in ast.walk(st):
                if isinstance(x, (ast.Return, ast.AugAssign, ast.NamedExpr, ast.Await)):
                    return None
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    names.add(x.id)
                elif isinstance(x, (ast.In, ast.NotIn, ast.Is, ast.IsNot, ast.Mod, ast.JoinedStr, ast.Dict, ast.Set, ast.For, ast.While,
                                    ast.comprehension, ast.Lambda, ast.FunctionDef, ast.Try, ast.With, ast.Yield, ast.Delete, ast.Global)):
                    return None
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in assigned:
                    return None
                elif isinstance(x, ast.Call) and id(x) not in inraise and not (
                        isinstance(x.func, ast.Name) and x.func.id in ("chr", "len") or isinstance(x.func, ast.Attribute)
                        and x.func.attr in ("find", "startswith", "endswith", "count") and isinstance(x.func.value, ast.Name)):
                    return None
                elif isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                    return None
        f = copy.deepcopy(node)
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id == "chr":
                x.id = "__sx_chr__"
        names.discard("chr")
        names.discard(node.target.id)
        return f, tuple(sorted(names)), sorted(assigned)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                ast.Call(func=self._n("__sx_mod__"), args=[node.left, node.right], keywords=[]), node)
        op = _SETOPS.get(type(node.op))
        if op and not isinstance(node.left, ast.Constant) and not isinstance(node.right, ast.Constant):
            return ast.copy_location(ast.Call(func=self._n(op), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value="")
                parts.append(ast.Tuple(elts=[val, ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(
            ast.Call(func=self._n("__sx_fstr__"), args=[ast.Tuple(elts=parts, ctx=ast.Load())], keywords=[]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            return ast.copy_location(ast.Call(func=self._n("__sx_dictu__"), args=[ast.List(
                elts=[ast.Tuple(elts=[k if k is not None else self._n("__sx_star__"), v], ctx=ast.Load())
                      for k, v in zip(node.keys, node.values)], ctx=ast.Load())], keywords=[]), node)
        return ast.copy_location(ast.Call(
            func=self._n("__sx_dict__"),
            args=[ast.Tuple(elts=node.keys, ctx=ast.Load()), ast.Tuple(elts=node.values, ctx=ast.Load())],
            keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=self._n("__sx_set__"),
                                          args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=self._n("__sx_set__"), args=[
            ast.ListComp(elt=node.elt, generators=node.generators)], keywords=[]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=self._n("__sx_dictp__"), args=[
            ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                         generators=node.generators)], keywords=[]), node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == "BaseException"):
            node.type = ast.copy_location(self._n("__sx_catch__"), node)
        return node

    def visit_FunctionDef(self, node):
        self.scope.append(node.name)
        qual = ".".join(self.scope)
        decs = node.decorator_list
        self.generic_visit(node)
        node.decorator_list = decs
        self.scope.pop()
        mark = ast.Expr(value=ast.Call(
            func=ast.Attribute(value=self._n("__sx_seen__"), attr="add", ctx=ast.Load()),
            args=[ast.Constant(value=self.mod + ":" + qual)], keywords=[]))
        body = node.body
        i = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
            and isinstance(body[0].value.value, str) else 0
        ast.copy_location(mark, body[i] if i < len(body) else body[-1])
        node.body = body[:i] + [mark] + body[i:]
        return node

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_MatchMapping(self, node):
        return node


# ------------------------------------------------------------------ runtime
_BFM = types.BuiltinFunctionType
_FT = types.FunctionType
_MT = types.MethodType
_MD = type(str.join)
_MODT = types.ModuleType


def _anysym(a, k):
    for x in a:
        t = type(x)
        if t in SYM or (t is tuple or t is list) and has_sym(x):
            return True
    if k:
        for x in k.values():
            if type(x) in SYM:
                return True
    return False


def sx_call(f, *a, **k):
    tf = type(f)
    if tf is _FT or tf is _MT:
        return f(*a, **k)
    if tf is _BFM:
        s = f.__self__
        ts = type(s)
        if ts is _MODT:
            return f(*a, **k)
        if ts is str:
            if f.__name__ == "join":
                items = list(a[0])
                if has_sym(items):
                    return SymStr(map(ord, s)).join(items)
                return f(items)
            if f.__name__ == "format":
                if any(vals._needs_sx(x) for x in a) or any(vals._needs_sx(x) for x in k.values()):
                    return Opaque([lambda: s.format(*[vals._plainval(x) for x in a],
                                                    **{n: vals._plainval(x) for n, x in k.items()})])
                return f(*a, **k)
            if _anysym(a, k):
                return getattr(SymStr(map(ord, s)), f.__name__)(*a, **k)
        elif ts is bytes:
            if f.__name__ == "join":
                items = [x._b() if isinstance(x, SymByteArray) else x for x in a[0]]
                if has_sym(items):
                    return SymBytes(s).join(items)
                return f(items)
            if _anysym(a, k):
                return getattr(SymBytes(s), f.__name__)(*a, **k)
    return f(*a, **k)


def sx_in(a, b):
    tb = type(b)
    if tb is str:
        if is_sym(a):
            return a in SymStr(map(ord, b)) if not isinstance(a, Opaque) else a.force() in b
    elif tb is bytes:
        if is_sym(a):
            return a in SymBytes(b)
    elif tb is range:
        if isinstance(a, SymInt):
            if len(b) == 0:
                return False
            lo, hi = min(b), max(b)
            if not (a >= lo) or not (a <= hi):
                return False
            return bool((a - b.start) % abs(b.step) == 0) if abs(b.step) != 1 else True
    elif tb in (set, frozenset, dict):
        if has_sym(a):
            for x in b:
                if vals.eq(x, a):
                    return True
            return False
    return a in b


def sx_is(a, b):
    if isinstance(a, SymBool):
        return bool(a) is b
    return a is b


def sx_mod(a, b):
    if isinstance(a, (str, bytes, SymStr, SymBytes, Opaque)):
        return vals.sx_percent(a, b)
    return a % b


def sx_fstr(parts):
    out = ""
    for p in parts:
        if type(p) is not tuple:
            out = out + p
            continue
        v, conv, spec = p
        if conv == ord("r"):
            v = vals.sx_repr(v)
        elif conv == ord("s"):
            v = vals.sx_str(v)
        if not spec:
            out = out + vals.sx_str(v)
        elif vals._needs_sx(v):
            out = out + Opaque([(lambda vv, ss: lambda: format(vals._plainval(vv), ss))(v, spec)])
        else:
            out = out + format(v, spec)
    return out


_PLAINKEY = (str, int, bytes, bool, float, type(None))


def sx_dict(ks, vs):
    d = SymDict()
    for k in ks:
        if type(k) not in _PLAINKEY:
            break
    else:
        dict.update(d, zip(ks, vs))
        return d
    for k, v in zip(ks, vs):
        d[k] = v
    return d


def sx_dictp(pairs):
    d = SymDict()
    for k, v in pairs:
        d[k] = v
    return d


_STAR = object()


def sx_dictu(pairs):
    d = SymDict()
    for k, v in pairs:
        if k is _STAR:
            d.update(v)
        else:
            d[k] = v
    return d


# ------------------------------------------------------------------ builtins
class ShimMeta(type):
    def __new__(m, name, bases, ns, real=None, base=None, make=None):
        shims = [b for b in bases if isinstance(b, ShimMeta)]
        if shims:
            nb = tuple(b._base if isinstance(b, ShimMeta) else b for b in bases)
            return types.new_class(name, nb, {}, lambda d: d.update(ns))
        c = type.__new__(m, name, bases, ns)
        return c

    def __init__(c, name, bases, ns, real=None, base=None, make=None):
        type.__init__(c, name, bases, ns)
        c._real, c._base, c._make = real, base or real, make

    def __call__(c, *a, **k):
        return c._make(*a, **k)

    def __instancecheck__(c, x):
        t = getattr(type(x), "__sx_type__", None)
        if t is not None:
            return issubclass(t, c._real)
        return isinstance(x, c._real)

    def __subclasscheck__(c, x):
        if isinstance(x, ShimMeta):
            x = x._real
        x = getattr(x, "__sx_type__", None) or x
        return issubclass(x, c._real)

    def __eq__(c, o):
        return c is o or o is c._real

    def __hash__(c):
        return hash(c._real)

    def __getattr__(c, name):
        real = c.__dict__.get("_real") if "_real" in c.__dict__ else None
        if real is None:
            raise AttributeError(name)
        f = getattr(real, name)
        if callable(f) and isinstance(f, _MD):
            def call(s, *a, **k):
                if is_sym(s) or _anysym(a, k):
                    return sx_call(getattr(s, name), *a, **k)
                return f(s, *a, **k)
            return call
        return f


def _mk_int(x=0, base=None):
    if isinstance(x, Opaque):
        x = x.force()
    if base is not None:
        return int(x.concrete() if isinstance(x, SymSeq) else x, base)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return vals.toint(x)
    if isinstance(x, SymFix):
        return x.trunc()
    if isinstance(x, (SymBytes, SymStr)):
        return _parse_int(x)
    return int(x)


def _parse_int(s):
    "int() of short symbolic text: optional sign and digits, otherwise by concretising"
    es = s.e
    if 0 < len(es) <= 12:
        ok = True
        v = 0
        for x in es:
            if not vals.land(x >= 48, x <= 57):
                ok = False
                break
            v = v * 10 + ((x if isinstance(x, int) else vals.mkint(x.t, max(x.lo, 48), min(x.hi, 57))) - 48)
        if ok:
            return v
    return int(s.concrete())


def _from_bytes(b, byteorder="big", *, signed=False):
    es = list(seq_elems(b)) if isinstance(b, (bytes, bytearray, SymSeq, SymByteArray)) else list(b)
    if byteorder == "little":
        es.reverse()
    v = 0
    for x in es:
        v = v * 256 + x
    if signed and es:
        if v >= 1 << (8 * len(es) - 1):
            v = v - (1 << (8 * len(es)))
    return v


def _mk_str(x="", encoding=None, errors="strict"):
    if encoding is not None:
        if isinstance(x, (SymBytes, SymByteArray)):
            return x.decode(encoding, errors)
        return str(x, encoding, errors)
    return vals.sx_str(x)


def _mk_bytes(x=b"", encoding=None, errors="strict"):
    if encoding is not None and hasattr(type(x), "sx_bytes"):
        return x.sx_bytes(encoding)
    if isinstance(x, Opaque):
        x = x.force()
    if isinstance(x, (str, SymStr)):
        if encoding is None:
            raise TypeError("string argument without an encoding")
        if isinstance(x, str):
            return x.encode(encoding, errors)
        return x.encode(encoding, errors)
    if encoding is not None:
        raise TypeError("encoding without a string argument")
    if isinstance(x, SymByteArray):
        return x._b()
    if isinstance(x, (bytes, SymBytes)):
        return x
    if isinstance(x, SymInt):
        return bytes(x.__index__())
    if isinstance(x, (int, memoryview, bytearray)):
        return bytes(x)
    if hasattr(type(x), "__bytes__"):
        return type(x).__bytes__(x)
    return mkbytes(list(x))


def _mk_bytearray(x=b"", *a):
    b = _mk_bytes(x, *a) if not isinstance(x, SymByteArray) else x._b()
    return SymByteArray(seq_elems(b))


def _mk_float(x=0.0):
    if isinstance(x, SymFix):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return vals.tofix(x)
    if isinstance(x, (SymStr, Opaque)):
        x = x.concrete() if isinstance(x, SymStr) else x.force()
    return float(x)


def _mk_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    return bool(x)


class ShimInt(metaclass=ShimMeta, real=int, make=_mk_int):
    from_bytes = staticmethod(_from_bytes)


class ShimStr(metaclass=ShimMeta, real=str, make=_mk_str):
    pass


class ShimBytes(metaclass=ShimMeta, real=bytes, make=_mk_bytes):
    pass


class ShimByteArray(metaclass=ShimMeta, real=bytearray, base=SymByteArray, make=_mk_bytearray):
    pass


class ShimFloat(metaclass=ShimMeta, real=float, make=_mk_float):
    pass


class ShimBool(metaclass=ShimMeta, real=bool, make=_mk_bool):
    pass


class ShimDict(metaclass=ShimMeta, real=dict, base=SymDict, make=lambda *a, **k: SymDict(*a, **k)):
    pass


class ShimSet(metaclass=ShimMeta, real=set, base=SymSet, make=lambda *a: SymSet(*a)):
    pass


class ShimFrozen(metaclass=ShimMeta, real=frozenset, make=lambda *a: (
        SymSet(*a) if a and any(has_sym(x) for x in (a[0] if not isinstance(a[0], types.GeneratorType) else [])) else frozenset(*a))):
    pass


SHIMS = {int: ShimInt, str: ShimStr, bytes: ShimBytes, bytearray: ShimByteArray, float: ShimFloat,
         bool: ShimBool, dict: ShimDict, set: ShimSet, frozenset: ShimFrozen}
SymDict.__sx_type__ = dict
SymSet.__sx_type__ = set


class ShimTypeMeta(type):
    def __call__(c, *a, **k):
        if len(a) == 1 and not k:
            t = sx_type(a[0])
            return SHIMS.get(t, t)
        return type(*a, **k)

    def __instancecheck__(c, x):
        return isinstance(x, type)

    def __eq__(c, o):
        return c is o or o is type

    def __hash__(c):
        return hash(type)

    def __getattr__(c, n):
        return getattr(type, n)


class ShimType(metaclass=ShimTypeMeta):
    pass


def sx_isinstance(x, c):
    if type(c) is tuple:
        return any(sx_isinstance(x, y) for y in c)
    if isinstance(c, ShimMeta):
        return ShimMeta.__instancecheck__(c, x)
    if c is ShimType:
        return isinstance(x, type)
    t = getattr(type(x), "__sx_type__", None)
    if t is not None:
        try:
            return issubclass(t, c)
        except TypeError:
            return isinstance(x, c)
    return isinstance(x, c)


def sx_issubclass(x, c):
    if isinstance(x, ShimMeta):
        x = x._real
    if type(c) is tuple:
        return any(sx_issubclass(x, y) for y in c)
    if isinstance(c, ShimMeta):
        c = c._real
    return issubclass(x, c)


def sx_plain(where, loc, names):
    """key of a loop whose outcome depends on plain values (and symbolic text, not memoised) only, else False"""
    vs = [where]
    for n in names:
        if n in loc:
            if type(loc[n]) is SymStr:
                vs.append(object())          # never found again
            elif type(loc[n]) in (str, bytes, int, bool, type(None)):
                vs.append(loc[n])
            else:
                return False
    if len(MEMO) > 2000:
        MEMO.clear()
    return tuple(vs)


MEMO = {}


def sx_len(x):
    if type(x) is Opaque:
        lo, hi = x.bounds()
        return lo if lo == hi else vals.OpaqueLen(x)
    return len(x)


def sx_ord(x):
    if isinstance(x, SymSeq):
        if len(x) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(x))
        return x.e[0]
    if isinstance(x, vals.SymByteArray):
        return sx_ord(x._b())
    return ord(x)


def sx_chr(x):
    if isinstance(x, SymInt):
        if vals.lor(x < 0, x > 0x10FFFF):
            raise ValueError("chr() arg not in range(0x110000)")
        return SymStr((x,))
    return chr(x)


def sx_minmax(which):
    real = min if which < 0 else max

    def f(*a, **k):
        if len(a) > 1 and not k and all(vals.isint(x) for x in a) and any(is_sym(x) for x in a):
            r = a[0]
            for x in a[1:]:
                r = vals.ite((vals.toint(x) < vals.toint(r)) if which < 0 else (vals.toint(x) > vals.toint(r)), x, r)
            return r
        return real(*a, **k)
    return f


def sx_round(x, n=None):
    if isinstance(x, SymInt):
        return x
    return round(x) if n is None else round(x, n)


def sx_print(*a, **k):
    pass


def _sx_conv(f):
    "hex, oct, bin: of a symbolic number the text is made up when it is needed"
    def conv(x):
        return Opaque([lambda: f(vals._plainval(x))]) if is_sym(x) else f(x)
    return conv


def sx_hash(x):
    return hash(x)


def sx_pow(a, b, m=None):
    if m is not None:
        return (a ** b) % m
    return a ** b


def sx_memoryview(x):
    if isinstance(x, (SymBytes, SymByteArray)):
        return x
    return memoryview(x)


def sx_ascii(x):
    return vals.sx_repr(x)


def sx_format(x, spec=""):
    if is_sym(x):
        return vals.sx_str(x) if spec == '' else Opaque([lambda: format(vals._plainval(x), spec)])
    return format(x, spec)


def sym_builtins(imp):
    b = dict(builtins.__dict__)
    b.update({
        "int": ShimInt, "str": ShimStr, "bytes": ShimBytes, "bytearray": ShimByteArray, "float": ShimFloat,
        "bool": ShimBool, "dict": ShimDict, "set": ShimSet, "frozenset": ShimFrozen, "type": ShimType,
        "isinstance": sx_isinstance, "issubclass": sx_issubclass, "ord": sx_ord, "chr": sx_chr,
        "min": sx_minmax(-1), "max": sx_minmax(1), "round": sx_round, "print": sx_print,
        "hex": _sx_conv(hex), "oct": _sx_conv(oct), "bin": _sx_conv(bin),
        "len": sx_len, "repr": vals.sx_repr, "format": sx_format, "pow": sx_pow, "memoryview": sx_memoryview,
        "__import__": imp,
        "__sx_call__": sx_call, "__sx_in__": sx_in, "__sx_is__": sx_is, "__sx_mod__": sx_mod, "__sx_fstr__": sx_fstr,
        "__sx_dict__": sx_dict, "__sx_dictp__": sx_dictp, "__sx_dictu__": sx_dictu, "__sx_star__": _STAR,
        "__sx_set__": SymSet, "__sx_sub__": _setop(operator.sub), "__sx_and__": _setop(operator.and_),
        "__sx_or__": _setop(operator.or_), "__sx_xor__": _setop(operator.xor), "__sx_catch__": CATCH, "__sx_seen__": SEEN,
        "__sx_plain__": sx_plain, "__sx_memo__": MEMO, "__sx_chr__": chr, "locals": locals,
    })
    return b


_NATIVESETS = (set, frozenset, type({}.keys()), type({}.items()))


def _setop(op):
    "a native set or dict view would look at the storage of a SymSet, which is empty"
    def f(a, b):
        if type(b) is SymSet and type(a) is not SymSet and isinstance(a, _NATIVESETS):
            a = SymSet(a)
        return op(a, b)
    return f


SEEN = set()

_code_cache = {}

# packages whose __init__ only imports their children: loaded lazily
LAZY = {"mqtt", "mqtt.formats", "mqtt.brokers", "mqtt.clients"}


def _compile(path, modname, mode):
    key = (path, mode)
    c = _code_cache.get(key)
    if c is None:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        if mode == "sym":
            tree = ast.parse(src, path)
            tree = Rewriter(modname).visit(tree)
            ast.fix_missing_locations(tree)
            c = compile(tree, path, "exec")
        else:
            c = compile(src, path, "exec")
        _code_cache[key] = c
    return c


class Loader:
    """a private universe of /repo modules"""

    def __init__(self, ctx, stubs_extra=None):
        self.ctx = ctx
        self.mode = "sym" if ctx.symbolic else "plain"
        self.mods = {}
        self.env = stubs.make(ctx, self)
        if stubs_extra:
            self.env.update(stubs_extra)
        if self.mode == "sym":
            self.b = sym_builtins(self._import)
        else:
            self.b = dict(builtins.__dict__)
            self.b["__import__"] = self._import
            self.b["print"] = sx_print

    PATHS = {}

    def path(self, name):
        if name not in self.PATHS:
            p = os.path.join(ROOT, *name.split("."))
            if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
                r = os.path.join(p, "__init__.py"), True
            elif os.path.exists(p + ".py"):
                r = p + ".py", False
            else:
                r = None, False
            self.PATHS[name] = r
        return self.PATHS[name]

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.env:
            return self.env[name]
        parent = None
        if "." in name:
            pn, leaf = name.rsplit(".", 1)
            parent = self.load(pn)
            if name in self.mods:
                return self.mods[name]
        path, ispkg = self.path(name)
        if path is None or name in LAZY:
            p = os.path.join(ROOT, *name.split("."))
            if os.path.isdir(p):
                m = types.ModuleType(name)      # namespace package
                m.__path__ = [p]
                self.mods[name] = m
                if parent is not None:
                    setattr(parent, name.rsplit(".", 1)[1], m)
                return m
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.b
        m.__dict__["__builtins__"] = self.b
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        self.mods[name] = m
        try:
            exec(_compile(path, name, self.mode), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent is not None:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - (level - 1)])
            full = base + ("." + name if name else "")
        else:
            full = name
        top = full.split(".")[0]
        if full in self.env:
            if not fromlist and "." in full:
                return self.env.get(top) or __import__(top)
            return self.env[full]
        if level or self.path(top)[0] or top == "mqtt" and os.path.isdir(os.path.join(ROOT, top)):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            x = self.load(full + "." + f)
                            if not hasattr(m, f):
                                setattr(m, f, x)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(top) if not level else m
        return __import__(name, None, None, fromlist, 0)
