"""
sx.ctx - what a harness sees.  The same harness runs in two modes:

SymCtx       inputs are Z3 variables, check() is a solver query
ConcreteCtx  inputs are the values of a counterexample, the code is the plain
             uninstrumented source of /repo, check() is an ordinary test
"""
import z3
from . import core
from .vals import (SymInt, SymBool, SymStr, SymBytes, SymFix, mkint, mkbool, bterm, width, has_sym, land, lor)


class Violation(Exception):
    def __init__(self, label, info=""):
        Exception.__init__(self, label, info)
        self.label = label


class BaseCtx:
    def __init__(self):
        self.counts = {}
        self.loaders = []
        self.now_num = 0
        self.now_den = 8
        self.cleanups = []
        self.trace = []

    def _name(self, name):
        n = self.counts.get(name, 0)
        self.counts[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def log(self, *a):
        if len(self.trace) < 400:
            self.trace.append(" ".join(str(x) for x in a))

    def cleanup(self):
        for f in self.cleanups:
            try:
                f()
            except Exception:
                pass

    # clock: eighths of a second, starting at a large-ish value
    def now(self):
        return SymFix(self.now_num, 8) if isinstance(self.now_num, SymInt) else self.now_num / 8

    def advance(self, eighths):
        self.now_num = self.now_num + eighths

    def implies(self, a, b):
        return lor(core_not(a), b)


def core_not(a):
    from .vals import lnot
    return lnot(a)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, engine):
        BaseCtx.__init__(self)
        self.engine = engine
        self.inputs = []          # (name, kind, payload)
        self.checks_reached = 0
        self.now_num = 8 * 1000

    # engine interface used by proxies
    def branch(self, t):
        return self.engine.branch(t)

    def concretize(self, term, decode):
        return self.engine.concretize(term, decode)

    # inputs
    def int(self, name, lo, hi):
        name = self._name(name)
        if lo == hi:
            self.inputs.append((name, "const", lo))
            return lo
        if lo >= 0:
            k = max(hi.bit_length(), 1)
            v = z3.BitVec(name, k)
            t = z3.ZeroExt(1, v)
            if lo > 0:
                self.engine.assume(z3.UGE(v, lo))
            if hi != (1 << k) - 1:
                self.engine.assume(z3.ULE(v, hi))
        else:
            w = width(lo, hi)
            t = z3.BitVec(name, w)
            self.engine.assume(z3.And(t >= lo, t <= hi))
        s = SymInt(ext_to(t, width(lo, hi)), lo, hi)
        self.inputs.append((name, "int", s))
        return s

    def bool(self, name):
        name = self._name(name)
        b = z3.Bool(name)
        s = SymBool(b)
        self.inputs.append((name, "bool", s))
        return s

    def bytes(self, name, n, lo=0, hi=255):
        name = self._name(name)
        es = []
        for i in range(n):
            v = z3.BitVec("%s[%d]" % (name, i), 8)
            es.append(SymInt(z3.ZeroExt(1, v), 0, 255))
            if lo > 0 or hi < 255:
                self.engine.assume(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)))
                es[-1] = SymInt(ext_to(es[-1].t, width(lo, hi)), lo, hi)
        self.inputs.append((name, "bytes", es))
        return SymBytes(es).norm()

    def str(self, name, n, alphabet=None, lo=1, hi=0x7E):
        """n symbolic code points, from an alphabet or a range"""
        name = self._name(name)
        es = []
        if alphabet is not None:
            cps = sorted(map(ord, alphabet))
            lo, hi = cps[0], cps[-1]
        for i in range(n):
            k = max(hi.bit_length(), 1)
            v = z3.BitVec("%s[%d]" % (name, i), k)
            if alphabet is not None:
                if lo == hi:
                    es.append(lo)
                    continue
                self.engine.assume(z3.Or(*[v == c for c in cps]))
            else:
                self.engine.assume(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)))
                if hi > 0xDFFF:
                    self.engine.assume(z3.Or(z3.ULT(v, 0xD800), z3.UGT(v, 0xDFFF)))
            es.append(SymInt(ext_to(z3.ZeroExt(1, v), width(lo, hi)), lo, hi))
        self.inputs.append((name, "str", es))
        return SymStr(es).norm()

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def assume(self, c):
        c = bterm(c)
        self.engine.assume(c)

    def check(self, cond, label, info=None):
        self.checks_reached += 1
        self.engine.prove(bterm(cond), label, info)

    def fail(self, label, info=None):
        self.check(False, label, info)

    def concrete_inputs(self, m):
        out = {}

        def ev(x):
            if isinstance(x, int):
                return x
            v = m.eval(x.t, model_completion=True)
            return v.as_signed_long()
        for name, kind, p in self.inputs:
            if kind == "const":
                out[name] = p
            elif kind == "int":
                out[name] = ev(p)
            elif kind == "bool":
                out[name] = z3.is_true(m.eval(p.t, model_completion=True))
            elif kind == "bytes":
                out[name] = {"hex": bytes(ev(x) for x in p).hex()}
            elif kind == "str":
                out[name] = {"str": "".join(chr(ev(x)) for x in p)}
        return out


def ext_to(t, w):
    from .vals import ext
    return ext(t, w)


class ConcreteCtx(BaseCtx):
    symbolic = False

    def __init__(self, values):
        BaseCtx.__init__(self)
        self.values = values
        self.failures = []
        self.now_num = 8 * 1000

    def _get(self, name):
        name = self._name(name)
        if name not in self.values:
            return None
        v = self.values[name]
        if isinstance(v, dict):
            return bytes.fromhex(v["hex"]) if "hex" in v else v["str"]
        return v

    def int(self, name, lo, hi):
        v = self._get(name)
        return lo if v is None else v

    def bool(self, name):
        v = self._get(name)
        return bool(v)

    def bytes(self, name, n, lo=0, hi=255):
        v = self._get(name)
        return bytes([lo] * n) if v is None else v

    def str(self, name, n, alphabet=None, lo=1, hi=0x7E):
        v = self._get(name)
        return (alphabet[0] if alphabet else chr(lo)) * n if v is None else v

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def assume(self, c):
        if not c:
            raise core.PathStop()

    def check(self, cond, label, info=None):
        if not cond:
            self.failures.append((label, info() if callable(info) else info))
            raise core.PathStop()

    def fail(self, label, info=None):
        self.check(False, label, info)
