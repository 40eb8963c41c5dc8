"""
sx.vals - symbolic proxies.

SymBool  a Z3 Bool
SymInt   an exact (unbounded) Python int with known bounds [lo, hi]; its term is
         a signed bit-vector wide enough for those bounds, and every operation
         widens, so nothing ever wraps
SymFix   a rational number SymInt/den  (clock readings)
SymBytes bytes of concrete length whose elements may be symbolic
SymStr   str of concrete length whose code points may be symbolic
SymDict / SymSet   dict / set that also accept symbolic keys
"""
import z3
from .core import ctx, Unsupported, PathStop


def width(lo, hi):
    n = 1
    if hi > 0:
        n = hi.bit_length() + 1
    if lo < 0:
        n = max(n, (-lo - 1).bit_length() + 1)
    return max(n, 2)


def ext(t, w):
    s = t.size()
    if s == w:
        return t
    if s < w:
        return z3.SignExt(w - s, t)
    return z3.Extract(w - 1, 0, t)


def branch(t):
    c = ctx()
    if c is None:
        raise Unsupported("symbolic branch outside a run")
    return c.branch(t)


def is_sym(x):
    return type(x) in SYM


def has_sym(x):
    t = type(x)
    if t in SYM:
        return True
    if t is tuple or t is list:
        return any(has_sym(e) for e in x)
    return False


def mkbool(t):
    if t is True or t is False:
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bterm(x):
    "Z3 term (or bool) of a truth value, without forking for SymBool"
    if x is True or x is False:
        return x
    if isinstance(x, SymBool):
        return x.t
    return bool(x)


def land(*xs):
    ts = []
    for x in xs:
        x = bterm(x)
        if x is False:
            return False
        if x is not True:
            ts.append(x)
    if not ts:
        return True
    return mkbool(z3.And(*ts) if len(ts) > 1 else ts[0])


def lor(*xs):
    ts = []
    for x in xs:
        x = bterm(x)
        if x is True:
            return True
        if x is not False:
            ts.append(x)
    if not ts:
        return False
    return mkbool(z3.Or(*ts) if len(ts) > 1 else ts[0])


def lnot(x):
    x = bterm(x)
    if x is True:
        return False
    if x is False:
        return True
    return mkbool(z3.Not(x))


def ite(c, a, b):
    "if-then-else over ints/bools without forking"
    c = bterm(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        ta, tb = bterm(a), bterm(b)
        ta = z3.BoolVal(ta) if isinstance(ta, bool) else ta
        tb = z3.BoolVal(tb) if isinstance(tb, bool) else tb
        return mkbool(z3.If(c, ta, tb))
    a, b = toint(a), toint(b)
    lo = min(ilo(a), ilo(b))
    hi = max(ihi(a), ihi(b))
    w = width(lo, hi)
    return mkint(z3.If(c, iterm(a, w), iterm(b, w)), lo, hi)


def eq(a, b):
    "equality without forking"
    if type(a) in (tuple, list) and type(b) in (tuple, list):
        if len(a) != len(b) or type(a) is not type(b):
            return False
        return land(*[eq(x, y) for x, y in zip(a, b)])
    if a is b:
        return True
    return a == b


# ---------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ("t",)
    __sx_type__ = bool

    def __getattr__(self, name):
        return _method(self, name)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return branch(self.t)

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else lnot(self)
        if isinstance(o, SymBool):
            return mkbool(self.t == o.t)
        if isinstance(o, (int, SymInt)):
            return toint(self) == o
        if isinstance(o, float):
            return toint(self) == o
        return False

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return land(self, o)
        return toint(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return lor(self, o)
        return toint(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return self != o
        return toint(self) ^ o
    __rxor__ = __xor__

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __repr__(self):
        return "SymBool"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _b2i(name):
    def f(self, *a):
        return getattr(toint(self), name)(*a)
    f.__name__ = name
    return f


for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lshift__ __rlshift__ __rshift__ "
           "__rrshift__ __floordiv__ __rfloordiv__ __mod__ __rmod__ __lt__ __le__ __gt__ __ge__ "
           "__neg__ __invert__ __pos__ __abs__ __truediv__ __divmod__").split():
    setattr(SymBool, _n, _b2i(_n))


# ---------------------------------------------------------------- integers
def toint(x):
    if isinstance(x, SymBool):
        return mkint(z3.If(x.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
    if isinstance(x, bool):
        return int(x)
    return x


def mkint(t, lo, hi):
    if lo == hi:
        return lo
    w = width(lo, hi)
    if t.size() != w:
        t = ext(t, w)
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_signed_long()
    return SymInt(t, lo, hi)


def ilo(x):
    return x.lo if isinstance(x, SymInt) else int(x)


def ihi(x):
    return x.hi if isinstance(x, SymInt) else int(x)


def iterm(x, w):
    if isinstance(x, SymInt):
        return ext(x.t, w)
    return z3.BitVecVal(x, w)


def isint(x):
    return isinstance(x, (int, SymInt, SymBool)) and not isinstance(x, float)


class SymInt:
    __slots__ = ("t", "lo", "hi")
    __sx_type__ = int

    def __getattr__(self, name):
        return _method(self, name)

    def __init__(self, t, lo, hi):
        self.t, self.lo, self.hi = t, lo, hi

    # arithmetic
    def __add__(self, o):
        if isinstance(o, float):
            return tofix(self) + o
        if not isint(o):
            return NotImplemented
        o = toint(o)
        if isinstance(o, int) and o == 0:
            return self
        lo, hi = self.lo + ilo(o), self.hi + ihi(o)
        w = width(lo, hi)
        return mkint(iterm(self, w) + iterm(o, w), lo, hi)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float):
            return tofix(self) - o
        if not isint(o):
            return NotImplemented
        o = toint(o)
        if isinstance(o, int) and o == 0:
            return self
        lo, hi = self.lo - ihi(o), self.hi - ilo(o)
        w = width(lo, hi)
        return mkint(iterm(self, w) - iterm(o, w), lo, hi)

    def __rsub__(self, o):
        if isinstance(o, float):
            return o - tofix(self)
        if not isint(o):
            return NotImplemented
        o = toint(o)
        lo, hi = ilo(o) - self.hi, ihi(o) - self.lo
        w = width(lo, hi)
        return mkint(iterm(o, w) - iterm(self, w), lo, hi)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return ite(self < 0, -self, self)

    def __mul__(self, o):
        if isinstance(o, float):
            return tofix(self) * o
        if isinstance(o, (str, bytes, list, tuple, SymBytes, SymStr)):
            return o * self.__index__()
        if not isint(o):
            return NotImplemented
        o = toint(o)
        ps = [a * b for a in (self.lo, self.hi) for b in (ilo(o), ihi(o))]
        lo, hi = min(ps), max(ps)
        w = max(width(lo, hi), width(self.lo, self.hi), width(ilo(o), ihi(o)))
        return mkint(iterm(self, w) * iterm(o, w), lo, hi)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        return idivmod(self, o)[0]

    def __rfloordiv__(self, o):
        return idivmod(o, self)[0]

    def __mod__(self, o):
        return idivmod(self, o)[1]

    def __rmod__(self, o):
        return idivmod(o, self)[1]

    def __divmod__(self, o):
        return idivmod(self, o)

    def __rdivmod__(self, o):
        return idivmod(o, self)

    def __truediv__(self, o):
        return tofix(self) / o

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return self.__index__() ** (o.__index__() if isinstance(o, SymInt) else o)

    def __rpow__(self, o):
        return o ** self.__index__()

    # bits
    def __lshift__(self, o):
        o = o.__index__() if isinstance(o, (SymInt, SymBool)) else o
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        o = o.__index__() if isinstance(o, (SymInt, SymBool)) else o
        lo, hi = self.lo >> o, self.hi >> o
        w = self.t.size()
        if o >= w:
            o = w - 1
        return mkint(self.t >> o, lo, hi)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def _bit(self, o, op):
        if not isint(o):
            return NotImplemented
        o = toint(o)
        if self.lo >= 0 and ilo(o) >= 0:
            if op == "and":
                lo, hi = 0, min(self.hi, ihi(o))
            else:
                m = max(self.hi, ihi(o))
                lo, hi = 0, (1 << m.bit_length()) - 1
                if op == "or":
                    lo = max(self.lo, ilo(o))
        else:
            w0 = max(width(self.lo, self.hi), width(ilo(o), ihi(o)))
            lo, hi = -(1 << (w0 - 1)), (1 << (w0 - 1)) - 1
            if op == "and" and (self.lo >= 0 or ilo(o) >= 0):
                lo, hi = 0, (self.hi if self.lo >= 0 else ihi(o))
        w = max(width(lo, hi), self.t.size(), width(ilo(o), ihi(o)))
        a, b = iterm(self, w), iterm(o, w)
        t = a & b if op == "and" else (a | b if op == "or" else a ^ b)
        return mkint(t, lo, hi)

    def __and__(self, o):
        return self._bit(o, "and")
    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, "or")
    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, "xor")
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    # comparison
    def __eq__(self, o):
        if isinstance(o, float):
            return tofix(self) == o
        if isinstance(o, SymFix):
            return tofix(self) == o
        if not isint(o):
            return False
        o = toint(o)
        if self.hi < ilo(o) or self.lo > ihi(o):
            return False
        w = max(self.t.size(), width(ilo(o), ihi(o)))
        return mkbool(iterm(self, w) == iterm(o, w))

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __lt__(self, o):
        if isinstance(o, (float, SymFix)):
            return tofix(self) < o
        if not isint(o):
            return NotImplemented
        o = toint(o)
        if self.hi < ilo(o):
            return True
        if self.lo >= ihi(o):
            return False
        w = max(self.t.size(), width(ilo(o), ihi(o)))
        return mkbool(iterm(self, w) < iterm(o, w))

    def __gt__(self, o):
        if isinstance(o, (float, SymFix)):
            return tofix(self) > o
        if not isint(o):
            return NotImplemented
        o = toint(o)
        if self.lo > ihi(o):
            return True
        if self.hi <= ilo(o):
            return False
        w = max(self.t.size(), width(ilo(o), ihi(o)))
        return mkbool(iterm(self, w) > iterm(o, w))

    def __le__(self, o):
        r = self.__gt__(o)
        return r if r is NotImplemented else lnot(r)

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else lnot(r)

    def __bool__(self):
        r = self.__ne__(0)
        return r if isinstance(r, bool) else bool(r)

    # concretisation
    def __index__(self):
        c = ctx()
        w = self.t.size()

        def dec(raw):
            return raw - (1 << w) if raw >= (1 << (w - 1)) else raw
        return c.concretize(self.t, dec)

    __int__ = __index__

    def __trunc__(self):
        return self

    def __hash__(self):
        return hash(self.__index__())

    def __float__(self):
        return float(self.__index__())

    def __round__(self, n=None):
        return self

    def bit_length(self):
        return self.__index__().bit_length()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = length.__index__() if isinstance(length, SymInt) else length
        if signed:
            return self.__index__().to_bytes(length, byteorder, signed=True)
        if lor(self < 0, self >= (1 << (8 * length))):
            raise OverflowError("int too big to convert")
        es = [(self >> (8 * i)) & 0xFF for i in range(length)]
        if byteorder == "big":
            es.reverse()
        return mkbytes(es)

    def __repr__(self):
        return "SymInt[%d,%d]" % (self.lo, self.hi)

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def idivmod(a, b):
    if isinstance(a, float) or isinstance(b, float) or isinstance(a, SymFix) or isinstance(b, SymFix):
        raise Unsupported("float division of symbolic values")
    if not isint(a) or not isint(b):
        raise TypeError("unsupported operand type(s) for divmod()")
    a, b = toint(a), toint(b)
    if isinstance(b, SymInt):
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if b.lo <= 0:
            b = b.__index__()
    if isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if not isinstance(a, SymInt):
            return divmod(a, b)
        if b > 0 and (b & (b - 1)) == 0:
            k = b.bit_length() - 1
            q = a >> k
            if a.lo >= 0 and a.hi < b:
                r = a
            else:
                w = a.t.size()
                r = mkint(z3.ZeroExt(1, z3.Extract(k - 1, 0, ext(a.t, max(w, k + 1)))), 0, b - 1) if k > 0 else 0
            return q, r
        if b < 0:
            return divmod(a.__index__(), b)
    if isinstance(a, SymInt) and a.lo < 0:
        return divmod(a.__index__(), b if isinstance(b, int) else b.__index__())
    if not isinstance(a, SymInt) and a < 0:
        return divmod(a, b.__index__())
    lo, hi = ilo(a) // ihi(b), ihi(a) // ilo(b)
    w = max(width(ilo(a), ihi(a)), width(ilo(b), ihi(b)))
    at, bt = iterm(a, w), iterm(b, w)
    return mkint(z3.UDiv(at, bt), lo, hi), mkint(z3.URem(at, bt), 0, min(ihi(a), ihi(b) - 1))


# ---------------------------------------------------------------- fixed point
def tofix(x):
    if isinstance(x, SymFix):
        return x
    if isinstance(x, (SymInt, SymBool, int)):
        return SymFix(toint(x), 1)
    if isinstance(x, float):
        n, d = x.as_integer_ratio()
        return SymFix(n, d)
    return None


class SymFix:
    "num/den with a concrete positive den: exact clock arithmetic"
    __slots__ = ("num", "den")
    __sx_type__ = float

    def __init__(self, num, den):
        self.num, self.den = num, den

    def _pair(self, o):
        o = tofix(o)
        if o is None:
            return None
        from math import lcm
        d = lcm(self.den, o.den)
        return self.num * (d // self.den), o.num * (d // o.den), d

    def __add__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else SymFix(p[0] + p[1], p[2])
    __radd__ = __add__

    def __sub__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else SymFix(p[0] - p[1], p[2])

    def __rsub__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else SymFix(p[1] - p[0], p[2])

    def __mul__(self, o):
        o = tofix(o)
        return NotImplemented if o is None else SymFix(self.num * o.num, self.den * o.den)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = tofix(o)
        if o is None or not isinstance(o.num, int) or o.num == 0:
            raise Unsupported("division of a clock value")
        n, d = self.num * o.den, self.den * o.num
        return SymFix(n, d) if d > 0 else SymFix(-n, -d)

    def __neg__(self):
        return SymFix(-self.num, self.den)

    def __lt__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] < p[1]

    def __le__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] <= p[1]

    def __gt__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] > p[1]

    def __ge__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else p[0] >= p[1]

    def __eq__(self, o):
        p = self._pair(o)
        return False if p is None else p[0] == p[1]

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __bool__(self):
        r = self.num != 0
        return r if isinstance(r, bool) else bool(r)

    def trunc(self):
        n, d = self.num, self.den
        if d == 1:
            return n
        if isinstance(n, int):
            return int(n / d) if abs(n) < 2**52 else (n // d if n >= 0 else -((-n) // d))
        if n.lo >= 0:
            return n // d
        if n < 0:
            return -((-n).__floordiv__(d)) if (-n).lo >= 0 else -(mkint((-n).t, 0, max(0, -n.lo)) // d)
        return mkint(n.t, 0, n.hi) // d

    def floor(self):
        return self.num // self.den

    def ceil(self):
        return -((-self.num) // self.den)

    __floor__ = floor
    __ceil__ = ceil

    def __int__(self):
        r = self.trunc()
        return r if isinstance(r, int) else r.__index__()

    def __float__(self):
        n = self.num if isinstance(self.num, int) else self.num.__index__()
        return n / self.den

    def __round__(self, n=None):
        return round(float(self), n) if n is not None else round(float(self))

    def __hash__(self):
        return hash(float(self))

    def __repr__(self):
        return "SymFix"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# ---------------------------------------------------------------- opaque text
class Part:
    "a piece of opaque text and the bounds of its length"
    __slots__ = ("f", "lo", "hi")

    def __init__(self, f, lo, hi):
        self.f, self.lo, self.hi = f, lo, hi

    def __call__(self):
        return self.f()


def _int_len(x):
    a, z = ilo(x), ihi(x)
    if a >= 0:
        return len(str(a)), len(str(z))
    return 1, max(len(str(a)), len(str(z)))


class OpaqueLen:
    """len() of an opaque text: comparisons are decided by its bounds when they can be"""
    __sx_type__ = int

    def __init__(self, o):
        self.o = o
        self.lo, self.hi = o.bounds()

    def force(self):
        return len(self.o.force())

    def __index__(self):
        return self.force()
    __int__ = __index__

    def __gt__(self, n):
        if type(n) is int:
            if self.lo > n:
                return True
            if self.hi <= n:
                return False
            # how long a log text is: undetermined, both outcomes are explored
            c = self.o.__dict__.setdefault("longer", {})
            if n not in c:
                c[n] = mkbool(z3.FreshConst(z3.BoolSort(), "textlen"))
            return c[n]
        return self.force() > n

    def __le__(self, n):
        return lnot(self.__gt__(n))

    def __ge__(self, n):
        return self.__gt__(n - 1) if type(n) is int else self.force() >= n

    def __lt__(self, n):
        return lnot(self.__ge__(n))

    def __eq__(self, n):
        if type(n) is int and (self.lo > n or self.hi < n):
            return False
        return self.force() == n

    def __ne__(self, n):
        return lnot(self.__eq__(n))

    def __hash__(self):
        return hash(self.force())

    def __bool__(self):
        return self.__gt__(0)

    def __str__(self):
        return "<len>"
    __repr__ = __str__


def _ol(name):
    def f(self, *a):
        return getattr(self.force(), name)(*a)
    return f


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__mod__", "__floordiv__", "__truediv__",
           "__neg__", "__and__", "__or__", "__lshift__", "__rshift__"):
    setattr(OpaqueLen, _n, _ol(_n))


class Opaque:
    """The result of formatting a symbolic value (log and error texts).  It can be
    passed around, concatenated and printed; any operation that looks at its
    content makes it concrete first, by forking."""
    __sx_type__ = str

    def __init__(self, parts, lo=None, hi=None):
        self.parts = parts          # list of str | thunk returning str/SymStr
        if lo is not None and len(parts) == 1:
            self.parts = [Part(parts[0], lo, hi)]

    def bounds(self):
        "bounds of the length"
        lo = hi = 0
        for p in self.parts:
            a, z = (p.lo, p.hi) if type(p) is Part else (len(p), len(p)) if isinstance(p, (str, SymStr)) else (0, 1 << 60)
            lo, hi = lo + a, hi + z
        return lo, hi

    def repr_hi(self):
        n = 0
        for p in self.parts:
            if type(p) is Part:
                n += p.hi * (1 if p.lo == p.hi or p.hi < 12 else 2 if p.hi < 1 << 50 else 10)
            elif isinstance(p, str):
                n += 2 * len(p) if "'" in p else len(repr(p)) - 2
            else:
                n += len(p) * 10
        return n

    def force(self):
        out = []
        for p in self.parts:
            out.extend(seq_elems(p if isinstance(p, (str, SymStr)) else p()))
        return SymStr(out).norm()

    def __add__(self, o):
        if isinstance(o, Opaque):
            return Opaque(self.parts + o.parts)
        if isinstance(o, (str, SymStr)):
            return Opaque(self.parts + [o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return Opaque([o] + self.parts)
        return NotImplemented

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.force(), name)

    def __len__(self):
        return len(self.force())

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step in (None, 1) and all(type(x) in (int, type(None)) and (x or 0) >= 0
                                                                for x in (i.start, i.stop)):
            lo, hi = self.bounds()
            a = i.start or 0
            if a == 0 and (i.stop is None or hi <= i.stop):
                return self
            z = lambda n: max((n if i.stop is None else min(n, i.stop)) - a, 0)
            return Opaque([lambda: self.force()[i]], z(lo), z(hi))
        return self.force()[i]

    def __iter__(self):
        return iter(self.force())

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr, Opaque)):
            return False
        return self.force() == (o.force() if isinstance(o, Opaque) else o)

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __lt__(self, o):
        return self.force() < o

    def __gt__(self, o):
        return self.force() > o

    def __contains__(self, o):
        return o in self.force()

    def __hash__(self):
        return hash(self.force())

    def __bool__(self):
        return True

    def __mod__(self, o):
        return self.force() % o

    def __str__(self):
        return "<opaque>"
    __repr__ = __str__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


# ---------------------------------------------------------------- sequences
def _method(self, name):
    """an attribute of the type which is encoded, for which there is no encoding: that of the concrete value.
    What the type does not have either is an AttributeError of the code"""
    if name.startswith("__") or not hasattr(type(self).__sx_type__, name):
        raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__sx_type__.__name__, name))
    if isinstance(self, SymSeq):
        return getattr(self.concrete(), name)
    if type(self) is SymInt:
        return getattr(self.__index__(), name)
    if type(self) is SymBool:
        return getattr(bool(self), name)
    raise Unsupported("%s.%s" % (type(self).__sx_type__.__name__, name))


class SymSeq:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __getattr__(self, name):
        return _method(self, name)

    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return len(self.e) > 0

    def _other(self, o):
        "element tuple of a compatible operand, else None"
        if isinstance(o, type(self)):
            return o.e
        if isinstance(self, SymBytes) and isinstance(o, (bytes, bytearray)):
            return tuple(o)
        if isinstance(self, SymBytes) and isinstance(o, SymByteArray):
            return tuple(o.e)
        if isinstance(self, SymStr):
            if isinstance(o, str):
                return tuple(map(ord, o))
            if isinstance(o, Opaque):
                f = o.force()
                return f.e if isinstance(f, SymStr) else tuple(map(ord, f))
        return None

    def _need(self, o):
        e = self._other(o)
        if e is None:
            raise TypeError("can't mix %s and %s" % (type(self).__sx_type__.__name__, sx_type(o).__name__))
        return e

    def _mk(self, e):
        return type(self)(e).norm()

    def norm(self):
        "the plain concrete object when nothing is symbolic"
        for x in self.e:
            if not isinstance(x, int):
                return self
        return self.plain(self.e)

    def __add__(self, o):
        if isinstance(o, Opaque):
            return NotImplemented
        oe = self._other(o)
        if oe is None:
            raise TypeError("can't concat %s to %s" % (sx_type(o).__name__, type(self).__sx_type__.__name__))
        return self._mk(self.e + oe)

    def __radd__(self, o):
        if isinstance(o, Opaque):
            return NotImplemented
        oe = self._other(o)
        if oe is None:
            raise TypeError("can't concat %s to %s" % (type(self).__sx_type__.__name__, sx_type(o).__name__))
        return self._mk(oe + self.e)

    def __mul__(self, n):
        return self._mk(self.e * (n.__index__() if isinstance(n, SymInt) else n))
    __rmul__ = __mul__

    def __eq__(self, o):
        oe = self._other(o)
        if oe is None or len(oe) != len(self.e):
            return False
        cs = []
        for a, b in zip(self.e, oe):
            if a is b:
                continue
            r = a == b
            if r is False:
                return False
            if r is not True:
                cs.append(r)
        return land(*cs)

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def _cmp(self, o, strict_lt):
        oe = self._need(o)
        for a, b in zip(self.e, oe):
            if a == b:
                continue
            return bool(a < b)
        return None, len(self.e), len(oe)

    def _lt(self, o):
        r = self._cmp(o, True)
        return r if isinstance(r, bool) else r[1] < r[2]

    def _le(self, o):
        r = self._cmp(o, True)
        return r if isinstance(r, bool) else r[1] <= r[2]

    def __lt__(self, o):
        return self._lt(o)

    def __le__(self, o):
        return self._le(o)

    def __gt__(self, o):
        return not self._le(o)

    def __ge__(self, o):
        return not self._lt(o)

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        return self.plain([x if isinstance(x, int) else x.__index__() for x in self.e])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._mk(self.e[cslice(i)])
        return self._item(self.e[i.__index__() if isinstance(i, (SymInt, SymBool)) else i])

    def __iter__(self):
        for x in self.e:
            yield self._item(x)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # ---- searching
    def _at(self, i, pat):
        "does pat occur at i (forks)"
        cs = []
        for k, p in enumerate(pat):
            r = self.e[i + k] == p
            if r is False:
                return False
            if r is not True:
                cs.append(r)
        r = land(*cs)
        return r if isinstance(r, bool) else bool(r)

    def _pat(self, x):
        if isinstance(self, SymBytes) and isint(x):
            return (x,)
        return self._need(x)

    def _range(self, a, b):
        n = len(self.e)
        s = cslice(slice(a, b)).indices(n)
        return s[0], s[1]

    def find(self, sub, a=None, b=None):
        pat = self._pat(sub)
        lo, hi = self._range(a, b)
        if a is not None and isint(a) and a > len(self.e):
            return -1
        one = pat[0] if len(pat) == 1 and isinstance(pat[0], int) else None
        for i in range(lo, hi - len(pat) + 1):
            if one is not None:
                x = self.e[i]
                if isinstance(x, int):
                    if x == one:
                        return i
                    continue
                if one < x.lo or one > x.hi:
                    continue
            if self._at(i, pat):
                return i
        return -1

    def rfind(self, sub, a=None, b=None):
        pat = self._pat(sub)
        lo, hi = self._range(a, b)
        for i in range(hi - len(pat), lo - 1, -1):
            if self._at(i, pat):
                return i
        return -1

    def index(self, sub, a=None, b=None):
        r = self.find(sub, a, b)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, a=None, b=None):
        r = self.rfind(sub, a, b)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def __contains__(self, x):
        return self.find(x) >= 0

    def count(self, sub, a=None, b=None):
        pat = self._pat(sub)
        lo, hi = self._range(a, b)
        if not pat:
            return hi - lo + 1
        n, i = 0, lo
        while i <= hi - len(pat):
            if self._at(i, pat):
                n += 1
                i += len(pat)
            else:
                i += 1
        return n

    def startswith(self, pre, a=None, b=None):
        pres = pre if isinstance(pre, tuple) else (pre,)
        lo, hi = self._range(a, b)
        for p in pres:
            pat = self._need(p)
            if hi - lo >= len(pat) and self._at(lo, pat):
                return True
        return False

    def endswith(self, pre, a=None, b=None):
        pres = pre if isinstance(pre, tuple) else (pre,)
        lo, hi = self._range(a, b)
        for p in pres:
            pat = self._need(p)
            if hi - lo >= len(pat) and self._at(hi - len(pat), pat):
                return True
        return False

    def removeprefix(self, p):
        return self[len(self._need(p)):] if self.startswith(p) else self.norm()

    def removesuffix(self, p):
        pat = self._need(p)
        return self[:len(self.e) - len(pat)] if pat and self.endswith(p) else self.norm()

    def replace(self, old, new, count=-1):
        po, pn = self._need(old), self._need(new)
        if not po:
            raise Unsupported("replace of an empty pattern")
        out, i = [], 0
        while i < len(self.e):
            if count != 0 and i + len(po) <= len(self.e) and self._at(i, po):
                out.extend(pn)
                i += len(po)
                count -= 1
            else:
                out.append(self.e[i])
                i += 1
        return self._mk(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._wsplit(maxsplit)
        pat = self._need(sep)
        if not pat:
            raise ValueError("empty separator")
        out, i, st = [], 0, 0
        while i <= len(self.e) - len(pat):
            if maxsplit != 0 and self._at(i, pat):
                out.append(self._mk(self.e[st:i]))
                i += len(pat)
                st = i
                maxsplit -= 1
            else:
                i += 1
        out.append(self._mk(self.e[st:]))
        return out

    def _wsplit(self, maxsplit):
        out, cur = [], []
        for x in self.e:
            if self._is_space(x):
                if cur:
                    out.append(self._mk(cur))
                    cur = []
            else:
                cur.append(x)
        if cur:
            out.append(self._mk(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0 or sep is None:
            return self.split(sep)
        pat = self._need(sep)
        out, i, en = [], len(self.e) - len(pat), len(self.e)
        while i >= 0 and maxsplit > 0:
            if self._at(i, pat):
                out.append(self._mk(self.e[i + len(pat):en]))
                en = i
                i -= len(pat)
                maxsplit -= 1
            else:
                i -= 1
        out.append(self._mk(self.e[:en]))
        return out[::-1]

    def partition(self, sep):
        pat = self._need(sep)
        i = self.find(sep)
        if i < 0:
            return (self.norm(), self._mk(()), self._mk(()))
        return (self._mk(self.e[:i]), self._mk(pat), self._mk(self.e[i + len(pat):]))

    def rpartition(self, sep):
        pat = self._need(sep)
        i = self.rfind(sep)
        if i < 0:
            return (self._mk(()), self._mk(()), self.norm())
        return (self._mk(self.e[:i]), self._mk(pat), self._mk(self.e[i + len(pat):]))

    def splitlines(self, keepends=False):
        return self.concrete().splitlines(keepends)

    def _is_space(self, x):
        if isinstance(x, int):
            return x in (32, 9, 10, 11, 12, 13) or (isinstance(self, SymStr) and chr(x).isspace())
        r = lor(x == 32, land(x >= 9, x <= 13))
        return r if isinstance(r, bool) else bool(r)

    def _strip(self, chars, left, right):
        e = list(self.e)
        pats = None if chars is None else self._need(chars)

        def hit(x):
            if pats is None:
                return self._is_space(x)
            r = lor(*[x == p for p in pats])
            return r if isinstance(r, bool) else bool(r)
        while left and e and hit(e[0]):
            e.pop(0)
        while right and e and hit(e[-1]):
            e.pop()
        return self._mk(e)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def join(self, items):
        items = list(items)
        out = []
        for i, it in enumerate(items):
            if i:
                out.extend(self.e)
            out.extend(self._need(it))
        return self._mk(out)

    def ljust(self, n, fill=None):
        f = self._need(fill)[0] if fill is not None else 32
        return self._mk(self.e + (f,) * max(0, n - len(self.e)))

    def rjust(self, n, fill=None):
        f = self._need(fill)[0] if fill is not None else 32
        return self._mk((f,) * max(0, n - len(self.e)) + self.e)

    def __reversed__(self):
        return iter([self._item(x) for x in reversed(self.e)])


def cslice(s):
    def c(x):
        return x.__index__() if isinstance(x, (SymInt, SymBool)) else x
    return slice(c(s.start), c(s.stop), c(s.step))


class SymBytes(SymSeq):
    __slots__ = ()
    __sx_type__ = bytes
    plain = staticmethod(bytes)

    def _item(self, x):
        return x

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if enc in ("ascii", "us-ascii"):
            for i, x in enumerate(self.e):
                if x >= 128:
                    raise UnicodeDecodeError("ascii", b"", i, i + 1, "ordinal not in range(128)")
            return SymStr(self.e).norm()
        if enc in ("latin-1", "latin1", "iso-8859-1"):
            return SymStr(self.e).norm()
        if enc not in ("utf-8", "utf8") or errors not in ("strict", "ignore", "backslashreplace", "surrogateescape"):
            return self.concrete().decode(encoding, errors)
        out, i, n = [], 0, len(self.e)
        e = self.e

        def bad(p):
            if errors == "strict":
                raise UnicodeDecodeError("utf-8", bytes(n), p, min(p + 1, n), "invalid start byte")
            # the bytes of a sequence which is cut short are invalid one by one
            if errors == "backslashreplace":
                h = [e[p] // 16, e[p] % 16]
                out.extend([92, 120] + [ite(x < 10, x + 48, x + 87) for x in h])
            elif errors == "surrogateescape":
                out.append(e[p] + 0xDC00)
            return p + 1

        def inr(x, lo, hi):
            r = land(x >= lo, x <= hi)
            return r if isinstance(r, bool) else bool(r)

        def rng(x, lo, hi):
            # narrow the known bounds after a branch
            if isinstance(x, SymInt):
                l2, h2 = max(lo, x.lo), min(hi, x.hi)
                return mkint(x.t, l2, h2) if (l2, h2) != (x.lo, x.hi) else x
            return x
        while i < n:
            b = e[i]
            if inr(b, 0, 0x7F):
                out.append(rng(b, 0, 0x7F))
                i += 1
                continue
            if inr(b, 0xC2, 0xDF):
                if i + 1 >= n or not inr(e[i + 1], 0x80, 0xBF):
                    i = bad(i)
                    continue
                out.append(((rng(b, 0xC2, 0xDF) & 0x1F) << 6) + (rng(e[i + 1], 0x80, 0xBF) & 0x3F))
                i += 2
                continue
            if inr(b, 0xE0, 0xEF):
                if i + 1 >= n:
                    i = bad(i)
                    continue
                lo, hi = 0x80, 0xBF
                base = 0x800
                top = 0xFFFF
                if b == 0xE0:
                    lo, top = 0xA0, 0x0FFF
                elif b == 0xED:
                    hi = 0x9F
                    base, top = 0xD000, 0xD7FF
                elif b > 0xED:
                    base = 0xE000
                else:
                    top = 0xCFFF
                if not inr(e[i + 1], lo, hi) or i + 2 >= n or not inr(e[i + 2], 0x80, 0xBF):
                    i = bad(i)
                    continue
                v = ((rng(b, 0xE0, 0xEF) & 0x0F) << 12) + ((rng(e[i + 1], 0x80, 0xBF) & 0x3F) << 6) + \
                    (rng(e[i + 2], 0x80, 0xBF) & 0x3F)
                out.append(rng(v, base, top))
                i += 3
                continue
            if inr(b, 0xF0, 0xF4):
                if i + 1 >= n:
                    i = bad(i)
                    continue
                lo, hi = 0x80, 0xBF
                if b == 0xF0:
                    lo = 0x90
                elif b == 0xF4:
                    hi = 0x8F
                if not inr(e[i + 1], lo, hi) or i + 3 >= n or not inr(e[i + 2], 0x80, 0xBF) \
                        or not inr(e[i + 3], 0x80, 0xBF):
                    i = bad(i)
                    continue
                v = ((rng(b, 0xF0, 0xF4) & 0x07) << 18) + ((rng(e[i + 1], 0x80, 0xBF) & 0x3F) << 12) + \
                    ((rng(e[i + 2], 0x80, 0xBF) & 0x3F) << 6) + (rng(e[i + 3], 0x80, 0xBF) & 0x3F)
                out.append(rng(v, 0x10000, 0x10FFFF))
                i += 4
                continue
            i = bad(i)
            continue
        return SymStr(out).norm()

    def upper(self):
        return SymBytes([ite(land(x >= 97, x <= 122), x - 32, x) for x in self.e]).norm()

    def lower(self):
        return SymBytes([ite(land(x >= 65, x <= 90), x + 32, x) for x in self.e]).norm()

    def __repr__(self):
        return "SymBytes(%d)" % len(self.e)
    __str__ = __repr__


class SymStr(SymSeq):
    __slots__ = ()
    __sx_type__ = str

    @staticmethod
    def plain(es):
        return "".join(map(chr, es))

    def _item(self, x):
        return SymStr((x,)).norm()

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if enc in ("ascii", "us-ascii", "latin-1", "latin1"):
            lim = 128 if enc.endswith("ascii") else 256
            for i, x in enumerate(self.e):
                if x >= lim:
                    raise UnicodeEncodeError(enc, "", i, i + 1, "ordinal not in range(%d)" % lim)
            return mkbytes(self.e)
        if enc not in ("utf-8", "utf8") or errors != "strict":
            return self.concrete().encode(encoding, errors)
        out = []
        for i, x in enumerate(self.e):
            if isinstance(x, int):
                out.extend(chr(x).encode("utf-8"))
            elif x < 0x80:
                out.append(mkint(x.t, x.lo, min(x.hi, 0x7F)))
            elif x < 0x800:
                out += [0xC0 | (x >> 6), 0x80 | (x & 0x3F)]
            elif x < 0x10000:
                if land(x >= 0xD800, x <= 0xDFFF):
                    raise UnicodeEncodeError("utf-8", "", i, i + 1, "surrogates not allowed")
                out += [0xE0 | (x >> 12), 0x80 | ((x >> 6) & 0x3F), 0x80 | (x & 0x3F)]
            else:
                out += [0xF0 | (x >> 18), 0x80 | ((x >> 12) & 0x3F), 0x80 | ((x >> 6) & 0x3F), 0x80 | (x & 0x3F)]
        es = []
        for o in out:
            if isinstance(o, SymInt) and o.hi > 255:
                o = mkint(o.t, o.lo, 255)
            es.append(o)
        return mkbytes(es)

    def _map(self, f):
        out = []
        for x in self.e:
            if isinstance(x, int):
                out.extend(map(ord, f(chr(x))))
            elif x.hi < 0x80:
                if f("a") == "A":
                    x = ite(land(x >= 97, x <= 122), x - 32, x)
                elif f("A") == "a":
                    x = ite(land(x >= 65, x <= 90), x + 32, x)
                out.append(x)
            else:
                out.extend(map(ord, f(chr(x.__index__()))))
        return SymStr(out).norm()

    def upper(self):
        return self._map(str.upper)

    def lower(self):
        return self._map(str.lower)

    def casefold(self):
        return self._map(str.casefold)

    def _isall(self, rng):
        if not self.e:
            return False
        for x in self.e:
            r = lor(*[land(x >= a, x <= b) for a, b in rng])
            if not r:
                return False
        return True

    def isdigit(self):
        if any((x if isinstance(x, int) else x.hi) > 127 for x in self.e):
            return self.concrete().isdigit()
        return self._isall([(48, 57)])

    isnumeric = isdecimal = isdigit

    def isascii(self):
        for x in self.e:
            if x >= 128:
                return False
        return True

    def isprintable(self):
        return self.concrete().isprintable()

    def format(self, *a, **k):
        return self.concrete().format(*a, **k)

    def __mod__(self, args):
        return sx_percent(self, args)

    def __str__(self):
        return "<symstr>"

    def __repr__(self):
        return "SymStr(%d)" % len(self.e)


def mkbytes(items):
    es = []
    for x in items:
        x = toint(x)
        if isinstance(x, SymInt):
            if x.lo < 0 or x.hi > 255:
                if lor(x < 0, x > 255):
                    raise ValueError("bytes must be in range(0, 256)")
                x = mkint(x.t, max(0, x.lo), min(255, x.hi))
            es.append(x)
        elif isinstance(x, int):
            if not 0 <= x <= 255:
                raise ValueError("bytes must be in range(0, 256)")
            es.append(x)
        elif hasattr(x, "__index__"):
            es.append(x.__index__())
        else:
            raise TypeError("'%s' object cannot be interpreted as an integer" % sx_type(x).__name__)
    return SymBytes(es).norm()


def sx_type(x):
    return getattr(type(x), "__sx_type__", None) or type(x)


class SymByteArray:
    "mutable buffer"
    __sx_type__ = bytearray

    def __init__(self, e=()):
        self.e = list(e)

    def _b(self):
        return SymBytes(self.e).norm()

    def append(self, x):
        self.e.extend(seq_elems(mkbytes([x])))

    def extend(self, xs):
        self.e.extend(seq_elems(xs if isinstance(xs, (bytes, SymBytes, SymByteArray)) else mkbytes(xs)))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return SymByteArray(self.e + list(seq_elems(o)))

    def __radd__(self, o):
        return SymBytes(tuple(seq_elems(o)) + tuple(self.e)).norm()

    def __len__(self):
        return len(self.e)

    def __iter__(self):
        return iter(list(self.e))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymByteArray(self.e[cslice(i)])
        return self.e[i.__index__() if isinstance(i, SymInt) else i]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.e[cslice(i)] = list(seq_elems(v if isinstance(v, (bytes, SymBytes, SymByteArray)) else mkbytes(v)))
        else:
            self.e[i.__index__() if isinstance(i, SymInt) else i] = seq_elems(mkbytes([v]))[0]

    def __delitem__(self, i):
        if isinstance(i, slice):
            del self.e[cslice(i)]
        else:
            del self.e[i.__index__() if isinstance(i, SymInt) else i]

    def pop(self, i=-1):
        return self.e.pop(i)

    def clear(self):
        self.e = []

    def __eq__(self, o):
        return self._b() == (o._b() if isinstance(o, SymByteArray) else o)

    def __ne__(self, o):
        return lnot(self.__eq__(o))

    def __bool__(self):
        return bool(self.e)

    def __deepcopy__(self, memo):
        return SymByteArray(self.e)

    def __contains__(self, x):
        return SymBytes(self.e).__contains__(x)

    def insert(self, i, x):
        self.e.insert(i.__index__(), seq_elems(mkbytes([x]))[0])

    def reverse(self):
        self.e.reverse()

    def copy(self):
        return SymByteArray(self.e)

    def __getattr__(self, name):
        if not name.startswith("__") and hasattr(bytearray, name) and not hasattr(bytes, name):
            raise Unsupported("bytearray." + name)
        return getattr(SymBytes(self.e), name)


def _operators():
    """operators of the types for which there is no encoding: those of the concrete value, if there is one"""
    def op(name):
        def f(self, *a):
            if isinstance(self, SymInt):
                return getattr(self.__index__(), name)(*a)
            if isinstance(self, SymBool):
                return getattr(bool(self), name)(*a)
            if isinstance(self, SymSeq):
                return getattr(self.concrete(), name)(*a)
            raise Unsupported("%s.%s" % (type(self).__sx_type__.__name__, name))
        return f
    both = ["__%s%s__" % (r, n) for n in ("pow", "truediv", "divmod", "mod", "floordiv") for r in ("", "r")]
    for cls, names in ((SymBool, both + ["__ceil__", "__float__", "__floor__", "__round__", "__trunc__"]), (SymInt, both + ["__ceil__", "__floor__"]),
                       (SymFix, both + ["__abs__", "__pos__", "__trunc__"]), (SymBytes, ["__mod__"]),
                       (SymByteArray, ["__mod__", "__mul__", "__rmul__", "__imul__", "__lt__", "__le__", "__gt__", "__ge__"])):
        for n in names:
            if hasattr(cls.__sx_type__, n) and n not in cls.__dict__:
                setattr(cls, n, op(n))


def seq_elems(x):
    if isinstance(x, (SymSeq, SymByteArray)):
        return tuple(x.e)
    if isinstance(x, (bytes, bytearray, memoryview)):
        return tuple(bytes(x))
    if isinstance(x, str):
        return tuple(map(ord, x))
    raise TypeError("a bytes-like object is required, not '%s'" % sx_type(x).__name__)


_operators()


# ---------------------------------------------------------------- formatting
def sx_str(x):
    if isinstance(x, (str, SymStr, Opaque)):
        return x
    if isinstance(x, SymBool):
        return Opaque([lambda: "True" if x else "False"], 4, 5)
    if isinstance(x, SymInt):
        return Opaque([lambda: _force_str(x)], *_int_len(x))
    if is_sym(x):
        return Opaque([lambda: _force_str(x)], *_seq_len(x))
    if type(x) in (list, tuple, dict, SymDict, SymSet):
        return sx_repr(x)
    t = type(x)
    if t.__str__ is not object.__str__ and hasattr(t.__str__, "__code__"):
        return t.__str__(x)
    if t.__str__ is object.__str__ and hasattr(t.__repr__, "__code__"):
        return t.__repr__(x)
    if isinstance(x, BaseException) and any(is_sym(a) for a in x.args):
        return sx_str(x.args[0]) if len(x.args) == 1 else sx_repr(x.args)
    return str(x)


def _esc(e, most):
    "most characters repr() uses for this one"
    lo, hi = ilo(e), ihi(e)
    if 32 <= lo and hi < 127:
        return 1 if not any(lo <= q <= hi for q in (34, 39, 92)) else 2
    return 4 if hi < 256 else 6 if hi < 65536 else most


def _seq_len(x):
    if isinstance(x, SymBytes):
        return len(x) + 3, 3 + sum(_esc(e, 4) for e in x.e)
    if isinstance(x, SymFix):
        return 1, 40
    return 0, 1 << 60


def _force_str(x):
    if isinstance(x, SymInt):
        if x.lo >= 0 and x.hi < 1 << 34:        # the digits, as formulas; how many there are is decided here
            n = len(str(x.lo))
            while n < len(str(x.hi)) and x >= 10 ** n:
                n += 1
            return SymStr([48 + (x // 10 ** k) % 10 for k in range(n - 1, -1, -1)]).norm()
        return str(x.__index__())
    if isinstance(x, SymFix):
        return str(float(x))
    if isinstance(x, SymBytes):
        return repr(x.concrete())
    return str(x)


def sx_repr(x):
    if isinstance(x, SymBool):
        return Opaque([lambda: "True" if x else "False"], 4, 5)
    if isinstance(x, SymStr):
        if all(32 <= ilo(e) and ihi(e) < 127 and not any(ilo(e) <= q <= ihi(e) for q in (39, 92)) for e in x.e):
            return "'" + x + "'"
        return Opaque([lambda: repr(x.concrete())], len(x) + 2, 2 + sum(_esc(e, 10) for e in x.e))
    if isinstance(x, Opaque):
        lo, hi = x.bounds()
        return Opaque([lambda: repr(x.force())], lo + 2, x.repr_hi() + 2)
    if isinstance(x, SymInt):
        return Opaque([lambda: _force_str(x)], *_int_len(x))
    if is_sym(x):
        return Opaque([lambda: _force_str(x)], *_seq_len(x))
    if type(x) in (list, tuple):
        items = [sx_repr(e) for e in x]
        o, c = ("[", "]") if type(x) is list else ("(", ",)" if len(x) == 1 else ")")
        out = o
        for i, it in enumerate(items):
            out = out + (", " if i else "") + it
        return out + c
    if isinstance(x, (SymDict, SymSet)) or type(x) is dict and has_sym(list(x.items())):
        out = "{"
        for i, it in enumerate(x if isinstance(x, SymSet) else x.items()):
            out = out + (", " if i else "") + (sx_repr(it) if isinstance(x, SymSet) else sx_repr(it[0]) + ": " + sx_repr(it[1]))
        return "set()" if isinstance(x, SymSet) and not len(x) else out + "}"
    t = type(x)
    if hasattr(t.__repr__, "__code__"):
        return t.__repr__(x)
    return repr(x)


def sx_percent(fmt, args):
    "fmt % args"
    if not isinstance(fmt, (str, bytes, SymStr, SymBytes)):
        if isinstance(fmt, Opaque):
            fmt = fmt.force()
        else:
            return fmt % args
    if isinstance(fmt, (bytes, SymBytes)):
        if has_sym(args) or isinstance(fmt, SymBytes):
            raise Unsupported("bytes formatting of symbolic values")
        return fmt % args
    if isinstance(fmt, SymStr):
        fmt = fmt.concrete()
    alist = args if isinstance(args, tuple) else (args,)
    if not any(_needs_sx(a) for a in alist):
        return fmt % args
    if isinstance(args, dict) and "%(" in fmt:
        raise Unsupported("dict formatting of symbolic values")
    import re
    out, pos, k = "", 0, 0
    for m in re.finditer(r"%([-#0 +]*)(\*|\d+)?(?:\.(\d+))?([a-zA-Z%])", fmt):
        out = out + fmt[pos:m.start()]
        pos = m.end()
        if m.group(4) == "%":
            out = out + "%"
            continue
        if k >= len(alist):
            raise TypeError("not enough arguments for format string")
        a = alist[k]
        k += 1
        spec = m.group(0)
        if not _needs_sx(a):
            out = out + spec % (a,)
        elif m.group(4) in "sr" and spec in ("%s", "%r"):
            out = out + (sx_str(a) if spec == "%s" else sx_repr(a))
        else:
            if m.group(4) in "dixXofeEgGc" and isinstance(a, (SymStr, SymBytes, Opaque)):
                if not (m.group(4) == "c"):
                    raise TypeError("%" + m.group(4) + " format: a real number is required, not str")
            b = ()
            if isinstance(a, (SymInt, SymBool)) and m.group(4) in "dixXoc":
                b = _int_len(toint(a)) if m.group(4) != "o" else (1, 40)
                w = int(m.group(2) or 0) if m.group(2) != "*" else 40
                b = (1, max(b[1], w) + 2) if m.group(4) != "c" else (1, max(1, w))
            out = out + Opaque([(lambda s, v: lambda: s % (_plainval(v),))(spec, a)], *b)
    if k < len(alist):
        raise TypeError("not all arguments converted during string formatting")
    return out + fmt[pos:]


def _needs_sx(a):
    if is_sym(a) or isinstance(a, (SymDict, SymSet, SymByteArray)):
        return True
    if type(a) in (list, tuple):
        return any(_needs_sx(x) for x in a)
    if isinstance(a, (int, str, bytes, float, type(None))):
        return False
    t = type(a)
    return hasattr(t.__str__, "__code__") or hasattr(t.__repr__, "__code__") or isinstance(a, BaseException)


def _plainval(v):
    if isinstance(v, (SymInt, SymBool)):
        return v.__index__()
    if isinstance(v, SymFix):
        return float(v)
    if isinstance(v, SymSeq):
        return v.concrete()
    if isinstance(v, Opaque):
        return v.force()
    return v


# ---------------------------------------------------------------- dict and set
_MISSING = object()


class SymDict(dict):
    """dict whose keys may be symbolic.  Native storage while all keys are
    concrete; an association list compared with == (forking) afterwards."""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._al = None
        self.update(*a, **k)

    def _tolist(self):
        if self._al is None:
            self._al = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def _find(self, k):
        for ent in self._al:
            ek = ent[0]
            if ek is k:
                return ent
            r = eq(ek, k)
            if r is True or (r is not False and bool(r)):
                return ent
        return None

    def _sym(self, k):
        return has_sym(k)

    def __getitem__(self, k):
        if self._al is None and not self._sym(k):
            return dict.__getitem__(self, k)
        self._tolist()
        e = self._find(k)
        if e is None:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return e[1]

    def __setitem__(self, k, v):
        if self._al is None and not self._sym(k):
            return dict.__setitem__(self, k, v)
        self._tolist()
        e = self._find(k)
        if e is None:
            self._al.append([k, v])
        else:
            e[1] = v

    def __delitem__(self, k):
        if self._al is None and not self._sym(k):
            return dict.__delitem__(self, k)
        self._tolist()
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        self._al = [x for x in self._al if x is not e]

    def __contains__(self, k):
        if self._al is None and not self._sym(k):
            return dict.__contains__(self, k)
        self._tolist()
        return self._find(k) is not None

    def get(self, k, d=None):
        if self._al is None and not self._sym(k):
            return dict.get(self, k, d)
        self._tolist()
        e = self._find(k)
        return d if e is None else e[1]

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def pop(self, k, d=_MISSING):
        if self._al is None and not self._sym(k):
            return dict.pop(self, k) if d is _MISSING else dict.pop(self, k, d)
        self._tolist()
        e = self._find(k)
        if e is None:
            if d is _MISSING:
                raise KeyError(k)
            return d
        self._al = [x for x in self._al if x is not e]
        return e[1]

    def popitem(self):
        if self._al is None:
            return dict.popitem(self)
        if not self._al:
            raise KeyError("popitem(): dictionary is empty")
        k, v = self._al.pop()
        return k, v

    def update(self, *a, **k):
        for x in a:
            if hasattr(x, "keys"):
                for kk in x.keys():
                    self[kk] = x[kk]
            else:
                for kk, vv in x:
                    self[kk] = vv
        for kk, vv in k.items():
            self[kk] = vv

    def __ior__(self, o):
        self.update(o)
        return self

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r

    def __len__(self):
        return dict.__len__(self) if self._al is None else len(self._al)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        if self._al is None:
            return dict.__iter__(self)
        return iter([e[0] for e in self._al])

    def keys(self):
        return DictView(self, 0)

    def values(self):
        return DictView(self, 1)

    def items(self):
        return DictView(self, 2)

    def clear(self):
        dict.clear(self)
        self._al = None

    def copy(self):
        return SymDict(self)

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        o = o if isinstance(o, SymDict) else SymDict(o)
        for k, v in self.items():
            if k not in o or not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __deepcopy__(self, memo):
        import copy
        r = SymDict()
        memo[id(self)] = r
        for k, v in list(self.items()):
            r[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return r

    def __copy__(self):
        return SymDict(self)

    @classmethod
    def fromkeys(cls, ks, v=None):
        r = cls()
        for k in ks:
            r[k] = v
        return r

    def __repr__(self):
        return "SymDict(%d)" % len(self)


class DictView:
    def __init__(self, d, which):
        self.d, self.w = d, which

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        d = self.d
        if d._al is None:
            # native iteration keeps "changed size during iteration" behaviour
            it = (dict.keys(d), dict.values(d), dict.items(d))[self.w]
            return iter(it)
        return iter([e[0] if self.w == 0 else e[1] if self.w == 1 else (e[0], e[1]) for e in d._al])

    def __contains__(self, x):
        if self.w == 0:
            return x in self.d
        for y in self:
            if eq(x, y):
                return True
        return False

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __getitem__(self, i):
        raise TypeError("'dict_keys' object is not subscriptable")

    def _s(self):
        return SymSet(self)

    def __and__(self, o):
        return self._s() & o

    def __or__(self, o):
        return self._s() | o

    def __sub__(self, o):
        return self._s() - o

    def __eq__(self, o):
        return self._s() == SymSet(o)

    __hash__ = None

    def __repr__(self):
        return "dict_view"


class SymSet(set):
    """set over == (forking); insertion ordered, so runs are deterministic"""

    def __init__(self, it=()):
        set.__init__(self)
        self._l = []
        for x in it:
            self.add(x)

    def _find(self, x):
        for y in self._l:
            if y is x:
                return True
            if type(x) is type(y) and isinstance(x, (int, str, bytes)):
                if x == y:
                    return True
                continue
            r = eq(x, y)
            if r is True or (r is not False and bool(r)):
                return True
        return False

    def add(self, x):
        if not self._find(x):
            self._l.append(x)

    def __contains__(self, x):
        return self._find(x)

    def discard(self, x):
        for i, y in enumerate(self._l):
            if y is x or bool(eq(x, y)):
                del self._l[i]
                return

    def remove(self, x):
        n = len(self._l)
        self.discard(x)
        if len(self._l) == n:
            raise KeyError(x)

    def pop(self):
        if not self._l:
            raise KeyError("pop from an empty set")
        return self._l.pop(0)

    def clear(self):
        self._l = []

    def copy(self):
        return SymSet(self._l)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return SymSet([copy.deepcopy(x, memo) for x in self._l])

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        for x in list(o):
            self.discard(x)
        return self

    def difference_update(self, *its):
        for it in its:
            self.__isub__(it)

    def __len__(self):
        return len(self._l)

    def __bool__(self):
        return bool(self._l)

    def __iter__(self):
        return iter(list(self._l))

    def union(self, *its):
        r = SymSet(self._l)
        r.update(*its)
        return r

    def __or__(self, o):
        return self.union(o)
    __ror__ = __or__

    def intersection(self, o):
        o = SymSet(o)
        return SymSet([x for x in self._l if x in o])

    def __and__(self, o):
        return self.intersection(o)
    __rand__ = __and__

    def difference(self, *os):
        r = SymSet(self._l)
        r.difference_update(*os)
        return r

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet(o) - self

    def __xor__(self, o):
        return (self - o) | (SymSet(o) - self)

    symmetric_difference = __xor__

    def issubset(self, o):
        o = SymSet(o)
        return all(x in o for x in self._l)

    def issuperset(self, o):
        return SymSet(o).issubset(self)

    def isdisjoint(self, o):
        return len(self & o) == 0

    __le__ = issubset
    __ge__ = issuperset

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        o = SymSet(o)
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "SymSet(%d)" % len(self._l)


SYM = frozenset((SymBool, SymInt, SymFix, SymBytes, SymStr, Opaque, OpaqueLen))      # none has subclasses
