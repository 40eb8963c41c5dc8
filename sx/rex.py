"""
sx.rex - re over symbolic subjects and patterns.

Pattern characters that are symbolic are first decided to be one of the regular
expression metacharacters (a fork each) or a plain literal, which then stays
symbolic.  The pattern is parsed by CPython's own parser and the set of possible
match ends is computed as Z3 conditions over the subject, so "does it match" is
one formula.  Anything beyond that (groups, substitution) falls back to concrete
values by forking.
"""
import re as _re
import types
import warnings
try:
    from re import _parser as sp, _constants as sc
except ImportError:                     # pragma: no cover
    import sre_parse as sp, sre_constants as sc

from . import vals
from .vals import SymStr, SymBytes, SymSeq, SymInt, is_sym, land, lor, lnot, Opaque
from .core import Unsupported

META = set(map(ord, "\\.^$*?+{}[]|()-#&~, \t\n\r\v\f"))
PUA = 0xF0000


class NeedConcrete(Exception):
    pass


class SymPattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.flags = flags
        if isinstance(pattern, Opaque):
            pattern = pattern.force()
        self.lits = {}
        if isinstance(pattern, SymSeq):
            out = []
            for x in pattern.e:
                if isinstance(x, int):
                    out.append(chr(x))
                    continue
                done = False
                for m in sorted(META):
                    if x == m:
                        out.append(chr(m))
                        done = True
                        break
                if not done:
                    # alphanumerics may follow a backslash: make those concrete
                    if out and out[-1] == "\\" and not (len(out) > 1 and out[-2] == "\\"):
                        out.append(chr(x.__index__()))
                    else:
                        p = PUA + len(self.lits)
                        self.lits[p] = x
                        out.append(chr(p))
            self.text = "".join(out)
        else:
            self.text = pattern.decode("latin-1") if isinstance(pattern, bytes) else pattern
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = sp.parse(self.text, flags)
            self.cre = None if self.lits else _re.compile(
                self.text.encode("latin-1") if isinstance(pattern, (bytes, SymBytes)) else self.text, flags)

    # -- formula of a match over elements e, starting at i: {end: cond}
    def _ends(self, e, i, search=False):
        st = self.tree.state
        fl = st.flags

        def lit(c):
            return self.lits.get(c, c)

        def cmp(x, c):
            if fl & _re.IGNORECASE:
                raise NeedConcrete()
            return x == lit(c)

        def inset(x, items):
            neg = False
            conds = []
            for op, av in items:
                if op is sc.NEGATE:
                    neg = True
                elif op is sc.LITERAL:
                    conds.append(cmp(x, av))
                elif op is sc.RANGE:
                    lo, hi = lit(av[0]), lit(av[1])
                    conds.append(land(x >= lo, x <= hi))
                elif op is sc.CATEGORY:
                    conds.append(cat(x, av))
                else:
                    raise NeedConcrete()
            r = lor(*conds)
            return lnot(r) if neg else r

        def cat(x, av):
            if (x if isinstance(x, int) else x.hi) > 127:
                raise NeedConcrete()
            dig = land(x >= 48, x <= 57)
            sp_ = lor(x == 32, land(x >= 9, x <= 13), land(x >= 28, x <= 31))
            wd = lor(dig, land(x >= 65, x <= 90), land(x >= 97, x <= 122), x == 95)
            n = str(av)
            base = dig if "DIGIT" in n else sp_ if "SPACE" in n else wd if "WORD" in n else None
            if base is None:
                raise NeedConcrete()
            return lnot(base) if "NOT" in n else base

        n = len(e)

        def add(d, j, c):
            if c is False:
                return
            d[j] = lor(d[j], c) if j in d else c

        def seq(items, starts):
            cur = starts
            for op, av in items:
                nxt = {}
                for i, c in cur.items():
                    for j, c2 in one(op, av, i).items():
                        add(nxt, j, land(c, c2))
                cur = nxt
                if not cur:
                    break
            return cur

        def one(op, av, i):
            if op is sc.LITERAL:
                return {i + 1: cmp(e[i], av)} if i < n else {}
            if op is sc.NOT_LITERAL:
                return {i + 1: lnot(cmp(e[i], av))} if i < n else {}
            if op is sc.ANY:
                if i >= n:
                    return {}
                return {i + 1: True if fl & _re.DOTALL else (e[i] != 10)}
            if op is sc.IN:
                return {i + 1: inset(e[i], av)} if i < n else {}
            if op is sc.BRANCH:
                d = {}
                for alt in av[1]:
                    for j, c in seq(alt, {i: True}).items():
                        add(d, j, c)
                return d
            if op is sc.SUBPATTERN:
                return seq(av[3], {i: True})
            if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, body = av
                d = {}
                cur = {i: True}
                k = 0
                lim = n - i + 1 + lo
                while True:
                    if k >= lo:
                        for j, c in cur.items():
                            add(d, j, c)
                    if k >= hi or k > lim:
                        break
                    nxt = {}
                    for p, c in cur.items():
                        for j, c2 in seq(body, {p: True}).items():
                            if j == p and k >= lo:
                                continue
                            add(nxt, j, land(c, c2))
                    cur = nxt
                    if not cur:
                        break
                    k += 1
                return d
            if op is sc.AT:
                if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                    if fl & _re.MULTILINE and av is sc.AT_BEGINNING and i > 0:
                        return {i: e[i - 1] == 10}
                    return {i: True} if i == 0 else {}
                if av is sc.AT_END:
                    if fl & _re.MULTILINE:
                        return {i: True if i == n else (e[i] == 10)}
                    if i == n:
                        return {i: True}
                    if i == n - 1:
                        return {i: e[i] == 10}
                    return {}
                if av is sc.AT_END_STRING:
                    return {i: True} if i == n else {}
                raise NeedConcrete()
            if op in (sc.ASSERT, sc.ASSERT_NOT):
                if av[0] < 0:
                    raise NeedConcrete()
                d = seq(av[1], {i: True})
                c = lor(*d.values()) if d else False
                return {i: lnot(c) if op is sc.ASSERT_NOT else c}
            raise NeedConcrete()
        return seq(self.tree, {i: True})

    def _elems(self, s):
        if isinstance(s, Opaque):
            s = s.force()
        return vals.seq_elems(s)

    def _fallback(self):
        p = vals._plainval(self.pattern)
        return _re.compile(p, self.flags)

    def _run(self, s, mode):
        if not is_sym(s) and self.cre is not None:
            return getattr(self.cre, mode)(s)
        e = self._elems(s)
        try:
            conds = []
            for i in ([0] if mode != "search" else range(len(e) + 1)):
                for j, c in self._ends(e, i).items():
                    if mode == "fullmatch" and j != len(e):
                        continue
                    conds.append(c)
            c = lor(*conds)
        except NeedConcrete:
            return getattr(self._fallback(), mode)(vals._plainval(s))
        if c:
            return SymMatch(self, s, mode)
        return None

    def match(self, s, *a):
        if a:
            return self._fallback().match(vals._plainval(s), *a)
        return self._run(s, "match")

    def fullmatch(self, s):
        return self._run(s, "fullmatch")

    def search(self, s):
        return self._run(s, "search")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            p = self._fallback() if (self.lits or any(is_sym(x) for x in a)) else self.cre
            return getattr(p, name)(*[vals._plainval(x) for x in a], **k)
        return f


class SymMatch:
    "a successful match; details on demand, concretely"

    def __init__(self, p, s, mode):
        self._p, self._s, self._mode, self._m = p, s, mode, None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if self._m is None:
            self._m = getattr(self._p._fallback(), self._mode)(vals._plainval(self._s))
        return getattr(self._m, name)

    def __bool__(self):
        return True


def module(ctx):
    m = types.ModuleType("re")
    for n in dir(_re):
        if n.isupper() or n in ("error", "Pattern", "Match"):
            setattr(m, n, getattr(_re, n))
    cache = {}

    def comp(p, flags=0):
        if isinstance(p, (SymPattern, _re.Pattern)):
            return p
        if is_sym(p):
            return SymPattern(p, flags)
        k = (p, int(flags))
        if k not in cache:
            cache[k] = SymPattern(p, flags)
        return cache[k]
    m.compile = comp
    for n in ("match", "fullmatch", "search", "split", "findall", "finditer"):
        setattr(m, n, (lambda nn: lambda p, s, *a, **k: getattr(comp(p, k.pop("flags", 0)), nn)(s, *a, **k))(n))
    m.sub = lambda p, r, s, count=0, flags=0: comp(p, flags).sub(r, s, count)

    def escape(s):
        if not is_sym(s):
            return _re.escape(s)
        out = []
        for x in s.e:
            if isinstance(x, int):
                out.extend(map(ord, _re.escape(chr(x))))
                continue
            r = lor(*[x == c for c in sorted(map(ord, "()[]{}?*+-|^$\\.&~# \t\n\r\v\f"))])
            if r:
                out.append(92)
            out.append(x)
        return SymStr(out).norm()
    m.escape = escape
    m.purge = lambda: None
    return m
