"""
sx.stubs - the environment of the code under test.  Every stub is an assumption
of the checks and is listed in the evidence.

logging, traceback  empty bodies
time                a clock owned by the harness (ctx.now), never decreasing; sleep returns at once
threading           threads are not started (the harness calls their bodies); locks are counters
random              choice/randint/... return an arbitrary member (a symbolic decision)
uuid                fresh distinct identifiers
socket, select, ssl no network; the harness passes its own socket objects
struct              exact model of the fixed-size integer formats
re                  see sx.rex
"""
import os
import types as _types
import re as _re
import struct as _struct

from . import vals
from .vals import SymInt, SymBool, SymBytes, SymStr, SymFix, is_sym, has_sym, mkbytes, seq_elems, Opaque

ASSUMPTIONS = [
    "logging and traceback have empty bodies",
    "the clock is a harness-controlled rational multiple of 1/8 s that never decreases and stands still within one call",
    "threads are not started; the harness calls thread bodies and packet handlers one at a time",
    "random.choice returns an arbitrary member; uuid4 returns fresh distinct values",
]


class _M(_types.ModuleType):
    def __init__(self, name, **k):
        _types.ModuleType.__init__(self, name)
        self.__dict__.update(k)


class _Logger:
    def _no(self, *a, **k):
        pass
    debug = info = warning = warn = error = critical = exception = log = _no
    addHandler = removeHandler = addFilter = removeFilter = setLevel = _no
    propagate = False
    handlers = []
    level = 0

    def isEnabledFor(self, l):
        return False

    def getEffectiveLevel(self):
        return 0


class _Handler(_Logger):
    def __init__(self, *a, **k):
        pass
    setFormatter = close = flush = _Logger._no


def _print_exc(*a, **k):
    if os.environ.get("SX_TB"):
        import traceback
        traceback.print_exc()


def point(ctx, kind="", what=None):
    "a place where another thread may run: harnesses about concurrency set ctx.on_point"
    f = getattr(ctx, "on_point", None)
    if f is not None:
        f(kind, what)


def make(ctx, loader):
    env = {}

    class Logger(_Logger):
        def _no(self, *a, **k):
            point(ctx, "log")
        debug = info = warning = warn = error = critical = log = _no

        def exception(self, *a, **k):
            _print_exc()
            point(ctx, "log")

        if os.environ.get("SX_TB"):
            def error(self, *a, **k):
                print("logger.error", *a)
                _print_exc()
                point(ctx, "log")
    lg = Logger()
    env["logging"] = _M("logging", getLogger=lambda *a: lg, basicConfig=lambda **k: None, DEBUG=10, INFO=20,
                        WARNING=30, WARN=30, ERROR=40, CRITICAL=50, NOTSET=0,
                        debug=lg._no, info=lg._no, warning=lg._no, error=lg._no, critical=lg._no,
                        exception=lg._no, log=lg._no,
                        StreamHandler=_Handler, FileHandler=_Handler, Handler=_Handler, NullHandler=_Handler,
                        Formatter=lambda *a, **k: None, Filter=object, Logger=_Logger)
    env["traceback"] = _M("traceback", print_exc=_print_exc, format_exc=lambda *a, **k: "",
                          print_stack=lambda *a, **k: None, print_exception=lambda *a, **k: None)

    def now(*a):
        point(ctx)
        return ctx.now()
    import time as _time
    # clocks with different origins: mixing them up shows
    env["time"] = _M("time", time=lambda: ctx.now() + 1000000000, monotonic=now, perf_counter=lambda: ctx.now() + 50000,
                     process_time=lambda: 1.5, thread_time=lambda: 1.5,
                     sleep=lambda s: ctx.on_sleep(s) if getattr(ctx, "on_sleep", None) else None,
                     strftime=lambda *a: "", ctime=lambda *a: "", localtime=lambda *a: _time.gmtime(0),
                     gmtime=lambda *a: _time.gmtime(0))

    # threading
    class Lock:
        reentrant = True

        def __init__(self, *a, **k):
            self.n = 0
            self.acquired = 0

        def acquire(self, blocking=True, timeout=-1):
            wait = bool(blocking) and timeout < 0
            point(ctx, "acquire" if wait else "try", self)
            me = getattr(ctx, "thread", 0)
            if self.n and (self.owner != me or not self.reentrant):
                if not wait:
                    return False
                if self.owner == me:
                    ctx.fail("a thread does not wait for itself", "lock held by this thread is acquired again")
                ctx.on_block()
            self.owner = me
            self.n += 1
            self.acquired += 1
            return True

        def release(self):
            if self.n <= 0:
                raise RuntimeError("release unlocked lock")
            if self.reentrant and self.owner != getattr(ctx, "thread", 0):
                raise RuntimeError("cannot release un-acquired lock")
            self.n -= 1
            point(ctx)

        def locked(self):
            return self.n > 0

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()

        notify = notify_all = notifyAll = lambda self, *a: None

        def wait(self, *a):
            return True

    class Mutex(Lock):
        reentrant = False

        def locked(self):
            return self.n > 0

    class Event:
        def __init__(self):
            self.f = False

        def set(self):
            self.f = True

        def clear(self):
            self.f = False

        def is_set(self):
            return self.f
        isSet = is_set

        def wait(self, t=None):
            return self.f
    started = ctx.__dict__.setdefault("threads", [])

    class Thread:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            self._target, self._args, self._kwargs = target, args, kwargs or {}
            self.name = name or "thread"
            self.daemon = daemon

        def start(self):
            started.append(self)

        def run(self):
            if self._target:
                self._target(*self._args, **self._kwargs)

        def join(self, t=None):
            pass

        def is_alive(self):
            return False
        isAlive = is_alive

        def setDaemon(self, d):
            self.daemon = d

        def getName(self):
            return self.name

    class Timer(Thread):
        def __init__(self, interval, function, args=None, kwargs=None):
            Thread.__init__(self, target=function, args=args or (), kwargs=kwargs)
            self.interval = interval

        def cancel(self):
            pass
    main = Thread()
    env["threading"] = _M("threading", Thread=Thread, Timer=Timer, Lock=Mutex, RLock=Lock, Condition=Lock, Semaphore=Lock,
                          BoundedSemaphore=Lock, Event=Event, current_thread=lambda: main, currentThread=lambda: main,
                          get_ident=lambda: 1, local=lambda: _types.SimpleNamespace(), main_thread=lambda: main,
                          enumerate=lambda: [main], active_count=lambda: 1)
    env["_thread"] = _M("_thread", start_new_thread=lambda f, a, k=None: started.append((f, a)) or 1,
                        allocate_lock=Mutex, get_ident=lambda: 1, LockType=Lock, error=RuntimeError, exit=lambda: None)

    # random
    def choice(seq):
        seq = list(seq) if not hasattr(seq, "__getitem__") or isinstance(seq, (set, dict)) else seq
        if len(seq) == 0:
            raise IndexError("Cannot choose from an empty sequence")
        return seq[ctx.choice("random", list(range(len(seq))))]

    def randint(a, b):
        return ctx.int("randint", a, b)

    def randrange(a, b=None, step=1):
        if b is None:
            a, b = 0, a
        r = range(a, b, step)
        return a + step * ctx.int("randrange", 0, len(r) - 1)

    def sample(pop, k):
        pop = list(pop)
        out = []
        for _ in range(k):
            out.append(pop.pop(ctx.choice("random", list(range(len(pop))))))
        return out

    def shuffle(x):
        x[:] = sample(x, len(x))

    def uniform(a, b):
        k = ctx.int("uniform", 0, 8)
        d = b - a
        return vals.SymFix(k, 8) * d + a if is_sym(k) else a + d * k / 8
    env["random"] = _M("random", choice=choice, randint=randint, randrange=randrange, sample=sample, shuffle=shuffle,
                       random=lambda: uniform(0, 1), uniform=uniform, seed=lambda *a: None,
                       choices=lambda p, k=1, **kw: [choice(p) for _ in range(k)],
                       getrandbits=lambda n: randint(0, (1 << n) - 1))
    nu = [0]

    def uuid4():
        nu[0] += 1
        return _types.SimpleNamespace(hex="%032x" % (0xabc0000 + nu[0]), __str__=None, int=nu[0]) \
            if False else _UUID(nu[0])
    env["uuid"] = _M("uuid", uuid4=uuid4, uuid1=uuid4, UUID=_UUID)

    class SockErr(OSError):
        pass

    class FakeSocketMod(_M):
        pass
    import socket as _socket
    fs = FakeSocketMod("socket")
    for n in dir(_socket):
        if n.isupper() or n in ("error", "timeout", "gaierror", "herror", "inet_aton", "inet_ntoa"):
            setattr(fs, n, getattr(_socket, n))

    def mksocket(*a, **k):
        f = getattr(ctx, "make_socket", None)
        if f is None:
            raise OSError("no network in this model")
        return f(*a, **k)
    fs.socket = mksocket
    fs.create_connection = lambda *a, **k: mksocket(*a, **k)
    fs.gethostname = lambda: "host"
    fs.gethostbyname = lambda h: "127.0.0.1"
    fs.setdefaulttimeout = lambda *a: None
    fs.getdefaulttimeout = lambda *a: None
    fs.fromfd = mksocket
    env["socket"] = fs

    def sel(r, w, x, t=None):
        f = getattr(ctx, "select", None)
        if f is None:
            raise OSError("no network in this model")
        return f(r, w, x, t)
    env["select"] = _M("select", select=sel, error=OSError)
    env["signal"] = _M("signal", signal=lambda *a: None, SIGTERM=15, SIGINT=2)
    if ctx.symbolic:
        env["struct"] = _M("struct", pack=s_pack, unpack=s_unpack, unpack_from=s_unpack_from,
                           calcsize=_struct.calcsize, error=_struct.error, Struct=SStruct)
        from . import rex
        env["re"] = rex.module(ctx)
        import hashlib, base64
        env["hashlib"] = _M("hashlib", **{n: _h(getattr(hashlib, n)) for n in ("sha1", "md5", "sha256", "sha512")})
        env["base64"] = _M("base64", **{n: _conc1(getattr(base64, n)) for n in (
            "b64encode", "b64decode", "encodebytes", "decodebytes", "urlsafe_b64encode", "urlsafe_b64decode")})
        import json, binascii
        env["json"] = _M("json", dumps=lambda o, **k: Opaque([lambda: json.dumps(_deep(o), **k)]) if _deepsym(o) else json.dumps(_deep(o), **k),
                         loads=lambda s, **k: json.loads(vals._plainval(s), **k),
                         dump=lambda o, f, **k: f.write(json.dumps(_deep(o), **k)), load=json.load,
                         JSONDecodeError=json.JSONDecodeError, JSONEncoder=json.JSONEncoder)
        env["binascii"] = _M("binascii", hexlify=_conc1(binascii.hexlify), unhexlify=_conc1(binascii.unhexlify),
                             Error=binascii.Error, crc32=_conc1(binascii.crc32))
    return env


def _deepsym(o):
    if is_sym(o):
        return True
    if isinstance(o, dict):
        return any(_deepsym(k) or _deepsym(v) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return any(_deepsym(x) for x in o)
    return False


def _deep(o):
    if isinstance(o, dict):
        return {vals._plainval(k): _deep(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_deep(x) for x in o]
    return vals._plainval(o)


class _UUID:
    def __init__(self, n=0):
        self.n = n
        self.hex = "%032x" % (0xabc00000 + n)
        self.int = 0xabc00000 + n
        self.bytes = bytes.fromhex(self.hex)

    def __str__(self):
        h = self.hex
        return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
    __repr__ = __str__


def _h(f):
    def g(x=b""):
        return f(vals._plainval(x))
    return g


def _conc1(f):
    def g(x, *a, **k):
        if isinstance(x, vals.SymByteArray):
            x = x._b()
        return f(vals._plainval(x), *a, **k)
    return g


# ---------------------------------------------------------------- struct
_SZ = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "?": 1, "c": 1}


def _items(fmt):
    if not isinstance(fmt, str):
        fmt = fmt.decode() if isinstance(fmt, bytes) else fmt.concrete()
    order = "big" if fmt[:1] in ("!", ">") else "little"
    native = fmt[:1] not in ("!", ">", "<", "=")
    body = fmt[1:] if fmt[:1] in "!><=@" and fmt else fmt
    if native and any(c in "hHiIlLqQ" for c in body):
        return None, None
    out = []
    for m in _re.finditer(r"(\d*)([xcbB?hHiIlLqQsp])", body):
        n, c = m.groups()
        if c == "s":
            out.append(("s", int(n) if n else 1))
        else:
            out += [(c, 1)] * (int(n) if n else 1)
    return order, out


def s_pack(fmt, *args):
    if not has_sym(list(args)):
        return _struct.pack(fmt, *args)
    order, items = _items(fmt)
    if items is None:
        return _struct.pack(fmt, *[vals._plainval(a) for a in args])
    es, k = [], 0
    for c, n in items:
        if c == "x":
            es.append(0)
            continue
        if k >= len(args):
            raise _struct.error("pack expected more items")
        v = args[k]
        k += 1
        if c == "s":
            b = list(seq_elems(v))[:n]
            es += b + [0] * (n - len(b))
        elif c == "c":
            es += list(seq_elems(v))
        elif c == "?":
            es.append(vals.toint(v != 0) if not isinstance(v, SymBool) else vals.toint(v))
        else:
            sz = _SZ[c]
            v = vals.toint(v)
            lo, hi = (0, (1 << 8 * sz) - 1) if c.isupper() else (-(1 << 8 * sz - 1), (1 << 8 * sz - 1) - 1)
            if vals.lor(v < lo, v > hi):
                raise _struct.error("argument out of range")
            b = [(v >> (8 * i)) & 0xFF for i in range(sz)]
            es += b[::-1] if order == "big" else b
    if k != len(args):
        raise _struct.error("pack expected %d items" % k)
    return mkbytes(es)


def s_unpack(fmt, buf):
    if isinstance(buf, vals.SymByteArray):
        buf = buf._b()
    if not is_sym(buf):
        return _struct.unpack(fmt, buf)
    if _struct.calcsize(fmt) != len(buf):
        raise _struct.error("unpack requires a buffer of %d bytes" % _struct.calcsize(fmt))
    return s_unpack_from(fmt, buf, 0)


def s_unpack_from(fmt, buf, offset=0):
    if isinstance(buf, vals.SymByteArray):
        buf = buf._b()
    if not is_sym(buf):
        return _struct.unpack_from(fmt, buf, offset)
    order, items = _items(fmt)
    if items is None:
        return _struct.unpack_from(fmt, buf.concrete(), offset)
    es = list(seq_elems(buf))[offset:]
    out, p = [], 0
    for c, n in items:
        sz = n if c == "s" else 1 if c == "x" else _SZ[c]
        if p + sz > len(es):
            raise _struct.error("unpack requires a buffer of at least %d bytes" % (p + sz))
        b = es[p:p + sz]
        p += sz
        if c == "x":
            continue
        if c in "sc":
            out.append(mkbytes(b))
            continue
        v = 0
        for x in (b if order == "big" else b[::-1]):
            v = v * 256 + x
        if c == "?":
            v = v != 0
        elif c.islower():
            if v >= 1 << (8 * sz - 1):
                v = v - (1 << 8 * sz)
        out.append(v)
    return tuple(out)


class SStruct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)

    def pack(self, *a):
        return s_pack(self.format, *a)

    def unpack(self, b):
        return s_unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return s_unpack_from(self.format, b, offset)
