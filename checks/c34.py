"C34: a model is explored along each of its paths once, and a generated test succeeds if and only if what happens is what it says"
import os
import tempfile
from sx.core import PathStop
from sx.load import Loader
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite, sx_percent, sx_str
from sx.stubs import _M
from checks.brk import INTERNAL


class Boom(Exception):
    pass


class Logger:
    def __init__(self, name, lines):
        self.name, self.lines = name, lines

    def info(self, fmt="", *a):
        if self.name == "mbt":
            self.lines.append(sx_str(sx_percent(fmt, a if len(a) != 1 or not isinstance(a[0], dict) else (a[0],))) if a else fmt)

    def debug(self, *a, **k):
        pass
    warn = warning = error = critical = setLevel = addHandler = debug


class MBT:
    def __init__(self, ctx):
        self.ctx, self.lines = ctx, []
        L = Loader(ctx)
        lg = dict(vars(L.env["logging"]))
        lg["getLogger"] = lambda name="": Logger(name, self.lines)
        L.env["logging"] = _M("logging", **{k: v for k, v in lg.items() if not k.startswith("__")})
        rnd = dict(vars(L.env["random"]))
        rnd["choice"] = self.pick
        L.env["random"] = _M("random", **{k: v for k, v in rnd.items() if not k.startswith("__")})
        self.picks = 0
        self.free = 0               # so many picks are arbitrary
        self.mbt = L.load("mbt")
        self.model = self.mbt.model

    def pick(self, seq):
        s = sorted(seq, key=repr)
        self.picks += 1
        if len(s) > 1 and self.picks <= self.free:
            return s[self.ctx.choice("random", list(range(len(s))))]
        return s[0]

    def log(self):
        r = list(self.lines)
        del self.lines[:]
        return r


# ---------------------------------------------------------------- exploration
class Spec:
    """a model, and the paths through it. Actions: name -> (parameters {name: type}, return type, finished with, what happens)"""

    def __init__(self, ctx, actions, values, depth, maxobjects):
        self.ctx, self.actions, self.values, self.depth, self.max = ctx, actions, values, depth, maxobjects
        self.reset()
        self.done = []
        self.bad = None

    def reset(self):
        self.pools = {t: list(v) for t, v in self.values.items()}
        for n, (params, ret, fin, what) in self.actions.items():
            if ret and ret not in self.pools:
                self.pools[ret] = []
        self.path = []

    def options(self, pools, n):
        "what can be done: (action, arguments)"
        r = []
        if n >= self.depth + 1:
            return r
        for name, (params, ret, fin, what) in self.actions.items():
            if ret and ret in pools and ret not in self.fixed and len(pools[ret]) >= self.max.get(ret, 1):
                continue
            combos = [{}]
            for p, t in params.items():
                combos = [dict(c, **{p: v}) for c in combos for v in pools.get(t, [])]
            r += [(name, c) for c in combos]
        return r
    fixed = ()

    def after(self, pools, name, kw, n):
        "(pools after the action, its result); None for an exception"
        params, ret, fin, what = self.actions[name]
        if what == "raise" or n >= self.depth:
            return None, None
        pools = {t: list(v) for t, v in pools.items()}
        rc = None
        if what == "return":
            rc = "%s-%d" % (name, n)
        elif what == "same":
            rc = name
        elif what == "zero":
            rc = 0
        if ret and rc is not None and ret not in self.fixed and rc not in pools[ret]:
            pools[ret].append(rc)
        for p in fin:
            pools[params[p]] = [v for v in pools[params[p]] if v != kw[p]]
        return pools, rc

    def paths(self, pools=None, n=1):
        if pools is None:
            self.reset()
            pools = self.pools
        o = self.options(pools, n)
        if not o:
            return [()]
        r = []
        for name, kw in o:
            p, rc = self.after(pools, name, kw, n)
            k = (name, tuple(sorted(kw.items())))
            r += [(k,)] if p is None else [(k,) + x for x in self.paths(p, n + 1)]
        return r

    def called(self, name, kw):
        "the action is taken"
        n = len(self.path) + 1
        self.ctx.check((name, kw) in self.options(self.pools, n), "only enabled actions are taken, with values from their pools", lambda: (self.path, name, kw, self.pools))
        self.path.append((name, tuple(sorted(kw.items()))))
        self.ran = True
        p, rc = self.after(self.pools, name, kw, n)
        if p is None:
            self.finish()
            raise Boom()
        self.pools = p
        return rc

    def finish(self):
        self.ended = True
        p = tuple(self.path)
        self.ctx.check(p not in self.done, "no path is taken twice", lambda: p)
        self.done.append(p)
        self.reset()


def define(m, spec):
    for t, v in spec.values.items():
        m.mbt.choices(t, tuple(v), output=t in spec.fixed)
    for name, (params, ret, fin, what) in spec.actions.items():
        def f(_name=name, **kw):
            return spec.called(_name, kw)
        f.__name__ = name
        f.__annotations__ = dict(params, **({"return": ret} if ret else {}))
        m.mbt.action(f)
        for p in fin:
            m.mbt.finishedWith(f, p)
    for t, n in spec.max.items():
        m.model.maxobjects[t] = n
    if spec.restart:
        m.model.restartCallback = spec.restart


def models(ctx):
    "the kinds of models"
    do = ctx.choice("the action returns", [None, "return", "same", "zero", "raise"])
    return {
        "no parameters": lambda: ({"a": ({}, None, (), do), "b": ({}, None, (), None)}, {}, 2, {}),
        "consumed": lambda: ({"take": ({"x": "v"}, None, ("x",), None), "stop": ({}, None, (), do)}, {"v": [1, 2]}, 3, {}),
        "two parameters": lambda: ({"two": ({"x": "v", "y": "w"}, None, (), do)}, {"v": [1, 2], "w": ["p", "q"]}, 1, {}),
        "objects": lambda: ({"make": ({"x": "v"}, "o", (), do), "use": ({"o": "o"}, None, ("o",), None)}, {"v": [1]}, 3, {"o": ctx.choice("objects", [1, 2])}),
        "kept objects": lambda: ({"make": ({}, "o", (), do), "use": ({"o": "o"}, None, (), None)}, {}, 3, {"o": ctx.choice("objects", [1, 2])}),
        "both": lambda: ({"make": ({"x": "v"}, "o", ("x",), do), "both": ({"o": "o", "x": "v"}, None, ("o", "x"), None)}, {"v": [1, 2]}, 3, {"o": 2}),
        "result of a fixed set": lambda: ({"ask": ({"x": "v"}, "rc", ("x",), do)}, {"v": [1, 2], "rc": [0, 2]}, 3, {}),
    }


def explore(ctx, kind, free):
    actions, values, depth, most = models(ctx)[kind]()
    m = MBT(ctx)
    m.free = free
    s = Spec(ctx, actions, values, depth, most)
    s.fixed = ("rc",)
    s.restart = None
    restarts = []
    if ctx.bool("with a callback"):
        s.restart = lambda: restarts.append(1)
    define(m, s)
    want = s.paths()
    s.reset()
    ex = m.mbt.main.Executions(m.model)
    m.mbt.execution = ex
    limit = sum(map(len, want)) + 2 * len(want) + 2
    for i in range(limit):
        s.ran = s.ended = False
        r = m.mbt.step()
        ctx.check(len([x for x in m.log() if x.startswith("CALL ")]) == (1 if s.ran else 0), "every call is logged")
        if r and not s.ended:
            if not s.ran and not s.path:
                break
            ctx.check(not s.ran and not s.options(s.pools, len(s.path) + 1), "a path ends when nothing is left to do", lambda: (s.path, s.pools))
            s.finish()
        ctx.check(bool(r) == s.ended, "step tells when a path is at its end", lambda: (r, s.path))
        ctx.check(s.restart is None or len(restarts) == len(s.done), "and the model is restarted", lambda: (len(restarts), s.done))
    else:
        ctx.fail("the exploration ends", "%d steps, %d of %d paths" % (limit, len(s.done), len(want)))
    ctx.check(sorted(s.done, key=repr) == sorted(want, key=repr), "every path is taken", lambda: (s.done, want))


def whole(ctx):
    "run takes every path, and returns"
    m = MBT(ctx)
    s = Spec(ctx, {"take": ({"x": "v"}, None, ("x",), None), "stop": ({}, None, (), "raise")}, {"v": [1, 2]}, 3, {})
    s.restart = None
    define(m, s)
    want = s.paths()
    s.reset()
    ex = m.mbt.main.Executions
    step = ex.step
    n = [0]

    def counted(self, *a, **k):
        n[0] += 1
        if n[0] > 60:
            ctx.fail("the exploration ends", "steps")
            raise PathStop()
        s.ended = s.ran = False
        r = step(self, *a, **k)
        if r and not s.ended and s.path:
            s.finish()
        return r
    ex.step = counted
    m.mbt.run(False)
    ctx.check(sorted(s.done, key=repr) == sorted(want, key=repr), "every path is taken", lambda: (s.done, want))


# ---------------------------------------------------------------- running a generated test
class Obj:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<obj %d>" % self.n
    __str__ = __repr__


def run(m, ctx, lines, checks=None, match=None, call=None, test=None):
    f, name = tempfile.mkstemp(prefix="c34")
    try:
        with os.fdopen(f, "w") as f:
            f.write("".join(x if x.endswith("\n") else x + "\n" for x in lines))
        t = m.mbt.Tests(m.model, name, checks or {}, observationMatchCallback=match, callCallback=call)
        m.test = t
        t.run(stepping=False)
        return t
    finally:
        os.unlink(name)


def results(ctx, k, full):
    "the calls of a test have other results than those it says, or the same"
    m = MBT(ctx)
    expect, got, seen = [], [], []
    which = None if full else ctx.choice("the call", list(range(k)))
    for i in range(k):
        e = ctx.choice("result %d" % i, ["none", "number", "text", "exception"])
        g = ctx.choice("when run %d" % i, ["none", "number", "text", "exception"])
        if which not in (None, i):
            ctx.assume(e == "none" and g in ("none", "text"))
        expect.append({"none": None, "number": 7, "text": "ok", "exception": Boom()}[e])
        got.append({"none": None, "number": ctx.int("returned", 0, 99) if g == "number" else 0, "text": ctx.choice("text", ["ok", "no", ""]) if g == "text" else "", "exception": Boom()}[g])

    def act(x: "v") -> "rc":
        seen.append(x)
        r = m.now[len(seen) - 1]
        if isinstance(r, Boom):
            raise r
        return r
    m.mbt.choices("v", (1, "two", b"3", (4, None)))
    m.mbt.choices("rc", (0, 7), output=True)
    m.mbt.action(act)
    # generated as suite_generate does it
    m.now = expect
    m.mbt.execution = m.mbt.main.Executions(m.model)
    m.free = k if full else 1
    for i in range(k):
        m.mbt.step()
    lines = m.log()
    args = list(seen)
    ctx.check(len(args) == k, "as many calls as steps", lambda: lines)
    del seen[:]
    m.now = got
    tolerant = ctx.bool("any exception")
    t = run(m, ctx, lines, {"exception": lambda rc, s: s.startswith("exception")} if tolerant else {})
    ctx.check(seen == args, "the calls are those of the test, with the same arguments", lambda: (seen, args))
    same = True
    for e, g in zip(expect, got):
        if isinstance(e, Boom) or isinstance(g, Boom):
            if isinstance(e, Boom) and isinstance(g, Boom) and not tolerant:
                raise PathStop()            # the texts of the exceptions are compared: which have line numbers
            same = land(same, isinstance(e, Boom) and isinstance(g, Boom))
        elif e is None or g is None:
            same = land(same, e is None and g is None)
        elif isinstance(e, str) or isinstance(g, str):
            same = land(same, eq(e, g) if isinstance(e, str) and isinstance(g, str) else eq(str(e), g) if isinstance(g, str) else False)
        else:
            same = land(same, eq(e, g))
    ctx.check(eq(t.failures == 0, same), "the test succeeds if and only if every result is that of the test", lambda: (lines, got, t.failures, t.passes))


def objects(ctx):
    "results are used in later calls: the objects of this run take the place of those of the generation"
    m = MBT(ctx)
    made = [3]
    used = []

    def make(x: "v") -> "o":
        made[0] += 1
        return Obj(made[0])

    tell = ctx.choice("what is observed", ["nothing", "it", "another"])

    def use(o: "o", q: "q"):
        used.append((o, q))
        if tell != "nothing":
            text = "used %s %s" % (o, q)
            if m.test is None:
                m.mbt.observe(text)
            else:
                m.test.addResult(text if tell == "it" else "used %s %s" % (Obj(9999), q))
    m.test = None
    ctx.on_sleep = lambda s: None
    m.mbt.choices("v", (1,))
    m.mbt.choices("q", (0, "x"))
    m.mbt.action(make)
    m.mbt.action(use)
    m.model.maxobjects["o"] = 2
    m.mbt.execution = m.mbt.main.Executions(m.model)
    m.free = 4
    for i in range(4):
        m.mbt.step()
    lines = m.log()
    was = [(u[0].n - 3, u[1]) for u in used]
    del used[:]
    base = made[0] = ctx.choice("objects so far", [5, 8])
    t = run(m, ctx, lines, {"o": lambda rc, s: True})
    ctx.check((t.failures == 0) == (tell != "another" or not was), "results which match by the model's rule are right, and observations have the results of this run", lambda: (lines, t.failures))
    ctx.check([(u[0].n - base, u[1]) if isinstance(u[0], Obj) else u for u in used] == was, "the results of this run are used in its later calls", lambda: (lines, used))


def observed(ctx, k, matcher):
    "what is observed has to come, before the call, during it, or within ten seconds"
    m = MBT(ctx)
    want = [ctx.choice("observation %d" % i, ["one", "two"]) for i in range(k)]
    got = [ctx.choice("when run %d" % i, ["one", "two", None, ""]) for i in range(k)]
    late = [ctx.int("seconds", 0, 9) if g else 0 for g in got]
    clock = [0]
    waiting = []

    def act(x: "v"):
        for e, s in m.now:
            if m.test is None:
                m.mbt.observe(e)
            elif e:
                waiting.append((s + clock[0], e))
        arrive()

    def arrive():
        for x in list(waiting):
            if x[0] <= clock[0]:
                waiting.remove(x)
                m.test.addResult(x[1])

    def sleep(s):
        clock[0] = clock[0] + s
        arrive()
    ctx.on_sleep = sleep
    m.test = None
    m.mbt.choices("v", (1, 2))
    m.mbt.action(act)
    m.now = [(w, 0) for w in want]
    m.mbt.execution = m.mbt.main.Executions(m.model)
    m.mbt.step()
    lines = [x for x in m.log()]
    # the observations come in a thread of their own: behind the call
    lines = [x for x in lines if x.startswith("CALL")] + [x for x in lines if not x.startswith("CALL")]
    m.now = list(zip(got, late))
    t = run(m, ctx, lines, match=(lambda o, added: next((x for x, y in added if x == o), None)) if matcher else None)
    left = [g for g in got if g]
    good = True
    for w in want:
        if w in left:
            left.remove(w)
        else:
            good = False
    # the wait for each begins when those before it have come
    ctx.check((t.failures == 0) == good, "the test succeeds if and only if every observation of it comes", lambda: (want, got, late, t.failures, lines))


def make(tier):
    q = tier == "quick"
    h = []
    for kind in ("no parameters", "consumed", "two parameters", "objects", "kept objects", "both", "result of a fixed set"):
        h.append(Harness("explore " + kind, explore, "all paths of the model, the first %d choices among them arbitrary" % (3 if q else 5), kind=kind, free=3 if q else 5))
    h.append(Harness("run", whole, "a model with 5 paths"))
    h.append(Harness("results", results, "2 calls, %s with results of 4 kinds, the number 0-99" % ("one of them" if q else "both"), k=2, full=not q))
    h.append(Harness("objects", objects, "4 calls"))
    for mt in (False, True):
        h.append(Harness("observed " + ("with matching" if mt else "without matching"), observed, "2 observations, within 0-9 seconds", k=2, matcher=mt))
    return h


if __name__ == "__main__":
    raise SystemExit(main("C34", make))
