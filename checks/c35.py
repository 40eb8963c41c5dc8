"C35: which conformance statements were met is measured exactly"
import itertools
import types
from sx.load import Loader
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite, sx_str, is_sym
from sx.stubs import _M


class Member:
    "a module, class or function of the code which is measured: its source lines, and what is in it"

    def __init__(self, kind, name, lines=(), members=()):
        self.kind, self.__name__, self.lines, self.members = kind, name, list(lines), list(members)


def load(ctx, modules):
    L = Loader(ctx)
    is_ = lambda *k: lambda x: isinstance(x, Member) and x.kind in k or "module" in k and isinstance(x, types.ModuleType)
    L.env["inspect"] = _M("inspect", ismodule=is_("module"), isclass=is_("class"), isfunction=is_("function"), ismethod=is_("method"),
                          isroutine=is_("function", "method"), isbuiltin=is_(), getmembers=lambda x, p=None: [(m.__name__, m) for m in x.members if p is None or p(m)],
                          getsourcelines=lambda x: (list(x.lines), 0), getsource=lambda x: "".join(x.lines))
    names = ["mqtt.brokers.V5", "mqtt.formats.MQTTV311", "mqtt.formats.MQTTV5"]
    ms = [Member("module", n, *m) for n, m in zip(names, modules)]
    L.load("mqtt.brokers")
    L.mods["mqtt.brokers"].V5 = L.mods["mqtt.brokers.V5"] = ms[0]
    L.mods["mqtt.formats"] = _M("mqtt.formats", MQTTV311=ms[1], MQTTV5=ms[2])
    said = []
    log = dict(vars(L.env["logging"]))
    lg = _M("logger", info=lambda f="", *a: said.append(f % a if a else f))
    for n in ("debug", "warning", "error", "setLevel", "addHandler"):
        setattr(lg, n, lambda *a, **k: None)
    log["getLogger"] = lambda name="": lg
    L.env["logging"] = _M("logging", **{k: v for k, v in log.items() if not k.startswith("__")})
    return L.load("mqtt.brokers.coverage"), said


class Record:
    def __init__(self, text):
        self.text = text

    def getMessage(self):
        return self.text
    msg = property(lambda self: self.text)


def same(a, b):
    return len(a) == len(b) and a == b


def add(xs, x):
    "x into the list xs, once"
    if not any(bool(same(x, y)) for y in xs):
        xs.append(x)


def index(x, xs):
    for i, y in enumerate(xs):
        if bool(same(x, y)):
            return i


def sets(xs):
    "the ways to write a set"
    r = []
    for p in itertools.permutations(xs):
        t = "{"
        for i, y in enumerate(p):
            t = t + (", '" if i else "'") + y + "'"
        r.append(t + "}")
    return r if xs else ["set()"]


def judge(ctx, lines, ex, co, found):
    "the report: how many statements of each kind were met, out of how many, and which"
    want = []
    for name, all_ in (("exceptions", ex), ("coverage statements", co)):
        hit = [x for x in all_ if index(x, found) is not None]
        if all_:
            want.append([name + " %d out of %d = %d%%" % (len(hit), len(all_), len(hit) * 100 // len(all_))])
    for name, all_ in (("exceptions", ex), ("coverage statements", co)):
        hit = [x for x in all_ if index(x, found) is not None]
        want.append([name + " found " + s for s in sets(hit)])
        want.append([name + " not found " + s for s in sets([x for x in all_ if index(x, found) is None])])
    ctx.check(len(lines) == len(want), "the report has a line for each kind, and the statements met and not met", lambda: (lines, want))
    for l, w in zip(lines, want):
        ctx.check(lor(*[same(l, x) for x in w]), "the report is what was met", lambda: (lines, want, found))


def statement(ctx, i, n=1):
    return "[MQTT" + ctx.choice("family", ["-", "5-"]) + ctx.str("n%d" % i, n, lo=49, hi=51) + "]"


KNOWN = [([], [Member("function", "f", x)]) for x in (
    ['    logger.info("[MQTT-1] first")\n', "    x = 1\n", '    assert x, "[MQTT5-1] second"\n'],
    ['    raise E("[MQTT-2]")\n', '  # nothing\n'],
    ['    logger.info("[MQTT-1] again")\n', '    logger.info("[MQTT5-3] third")\n', '    logger.info("[MQTT-2] also said")\n'])]
EX, CO = ["[MQTT5-1]", "[MQTT-2]"], ["[MQTT-1]", "[MQTT5-3]", "[MQTT-2]"]


def messages(ctx, k):
    """k messages are logged: any text, with or without a statement"""
    c, said = load(ctx, KNOWN)
    found = []
    for i in range(k):
        what = ctx.choice("what", ["statement", "plain", "around", "two", "cut"] if k > 3 or i == 1 else ["statement", "around"] if i == 0 else ["statement"])
        if what == "cut":
            s = statement(ctx, i)
            m = "x " + s[:-1]
        elif what == "plain":
            m, s = ctx.choice("text", ["", "Waiting for request", "[MQT", "MQTT-1]", ctx.str("any", 3, lo=91, hi=93)]), None
        else:
            s = statement(ctx, i)
            m = s if what == "statement" else ctx.str("before%d" % i, 1, lo=91, hi=93) + " " + s + ctx.str("after%d" % i, 1, lo=91, hi=93) if what == "around" else s + " and [MQTT-3]"
        r = c.filter.filter(Record(m))
        if s is None:
            ctx.check(bool(r), "messages without a statement are logged", lambda: m)
            r = c.filter.filter(Record(m))
            ctx.check(bool(r), "messages without a statement are logged, each time", lambda: m)
        else:
            ctx.check(eq(bool(r), index(s, found) is None), "a message with a statement is logged when the statement is met first", lambda: (m, found, r))
            add(found, s)
    judge(ctx, c.getmeasures(), EX, CO, found)
    judge(ctx, c.filter.getmeasures(), EX, CO, found)
    c.measure()
    ctx.check(len(said) == 6, "measure logs the report", lambda: said)
    judge(ctx, said, EX, CO, found)


def sources(ctx, k):
    """what there is to meet: the statements in the source lines of modules, functions, and classes in classes"""
    L = []
    for i in range(k):
        s = statement(ctx, i)
        kind = ctx.choice("line", ["info", "assert", "raise", "none", "comment"])
        before, after = {"info": ('    logger.info("', ' text]")\n'), "assert": ('\tassert x > 0, "', ' text"\n'), "raise": ("raise E('x', \"", '")\n'),
                         "none": ("  logger.info('[mqtt-1]')\n", ""), "comment": (" # assert ", "")}[kind]
        L.append((kind, s, before if kind == "none" else before + s + after))
    place = ctx.choice("place", ["module", "function", "method", "class", "nested"])
    lines = [x[2] for x in L]
    one, rest = lines[:1], lines[1:]
    f = Member(place if place in ("function", "method", "module") else "function", "f", one)
    inner = f if place in ("module", "function") else Member("class", "C", ["class C:\n"], [f])
    if place == "nested":
        inner = Member("class", "D", ["class D:\n"], [Member("function", "g", []), inner])
        inner.members.append(inner)         # as the class of a class is a class
    g = Member("function", "h", rest)
    which = ctx.choice("module", [0, 1, 2])
    mods = [([], [])] * 3
    mods[which] = ([], [inner, Member("data", "x", ['logger.info("[MQTT-9]")'])])
    mods[(which + 1) % 3] = ([], [g])
    c, said = load(ctx, mods)
    ex, co = [], []
    for kind, s, _ in L:
        if kind != "none":
            add(ex if kind in ("assert", "raise") else co, s)
    judge(ctx, c.getmeasures(), ex, co, [])
    c.filter.filter(Record("INFO " + L[0][1] + "x"))
    c.filter.filter(Record("[MQTT-8]"))
    judge(ctx, c.getmeasures(), ex, co, [L[0][1]])


def make(tier):
    deep = tier == "thorough"
    return [Harness("messages", messages, "%d messages, statements of a symbolic character" % (4 if deep else 3), k=4 if deep else 3),
            Harness("sources", sources, "%d source lines with or without a statement" % (3 if deep else 2), k=3 if deep else 2)]


if __name__ == "__main__":
    raise SystemExit(main("C35", make))
