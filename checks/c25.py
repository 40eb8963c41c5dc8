"C25: requests on concurrent connections take effect as if one had come after the other"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *

PERS = {5: {"clean": False, "props": [(17, 1000)]}, 311: {"clean": False}}


class Two:
    "two clients, c and d, who share topics; e watches"

    def __init__(self, ctx, va, vb):
        self.ctx = ctx
        w = self.w = World(ctx)
        self.e = w.connect("e", 5)
        self.e.sub(["#"])
        self.c = w.connect("c", va, keep=10, will={"topic": "w/c", "payload": b"wc", "qos": 1, "retain": True}, **PERS[va])
        self.c.sub([("t", 1), ("u", 2)])
        self.d = w.connect("d", vb, keep=10, will={"topic": "w/d", "payload": b"wd", "qos": 1}, **PERS[vb])
        self.d.sub([("t", 2), ("w/#", 1)])
        # something in flight to both, and from both
        self.e.pub("t", b"0", qos=2, id=1)
        self.ids = {}
        for x in (self.c, self.d):
            x.pub("i", b"i", qos=2, id=4)
            for p in x.got():
                if p["t"] == PUBLISH:
                    self.ids[x] = p
        self.e.got()
        # one who is away, with a delayed will and a session about to end
        self.z = w.connect("z", 5, clean=False, props=[(17, 5)], will={"topic": "w/z", "payload": b"wz", "props": [(24, 3)]})
        self.z.sub("t")
        self.z.die()
        self.t0 = [len(x.sock.out) for x in w.clients]

    def run(self, who, what):
        x = self.c if who == "c" else self.d
        v = x.ver
        if what == "publish":
            x.pub("t", b"1" + who.encode(), qos=1, retain=True, id=8)
        elif what == "publish 2":
            x.pub("u", b"2" + who.encode(), qos=2, id=9)
        elif what == "pubrel":
            x.ack(PUBREL, 4)
        elif what == "ack":
            p = self.ids[x]
            x.ack(PUBACK if p["qos"] == 1 else PUBREC, p["id"])
        elif what == "subscribe":
            x.sub([("w/#", 2), ("t", 0)], id=3)
        elif what == "unsubscribe":
            x.unsub(["t"])
        elif what == "disconnect":
            x.disconnect()
        elif what == "end":
            x.die()
        elif what == "malformed":
            x.raw(ref.mk([0x36, 1, 0]))
        elif what in ("again", "clean"):
            y = self.w.new(v)
            y.role = who
            y.connect("c", **(PERS[v] if what == "again" else {"clean": True}))
            y.cid = "c"
        elif what == "keep alive":
            x.idle()
        elif what == "clean up":
            tick(self.w)
        elif what == "new":
            y = self.w.new(v)
            y.role = who
            y.connect("n" + who)
        else:
            raise KeyError(what)

    def outcome(self):
        "everything the clients see, now and in what follows"
        w = self.w
        r = []

        def see():
            for x in sorted(w.clients, key=lambda x: getattr(x, "role", "")):
                r.append((x.role if hasattr(x, "role") else x.sock.name, x.sock.closed, [strip(p) for p in x.got()]))
        see()
        # what they have of each other
        probe = w.connect("probe", 5)
        for t in ("t", "u", "w/x"):
            probe.pub(t, b"p" + t.encode(), qos=2, id=1)
            probe.ack(PUBREL, 1)
            see()
        for x in list(w.clients):
            if x.open and x is not probe:
                x.ack(PUBREL, 4)
        see()
        probe.sub("#")
        see()
        for x in list(w.clients):
            if x.open and getattr(x, "cid", "") in ("c", "d"):
                x.die()
        see()
        for cid, v in (("c", self.c.ver), ("d", self.d.ver)):
            w.connect(cid, v, clean=False)
            see()
        w.after(8 * 20)
        see()
        return r


def tick(w):
    "the clean-up thread, without the check of the lock"
    ctx = w.ctx
    for t in w.threads:
        def sleep(s, t=t):
            t.running = False
        before = getattr(ctx, "on_sleep", None)
        ctx.on_sleep = sleep
        try:
            t.run()
        finally:
            ctx.on_sleep = before


def strip(p):
    return {k: v for k, v in p.items() if k != "size"}


def same(a, b):
    "comparison of outcomes without forking"
    if isinstance(a, dict) and isinstance(b, dict):
        return land(*[same(a[k], b[k]) for k in a]) if a.keys() == b.keys() else False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return land(*[same(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if hasattr(a, "__len__") and hasattr(b, "__len__") and not isinstance(a, str):
        return seqeq(a, b)
    if a is None or b is None:
        return a is b
    return eq(a, b)


KNOWN = {}


def plain(x):
    if isinstance(x, (list, tuple)):
        return all(plain(y) for y in x)
    if isinstance(x, dict):
        return all(plain(y) for y in x.values())
    return not is_sym(x)


def race(ctx, va, vb, first, other):
    """one request is interrupted at any point by another one, which takes place completely"""
    a = ctx.choice("interrupted", first)
    o = ctx.choice("interrupting", other)
    if "keep alive" in (a, o):
        pause = 8 * 16
    elif "clean up" in (a, o):
        pause = 8 * ctx.choice("pause", [4, 6])
    else:
        pause = 0
    begin = ctx.now_num

    def setup():
        ctx.now_num = begin
        s = Two(ctx, va, vb)
        ctx.advance(pause)
        return s

    def sequential():
        outcomes = []
        for order in (("c", a), ("d", o)), (("d", o), ("c", a)):
            s = setup()
            for who, what in order:
                if who == "d":
                    events = []
                    ctx.on_point = lambda kind, what: events.append((kind, what))
                s.run(who, what)
                ctx.on_point = None
            outcomes.append(s.outcome())
        first = [e for e in events if e[0] not in ("recv", "select", "log")][:1]
        return outcomes, first == [("acquire", s.w.lock)]   # it does nothing before it has the lock

    key = (va, vb, a, o, pause)
    if ctx.symbolic and key in KNOWN:
        outcomes, waits = KNOWN[key]
    else:
        n = ctx.engine.pos if ctx.symbolic else 0
        outcomes, waits = sequential()
        if ctx.symbolic and ctx.engine.pos == n and plain(outcomes):
            KNOWN[key] = outcomes, waits        # nothing in it depends on the path
    s = setup()
    n = [0]

    def blocked():
        # the lock is held by the interrupted thread: the other one waits, as if it had come later
        ctx.on_point = None
        ctx.assume(False)

    def at(kind, what):
        n[0] += 1
        if kind == "select" or waits and s.w.lock.n:
            return
        if ctx.bool("here"):
            ctx.on_point = None
            ctx.log("interrupted at point", n[0])
            me, ctx.thread = ctx.thread, 1
            s.w.balanced = lambda: None
            s.run("d", o)
            del s.w.balanced
            ctx.thread = me
    ctx.on_block = blocked
    ctx.on_point = at
    s.run("c", a)
    ctx.assume(ctx.on_point is None)        # otherwise it was not interrupted
    s.w.balanced()
    r = s.outcome()
    ctx.check(lor(*[same(r, x) for x in outcomes]), "the outcome is that of one request after the other",
              lambda: [(x, y, z) for x, y, z in zip(r, outcomes[0], outcomes[1]) if x != y or x != z])


OPS = ["publish", "publish 2", "pubrel", "ack", "subscribe", "unsubscribe", "disconnect", "end", "malformed", "again", "clean", "new", "keep alive", "clean up"]


def make(tier):
    q = tier == "quick"
    H = []
    for va, vb in ((5, 5), (5, 311), (311, 5), (311, 311)):
        for a in OPS:
            if q and va != vb and a in ("publish 2", "pubrel", "unsubscribe", "malformed", "ack", "disconnect", "new", "keep alive"):
                continue
            if q and (a == "again" and va < vb or a == "clean" and va > vb):
                continue
            H.append(Harness("%d %d %s" % (va, vb, a), race, "%s interrupted at any call of the environment by any other request" % a, va=va, vb=vb, first=[a], other=OPS))
    return H


if __name__ == "__main__":
    import sys
    sys.exit(main("C25", make))
