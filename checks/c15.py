"C15: message expiry (MQTT 5)"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *

MAX = 2 ** 32 - 1


def interval(ctx, name):
    "a Message Expiry Interval: absent or 1..2^32-1"
    return ctx.int(name, 1, MAX) if ctx.bool(name + " present") else None


def mp(x):
    return [] if x is None else [(2, x)]


def left(r):
    v = [v for i, v in r["props"] if i == 2]
    return v[0] if v else None


def fits(ctx, x, e, waited, what):
    "the publication r with interval e has waited (eighths of a second)"
    l = left(x)
    if e is None:
        ctx.check(l is None, "no interval is added", lambda: (x, what))
    else:
        ctx.check(l is not None and eq(l, e - waited // 8), "the interval is reduced by the whole seconds the message has waited", lambda: (x, e, waited, what))


def alive(e, waited):
    return True if e is None else bool(waited < e * 8)


def expected(ctx, r, msgs, what):
    "msgs: payload, interval, waited"
    want = [m for m in msgs if alive(m[1], m[2])]
    ctx.check(len(r) == len(want), "expired messages are not sent, others are", lambda: (r, msgs, what))
    for x, (pl, e, t) in zip(r, want):
        ctx.check(seqeq(x["payload"], b(pl)), "in order", lambda: (r, msgs))
        fits(ctx, x, e, t, what)


def online(ctx):
    """sent on at once: the interval is unchanged, for each of several subscribers"""
    w = World(ctx)
    subs = [w.connect(x, 5) for x in "ab"]
    for s in subs:
        s.sub(("t", ctx.choice("qos", [0, 2])))
        s.got()
    p = w.connect("p", 5)
    e = interval(ctx, "interval")
    p.pub("t", b"1", qos=ctx.choice("pub qos", [0, 2]), props=mp(e))
    for s in subs:
        expected(ctx, s.pubs(), [(b"1", e, 0)], "online")


def away(ctx, k, sver=5):
    """messages wait for a client that is away; some expire"""
    w = World(ctx)
    kw = {"clean": False, "props": [(17, 0xFFFFFFFF)]}
    s = w.connect("s", 5, **dict(kw, clean=True))
    s.sub("t")
    s.got()
    s.die()
    p = w.connect("p", 5)
    msgs = []
    for i in range(k):
        e = interval(ctx, "interval")
        pl = ctx.bytes("payload", 1)
        q = ctx.choice("qos", [1, 2])
        p.pub("t", pl, qos=q, id=i + 1, props=mp(e))
        t = ctx.int("eighths", 0, 2 ** 36)
        msgs = [(a, x, y + t) for a, x, y in msgs + [(pl, e, 0)]]
        w.after(t) if ctx.bool("clean-up") else ctx.advance(t)
    s = w.connect("s", 5, **kw)
    r = [s.alias(x) for x in s.got()]
    expected(ctx, r, msgs, "away")
    ctx.check(land(*[eq(x["dup"], False) for x in r]), "first delivery")
    for x in r:
        s.ack(PUBACK if x["qos"] == 1 else PUBREC, x["id"])
        if x["qos"] == 2:
            s.ack(PUBCOMP, x["id"])
    s.got()
    s.die()
    s = w.connect("s", 5, **kw)
    ctx.check(len(s.pubs()) == 0, "nothing is sent again")
    p.pub("t", b"end", qos=1)
    ctx.check(len(s.pubs()) == 1, "expired messages do not take up the client's window")


def retained(ctx, deep):
    """retained messages expire"""
    w = World(ctx)
    p = w.connect("p", 5)
    e = interval(ctx, "interval")
    pl = ctx.bytes("payload", 1)
    p.pub("t", pl, retain=True, qos=ctx.choice("qos", [0, 1]), props=mp(e))
    total = 0
    for i in range(3 if deep else 2):
        t = ctx.int("eighths", 0, 2 ** 36)
        ctx.advance(t)
        total = total + t
        s = w.connect("s%d" % i, 5)
        s.sub("t")
        expected(ctx, s.pubs(), [(pl, e, total)], "retained")
    e2 = interval(ctx, "interval 2")
    p.pub("t", b"2", retain=True, props=mp(e2))
    s = w.connect("z", 5)
    s.sub("#")
    expected(ctx, s.pubs(), [(b"2", e2, 0)], "replaced")


def window(ctx):
    """messages wait because the client's receive maximum is reached"""
    w = World(ctx)
    s = w.connect("s", 5, props=[(33, 1)])
    s.sub("t")
    s.got()
    p = w.connect("p", 5)
    p.pub("t", b"0", qos=1, id=1)
    r = s.got()
    ctx.check(len(r) == 1, "the first one is sent")
    msgs = []
    for i in range(2):
        e = interval(ctx, "interval")
        pl = ctx.bytes("payload", 1)
        p.pub("t", pl, qos=1, id=i + 2, props=mp(e))
        t = ctx.int("eighths", 0, 2 ** 36)
        msgs = [(a, x, y + t) for a, x, y in msgs + [(pl, e, 0)]]
        ctx.advance(t)
    ctx.check(len(s.got()) == 0, "the others wait")
    s.ack(PUBACK, r[0]["id"])
    out = []
    for i in range(4):
        r = s.got()
        ctx.check(len(r) <= 1, "one at a time", lambda: r)
        for x in r:
            out.append(x)
            s.ack(PUBACK, x["id"])
    expected(ctx, out, msgs, "window")


def pubrel(ctx):
    """publish_on_pubrel: the time between PUBLISH and PUBREL counts"""
    w = World(ctx, publish_on_pubrel=True)
    s = w.connect("s", 5)
    s.sub("t")
    s.got()
    p = w.connect("p", 5)
    e = interval(ctx, "interval")
    ret = bool(ctx.bool("retain"))
    p.pub("t", b"1", qos=2, retain=ret, props=mp(e))
    ctx.check(len(s.got()) == 0, "not yet")
    t = ctx.int("eighths", 0, 2 ** 36)
    ctx.advance(t)
    p.ack(PUBREL, 1)
    expected(ctx, s.pubs(), [(b"1", e, t)], "pubrel")
    if ret:
        u = ctx.int("eighths 2", 0, 2 ** 36)
        ctx.advance(u)
        n = w.connect("n", 5)
        n.sub("t")
        expected(ctx, n.pubs(), [(b"1", e, t + u)], "pubrel retained")


def will(ctx):
    """the interval of a will message starts when it is published"""
    w = World(ctx)
    e = interval(ctx, "interval")
    p = w.connect("p", 5, props=[(17, 1000)], will={"topic": "t", "payload": b"W", "qos": 1, "retain": True, "props": mp(e) + [(24, 20)]})
    s = w.connect("s", 5)
    s.sub("t")
    s.got()
    p.die()
    w.after(8 * 10)
    ctx.check(len(s.got()) == 0, "not yet")
    w.after(8 * 15)
    expected(ctx, s.pubs(), [(b"W", e, 0)], "will")
    t = ctx.int("eighths", 0, 2 ** 36)
    ctx.advance(t)
    n = w.connect("n", 5)
    n.sub("t")
    expected(ctx, n.pubs(), [(b"W", e, t)], "will retained")


def make(tier):
    deep = tier == "thorough"
    return [Harness("online", online, "two subscribers"),
            Harness("away 1", away, "1 message, any interval and time", k=1),
            Harness("away %d" % (3 if deep else 2), away, "messages with any intervals and times between them", k=3 if deep else 2),
            Harness("retained", retained, "any interval and times", deep=deep),
            Harness("window", window, "two waiting messages"),
            Harness("pubrel", pubrel, "one message"),
            Harness("will", will, "one will")]


if __name__ == "__main__":
    import sys
    sys.exit(main("C15", make))
