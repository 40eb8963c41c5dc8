"C21: keep alive: a silent client is disconnected after one and a half times the interval, and never earlier"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *


def act(ctx, c, o, what):
    "a packet from the client; every one of them counts"
    if what == "ping":
        c.send({"t": PINGREQ})
    elif what == "publish":
        c.pub("x", b"x")
    elif what == "publish 1":
        c.pub("x", b"x", qos=1)
    elif what == "subscribe":
        c.sub("y")
    elif what == "unsubscribe":
        c.unsub(["y"])
    elif what == "ack":
        c.ack(PUBACK, 77)
    ctx.check(c.open, "the connection is open")
    c.got()


def silent(ctx, ver, k, acts, server):
    """packets at symbolic times, with the listener looking at the connection in between"""
    w = World(ctx, serverKeepAlive=server)
    s = w.connect("s", 5)
    s.sub("w")
    s.got()
    o = w.connect("o", ver, keep=0)
    keep = ctx.int("keep alive", 0, 65535)
    c = w.connect("c", ver, keep=keep, will={"topic": "w", "payload": b"W"})
    ctx.check(c.connack is not None and eq(c.connack["rc"], 0), "accepted")
    told = [v for i, v in c.connack["props"] or [] if i == 19]
    eff = keep
    if ver == 5:
        ctx.check(eq(len(told), ite(keep > server, 1, 0)), "a server keep alive is returned if the client's is longer", lambda: c.connack)
        if told:
            ctx.check(eq(told[0], server), "with the value of the server")
            eff = told[0]
    for i in range(k):
        t = ctx.int("eighths", 0, 8 * 70000 * 2)
        ctx.assume(lnot(eq(t, eff * 12)))
        ctx.advance(t)
        c.idle()
        over = bool(land(eff > 0, t > eff * 12))
        ctx.check(c.open == (not over), "closed if and only if more than 1.5 times the keep alive has passed without a packet", lambda: (keep, eff, t))
        r = s.pubs()
        ctx.check(len(r) == (1 if over else 0), "the will is sent then", lambda: r)
        o.idle()
        ctx.check(o.open and s.open, "other clients are not affected: 0 means no limit")
        if over:
            n = w.connect("c", ver, keep=keep)
            ctx.check(n.connack is not None and eq(n.connack["rc"], 0), "the client can connect again")
            return
        act(ctx, c, o, ctx.choice("packet", acts))


def inactive(ctx, ver):
    """what the broker sends does not count as activity of the client"""
    w = World(ctx)
    p = w.connect("p", ver)
    keep = ctx.int("keep alive", 1, 60)
    c = w.connect("c", ver, keep=keep)
    c.sub("t")
    c.got()
    t1, t2 = ctx.int("t1", 0, 1000), ctx.int("t2", 0, 1000)
    ctx.assume(t1 < keep * 12)
    ctx.assume(lnot(eq(t1 + t2, keep * 12)))
    ctx.advance(t1)
    c.idle()
    p.pub("t", b"x")
    ctx.check(len(c.pubs()) == 1, "delivered")
    ctx.advance(t2)
    c.idle()
    ctx.check(c.open == (not bool(t1 + t2 > keep * 12)), "only packets from the client count", lambda: (keep, t1, t2))


def again(ctx, ver):
    """the interval is that of the current connection, also when a session is resumed"""
    w = World(ctx)
    k1, k2 = ctx.int("first keep alive", 0, 60), ctx.int("second keep alive", 0, 60)
    kw = {"clean": False, "props": [(17, 2 ** 32 - 1)]}
    c = w.connect("c", ver, keep=k1, **kw)
    c.disconnect()
    away = ctx.int("away", 0, 10000)
    ctx.advance(away)
    c = w.connect("c", ver, keep=k2, **kw)
    ctx.check(eq(c.connack["sp"], True), "the session is resumed")
    c.idle()
    ctx.check(c.open, "the time away does not count")
    t = ctx.int("t", 0, 1000)
    ctx.assume(lnot(eq(t, k2 * 12)))
    ctx.advance(t)
    c.idle()
    ctx.check(c.open == (not bool(land(k2 > 0, t > k2 * 12))), "the keep alive of this connection", lambda: (k1, k2, t))


def make(tier):
    deep = tier == "thorough"
    A = ["ping", "publish", "publish 1", "subscribe", "unsubscribe", "ack"]
    hs = []
    for ver in (5, 311):
        hs.append(Harness("each %d" % ver, silent, "keep alive 0..65535, 2 intervals of any length", ver=ver, k=2, acts=A, server=60))
        hs.append(Harness("several %d" % ver, silent, "%d intervals" % (4 if deep else 3), ver=ver, k=4 if deep else 3, acts=["ping", "publish"], server=60))
        hs.append(Harness("inactive %d" % ver, inactive, "two intervals", ver=ver))
        hs.append(Harness("again %d" % ver, again, "two connections", ver=ver))
    hs.append(Harness("server", silent, "server keep alive 1000", ver=5, k=2, acts=["ping"], server=1000))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C21", make))
