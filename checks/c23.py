"C23: reinitializing leaves nothing of what was before"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *

NAMES = ["a", "a/b", "$d/x"]


def reinit(w, order):
    for v in order:
        w.broker(v).reinitialize()


def probe(ctx, w, cids, old):
    "nothing of the past shows on new connections"
    for ver in (5, 311):
        for cid in cids:
            n = w.connect(cid, ver, clean=False)
            ctx.check(n.connack is not None and eq(n.connack["rc"], 0), "a client can connect after reinitializing", lambda: n.connack)
            ctx.check(eq(n.connack["sp"], False), "there is no session any more", lambda: (cid, n.connack))
            ctx.check(len(n.got()) == 0, "nothing is sent to it", lambda: n.sock.out)
            n.disconnect()
    s = w.connect("new", 5)
    s.sub(["#", "$d/#"])
    r = s.pubs()
    ctx.check(len(r) == 0, "there are no retained messages any more", lambda: r)
    p = w.connect("newp", 311)
    for t in NAMES:
        p.pub(t, b"n", qos=1)
        r = s.ackall()
        ctx.check(len(r) == 1 and eq(r[0]["qos"], 1) and lnot(r[0]["retain"]), "new subscriptions and publications work", lambda: r)
    for c in old:
        r = c.got()
        ctx.check(len(r) == 0, "there are no subscriptions any more", lambda: (c.sock.name, r))
    return s, p


def history(ctx, ver, k, order):
    """some operations, reinitialize, and nothing of them is left"""
    w = World(ctx)
    kw = {"clean": False} if ver == 311 else {"clean": False, "props": [(17, ctx.choice("expiry", [0, 100, 0xFFFFFFFF]))]}
    c = w.connect("c", ver, **kw)
    o = w.connect("o", 311 if ver == 5 else 5)
    for i in range(k):
        op = ctx.choice("op", ["sub", "retain", "queue", "in flight", "inbound", "shared", "leave"])
        if op == "sub":
            c.sub(ctx.choice("filter", ["#", "a/+", "$d/#", "a"]), id=2)
        elif op == "shared":
            c.sub("$share/g/#")
        elif op == "retain":
            o.pub(ctx.choice("topic", NAMES), b"r", qos=1, retain=True)
        elif op in ("queue", "in flight"):
            c.sub("a")
            if op == "queue":
                c.disconnect()
            o.pub("a", b"q", qos=ctx.choice("qos", [1, 2]))
        elif op == "inbound":
            c.pub("a", b"i", qos=2, id=7)
        elif op == "leave":
            c.disconnect()
        if not c.open:
            break
    c.got()
    o.got()
    reinit(w, order)
    probe(ctx, w, ["c", "o"], [x for x in (c, o) if x.open])


def wills(ctx, ver, order):
    """wills of connected clients and delayed wills"""
    w = World(ctx)
    delay = ctx.int("delay", 0, 100)
    kw = {"props": [(17, 1000)]} if ver == 5 else {}
    c = w.connect("c", ver, clean=False, will={"topic": "a", "payload": b"W", "props": [(24, delay)], "retain": ctx.bool("retain")}, keep=10, **kw)
    how = ctx.choice("how", ["connected", "gone", "later"])
    if how == "gone":
        if ver == 5:
            ctx.assume(delay > 0)
            c.die()
        else:
            c.disconnect()
    reinit(w, order)
    if how == "later":
        c.die()
    s, p = probe(ctx, w, ["c"], [])
    ctx.advance(ctx.int("eighths", 0, 8 * 2000))
    c.idle()
    w.tick()
    r = s.pubs()
    ctx.check(len(r) == 0, "no will of a client from before is published", lambda: r)
    n = w.connect("n2", 5)
    n.sub("#")
    ctx.check(len(n.pubs()) == 0, "nor retained")


def old(ctx, ver, order):
    """a connection from before ends with its next packet, which has no effect"""
    w = World(ctx)
    c = w.connect("c", ver, clean=False, keep=10)
    c.sub("#")
    c.pub("x", b"x", qos=2, id=3)
    c.got()
    reinit(w, order)
    s, p = probe(ctx, w, [], [c])
    again = ctx.bool("same client connects again")
    if again:
        n = w.connect("c", ver, clean=False)
        n.sub("n")
    what = ctx.choice("packet", ["publish", "subscribe", "unsubscribe", "pubrel", "ping", "disconnect", "end", "puback"])
    if what == "publish":
        c.pub("a", b"o", qos=ctx.choice("qos", [0, 1, 2]), retain=True)
    elif what == "subscribe":
        c.sub("a")
    elif what == "unsubscribe":
        c.unsub(["n"])
    elif what == "pubrel":
        c.ack(PUBREL, 3)
    elif what == "puback":
        c.ack(PUBACK, 1)
    elif what == "ping":
        c.send({"t": PINGREQ})
    elif what == "disconnect":
        c.disconnect(4 if ver == 5 else 0)
    else:
        c.die()
    ctx.check(not c.open, "the connection ends")
    ctx.check(len(c.got()) == 0, "nothing is sent on it")
    p.pub("a", b"z")
    r = s.pubs()
    ctx.check(len(r) == 1 and seqeq(r[0]["payload"], b"z"), "the packet had no effect", lambda: r)
    t = w.connect("t", 5)
    t.sub("#")
    ctx.check(len(t.pubs()) == 0, "nothing was retained")
    if again:
        ctx.check(n.open and len(n.ackall()) == 0, "the new connection of the client is not affected")
        p.pub("n", b"z", qos=1)
        r = n.ackall()
        ctx.check(len(r) == 1 and seqeq(r[0]["payload"], b"z"), "the new connection of the client is not affected", lambda: r)


def make(tier):
    q = tier == "quick"
    H = []
    for ver in (5, 311):
        for order in ((3, 5), (5, 3)):
            if q and order == (5, 3) and ver == 311:
                continue
            n = "%d %s" % (ver, order)
            H.append(Harness("history " + n, history, "up to %d operations on a session, symbolic" % (2 if q else 3), ver=ver, k=2 if q else 3, order=order))
            H.append(Harness("wills " + n, wills, "symbolic delay, time and way", ver=ver, order=order))
            H.append(Harness("old " + n, old, "any packet on a connection from before", ver=ver, order=order))
    return H


if __name__ == "__main__":
    import sys
    sys.exit(main("C23", make))
