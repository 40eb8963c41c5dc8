"C13: sessions: session present, clean start, session expiry, what a session keeps"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq
from checks.brk import *

NEVER = 0xFFFFFFFF


def expiry(ctx, name, kinds=("absent", "zero", "some", "never")):
    "the Session Expiry Interval property of a packet: absent, zero, some value, never"
    k = ctx.choice(name, list(kinds))
    return {"absent": None, "zero": 0, "never": NEVER}.get(k, ctx.int(name + " value", 1, NEVER - 1) if k == "some" else None)


def props(e):
    return [] if e is None else [(17, e)]


class Model:
    def __init__(self):
        self.alive, self.subbed, self.queue = False, False, []


def life5(ctx, rounds, ticks, kinds=("absent", "zero", "some", "never"), leaves=("die", "disconnect", "disconnect with expiry")):
    """MQTT 5: connections of the same client, one after the other, with symbolic clean start, expiry
    intervals, times between them, and messages published while it is away"""
    w = World(ctx)
    p = w.connect("p", 5)
    m = Model()
    for i in range(rounds):
        clean = bool(ctx.bool("clean start"))
        e = expiry(ctx, "expiry", kinds) if i < rounds - 1 else None
        c = w.connect("c", 5, clean=clean, props=props(e))
        ctx.check(c.connack is not None and eq(c.connack["rc"], 0), "the client is accepted", lambda: c.connack)
        present = m.alive and not clean
        ctx.check(eq(c.connack["sp"], present), "session present is 1 if and only if a session is resumed", lambda: (c.connack, m.alive, clean))
        if not present:
            m.subbed, m.queue = False, []
        r = c.ackall()
        ctx.check(len(r) == len(m.queue) and land(*[seqeq(x["payload"], b(y)) for x, y in zip(r, m.queue)]),
                  "the messages that arrived for the session are delivered, no others", lambda: (r, m.queue))
        m.queue = []
        probe(ctx, p, c, m.subbed)
        if i == rounds - 1:
            return
        if not m.subbed and (i == 0 or ctx.bool("subscribe")):
            c.sub(("t", 2))
            c.got()
            m.subbed = True
        life = 0 if e is None else e
        how = ctx.choice("leave", list(leaves))
        if how == "die":
            c.die()
        elif how == "disconnect":
            c.disconnect()
        else:
            e2 = expiry(ctx, "new expiry", kinds)
            nonzero = False if e2 is None else e2 > 0
            ctx.assume(lor(life > 0, lnot(nonzero)))       # otherwise a protocol error
            c.disconnect(props=props(e2))
            life = life if e2 is None else e2
        ctx.check(not c.open, "the connection is closed")
        m.alive = bool(life > 0)
        if ctx.bool("message while away"):
            pl = ctx.bytes("payload", 1)
            p.pub("t", pl, qos=1, id=3)
            p.got()
            if m.subbed:
                m.queue.append(pl)
        t = ctx.int("seconds", 0, NEVER + 10)
        ctx.assume(lor(life == 0, life == NEVER, t < life, t > life + 2))
        if ticks and ctx.bool("clean-up thread runs"):
            w.after(t * 8)
        else:
            ctx.advance(t * 8)
        m.alive = m.alive and bool(lor(life == NEVER, t < life))


def probe(ctx, p, c, subbed):
    p.pub("t", b"probe", qos=1, id=5)
    p.got()
    r = c.ackall()
    ctx.check(len(r) == (1 if subbed else 0), "the session's subscriptions are kept, others are gone", lambda: (r, subbed))


def life3(ctx, rounds):
    """MQTT 3.1.1: clean session 0 keeps the session until the next clean session 1; clean session 1 ends with the connection"""
    w = World(ctx)
    p = w.connect("p", ctx.choice("publisher", [5, 311]))
    m = Model()
    for i in range(rounds):
        clean = bool(ctx.bool("clean session"))
        c = w.connect("c", 311, clean=clean)
        present = m.alive and not clean
        ctx.check(c.connack is not None and land(eq(c.connack["rc"], 0), eq(c.connack["sp"], present)),
                  "session present is 1 if and only if a session is resumed", lambda: (c.connack, m.alive, clean))
        if not present:
            m.subbed, m.queue = False, []
        r = c.ackall()
        ctx.check(len(r) == len(m.queue) and land(*[seqeq(x["payload"], b(y)) for x, y in zip(r, m.queue)]),
                  "the messages that arrived for the session are delivered, no others", lambda: (r, m.queue))
        m.queue = []
        probe(ctx, p, c, m.subbed)
        if ctx.bool("change"):
            if m.subbed:
                c.unsub(["t"])
            else:
                c.sub(("t", 2))
            m.subbed = not m.subbed
            c.got()
        c.die() if ctx.choice("leave", ["die", "disconnect"]) == "die" else c.disconnect()
        m.alive = not clean
        for q in ((1, 2) if ctx.bool("messages while away") else ()):
            pl = ctx.bytes("payload", 1)
            p.pub("t", pl, qos=q, id=3)
            p.ack(PUBREL, 3) if q == 2 else None
            p.got()
            if m.subbed and m.alive:
                m.queue.append(pl)
        w.after(8 * 3600)


def twice(ctx):
    """setting a non-zero expiry on DISCONNECT after zero on CONNECT is a protocol error and does not keep the session"""
    w = World(ctx)
    c = w.connect("c", 5, props=[(17, 0)] if ctx.bool("explicit") else [])
    c.sub("t")
    c.got()
    c.disconnect(props=[(17, ctx.int("expiry", 1, NEVER))])
    r = c.got()
    ctx.check(not c.open and len(r) <= 1 and all(x["t"] == DISCONNECT and x["rc"] == 0x82 for x in r), "the connection is closed with a protocol error", lambda: r)
    c = w.connect("c", 5, clean=False)
    ctx.check(eq(c.connack["sp"], False), "the session is not kept")


def others(ctx, ver):
    """what one client does with its session changes nothing for another"""
    w = World(ctx)
    keep = {"clean": False, "props": [(17, 100)]}
    na, nd = ctx.choice("identifiers", [("c", "cc"), ("cc", "c")])
    a, d = w.connect(na, ver, **keep), w.connect(nd, ver, **dict(keep, clean=ver == 5))
    for x in (a, d):
        x.sub(("t", 1))
        x.got()
    d.die()
    p = w.connect("p", ver)
    p.pub("t", b"1", qos=1)
    p.got()
    how = ctx.choice("how", ["disconnect", "die", "clean start", "unsubscribe", "resume"])
    if how == "unsubscribe":
        a.unsub(["t"])
    elif how == "disconnect":
        a.disconnect(props=[(17, 0)]) if ver == 5 else a.disconnect()
    elif how == "die":
        a.die()
    else:
        a.die()
        a = w.connect(na, ver, **dict(keep, clean=how == "clean start"))
    w.after(ctx.int("eighths", 0, 99 * 8))
    d = w.connect(nd, ver, **keep)
    ctx.check(eq(d.connack["sp"], True), "the other session is still there")
    r = d.ackall()
    ctx.check(len(r) == 1 and seqeq(r[0]["payload"], b(b"1")), "with its messages", lambda: r)
    p.pub("t", b"2", qos=1, id=2)
    r = d.ackall()
    ctx.check(len(r) == 1 and seqeq(r[0]["payload"], b(b"2")), "and its subscriptions", lambda: r)


def many(ctx, ver):
    """a session with several subscriptions ends: none of them is left"""
    w = World(ctx)
    how = ctx.choice("how", ["die", "disconnect", "clean"] + (["expire", "expire early"] if ver == 5 else []))
    keep = how in ("clean", "expire")
    c = w.connect("c", ver, clean=not keep, props=[(17, 10 if keep or how == "expire early" else 0)] if ver == 5 else [])
    fs = ctx.choice("filters", [["t", "u"], ["t", "u", "$d", "t/#", "+", "$d/#"], ["$d", "$d/#", "$d/+", "t", "$d/d", "u", "u/#"]])
    for f in fs:
        c.sub((f, 1))
    c.got()
    if how == "expire early":
        c.disconnect(props=[(17, 0)])
    else:
        c.die() if how != "disconnect" else c.disconnect()
    if how == "expire":
        w.after(8 * 20) if ctx.bool("clean-up thread runs") else ctx.advance(8 * 20)
    p = w.connect("p", ver)
    if ctx.bool("message while away"):
        p.pub("t", b"1", qos=1, id=3)
        p.got()
    c = w.connect("c", ver, clean=how == "clean")
    ctx.check(eq(c.connack["sp"], False), "the session ended", lambda: c.connack)
    for i, t in enumerate(("t", "u", "$d", "$d/d")):
        p.pub(t, b"2", qos=1, id=10 + i)
    ctx.check(p.open and len(c.ackall()) == 0, "no subscription of the session is left")


def inbound(ctx, ver):
    """the identifiers of QoS 2 messages received but not released are part of the session"""
    w = World(ctx)
    keep = {"clean": False, "props": [(17, 100)]}
    o = w.connect("o", ver)
    o.sub("t")
    o.got()
    c = w.connect("c", ver, **dict(keep, clean=ctx.bool("clean start") if ver == 5 else False))
    c.pub("t", b"1", qos=2, id=4)
    c.got()
    c.die()
    clean = ctx.bool("clean")
    c = w.connect("c", ver, **dict(keep, clean=clean))
    c.pub("t", b"1", qos=2, id=4, dup=True)
    r = o.pubs()
    ctx.check(len(r) == (2 if clean else 1), "a retransmission is recognised if and only if the session was kept", lambda: r)


def make(tier):
    deep = tier == "thorough"
    hs = [Harness("life 5 x2", life5, "two connections of one client", rounds=2, ticks=True),
          Harness("life 5 x3", life5, "three connections of one client", rounds=3, ticks=deep,
                  **({} if deep else dict(kinds=("absent", "some"), leaves=("die", "disconnect with expiry")))),
          Harness("life 311", life3, "%d connections of one client" % (4 if deep else 3), rounds=4 if deep else 3),
          Harness("twice", twice, "expiry intervals 1..2^32-1")]
    for ver in (5, 311):
        hs.append(Harness("others %d" % ver, others, "two clients with sessions", ver=ver))
        hs.append(Harness("many %d" % ver, many, "up to 7 subscriptions", ver=ver))
        hs.append(Harness("inbound %d" % ver, inbound, "one QoS 2 message", ver=ver))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C13", make))
