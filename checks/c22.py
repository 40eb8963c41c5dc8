"C22: connections: CONNECT first and once, client identifiers, taking over"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *
from checks.c11 import KEEP


def conn(name="c", ver=5, **k):
    return dict({"t": CONNECT, "cid": b(name), "clean": True, "keep": 0, "will": None, "user": None, "pw": None, "props": [] if ver == 5 else None}, **k)


def packet(t, ver):
    "one well formed packet of each type"
    P = [] if ver == 5 else None
    return {CONNECT: conn(ver=ver), CONNACK: {"t": CONNACK, "sp": False, "rc": 0, "props": P},
            PUBLISH: {"t": PUBLISH, "dup": False, "qos": 1, "retain": True, "topic": b("t"), "id": 1, "payload": b(b"x"), "props": P},
            PUBACK: {"t": PUBACK, "id": 1, "rc": 0, "props": P}, PUBREC: {"t": PUBREC, "id": 1, "rc": 0, "props": P},
            PUBREL: {"t": PUBREL, "id": 1, "rc": 0, "props": P}, PUBCOMP: {"t": PUBCOMP, "id": 1, "rc": 0, "props": P},
            SUBSCRIBE: {"t": SUBSCRIBE, "id": 1, "filters": [(b("t"), 1, False, False, 0)], "props": P}, SUBACK: {"t": SUBACK, "id": 1, "codes": [0], "props": P},
            UNSUBSCRIBE: {"t": UNSUBSCRIBE, "id": 1, "filters": [b("t")], "props": P}, UNSUBACK: {"t": UNSUBACK, "id": 1, "codes": [0], "props": P},
            PINGREQ: {"t": PINGREQ}, PINGRESP: {"t": PINGRESP}, DISCONNECT: {"t": DISCONNECT, "rc": 0, "props": P},
            AUTH: {"t": AUTH, "rc": 0x18, "props": [(21, b("m"))]}}[t]


def first(ctx, ver):
    """anything but CONNECT as the first packet closes the connection and does nothing"""
    w = World(ctx)
    o = w.connect("o", ver)
    o.sub("#")
    o.got()
    t = ctx.choice("type", [x for x in range(2, 16) if x != AUTH or ver == 5])
    c = w.new(ver)
    c.send(packet(t, ver))
    r = c.got()
    ctx.check(not c.open, "the connection is closed")
    ctx.check(all(x["t"] == DISCONNECT and x["rc"] >= 0x80 for x in r), "at most a DISCONNECT with an error is sent", lambda: r)
    ctx.check(o.open and len(o.got()) == 0, "nothing is published")
    n = w.connect("n", ver)
    n.sub("#")
    ctx.check(len(n.pubs()) == 0, "nothing is retained")
    o.pub("t", b"x")
    ctx.check(len(c.got()) == 0, "nothing is subscribed to")


def second(ctx, ver):
    """a second CONNECT closes the connection, as do packets which only a server sends; nothing after it is processed"""
    w = World(ctx)
    o = w.connect("o", ver)
    o.sub("#")
    o.got()
    c = w.connect("c", ver)
    t = ctx.choice("type", [CONNECT, CONNACK, SUBACK, UNSUBACK, PINGRESP] + ([AUTH] if ver == 5 else []))
    if t == CONNECT and ctx.bool("other id"):
        c.send(conn("d", ver))
    else:
        c.send(packet(t, ver))
    r = c.got()
    ctx.check(not c.open, "the connection is closed")
    ctx.check(types(r) == ([DISCONNECT] if ver == 5 else []) and all(x["rc"] >= 0x80 for x in r), "an MQTT 5 client is told by DISCONNECT", lambda: r)
    ctx.check(o.open and len(o.got()) == 0, "others do not notice")
    d = w.connect("d", ver, clean=False)
    ctx.check(eq(d.connack["sp"], False), "no session was made")


def after(ctx, ver):
    """after DISCONNECT nothing is sent, and the client is gone"""
    w = World(ctx)
    o = w.connect("o", ver)
    c = w.connect("c", ver, **(KEEP[ver] if ctx.bool("kept") else {}))
    c.sub("t")
    c.got()
    c.disconnect()
    ctx.check(not c.open, "the connection is closed by the server")
    o.pub("t", b"x", qos=ctx.choice("qos", [0, 1, 2]))
    r = c.got()
    ctx.check(len(r) == 0, "nothing is sent after DISCONNECT", lambda: r)


def accept(ctx, ver, n):
    """any client identifier, user name and password is accepted by exactly one CONNACK, the first packet sent"""
    w = World(ctx)
    cid = ctx.str("client id", n, lo=0x20, hi=0x7E)
    user = ctx.choice("user", [None, "u"])
    pw = b(b"pw") if user and ctx.bool("password") else None
    c = w.new(ver)
    c.send(conn("", ver, cid=b(cid), clean=ctx.bool("clean"), keep=ctx.int("keep", 0, 60), user=b(user) if user else None, pw=pw))
    r = c.got()
    ctx.check(c.open and types(r) == [CONNACK], "one CONNACK", lambda: r)
    ctx.check(land(eq(r[0]["rc"], 0), eq(r[0]["sp"], False)), "accepted", lambda: r)
    ctx.check(not [1 for i, v in r[0]["props"] or [] if i == 18], "the identifier is that of the client")


def empty(ctx, ver, allowed):
    """an empty client identifier"""
    w = World(ctx, zero_length_clientids=allowed)
    cs = []
    for i in range(2):
        c = w.new(ver)
        clean = bool(ctx.bool("clean"))
        c.send(conn("", ver, clean=clean))
        r = c.got()
        ctx.check(types(r) == [CONNACK], "CONNACK", lambda: r)
        if ver == 311 and (not clean or not allowed):
            ctx.check(r[0]["rc"] == 2 and not r[0]["sp"] and not c.open, "3.1.1: identifier rejected, if the session is to be kept", lambda: r)
            continue
        ctx.check(c.open and r[0]["rc"] == 0 and not r[0]["sp"], "accepted, with a new session", lambda: r)
        if ver == 5:
            a = [v for i, v in r[0]["props"] if i == 18]
            ctx.check(len(a) == 1 and len(a[0]) > 0, "the client is told its identifier", lambda: r)
            c.assigned = a[0]
        c.sub("t")
        c.got()
        cs.append(c)
    for c in cs:
        ctx.check(c.open, "they are different clients")
    if cs:
        cs[0].pub("t", b"x")
        for c in cs:
            ctx.check(len(c.pubs()) == 1, "they are different clients")
    if ver == 5 and len(cs) == 2:
        ctx.check(lnot(seqeq(cs[0].assigned, cs[1].assigned)), "with different identifiers")
        n = w.new(ver)
        n.send(conn("", ver, cid=list(cs[0].assigned)))
        n.got()
        ctx.check(bool(cs[0].sock.closed) and not cs[1].sock.closed, "the assigned identifier is the client's identifier")


def over(ctx, ver, n):
    """a connection with the identifier of a connected client closes that one's connection, and no other"""
    w = World(ctx)
    lens = ctx.choice("lengths", [(n, n, n), (n + 1, n, n), (n, n + 1, n), (n + 1, n + 1, n), (n, n, n + 1)])
    ids = [ctx.str("id %d" % i, m, alphabet="aA ") for i, m in enumerate(lens)]
    ctx.assume(lnot(seqeq(b(ids[0]), b(ids[1]))))
    kw = dict(KEEP[ver])
    cs = []
    for i in range(2):
        c = w.new(ver)
        c.send(conn("", ver, cid=b(ids[i]), clean=False, props=kw.get("props") if ver == 5 else None))
        c.got()
        c.sub("t")
        c.got()
        cs.append(c)
    c = w.new(ver)
    clean = bool(ctx.bool("clean"))
    c.send(conn("", ver, cid=b(ids[2]), clean=clean, props=kw.get("props") if ver == 5 else None))
    r = c.got()
    ctx.check(len(r) == 1 and r[0]["t"] == CONNACK and r[0]["rc"] == 0 and c.open, "the new connection is accepted", lambda: r)
    same = [bool(seqeq(b(ids[i]), b(ids[2]))) for i in range(2)]
    ctx.check(eq(r[0]["sp"], any(same) and not clean), "it has the session of this identifier", lambda: (r, ids))
    for x, s in zip(cs, same):
        ctx.check(bool(x.sock.closed) == s, "the old connection is closed, others are not", lambda: (ids, same))
        q = x.got()
        if s and ver == 5:
            ctx.check(types(q) == [DISCONNECT] and q[0]["rc"] == 0x8E, "it is told that the session was taken over", lambda: q)
        else:
            ctx.check(not q, "nothing else is sent", lambda: q)
        x.open = not x.sock.closed
    p = w.connect("publisher", ver)
    p.pub("t", b"x", qos=1)
    for x, s in zip(cs, same):
        ctx.check(len(x.pubs()) == (0 if s else 1), "messages go to the new connection", lambda: (ids, same))
    ctx.check(len(c.pubs()) == (1 if any(same) and not clean else 0), "messages go to the new connection", lambda: (ids, same))


def pending(ctx, ver):
    """the messages in flight are sent again to the connection which took over; the end of the old connection changes nothing"""
    w = World(ctx)
    s = w.connect("s", ver, **KEEP[ver])
    s.sub("t")
    s.got()
    p = w.connect("p", ver)
    q = ctx.choice("qos", [1, 2])
    pl = ctx.bytes("payload", 1)
    p.pub("t", pl, qos=q)
    s.pubs()
    n = w.connect("s", ver, **KEEP[ver])
    r = n.got()
    ctx.check(len(r) == 1 and r[0]["t"] == PUBLISH and land(seqeq(r[0]["payload"], b(pl)), eq(r[0]["dup"], True)), "sent again", lambda: r)
    # the listener's thread of the old connection has found it closed
    ctx.check(s.coro.done, "the thread of the old connection has ended")
    w.balanced()
    ctx.check(n.open and not n.sock.closed, "the new connection stays open")
    n.ack(PUBACK if q == 1 else PUBREC, r[0]["id"])
    if q == 2:
        ctx.check(types(n.got()) == [PUBREL], "PUBREL")
        n.ack(PUBCOMP, r[0]["id"])
    p.pub("t", b"2", qos=1, id=2)
    r = n.pubs()
    ctx.check(len(r) == 1 and seqeq(r[0]["payload"], b(b"2")), "the new connection is in use", lambda: r)


def make(tier):
    deep = tier == "thorough"
    hs = []
    for ver in (5, 311):
        hs += [Harness("first %d" % ver, first, "every packet type", ver=ver), Harness("second %d" % ver, second, "packets which are not allowed", ver=ver),
               Harness("after %d" % ver, after, "DISCONNECT", ver=ver),
               Harness("accept %d" % ver, accept, "identifiers of %d characters" % (4 if deep else 2), ver=ver, n=4 if deep else 2),
               Harness("empty %d" % ver, empty, "two clients", ver=ver, allowed=True),
               Harness("over %d" % ver, over, "3 identifiers of %d characters, or one more" % (2 if deep else 1), ver=ver, n=2 if deep else 1),
               Harness("pending %d" % ver, pending, "one message", ver=ver)]
    hs.append(Harness("empty 311 refused", empty, "zero length client ids not allowed", ver=311, allowed=False))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C22", make))
