"C24: whatever bytes arrive on one connection, other clients and the broker's state are unaffected"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *
from checks.c22 import packet

LONG = "keep/this/long/name"


class Rest:
    "other clients, with what they rely on: nothing short enough to be hit by the hostile packet"

    def __init__(self, ctx, w):
        self.ctx, self.w = ctx, w
        self.s = w.connect("subscriber-5", 5, keep=0)
        self.s.sub([(LONG, 2)])
        self.s3 = w.connect("subscriber-3", 311, keep=0)
        self.s3.sub([(LONG, 1)])
        away = w.connect("away-client", 5, clean=False, props=[(17, 0xFFFFFFFF)])
        away.sub([(LONG, 1)])
        away.disconnect()
        self.p = w.connect("publisher", 5, keep=0)
        self.p.pub("retained/long/name", b"R", retain=True)
        # one message in flight
        self.p.pub(LONG, b"first", qos=2, id=9)
        self.first = [p for p in self.s.pubs()]
        self.s3.got()
        self.p.got()

    def check(self):
        ctx, w = self.ctx, self.w
        for c in (self.s, self.s3, self.p):
            r = c.got()
            ctx.check(c.open and len(r) == 0, "other connections stay open and get nothing", lambda: (c.sock.name, r))
        # the message in flight can be finished
        self.s.ack(PUBREC, self.first[0]["id"])
        r = self.s.got()
        ctx.check(types(r) == [PUBREL], "what was in flight to others goes on", lambda: r)
        self.p.ack(PUBREL, 9)
        r = self.p.got()
        ctx.check(types(r) == [PUBCOMP] and eq(r[0]["rc"], 0), "what others had begun goes on", lambda: r)
        self.p.pub(LONG, b"second", qos=1, id=10)
        ctx.check(types(self.p.got()) == [PUBACK], "others can publish")
        for c, q in ((self.s, 1), (self.s3, 1)):
            r = c.pubs()
            ctx.check(len(r) == 1 and seqeq(r[0]["payload"], b"second") and eq(r[0]["qos"], q) and not c.other, "others get what they subscribed to, once", lambda: (r, c.other))
        a = w.connect("away-client", 5, clean=False)
        ctx.check(a.connack is not None and eq(a.connack["sp"], True), "sessions of others are kept", lambda: a.connack)
        r = a.ackall()
        ctx.check(len(r) == 2 and seqeq(r[0]["payload"], b"first") and seqeq(r[1]["payload"], b"second"), "with what is queued for them", lambda: r)
        n = w.connect("new-client", 5)
        n.sub("retained/long/name")
        r = n.pubs()
        ctx.check(len(r) == 1 and seqeq(r[0]["payload"], b"R"), "retained messages are kept", lambda: r)
        w.tick()
        w.balanced()


def send_raw(c, bs):
    "the bytes arrive and then the end of the stream; the broker reads as long as the connection is open"
    c.sock.feed(ref.mk(bs))
    for _ in range(len(bs) + 2):
        if not c.open:
            return
        c.raw(b"")
    c.ctx.fail("the connection ends when the stream ends")


def noise(ctx, ver, connected, first, n, **opts):
    """any packet type, then n arbitrary bytes"""
    w = World(ctx, **opts)
    rest = Rest(ctx, w)
    x = w.new(ver)
    if connected:
        x.connect("x", keep=0)
    hi = first
    lo = ctx.int("flags", 0, 15)
    body = ctx.bytes("bytes", n)
    bs = [hi * 16 + lo] + list(body)
    send_raw(x, bs)
    received(x)
    rest.check()
    y = w.connect("x", ver)
    ctx.check(y.connack is not None and eq(y.connack["rc"], 0), "the client can connect again", lambda: y.connack)


def framed(ctx, ver, first, n):
    """a packet whose length is right, with arbitrary contents"""
    w = World(ctx)
    rest = Rest(ctx, w)
    x = w.new(ver)
    if first != CONNECT:
        x.connect("x", keep=0)
    bs = [first * 16 + ctx.int("flags", 0, 15), n] + list(ctx.bytes("bytes", n))
    send_raw(x, bs)
    received(x)
    rest.check()
    y = w.connect("x", ver)
    ctx.check(y.connack is not None and eq(y.connack["rc"], 0), "the client can connect again", lambda: y.connack)


def mutated(ctx, ver, t, width):
    """a well formed packet with some bytes overwritten, followed by an intact one, or cut short"""
    w = World(ctx)
    rest = Rest(ctx, w)
    x = w.new(ver)
    if t != CONNECT:
        x.connect("x", keep=0)
    p = packet(t, ver)
    if t == CONNECT:
        p.update(cid=b("x"), keep=5, user=b("u"), pw=b("p"), will={"topic": b("w"), "payload": b("W"), "qos": 1, "retain": True, "props": [] if ver == 5 else None})
        if ver == 5:
            p["props"] = [(17, 9), (33, 5)]
            p["will"]["props"] = [(24, 1)]
    elif ver == 5 and p.get("props") == []:
        p["props"] = {PUBLISH: [(1, 1), (2, 7)], SUBSCRIBE: [(11, 3)], DISCONNECT: [(31, b("r"))]}.get(t, [])
    bs = list(ref.encode(p, ver))
    at = ctx.choice("at", list(range(len(bs) - width + 1)))
    if ctx.bool("cut"):
        bs = bs[:at]
    else:
        bs[at:at + width] = list(ctx.bytes("bytes", width))
        bs += ref.encode({"t": PINGREQ}, ver)
    send_raw(x, bs)
    received(x)
    rest.check()
    y = w.connect("x", ver)
    ctx.check(y.connack is not None and eq(y.connack["rc"], 0), "the client can connect again", lambda: y.connack)


def received(x):
    "what the broker sends is well formed"
    try:
        x.got()
    except ref.Unjudged:
        pass        # an answer to packet identifier 0


def make(tier):
    q = tier == "quick"
    H = []
    for ver in (5, 311):
        for first in range(0, 16):
            H.append(Harness("any %d type %d" % (ver, first), noise, "type %d, symbolic flags, then %d arbitrary bytes and the end" % (first, 3 if q else 5), ver=ver, connected=True, first=first, n=3 if q else 5))
            m = 4 if q else 6
            if ver == 5 and first in (2, 14):
                m -= first // 7
            H.append(Harness("framed %d type %d" % (ver, first), framed, "type %d, symbolic flags, right length, %d arbitrary bytes" % (first, m), ver=ver, first=first, n=m))
            if first in (1, 3, 4, 5, 6, 7, 8, 10, 12, 14):
                H.append(Harness("mutated %d type %d" % (ver, first), mutated, "%d bytes at any place of a packet replaced by arbitrary ones, or cut there" % (1 if q else 2), ver=ver, t=first, width=1 if q else 2))
        H.append(Harness("first %d" % ver, noise, "CONNECT with arbitrary contents on a new connection", ver=ver, connected=False, first=1, n=4))
    return H


if __name__ == "__main__":
    import sys
    sys.exit(main("C24", make))
