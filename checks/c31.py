"C31: MQTT-SN: what is published by datagram reaches MQTT subscribers; no other datagram has an effect on them"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *
from checks.topic import matches

CFG = ["listener 1883", "listener 1885 INADDR_ANY mqttsn"]


class Net:
    "the UDP socket"

    def __init__(self):
        self.out = []

    def sendto(self, data, address):
        self.out.append((data, address))
        return len(data)


class UDP:
    def __init__(self, ctx, **kw):
        self.ctx = ctx
        self.w = World(ctx, config=CFG)
        self.server = [x for x in self.w.servers if x.kind == "udp"][0]
        self.net = Net()

    def datagram(self, data, address=1):
        """a datagram arrives: handled in a thread of its own, whose exceptions are logged by socketserver.
        What is sent back, each to the address it came from"""
        n = len(self.net.out)
        self.error = None
        self.ctx.log("datagram", address, data)
        try:
            self.server.RequestHandlerClass((ref.mk(list(data)), self.net), ("127.0.0.1", 50000 + address), self.server)
        except INTERNAL:
            raise
        except Exception as e:
            self.error = e
        self.w.balanced()
        out = self.net.out[n:]
        for d, a in out:
            self.ctx.check(a == ("127.0.0.1", 50000 + address), "answers are sent to where the datagram came from", lambda: out)
        return [list(d) for d, a in out]


def flags(qos, retain=False, clean=False, tid=2, dup=False, will=False):
    "bits: DUP 7, QoS 6-5, RETAIN 4, Will 3, CleanSession 2, TopicIdType 1-0"
    f = (3 if qos == -1 else qos) * 32 + tid
    for v, bit in ((retain, 16), (clean, 4), (dup, 128), (will, 8)):
        f = f + ite(v, bit, 0)
    return f


def publish(topic, data, **kw):
    return [7 + len(data), 0x0C, flags(**kw)] + list(topic) + [0, 0] + list(data)


def connect(cid, clean, dur=0, proto=1):
    return [6 + len(cid), 0x04, flags(0, clean=clean, tid=0), proto, dur // 256, dur % 256] + list(cid)


def ok(t):
    "two bytes which are a topic name: UTF-8 without wildcards and null"
    c = [land(x < 128, lnot(eq(x, 0)), lnot(eq(x, 35)), lnot(eq(x, 43))) for x in t]
    two = land(t[0] >= 0xC2, t[0] <= 0xDF, t[1] >= 0x80, t[1] <= 0xBF)
    return lor(land(*c), two), two


def text(t, two):
    "the characters of the topic"
    return [(t[0] - 0xC0) * 64 + (t[1] - 0x80)] if two else list(t)


def watchers(ctx, u, filters, both=True):
    subs = []
    for v in (311, 5) if both else [ctx.choice("version", [311, 5])]:
        c = u.w.connect("watcher%d" % v, v)
        f = ctx.choice("filter %d" % v, filters)
        c.sub((f, 1) if both else (f, ctx.int("qos %d" % v, 0, 2)) + ((False, ctx.bool("retain as published"), 0) if v == 5 else ()))
        c.got()
        subs.append((c, f))
    return subs


def delivered(ctx, subs, topic, chars, data, good, retain=False):
    "the subscribers get the message, once, if it is one"
    for c, f in subs:
        want = bool(land(good, matches(f, chars))) if good is not False else False
        r = c.pubs()
        ctx.check(len(r) == (1 if want else 0), "subscribers get what is published by datagram, once, and nothing else", lambda: (c.ver, f, topic, r))
        for x in r:
            ctx.check(land(seqeq(x["topic"], topic), seqeq(x["payload"], data), eq(x["qos"], 0), eq(x["dup"], False)), "as it was published", lambda: (r, topic, data))
            if c.ver != 5:
                ctx.check(eq(x["retain"], False), "RETAIN is 0", lambda: r)
        ctx.check(not c.other and c.open, "nothing else is sent to subscribers", lambda: c.other)


def pub(ctx, n, connected):
    """any short topic, data, flags; QoS -1 without connection, or QoS 0 with one"""
    u = UDP(ctx)
    subs = watchers(ctx, u, ["#", "ab", "a/", "$s", "+/+"], both=False)
    if connected:
        r = u.datagram(connect([65], True))
        ctx.check(len(r) == 1 and bool(land(len(r[0]) == 3, *[eq(x, y) for x, y in zip(r[0], (3, 5, 0))])), "CONNECT is answered by CONNACK", lambda: r)
    t = [ctx.int("topic", 0, 255), ctx.int("topic", 0, 255)]
    data = list(ctx.bytes("data", n))
    retain = ctx.bool("retain")
    good, two = ok(t)
    good, two = bool(good), bool(two)
    r = u.datagram(publish(t, data, qos=0 if connected else -1, retain=retain, dup=ctx.bool("dup"), will=ctx.bool("will"), clean=ctx.bool("clean")))
    ctx.check(not r, "a publication with QoS 0 or -1 is not answered", lambda: r)
    delivered(ctx, subs, t, text(t, two), data, good)
    for v in [5 if subs[0][0].ver == 311 else 311]:
        c = u.w.connect("late%d" % v, v)
        c.sub("#")
        r = c.pubs()
        ctx.check(len(r) == (1 if good and not bool(eq(text(t, two)[0], 36)) and n and bool(retain) else 0), "a message is retained if RETAIN is set", lambda: (r, t))
        for x in r:
            ctx.check(land(seqeq(x["topic"], t), seqeq(x["payload"], data), eq(x["qos"], 0), eq(x["retain"], True)), "the retained message is the one published", lambda: r)


def many(ctx, k):
    "publications by datagram and by MQTT clients: to all, in order, the last retained message counts"
    u = UDP(ctx)
    u.datagram(connect([65], True), 1)
    subs = watchers(ctx, u, ["ab"])
    p = {v: u.w.connect("p%d" % v, v) for v in (311, 5)}
    last = None
    for i in range(k):
        who = ctx.choice("by", ["QoS -1", "QoS 0", 311, 5])
        data = list(ctx.bytes("data", ctx.choice("length", [0, 1])))
        retain = bool(ctx.bool("retain"))
        if who in p:
            p[who].pub("ab", ref.mk(data), retain=retain)
        else:
            u.datagram(publish(b"ab", data, qos=int(who[4:]), retain=retain), 1 if who == "QoS 0" else 2)
        if retain:
            last = data or None
        delivered(ctx, subs, list(b"ab"), list(b"ab"), data, True)
    for v in [ctx.choice("late", [311, 5])]:
        c = u.w.connect("late%d" % v, v)
        c.sub("ab")
        r = c.pubs()
        ctx.check(len(r) == (1 if last else 0) and (not r or bool(land(seqeq(r[0]["payload"], last), eq(r[0]["retain"], True)))), "the last message with RETAIN is retained", lambda: (r, last))


def junk(ctx, n, first=None):
    """any bytes: only a whole PUBLISH with QoS -1 and a short topic has an effect on others"""
    u = UDP(ctx)
    subs = []
    for v in (311, 5):
        c = u.w.connect("watcher%d" % v, v)
        c.sub("#")
        c.got()
        subs.append((c, "#"))
    d = list(ctx.bytes("datagram", n))
    if first is not None:
        ctx.assume(eq(d[1], first))
    u.datagram(d)
    is_pub = False
    if n >= 7:
        qos3 = eq((d[2] // 32) % 4, 3)
        is_pub = bool(land(eq(d[0], n), eq(d[1], 0x0C), qos3, eq(d[2] % 4, 2)))
    good = two = False
    if is_pub:
        good, two = ok(d[3:5])
        good, two = bool(good), bool(two)
    delivered(ctx, subs, d[3:5], text(d[3:5], two) if is_pub else [], d[7:], good)
    p = u.w.connect("p", 5)
    p.pub("xy", b"x")
    for c, f in subs:
        r = c.pubs()
        ctx.check(len(r) == 1 and bool(seqeq(r[0]["payload"], b"x")), "the server goes on", lambda: r)


def session(ctx, k):
    """CONNECT from addresses: who is connected can publish with QoS 0, others not; a client identifier has one address"""
    u = UDP(ctx)
    subs = []
    for v in (311, 5):
        c = u.w.connect("watcher%d" % v, v)
        c.sub("#")
        c.got()
        subs.append((c, "#"))
    at = {}       # address -> identifier
    for i in range(k):
        what = ctx.choice("what", ["connect", "publish", "anonymous", "wrong protocol"])
        a = ctx.choice("address", [1, 2])
        if what == "connect":
            if a in at:              # whether it stays connected is not stated in the specification
                ctx.assume(False)
            cid = list(ctx.bytes("client", ctx.choice("length of the identifier", [1, 0, 2])))
            for x in cid:
                ctx.assume(land(x > 32, x < 127))
            clean = bool(ctx.bool("clean"))
            r = u.datagram(connect(cid, clean, ctx.int("duration", 0, 65535)), a)
            ctx.check(len(r) == 1 and len(r[0]) == 3 and bool(land(eq(r[0][0], 3), eq(r[0][1], 5))), "CONNECT is answered by CONNACK", lambda: r)
            acc = bool(eq(r[0][2], 0))
            ctx.check(acc == (bool(cid) or clean), "CONNECT is accepted, unless a session is asked for without identifier", lambda: (cid, clean, r))
            if acc:
                if cid:
                    at = {x: y for x, y in at.items() if not bool(seqeq(y, cid))}
                at[a] = cid
        elif what == "wrong protocol":
            if a in at:
                ctx.assume(False)
            v = ctx.int("protocol", 0, 255)
            ctx.assume(lnot(eq(v, 1)))
            r = u.datagram(connect([65], True, proto=v), a)
            ctx.check(len(r) == 1 and len(r[0]) == 3 and bool(land(eq(r[0][0], 3), eq(r[0][1], 5), lnot(eq(r[0][2], 0)))), "CONNECT with another protocol is refused", lambda: r)
        else:
            q = 0 if what == "publish" else -1
            data = list(ctx.bytes("data", 1))
            u.datagram(publish(b"ab", data, qos=q), a)
            delivered(ctx, subs, list(b"ab"), list(b"ab"), data, q == -1 or a in at)


def takeover(ctx, k):
    """k clients, each from an address of its own: any identifiers. Who connects again with an identifier which is in use takes it over"""
    u = UDP(ctx)
    c = u.w.connect("watcher", 5)
    c.sub("#")
    c.got()
    at = {}
    n = ctx.choice("length of identifiers", [1, 2])
    for a in range(1, k + 1):
        cid = [ctx.int("identifier", 33, 126) for _ in range(n)]
        u.datagram(connect(cid, ctx.bool("clean")), a)
        at = {x: y for x, y in at.items() if not bool(seqeq(y, cid))}
        at[a] = cid
    for a in range(1, k + 1):
        u.datagram(publish(b"ab", b"x", qos=0), a)
        delivered(ctx, [(c, "#")], list(b"ab"), list(b"ab"), list(b"x"), a in at)


def make(tier):
    q = tier == "quick"
    h = []
    for con in (False, True):
        for n in (0, 1) if q else (0, 1, 2):
            h.append(Harness("publish %s, %d bytes" % ("QoS 0" if con else "QoS -1", n), pub, "any topic of two bytes, any flags, 5 filters, %d bytes of data" % n, n=n, connected=con))
    h.append(Harness("many", many, "%d publications" % (2 if q else 3), k=2 if q else 3))
    for n in range(0, 9 if q else 11):
        h.append(Harness("datagram %d" % n, junk, "all datagrams of %d bytes" % n, n=n))
    h.append(Harness("session", session, "%d events, 2 addresses, all identifiers of up to 2 printable ASCII characters" % (3 if q else 4), k=3 if q else 4))
    h.append(Harness("takeover", takeover, "%d connections, each from its own address, with any identifiers of 1 or 2 printable ASCII characters" % (3 if q else 4), k=3 if q else 4))
    return h


if __name__ == "__main__":
    raise SystemExit(main("C31", make))
