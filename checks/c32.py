"C32: the proxies pass everything on, unchanged and in order, to the other side of the same connection"
import sys
from sx import coro, stubs
from sx.load import Loader
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *


class S(Sock):
    def __init__(self, net, name):
        Sock.__init__(self, net.ctx, name)
        self.net, self.blocking, self.address = net, True, None
        self.seen = 0
        net.socks.append(name)
        self.no = len(net.socks)

    def connect(self, address):
        self.address = address
        if self.net.refuse:
            raise ConnectionRefusedError(111, "Connection refused")

    def fileno(self):
        return -1 if self.closed else self.no + 2

    def __del__(self):                  # a socket which is not used any more is closed
        self.net.gone.add(self.name)


class Net:
    "the proxy, and what is at both ends of its connections"

    def __init__(self, ctx, which, argv=(), partial=None):
        self.ctx, self.which, self.partial, self.refuse = ctx, which, partial, False
        self.socks, self.gone = [], set()
        ctx.thread = 0
        ctx.__dict__.setdefault("threads", [])
        ctx.select = self.select
        self.made = []
        ctx.make_socket = self.make
        ctx.signals = {}
        L = self.L = Loader(ctx)
        L.env["socketserver"] = socketserver(ctx)
        class Paho:
            def __init__(self, *a):
                pass

            def connect(self, *a):
                pass
            loop_start = connect
        L.env["paho"] = L.env["paho.mqtt"] = L.env["paho.mqtt.client"] = stubs._M("paho.mqtt.client", Client=Paho)
        L.env["paho"].mqtt = L.env["paho"]
        L.env["paho"].client = L.env["paho"]
        self.mod = L.load(which)
        old = sys.argv
        sys.argv = ["proxy"] + list(argv)
        try:
            self.main = coro.Coro(ctx, self.mod.run, "main")
            ctx.check(self.main.resume() == "serve", "the proxy starts")
        finally:
            sys.argv = old
        self.server = ctx.servers[-1]

    def make(self, *a, **k):
        s = S(self, "server %d" % len(self.made))
        s.partial = self.partial
        self.made.append(s)
        return s

    def select(self, r, w, x, t=None):
        me = coro.current(self.ctx)
        while True:
            for s in r:
                if s.fileno() < 0:
                    raise ValueError("file descriptor cannot be a negative integer (-1)")
            ready = [s for s in r if s.inbuf or s.ended or s.shut]
            if ready:
                return ready, [], []
            me.yield_("select")


class Conn:
    def __init__(self, net, n):
        self.net = net
        self.c = S(net, "client %d" % n)
        self.c.partial = net.partial
        k = len(net.made)
        self.coro = coro.Coro(net.ctx, self.thread, "connection %d" % n)
        self.names = ["client %d" % n, None]
        self.coro.resume()
        self.s = None
        if len(net.made) == k + 1:
            self.s = net.made.pop()
            net.made.append(None)
            self.names[1] = self.s.name

    def thread(self):
        "what socketserver does"
        c = self.c
        try:
            self.net.server.RequestHandlerClass(c, ("127.0.0.1", 40000), self.net.server)
        except INTERNAL:
            raise
        except Exception as e:
            pass
        c.close()
        self.c = None

    def feed(self, to, data):
        "bytes arrive from the client (0) or the server (1)"
        s = (self.c, self.s)[to]
        if s is not None:
            s.feed(ref.mk(list(data)))
        self.coro.resume()

    def end(self, side):
        s = (self.c, self.s)[side]
        if s is not None:
            s.ended = True
        s = None
        self.coro.resume()

    def got(self, side):
        s = (self.c, self.s)[side]
        if s is None:
            return []
        out = []
        for x in s.out[s.seen:]:
            out += list(x)
        s.seen = len(s.out)
        return out

    def over(self):
        "both sides are closed"
        s, c = self.s, self.c
        closed = [s is None or s.closed, c is None or c.closed]
        if all(closed) or not self.coro.done:
            return all(closed)
        s = c = None
        self.s = self.c = None
        return all(x or n in self.net.gone for x, n in zip(closed, (self.names[1], self.names[0])))


WHICH = ["mqtt.proxy.mqttsas", "mqtt.restart.netproxy"]


def packets(ctx, k, to, few=False):
    "a packet of any kind which goes this way"
    if to == 0:
        ps = [({"t": CONNECT, "cid": b("c"), "clean": True, "keep": 0, "will": None, "user": None, "pw": None, "props": None}, 311),
              ({"t": CONNECT, "cid": b("c"), "clean": True, "keep": 0, "will": None, "user": None, "pw": None, "props": [(17, 5)]}, 5),
              ({"t": SUBSCRIBE, "id": 7, "filters": [(b("t"), 1, False, False, 0)], "props": None}, 311),
              ({"t": PINGREQ}, 311)]
    else:
        ps = [({"t": CONNACK, "sp": False, "rc": 0, "props": None}, 311), ({"t": CONNACK, "sp": False, "rc": 0, "props": [(33, 5)]}, 5),
              ({"t": PINGRESP}, 311), ({"t": SUBACK, "id": 7, "codes": [1], "props": None}, 311)]
    ps += [({"t": PUBLISH, "dup": False, "qos": 2, "retain": True, "topic": b("\u00e9"), "id": 300, "payload": list(b"xy\xff"), "props": None}, 311),
           ({"t": PUBLISH, "dup": False, "qos": 0, "retain": True, "topic": b("t"), "id": None, "payload": list(b"x" * 130), "props": [(35, 1)]}, 5),
           ({"t": PUBACK, "id": 300, "rc": 0, "props": None}, 311), ({"t": PUBREC, "id": 300, "rc": 0x80, "props": []}, 5)]
    p, v = ctx.choice("packet %s" % k, ps[:4] if few else ps)
    return list(ref.encode(p, v))


def through(ctx, which, k, two):
    """packets both ways on one or two connections, in any order: each is passed on, whole, to its connection"""
    net = Net(ctx, which)
    cs = [Conn(net, i) for i in range(2 if two else 1)]
    for c in cs:
        ctx.check(c.s is not None and c.s.address == ("localhost", 1883), "each connection gets one to the server", lambda: c.s and c.s.address)
    for i in range(k):
        c = ctx.choice("connection", cs)
        to = ctx.choice("from", [0, 1])
        p = packets(ctx, i, to, two)
        if ctx.bool("with the next"):
            p = p + [0xC0, 0]
        c.feed(to, p)
        for d in cs:
            for side in (0, 1):
                want = p if d is c and side == 1 - to else []
                ctx.check(seqeq(d.got(side), want), "what one side sends is passed on to the other side, and nothing else", lambda: (to, p))
    for c in cs:
        c.end(ctx.choice("ended by", [0, 1]))
        ctx.check(c.coro.done and c.over(), "when one side ends, so does the other", lambda: c.names)


def anything(ctx, which, n, to):
    """a packet of n arbitrary bytes after the header"""
    net = Net(ctx, which)
    c = Conn(net, 0)
    if to:
        c.feed(0, [0x10, 13, 0, 4, 77, 81, 84, 84, 4, 2, 0, 0, 0, 1, 99])
        c.got(1)
    p = [ctx.int("first", 0, 255), n] + list(ctx.bytes("rest", n))
    c.feed(to, p)
    ctx.check(seqeq(c.got(1 - to), p), "packets are passed on whatever they contain", lambda: p)
    ctx.check(len(c.got(to)) == 0 and not c.coro.done, "and the connection goes on")
    c.feed(1 - to, [0xD0, 0])
    ctx.check(seqeq(c.got(to), [0xD0, 0]), "in the other direction as well")


def cut(ctx, which, k, to):
    """the stream is cut anywhere"""
    net = Net(ctx, which)
    c = Conn(net, 0)
    data = []
    for i in range(2):
        data += packets(ctx, i, to, True) if not i else [0x30, 5, 0, 1, 97, ctx.int("payload", 0, 255), 0]
    at = sorted(int(ctx.int("cut", 0, len(data)).__index__()) for i in range(k))
    got = []
    for x, y in zip([0] + at, at + [len(data)]):
        if x < y:
            c.feed(to, data[x:y])
            got += c.got(1 - to)
            ctx.check(not c.got(to), "nothing is sent back")
    ctx.check(seqeq(got, data), "the other side gets the same stream", lambda: (at, got, data))


def slow(ctx, which, to):
    "a socket takes a part of what is sent"
    n = ctx.int("taken", 1, 4)
    net = Net(ctx, which, partial=lambda m: ite(n < m, n, m))
    c = Conn(net, 0)
    p = packets(ctx, 0, to) + packets(ctx, 1, to)
    c.feed(to, p)
    ctx.check(seqeq(c.got(1 - to), p), "all of a packet is passed on", lambda: p)


def half(ctx, which, to):
    "one side ends inside a packet, or before any"
    net = Net(ctx, which)
    c = Conn(net, 0)
    p = packets(ctx, 0, to, True) + packets(ctx, 1, to, True)
    x = ctx.int("sent", 0, len(p)).__index__()
    if x:
        c.feed(to, p[:x])
    c.end(to)
    ctx.check(c.coro.done and c.over(), "when one side ends, so does the other", lambda: x)


def end_command(ctx, n):
    """the topic which ends a connection: only this one does"""
    net = Net(ctx, WHICH[0])
    cs = [Conn(net, 0), Conn(net, 1)]
    for c in cs:
        c.feed(0, [0x10, 13, 0, 4, 77, 81, 84, 84, 4, 2, 0, 0, 0, 1, 99])
        c.got(1)
    topic, pl = b("MQTTSAS topic"), b("TERMINATE")
    where = ctx.choice("changed", ["nothing", "topic", "payload", "topic longer", "payload longer", "any payload", "any topic", "sent by server"])
    x = ctx.int("character", 33, 126)
    i = ctx.choice("where", [0, 1, -1])
    if where == "topic":
        ctx.assume(lnot(eq(x, topic[i])))
        topic[i] = x
    elif where == "payload":
        ctx.assume(lnot(eq(x, pl[i])))
        pl[i] = x
    elif where == "topic longer":
        topic.append(x)
    elif where == "payload longer":
        pl.append(x)
    elif where[:3] == "any":
        old = pl if where == "any payload" else topic
        new = [ctx.int("character", 32, 126) for y in old]
        ctx.assume(lnot(seqeq(new, old)))
        old[:] = new
    q = ctx.choice("qos", [0, 1, 2])
    p = list(ref.encode({"t": PUBLISH, "dup": False, "qos": q, "retain": bool(ctx.bool("retain")), "topic": topic, "id": 3 if q else None, "payload": pl, "props": None}, 311))
    c = cs[1]
    to = 1 if where == "sent by server" else 0
    c.feed(to, p)
    if where == "nothing":
        ctx.check(not c.got(1) and c.coro.done and c.over(), "the command ends the connection, and is not passed on")
    else:
        ctx.check(seqeq(c.got(1 - to), p) and not c.coro.done, "other publications are passed on", lambda: p)
    ctx.check(not cs[0].coro.done and not cs[0].got(0) and not cs[0].got(1), "other connections go on")


def args(ctx, which):
    "host and port of the server, and the port of the proxy, from the command line; a server which is not there"
    a, want, port = ctx.choice("arguments", [((), ("localhost", 1883), 1884), (("localhost",), ("localhost", 1883), 1884), (("localhost", "2000"), ("localhost", 2000), 2001),
                                       (("host",), ("host", 1883), 1883), (("host", "2000"), ("host", 2000), 1883)])
    net = Net(ctx, which, argv=a)
    ctx.check(net.server.server_address == ("", port) and net.server.serving, "the port is the documented one", lambda: net.server.server_address)
    net.refuse = bool(ctx.bool("server not there"))
    c = Conn(net, 0)
    ctx.check(c.s is not None and c.s.address == want, "the server is the one given", lambda: c.s.address)
    if net.refuse:
        ctx.check(c.coro.done and c.over(), "a connection ends if there is none to the server")
    else:
        c.feed(0, [0xC0, 0])
        ctx.check(seqeq(c.got(1), [0xC0, 0]), "what one side sends is passed on to the other side, and nothing else")


def make(tier):
    q = tier == "quick"
    h = []
    for w in WHICH:
        n = w.split(".")[-1]
        h.append(Harness("through %s 1" % n, through, "%d packets both ways" % (2 if q else 3), which=w, k=2 if q else 3, two=False))
        h.append(Harness("through %s 2" % n, through, "2 packets on 2 connections", which=w, k=2, two=True))
        for to in (0, 1):
            d = "from " + ("client", "server")[to]
            for m in range(0, 4 if q else 6):
                h.append(Harness("anything %s %d %s" % (n, m, d), anything, "all packets with %d bytes after the header" % m, which=w, n=m, to=to))
            h.append(Harness("cut %s %s" % (n, d), cut, "2 packets cut at %d places" % (1 if q else 2), which=w, k=1 if q else 2, to=to))
            h.append(Harness("slow %s %s" % (n, d), slow, "1 to 4 bytes are taken at a time", which=w, to=to))
            h.append(Harness("half %s %s" % (n, d), half, "ended anywhere in 2 packets", which=w, to=to))
        h.append(Harness("arguments " + n, args, "5 command lines", which=w))
    h.append(Harness("end command", end_command, "the topic and payload, one character changed or added", n=1))
    return h


if __name__ == "__main__":
    raise SystemExit(main("C32", make))
