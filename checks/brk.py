"""
A combined broker (MQTT 3.1.1 and 5.0 sharing one lock and one set of subscriptions and
retained messages, as start.py sets it up) and the clients connected to it.  Everything goes
through the bytes on the sockets: packets are encoded and decoded by the reference codec.
"""
from sx import coro, stubs
from sx.load import Loader
from sx.core import PathStop, SxExit
from sx.vals import land, lor, lnot, eq, ite, is_sym, mkbytes, SymSeq
from checks import ref
from checks.lib import Sock, seqeq
from checks.ref import (CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE,
                        UNSUBACK, PINGREQ, PINGRESP, DISCONNECT, AUTH, WILL)

MAXP = 2 ** 28 - 1
INTERNAL = (PathStop, SxExit)


def b(x):
    "list of bytes of a str / bytes / list"
    if isinstance(x, str):
        x = x.encode("utf-8")
    elif isinstance(x, SymSeq) and hasattr(x, "encode"):
        x = x.encode("utf-8")
    return list(x)


class Server:
    "the listening socket's server object, as socketserver would make it"


def socketserver(ctx):
    "the part of socketserver which runs a handler for a connection"
    class BaseRequestHandler:
        def __init__(self, request, client_address, server):
            self.request, self.client_address, self.server = request, client_address, server
            self.setup()
            try:
                self.handle()
            finally:
                self.finish()

        def setup(self):
            pass

        def handle(self):
            pass

        def finish(self):
            pass

    class StreamRequestHandler(BaseRequestHandler):
        def setup(self):
            self.connection = self.request
            self.rfile = self.wfile = None

    class TCPServer:
        allow_reuse_address = False
        request_queue_size = 5
        kind = "tcp"

        def __init__(self, server_address, RequestHandlerClass, bind_and_activate=True):
            self.server_address, self.RequestHandlerClass = server_address, RequestHandlerClass
            self.socket = None
            self.serving = self.stopped = False
            self.bound = self.active = bind_and_activate
            ctx.__dict__.setdefault("servers", []).append(self)

        def server_bind(self):
            self.bound = True

        def server_activate(self):
            self.active = True

        def serve_forever(self, poll_interval=0.5):
            self.serving = self.bound and self.active
            me = coro.current(ctx)
            try:
                while not self.stopped:
                    if me is None:
                        raise KeyboardInterrupt
                    if me.yield_("serve") == "signal":
                        ctx.signals[15](15, None)
            finally:
                self.serving = False

        def shutdown(self):
            self.stopped = True

        def server_close(self):
            pass

    class UDPServer(TCPServer):
        kind = "udp"

    class Mix:
        daemon_threads = False

    class HTTPServer(TCPServer):
        kind = "http"
        server_name, server_port = "localhost", 80
    ctx.http = stubs._M("http", server=stubs._M("http.server", HTTPServer=HTTPServer, BaseHTTPRequestHandler=httphandler(ctx)))
    return stubs._M("socketserver", BaseRequestHandler=BaseRequestHandler, StreamRequestHandler=StreamRequestHandler, TCPServer=TCPServer,
                    UDPServer=UDPServer, DatagramRequestHandler=StreamRequestHandler, BaseServer=TCPServer, ThreadingMixIn=Mix,
                    ThreadingTCPServer=type("ThreadingTCPServer", (Mix, TCPServer), {}), ThreadingUDPServer=type("ThreadingUDPServer", (Mix, UDPServer), {}))


class Wfile:
    "what a handler writes"
    closed = False

    def __init__(self):
        self.parts = []

    def write(self, x):
        self.parts.append(x)
        return len(x)

    def flush(self):
        pass


def httphandler(ctx):
    "the handler of the standard library, for a request which is there as bytes"
    import http.server
    import io

    class BaseHTTPRequestHandler(http.server.BaseHTTPRequestHandler):
        def setup(self):
            self.connection = self.request
            self.rfile, self.wfile = io.BytesIO(bytes(self.request.data)), self.request.wfile

        def finish(self):
            pass

        def log_message(self, *a):
            pass

        def date_time_string(self, timestamp=None):
            return "now"
    return BaseHTTPRequestHandler


class TLS:
    "an ssl.SSLContext: keeps what it is told"
    verify_mode = sni_callback = None

    def __init__(self, protocol=None):
        self.certs, self.cas, self.ciphers = [], [], None

    def load_cert_chain(self, certfile, keyfile=None, password=None):
        self.certs.append((certfile, keyfile))

    def load_verify_locations(self, cafile=None, capath=None, cadata=None):
        self.cas.append(cafile)

    def set_ciphers(self, c):
        self.ciphers = c

    def wrap_socket(self, sock, server_side=False, **k):
        self.wrapped, self.server_side = sock, server_side
        return ("TLS", self)


class World:
    """direct: the harness plays the listener and hands sockets to the brokers; otherwise each connection is
    handled by the real listener, in a thread of its own.  The listener and brokers are put together as in
    start.py, or (full) by running start.py itself"""

    def __init__(self, ctx, direct=False, full=True, config=None, argv=None, env=None, **opts):
        self.ctx, self.direct = ctx, direct
        self.config, self.argv = config, argv
        self.L = Loader(ctx)
        o = {"visual": False, "persistence": False, "overlapping_single": True, "dropQoS0": True,
             "zero_length_clientids": True, "publish_on_pubrel": False, "topicAliasMaximum": 2,
             "maximumPacketSize": MAXP, "receiveMaximum": 65535, "serverKeepAlive": 60, "maximum_qos": 2,
             "retain_available": True, "subscription_identifier_available": True,
             "shared_subscription_available": True, "server_keep_alive": None}
        o.update(opts)
        self.options = o
        self.clients = []
        n = len(ctx.__dict__.setdefault("threads", []))
        if not direct:
            ctx.select = self.select
            ctx.thread = 0
            self.L.env["socketserver"] = socketserver(ctx)
            self.L.env["http"], self.L.env["http.server"] = ctx.http, ctx.http.server
            ctx.signals = {}
            self.L.env["signal"] = stubs._M("signal", signal=ctx.signals.__setitem__, SIGTERM=15, SIGINT=2)
            import ssl
            self.L.env["ssl"] = stubs._M("ssl", **dict({k: getattr(ssl, k) for k in dir(ssl) if k[0] != "_"}, SSLContext=TLS, create_default_context=lambda *a, **k: TLS()))
        if env is not None:
            env(self.L.env)
        full = full and not direct
        if full:
            self.start()
        else:
            B3 = self.L.load("mqtt.brokers.V311").MQTTBrokers
            B5 = self.L.load("mqtt.brokers.V5").MQTTBrokers
            self.lock = self.L.env["threading"].RLock()
            shared = {}
            self.b3 = B3(options=dict(o), lock=self.lock, sharedData=shared)
            self.b5 = B5(options=dict(o), lock=self.lock, sharedData=shared)
            self.b3.setBroker5(self.b5)
            self.b5.setBroker3(self.b3)
        self.threads = [t for t in ctx.threads[n:] if getattr(getattr(t, "_target", None), "__name__", "") != "serve_forever"]
        if not direct and not full:
            self.tcp = self.L.load("mqtt.brokers.listeners.TCPListeners")
            self.tcp.setBrokers(self.b3, self.b5)
            self.server = self.tcp.create(1883)
            # the thread which accepts connections is played by Client
            self.handler = ctx.servers[-1].RequestHandlerClass
            del ctx.threads[n + len(self.threads):]

    def start(self):
        "the server is started by start.run, in a thread which then serves connections"
        ctx = self.ctx
        self.L.env["mqtt.brokers.coverage"] = stubs._M("mqtt.brokers.coverage", filter=stubs._M("filter", filter=lambda r: True, measure=lambda: None, getmeasures=lambda: None), measure=lambda: None)
        made = self.made = {}
        for name in ("V311", "V5"):
            B = self.L.load("mqtt.brokers." + name).MQTTBrokers

            def init(b, *a, __init__=B.__init__, __name=name, **k):
                made.setdefault(__name, []).append(b)
                if self.config is None and self.argv is None:         # the options the harness wants
                    if a:
                        a = (dict(a[0], **self.options),) + a[1:]
                    elif "options" in k:
                        k["options"] = dict(k["options"], **self.options)
                __init__(b, *a, **k)
            B.__init__ = init
        start = self.L.load("mqtt.brokers.start")
        self.main = coro.Coro(ctx, lambda: start.run(self.config) if self.argv is None else start.main(["startbroker.py"] + self.argv), "main")
        ctx.check(self.main.resume() == "serve", "the server starts and serves")
        self.b3, self.b5 = made["V311"][-1], made["V5"][-1]
        self.servers = [x for x in ctx.servers]
        tcp = [x for x in self.servers if x.kind == "tcp"]
        ctx.check(len(tcp) > 0, "the server starts and serves", lambda: self.servers)
        self.server = tcp[-1]
        self.handler = self.server.RequestHandlerClass
        self.lock = self.b5.lock

    def select(self, r, w, x, t=None):
        "the select call of a listener's thread"
        ctx = self.ctx
        stubs.point(ctx, "select", r)
        if len(r) != 1 or w or x:
            raise SxExit("select on other than one socket")
        n = r[0].fileno()
        if n < 0:
            raise ValueError("file descriptor cannot be a negative integer (-1)")
        c = self.clients[n - 10]
        me = coro.current(ctx)
        if me is None:
            raise SxExit("select outside a thread")
        while True:
            s = c.sock
            if s.shut or s.inbuf or s.ended or s.broken:
                return list(r), [], []
            if s.closed:
                return [], [], []           # the descriptor is gone: select does not notice
            if me.yield_("select") == "timeout":
                return [], [], []

    def settle(self):
        "the threads of connections which another thread has closed find that out"
        for c in self.clients:
            if c.coro is not None and c.coro.started and not c.coro.done and not c.coro.running and (c.sock.closed or c.sock.shut):
                c.coro.resume()
                if c.sock.closed:
                    c.open = False

    def broker(self, ver):
        return self.b5 if ver == 5 else self.b3

    def new(self, ver=5):
        c = Client(self, ver)
        self.clients.append(c)
        return c

    def connect(self, cid, ver=5, **kw):
        c = self.new(ver)
        c.connect(cid, **kw)
        return c

    def tick(self):
        "one round of the broker's clean-up thread(s)"
        ctx = self.ctx
        for t in self.threads:
            n = [0]

            def sleep(s, t=t, n=n):
                n[0] += 1
                t.running = False
                if n[0] > 3:
                    raise SystemExit
            ctx.on_sleep = sleep
            try:
                t.run()
            except SystemExit:
                pass
            finally:
                del ctx.on_sleep
        self.balanced()

    def after(self, seconds_eighths):
        "time passes; the clean-up thread runs at the end of it"
        self.ctx.advance(seconds_eighths)
        self.tick()

    def balanced(self):
        if self.lock.n != 0:
            self.ctx.fail("the broker's lock is released after every request", "held %d times" % self.lock.n)


class Client:
    def __init__(self, world, ver):
        self.w, self.ver, self.ctx = world, ver, world.ctx
        self.sock = Sock(world.ctx, "c%d" % len(world.clients))
        self.sock.fileno = lambda n=len(world.clients): -1 if self.sock.closed else n + 10
        self.open = True
        self.error = None
        self.coro = None
        self.seen = 0
        self.aliases = {}
        self.sent = []

    # ---- what the network does
    def raw(self, data):
        "bytes arrive; if they are not whole packets, the connection ends after them"
        if not self.open:
            return
        self.sock.feed(data)
        if self.w.direct:
            self.read()
        else:
            if len(data) == 0:
                self.sock.ended = True
            if self.coro is None:
                self.coro = coro.Coro(self.ctx, self.thread, self.sock.name)
            self.coro.resume()
            if self.sock.ended and not self.coro.done and not self.coro.running:
                self.ctx.fail("the connection ends when the stream ends", self.sock.name)
        if self.sock.closed:
            self.open = False
        if self.ctx.thread == 0 if not self.w.direct else True:
            if not self.w.direct:
                self.w.settle()
            self.w.balanced()

    def arrive(self, data):
        "bytes arrive on a connection which stays open; the listener does what it can with them"
        self.sock.blocking = True
        self.sock.feed(data)
        self.go()

    def pause(self):
        "more than a second passes without anything arriving"
        self.go("timeout")

    def end(self):
        "the client closes its side"
        self.sock.ended = True
        self.go()

    def go(self, message=None):
        if self.coro is None:
            self.coro = coro.Coro(self.ctx, self.thread, self.sock.name)
        self.coro.resume(message)
        self.open = not self.sock.closed
        self.w.settle()
        if self.coro.waits == "select" or self.coro.done:
            self.w.balanced()

    def thread(self):
        "what the server does with an accepted connection, in a thread"
        try:
            self.w.handler(self.sock, ("127.0.0.1", 40000 + len(self.w.clients)), self.w.server)
        except INTERNAL:
            raise
        except Exception as e:
            self.error = e
        self.sock.close()

    def read(self):
        "the broker reads one packet; what the listener does with the outcome"
        try:
            if self.w.broker(self.ver).handleRequest(self.sock):
                self.drop()
        except INTERNAL:
            raise
        except Exception as e:
            # the listener logs it and closes the socket
            self.error = e
            self.drop()

    def drop(self):
        self.sock.close()
        self.open = False

    def die(self):
        "the network connection ends without DISCONNECT: the broker reads end of file"
        self.raw(b"")

    def idle(self):
        "what the listener does when nothing arrives"
        if self.open:
            if self.w.direct:
                self.w.b3.keepalive(self.sock)
                self.w.b5.keepalive(self.sock)
            elif self.coro is not None:
                self.coro.resume("timeout")
                if self.ctx.thread == 0:
                    self.w.settle()
            if self.sock.closed:
                self.open = False

    def send(self, p):
        if self.ctx.trace is not None and not self.ctx.symbolic:
            self.ctx.log(self.sock.name, "->", p)
        self.raw(ref.mk(ref.encode(p, self.ver)))

    # ---- packets
    def connect(self, cid, clean=True, keep=0, props=(), will=None, user=None, pw=None, **kw):
        self.cid = cid
        if will is not None:
            will = dict(will)
            will.setdefault("qos", 0)
            will.setdefault("retain", False)
            will["topic"], will["payload"] = b(will["topic"]), b(will["payload"])
            will["props"] = sorted(will.get("props", ()), key=lambda x: x[0]) if self.ver == 5 else None
        p = {"t": CONNECT, "cid": b(cid), "clean": clean, "keep": keep, "will": will, "user": user, "pw": pw,
             "props": list(props) if self.ver == 5 else None}
        p.update(kw)
        self.send(p)
        self.connack = None
        got = self.got()
        if got and got[0]["t"] == CONNACK:
            self.connack = got[0]
            self.seen -= len(got) - 1
            got = got[:1]
        return self.connack

    def sub(self, filters, id=1, props=()):
        fs = []
        for f in (filters if isinstance(filters, list) else [filters]):
            f = f if isinstance(f, tuple) else (f, 2)
            fs.append((b(f[0]),) + tuple(f[1:]) + (2, False, False, 0)[len(f) - 1:])
        self.send({"t": SUBSCRIBE, "id": id, "filters": fs, "props": list(props) if self.ver == 5 else None})

    def unsub(self, filters, id=1):
        self.send({"t": UNSUBSCRIBE, "id": id, "filters": [b(f) for f in filters], "props": [] if self.ver == 5 else None})

    def pub(self, topic, payload=b"m", qos=0, retain=False, id=None, dup=False, props=()):
        """qos may be symbolic: decided here"""
        if is_sym(qos):
            qos = qos.__index__()
        if qos > 0 and id is None:
            id = 1
        self.send({"t": PUBLISH, "dup": dup, "qos": qos, "retain": retain, "topic": b(topic), "id": id if qos else None,
                   "payload": b(payload), "props": list(props) if self.ver == 5 else None})

    def ack(self, t, id, rc=0):
        self.send({"t": t, "id": id, "rc": rc, "props": [] if self.ver == 5 else None})

    def disconnect(self, rc=0, props=()):
        self.send({"t": DISCONNECT, "rc": rc, "props": list(props) if self.ver == 5 else None})

    # ---- what the client received
    def got(self):
        "packets received since the last call"
        out = []
        data = []
        for x in self.sock.out[self.seen:]:
            data += list(x)
        self.seen = len(self.sock.out)
        for x in ref.split(data, self.ver):
            try:
                out.append(ref.decode(x, self.ver))
            except ref.Malformed as e:
                self.ctx.fail("the broker sends only well formed packets", "%s: %s" % (e, x))
            out[-1]["size"] = len(x)
        for p in out:
            if not self.ctx.symbolic:
                self.ctx.log(self.sock.name, "<-", p)
        return out

    def pubs(self):
        "publications received, topic aliases resolved; other packets go to self.other"
        r = []
        self.other = []
        for p in self.got():
            if p["t"] != PUBLISH:
                self.other.append(p)
                continue
            r.append(self.alias(p))
        return r

    def alias(self, p):
        for i, v in (p["props"] or []):
            if i == 35:
                if len(p["topic"]) == 0:
                    known = [t for (a, t) in self.aliases.items() if a == v]
                    self.ctx.check(bool(known), "a topic alias without topic name has been set before on this connection")
                    p["topic"] = known[0]
                else:
                    self.aliases[v] = p["topic"]
        if p["props"] is not None:
            p["aliased"] = any(i == 35 for i, v in p["props"])
            p["props"] = [(i, v) for i, v in p["props"] if i != 35]
        return p

    def ackall(self, limit=50):
        "a well behaved client: acknowledges everything and returns the publications, in order of first receipt"
        out = []
        for _ in range(limit):
            ps = self.got()
            if not ps:
                return out
            for p in ps:
                if p["t"] == PUBLISH:
                    out.append(self.alias(p))
                    if p["qos"] == 1:
                        self.ack(PUBACK, p["id"])
                    elif p["qos"] == 2:
                        self.ack(PUBREC, p["id"])
                elif p["t"] == PUBREL:
                    self.ack(PUBCOMP, p["id"])
                else:
                    self.last = p
        self.ctx.fail("the broker stops sending")


def types(ps):
    return [p["t"] for p in ps]


def same_props(a, b):
    "the same properties; only those with the same identifier are ordered"
    if len(a) != len(b) or sorted(i for i, v in a) != sorted(i for i, v in b):
        return False
    cs = []
    for i in set(i for i, v in a):
        for x, y in zip([v for j, v in a if j == i], [v for j, v in b if j == i]):
            cs.append(same_value(x, y))
    return land(*cs)


def same_value(x, y):
    if isinstance(x, tuple):
        return land(seqeq(x[0], y[0]), seqeq(x[1], y[1]))
    if hasattr(x, "__len__"):
        return seqeq(x, y)
    return eq(x, y)
