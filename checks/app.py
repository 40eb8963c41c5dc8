"""
An application which uses the client library of the repository (mqtt.clients), and the server it is connected to:
the library is the code under test here, the harness plays the server and the application.
"""
from sx import coro, stubs
from sx.load import Loader
from checks.brk import *

SUB = {5: "mqtt.clients.V5", 311: "mqtt.clients.V311"}


class App:
    def __init__(self, ctx, ver, cid="c", callback=True):
        self.ctx, self.ver = ctx, ver
        ctx.thread = 0
        ctx.make_socket = self.socket
        ctx.on_sleep = self.sleep
        ctx.__dict__.setdefault("threads", [])
        self.L = Loader(ctx)
        self.mod = self.L.load(SUB[ver])
        self.lib = self.mod.Client(cid)
        self.socks = []
        self.seen = 0
        self.events = []
        self.accept = lambda m: True
        self.receiver = None
        self.answer = None
        self.partial = None
        self.during = None
        if callback == "default":
            self.lib.registerCallback(self.mod.Callback())
        elif callback:
            self.lib.registerCallback(self.callback())

    def callback(self):
        app = self

        class Callback(self.mod.Callback):
            def connectionLost(self, cause):
                app.events.append(("lost",))

            def publishArrived(self, topicName, payload, qos, retained, msgid, properties=None):
                m = ("message", topicName, payload, qos, retained, msgid, properties)
                app.events.append(m)
                return app.accept(m)

            def published(self, msgid):
                app.events.append(("published", msgid))

            def subscribed(self, msgid, data):
                app.events.append(("subscribed", msgid, data))

            def unsubscribed(self, msgid):
                app.events.append(("unsubscribed", msgid))

            def disconnected(self, reasoncode, properties):
                app.events.append(("disconnected", reasoncode, properties))
        return Callback()

    def socket(self, *a, **k):
        s = Sock(self.ctx, "s%d" % len(self.socks))
        s.blocking = True
        s.partial = self.partial
        s.connect = lambda addr: setattr(s, "address", addr)
        self.socks.append(s)
        self.seen = 0
        return s

    @property
    def sock(self):
        return self.socks[-1]

    def sleep(self, s):
        me = coro.current(self.ctx)
        if me is None:
            raise SxExit("sleep outside a thread")
        self.ctx.advance(max(1, int(s * 8)))
        me.yield_("sleep")

    # ---- the application's thread
    def call(self, f, *a, **k):
        "calls the library; meanwhile its receiver runs when the application waits"
        out = []
        n = len(self.ctx.threads)
        c = coro.Coro(self.ctx, lambda: out.append(f(*a, **k)), "app")
        c.resume()
        for _ in range(100):
            for t in self.ctx.threads[n:]:
                n += 1
                f1, a1 = t if isinstance(t, tuple) else (t.run, ())
                self.receiver = coro.Coro(self.ctx, lambda: f1(*a1), "receiver")
            if c.done:
                break
            if self.during is not None:
                self.during()
            if self.receiver is not None:
                self.run()
            c.resume("timeout" if c.waits == "recv" else None)
        else:
            self.ctx.fail("the library does not wait for ever")
        if self.receiver is not None:
            self.run()
        return out[0] if out else None

    def run(self, message=None):
        "the receiver's thread runs until there is nothing to read"
        r = self.receiver
        for i in range(200):
            if r.done or r.running:
                return
            r.resume(message if i == 0 else None)
            if r.waits == "recv" and not self.reading():
                return
        self.ctx.fail("the receiver does not loop without reading")

    def reading(self):
        s = self.sock
        return bool(s.inbuf) or s.ended or s.shut or s.closed

    def connect(self, clean=True, sp=False, rc=0, props=(), split=None, **k):
        "connects; the server answers with CONNACK"
        a = ref.encode({"t": CONNACK, "sp": sp, "rc": rc, "props": list(props) if self.ver == 5 else None}, self.ver)
        make = self.socket

        def mk(*a_, **k_):
            s = make()
            s.feed(ref.mk(a))
            return s
        self.ctx.make_socket = mk
        k["cleanstart" if self.ver == 5 else "cleansession"] = clean
        return self.call(self.lib.connect, **k)

    # ---- the server
    def arrive(self, p):
        "a packet, or bytes, from the server"
        self.sock.feed(p if not isinstance(p, dict) else ref.mk(ref.encode(p, self.ver)))
        self.run()

    def pause(self):
        self.run("timeout")

    def end(self):
        self.sock.ended = True
        self.run()

    def got(self):
        "the packets the library has sent on the present connection since the last call"
        data = []
        for x in self.sock.out[self.seen:]:
            data += list(x)
        self.seen = len(self.sock.out)
        out = []
        try:
            ps = ref.split(data, self.ver)
        except ref.Malformed:
            self.ctx.fail("the library sends only whole packets", data)
        for x in ps:
            try:
                out.append(ref.decode(x, self.ver))
            except ref.Malformed as e:
                self.ctx.fail("the library sends only well formed packets", "%s: %s" % (e, x))
        return out

    def happened(self):
        e, self.events = self.events, []
        return e
