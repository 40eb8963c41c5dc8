"C30: the server is what its configuration and command line say"
import os
import tempfile
from sx import coro
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *

# option of the configuration, the property of CONNACK which announces it
OPTIONS = {"receive_maximum": 33, "topic_alias_maximum": 34, "maximum_packet_size": 39, "message_size_limit": 39, "server_keep_alive": 19}
NOISE = ["", "# listener 1", "  # receive_maximum 1", "allow_anonymous true", "log_type error", "loglevel info", "persistence false", "\n"]


def digits(ctx, name, k):
    "a number of k digits: its text and its value"
    s = ctx.str(name, k, lo=48, hi=57)
    v = 0
    for ch in s:
        v = v * 10 + (ord(ch) if isinstance(ch, str) else ch.e[0]) - 48
    return s, v


def serving(ctx, w):
    "the threads which the server started for its listeners run"
    for t in ctx.threads:
        if getattr(getattr(t, "_target", None), "__name__", "") == "serve_forever":
            t.coro = coro.Coro(ctx, t.run, "listener")
            t.coro.resume()


def hello(ctx, w, server, keep=0, ver=5):
    w.handler, w.server = server.RequestHandlerClass, server
    return w.connect("c%d" % len(w.clients), ver, keep=keep)


def options(ctx, names, places):
    "options anywhere in the configuration are announced, and kept to"
    lines = {"first": [], "after": [], "last": []}
    want = {}
    for n in names:
        k = ctx.choice(n + " digits", [1, 3] if n not in ("maximum_packet_size", "message_size_limit") else [3])
        s, v = digits(ctx, n, k)
        ctx.assume(land(v <= 65535, v >= (1 if n != "maximum_packet_size" else 60)))
        if n == "message_size_limit":
            ctx.assume(v >= 60)
        pad = ctx.choice("blanks", ["", " "])
        lines[ctx.choice("place of " + n, places)].append(pad + n + " " + s + pad + "\n")
        want[OPTIONS[n]] = v
    cfg = lines["first"] + ["listener 1883\n"] + lines["after"] + ["listener 1884\n"] + lines["last"]
    w = World(ctx, config=cfg)
    keep = ctx.choice("keep alive", [0, 65535])
    c = hello(ctx, w, ctx.choice("listener", w.servers), keep=keep)
    ctx.check(c.connack is not None, "a client is let in")
    if c.connack is None:
        return
    got = dict(c.connack["props"])
    for i, v in want.items():
        if i == 19:
            continue
        if i == 33:
            ctx.check(eq(got.get(i, 65535), v), "the receive maximum is the configured one", lambda: got)
        else:
            ctx.check(eq(got.get(i, 0), v), "the configured limit is announced", lambda: (i, got))
    if 19 in want:
        if keep:
            ctx.check(eq(got.get(19, keep), want[19]) if want[19] < keep else eq(got.get(19, keep), keep),
                      "the configured keep alive is announced to a client with a longer one", lambda: got)


def limits(ctx, what):
    "the configured limit is enforced, and not a smaller one"
    n = ctx.choice("limit", [1, 2, 3] if what != "maximum_packet_size" else [40, 60])
    w = World(ctx, config=["%s %d" % (what, n), "listener 1883"])
    c = hello(ctx, w, w.servers[0], keep=60)
    over = ctx.bool("over")
    if what == "receive_maximum":
        for i in range(n + (1 if over else 0)):
            c.pub("t", b"x", qos=2, id=i + 1)
    elif what == "topic_alias_maximum":
        c.pub("t", b"x", props=[(35, n + (1 if over else 0))])
    elif what == "maximum_packet_size":
        c.pub("t", b"x" * (n - 6 + (1 if over else 0)))      # 2 + 2 + 1 + 1
    else:
        ctx.advance(12 * n + (4 if over else -1))
        c.idle()
    ctx.check(c.open == (not over), "the configured limit is enforced, and no other", lambda: (n, over, c.sock.out))


def listeners(ctx, k):
    "each listener of the configuration is there, on its port, and no other; all of them are one server"
    cfg, want = [], []
    for i in range(k):
        cfg.append(ctx.choice("before", NOISE if k == 1 else NOISE[1:3]))
        port = 1883 + i
        f = ctx.choice("listener", ["port", "host", "any", "mqtt", "sn", "http", "blanks"])
        host = ""
        kind = "tcp"
        if f == "port":
            cfg.append("listener %d" % port)
        elif f == "host":
            cfg.append("listener %d 127.0.0.1\n" % port)
            host = "127.0.0.1"
        elif f == "any":
            cfg.append("listener %d INADDR_ANY\n" % port)
        elif f == "mqtt":
            cfg.append("listener %d INADDR_ANY mqtt\n" % port)
        elif f == "sn":
            cfg.append("listener %d INADDR_ANY mqttsn\n" % port)
            kind = "udp"
        elif f == "http":
            cfg.append("listener %d 127.0.0.1 http\n" % port)
            host, kind = "127.0.0.1", "http"
        else:
            cfg.append("\tlistener  %d  \n" % port)
        want.append((kind, (host, port)))
        cfg.append(ctx.choice("after", ["# listener 1", "max_connections 10", "receive_maximum 7"][:3 if k == 1 else 2]))
    if all(x[0] != "tcp" for x in want):
        cfg.append("listener 2000")
        want.append(("tcp", ("", 2000)))
    w = World(ctx, config=cfg)
    serving(ctx, w)
    ctx.check([(x.kind, x.server_address) for x in w.servers] == want, "the listeners are those of the configuration",
              lambda: (want, [(x.kind, x.server_address) for x in w.servers]))
    for x in w.servers:
        ctx.check(x.serving, "every listener is served", lambda: x.server_address)
        if x.kind == "tcp":
            ctx.check(x.socket is None, "without TLS")
    tcp = [x for x in w.servers if x.kind == "tcp"]
    a = hello(ctx, w, tcp[0])
    b = hello(ctx, w, tcp[-1], ver=ctx.choice("version", [5, 311]))
    a.sub("t", id=1)
    a.got()
    b.pub("t", b"x")
    ctx.check(types(a.got()) == [PUBLISH], "clients of different listeners use one server")


def tls(ctx, k):
    "a listener with certificates takes TLS connections only, which are verified as configured for it"
    cfg, conf = ["listener 1882"], {1882: None}
    for i in range(k):
        opts = []
        ca, cert = bool(ctx.bool("cafile")), bool(ctx.bool("certfile"))
        if ca:
            opts.append("cafile ca%d.crt" % i)
        if cert:
            opts += ["certfile server%d.crt" % i, "keyfile server%d.key" % i]
        req = ctx.choice("require_certificate", [None, "true", "false"])
        if req:
            opts.append("require_certificate " + req)
        proto = ctx.choice("protocol", ["", " INADDR_ANY http"])
        sni = ctx.choice("allow_non_sni_connections", [None, "true", "false"] if k == 1 else [None, "false"]) if not proto else None
        if sni:
            opts.append("allow_non_sni_connections " + sni)
        if k == 1 and ctx.bool("reversed"):
            opts.reverse()
        port = 8883 + i
        cfg += ["listener %d" % port + proto] + opts
        conf[port] = (i, ca, cert, req, sni) if ca or cert else None
    if ctx.bool("a plain listener after it"):
        cfg.append("listener 1884")
        conf[1884] = None
    import ssl
    w = World(ctx, config=cfg)
    ctx.check([x.server_address[1] for x in w.servers] == list(conf), "the listeners are those of the configuration")
    for x in w.servers:
        if conf[x.server_address[1]] is None:
            ctx.check(x.socket is None, "TLS is for the listener it is configured for")
            continue
        i, ca, cert, req, sni = conf[x.server_address[1]]
        ctx.check(type(x.socket) is tuple and x.socket[0] == "TLS" and x.socket[1].server_side and x.socket[1].wrapped is None,
                  "the listener's socket is that of a TLS server")
        t = x.socket[1]
        ctx.check(t.certs == ([("server%d.crt" % i, "server%d.key" % i)] if cert else []), "the configured certificate is used", lambda: t.certs)
        ctx.check(t.cas == (["ca%d.crt" % i] if ca else []), "the configured authorities are used", lambda: t.cas)
        ctx.check(t.verify_mode == (ssl.CERT_OPTIONAL if req == "false" else ssl.CERT_REQUIRED), "client certificates are required unless configured otherwise", lambda: t.verify_mode)
        if t.sni_callback is not None or sni == "false":
            ctx.check(t.sni_callback(None, "host", t) is None, "a connection with a server name is let in")
            r = t.sni_callback(None, None, t)
            ctx.check((r is None) == (sni != "false"), "a connection without server name is let in unless configured otherwise", lambda: r)


def command(ctx):
    "the command line: port and configuration file; without a listener there is the default one"
    how = ctx.choice("arguments", ["none", "--port=", "--port", "-p", "file", "file without listener", "both", "both, without listener"])
    args, want = [], 1883
    name = None
    try:
        if how in ("--port", "-p"):
            args, want = [how, "2001"], 2001
        elif how == "--port=":
            args, want = ["--port=2001"], 2001
        elif how != "none":
            f, name = tempfile.mkstemp(prefix="c30")
            with os.fdopen(f, "w") as f:
                f.write("# a configuration\nreceive_maximum 9\n" + ("" if "without" in how else "listener 2002\n"))
            args = ctx.choice("option", [["-c", name], ["--config-file=" + name]])
            want = 1883 if "without" in how else 2002
            if "both" in how:
                args = args + ["--port=2003"]
                if "without" in how:
                    want = 2003
        w = World(ctx, argv=args)
    finally:
        if name:
            os.unlink(name)
    ctx.check([x.server_address for x in w.servers] == [("", want)], "there is one listener, on the port given", lambda: [x.server_address for x in w.servers])
    c = hello(ctx, w, w.servers[0])
    ctx.check(c.connack is not None and (not name or dict(c.connack["props"]).get(33) == 9), "the configuration is read", lambda: c.connack)


def stop(ctx, k):
    "a server which is told to end does so: no listener goes on, and every client is disconnected"
    n = ctx.choice("listeners", [1, 2, 3])
    w = World(ctx, config=["listener %d" % (1883 + i) + (ctx.choice("protocol", ["", " INADDR_ANY mqttsn", " INADDR_ANY http"]) if i else "") for i in range(n)])
    serving(ctx, w)
    cs = [hello(ctx, w, ctx.choice("listener", [x for x in w.servers if x.kind == "tcp"]), ver=ctx.choice("version", [5, 311])) for i in range(k)]
    for c in cs:
        c.got()
    w.main.resume("signal")
    w.settle()
    ctx.check(w.main.done, "the server ends")
    for x in w.servers[:-1]:
        ctx.check(x.stopped, "every listener is stopped", lambda: x.server_address)
    for c in cs:
        ctx.check(c.sock.closed, "connections are closed")
        got = c.got()
        ctx.check([(p["t"], p["rc"]) for p in got] == ([(DISCONNECT, 0x8B)] if c.ver == 5 else []), "a client of MQTT 5 is told that the server shuts down", lambda: got)
    w.balanced()


def make(tier):
    q = tier == "quick"
    P = ["first", "after", "last"]
    h = [Harness("option " + n, options, "any value of 1 or 3 digits, in three places, two listeners", names=[n], places=P) for n in OPTIONS]
    h += [Harness("options together", options, "four options of any values, in the same or different places", names=["receive_maximum", "topic_alias_maximum"], places=P),
          Harness("options together 2", options, "two options", names=["maximum_packet_size", "server_keep_alive"], places=P)]
    h += [Harness("limit " + n, limits, "limits 1 to 3 (or 40, 60 bytes), at it and over it", what=n) for n in OPTIONS if n != "message_size_limit"]
    h += [Harness("listeners %d" % k, listeners, "%d listeners, each of 7 forms, among other lines" % k, k=k) for k in ((1, 2) if q else (1, 2, 3))]
    h += [Harness("tls", tls, "a TLS listener with any of its options, among others", k=1),
          Harness("two tls", tls, "two TLS listeners with any of their options, among others", k=2),
          Harness("command line", command, "port and configuration file options"),
          Harness("stop", stop, "1 to 3 listeners, %d clients of either version" % (2 if q else 3), k=2 if q else 3)]
    return h


if __name__ == "__main__":
    raise SystemExit(main("C30", make))
