"C33: the HTTP interface shows the state of the server as it is, answers every request, and changes nothing"
import json
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite, is_sym, Opaque, SymStr, SymInt, SymBool, SymBytes
from checks.brk import *

CFG = ["listener 8080 INADDR_ANY http", "listener 1883", "receive_maximum 65535"]


class Text:
    "a JSON text: what it stands for"
    __sx_type__ = str

    def __init__(self, v, end=""):
        self.v, self.end = v, end

    def __add__(self, o):
        return Text(self.v, self.end + o)

    def __bool__(self):
        return True

    def sx_bytes(self, encoding):
        return TextBytes(self)

    def encode(self, encoding="utf-8", errors="strict"):
        return TextBytes(self)

    def __str__(self):
        return "<json>"
    __repr__ = __str__


class TextBytes(Text):
    __sx_type__ = bytes

    def __init__(self, t):
        self.v, self.end = t.v, t.end

    def __len__(self):
        return 100


def snapshot(o, default=None):
    "what json.dumps and json.loads make of a value; TypeError as json.dumps has it"
    if o is None or isinstance(o, (bool, int, float, str, SymInt, SymBool, SymStr)):
        return o
    if isinstance(o, Opaque):
        return o.force()
    if isinstance(o, dict):
        r = []
        for k, v in o.items():
            if not (k is None or isinstance(k, (bool, int, float, str, SymInt, SymBool, SymStr))):
                raise TypeError("keys must be str, int, float, bool or None")
            r.append((k, snapshot(v, default)))
        return Map(r)
    if isinstance(o, (list, tuple)):
        return [snapshot(x, default) for x in o]
    if default is not None:
        return snapshot(default(o), default)
    raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)


class Map(list):
    "an object of JSON: pairs"

    def keys(self):
        return [k for k, v in self]

    def get(self, k, d=None):
        for x, v in self:
            if bool(seqeq(x, k)):
                return v
        return d


def env(ctx):
    def f(e):
        if ctx.symbolic:
            e["json"] = stubs._M("json", dumps=lambda o, default=None, **k: Text(snapshot(o, default)), loads=json.loads,
                                 JSONDecodeError=json.JSONDecodeError)
    return f


class Request:
    def __init__(self, data):
        self.data, self.wfile = data, Wfile()


def world(ctx):
    w = World(ctx, config=CFG, env=env(ctx))
    hs = [x for x in w.servers if x.kind == "http"]
    ctx.check(len(hs) == 1, "the HTTP listener serves", lambda: w.servers)
    w.http = hs[0]
    return w


def request(ctx, w, method, path, headers=(), body=b""):
    "status and JSON value of the response"
    r = Request(("%s %s HTTP/1.0\r\n" % (method, path)).encode() + b"".join(h.encode() + b"\r\n" for h in headers) + b"\r\n" + body)
    ctx.log(method, path, body)
    try:
        w.http.RequestHandlerClass(r, ("127.0.0.1", 50000), w.http)
    except INTERNAL:
        raise
    except Exception as e:
        ctx.fail("every request is answered", "%s %s: %r" % (method, path, e))
    w.balanced()
    out = r.wfile.parts
    ctx.check(len(out) >= 1 and not isinstance(out[0], Text), "every request is answered", lambda: (method, path, out))
    head = bytes(out[0])
    ctx.check(head.startswith(b"HTTP/1.0 ") and head.endswith(b"\r\n\r\n"), "the response is one of HTTP", lambda: head)
    status = int(head.split()[1])
    value = None
    if ctx.symbolic:
        ctx.check(all(isinstance(x, TextBytes) for x in out[1:]) and len(out) <= 2, "the body is JSON", lambda: out)
        if len(out) > 1:
            value = out[1].v
    else:
        text = b"".join(out[1:])
        if text:
            value = json.loads(text, object_pairs_hook=Map)
    return status, value


def get(ctx, w, what):
    return request(ctx, w, "GET", "/api/v0001/" + what)


def pairs(ctx, v, what):
    ctx.check(isinstance(v, Map), "%s are a JSON object" % what, lambda: v)
    return v


def shown(payload, v):
    "a payload as text; None if it is not UTF-8"
    try:
        t = ref.mk(list(payload)).decode()
    except UnicodeDecodeError:
        return isinstance(v, (str, SymStr))
    return seqeq(t, v)


def state(ctx, w, sessions, subs, retained):
    st, v = get(ctx, w, "clients")
    ctx.check(st == 200, "the clients are shown", lambda: st)
    pairs(ctx, v, "clients")
    ctx.check(sorted(v.keys()) == sorted(sessions), "the clients shown are those which are connected or have a session", lambda: (v.keys(), sessions))
    for cid, s in sessions.items():
        for x in (v.get(cid), get(ctx, w, "clients/" + cid.replace(" ", "%20").replace("é", "%C3%A9"))):
            if type(x) is tuple:
                ctx.check(x[0] == 200, "a client is shown", lambda: (cid, x))
                x = x[1]
            pairs(ctx, x, "clients")
            ctx.check(eq(x.get("id"), cid) if is_sym(x.get("id")) else x.get("id") == cid, "with its identifier", lambda: x)
            ctx.check(eq(x.get("connected"), s["connected"]), "whether it is connected", lambda: (x, s))
            ctx.check(eq(x.get("keepalive"), s["keep"]), "and its keep alive interval", lambda: (x, s))
            ctx.check(eq(x.get("cleanStart" if s["ver"] == 5 else "cleansession"), s["clean"]), "whether it started with a clean session", lambda: (x, s))
    st, v = get(ctx, w, "clients/nobody")
    ctx.check(st == 404 and v is None, "a client which is not there is not shown", lambda: (st, v))
    st, v = get(ctx, w, "subscriptions")
    ctx.check(st == 200 and type(v) is list, "the subscriptions are shown", lambda: (st, v))
    for x in v:
        pairs(ctx, x, "subscriptions")
    ctx.check(sorted((x.get("clientid"), x.get("topic")) for x in v) == sorted(subs), "the subscriptions are those clients have", lambda: (v, subs))
    for x in v:
        o = subs[(x.get("clientid"), x.get("topic"))]
        if len(o) == 1:
            ctx.check(eq(x.get("qos"), o[0]), "with their QoS", lambda: (x, o))
        else:
            y = x.get("options")
            ctx.check(isinstance(y, list) and len(y) == 2, "with their options", lambda: x)
            ctx.check(isinstance(y[0], Map) and land(*[eq(y[0].get(n), z) for n, z in zip(("QoS", "noLocal", "retainAsPublished", "retainHandling"), o)]), "with their options", lambda: (x, o))
    st, v = get(ctx, w, "retained")
    ctx.check(st == 200, "the retained messages are shown", lambda: st)
    pairs(ctx, v, "retained messages")
    ctx.check(sorted(v.keys()) == sorted(retained), "the retained messages are those there are", lambda: (v, retained))
    for t, (payload, qos) in retained.items():
        x = v.get(t)
        ctx.check(isinstance(x, list) and len(x) >= 2, "with payload and QoS", lambda: x)
        ctx.check(land(shown(payload, x[0]), eq(x[1], qos)), "with payload and QoS", lambda: (x, payload, qos))


def history(ctx, k, events, full=False):
    "any operations; then the state is shown"
    w = world(ctx)
    sessions, subs, retained, cs = {}, {}, {}, {}

    def conn(i, ver, clean, keep, **kw):
        cid = ["a", "b é", "c"][i]
        if ver == 5 and not clean:
            kw["props"] = [(17, 1000)]
        c = w.connect(cid, ver, clean=clean, keep=keep, **kw)
        cs[i] = c
        if cid not in sessions or clean:
            for x in [x for x in subs if x[0] == cid]:
                del subs[x]
        sessions[cid] = {"connected": True, "ver": ver, "clean": clean, "keep": ite(lor(ver != 5, keep < 60), keep, 60)}     # 60: Server Keep Alive
        return c
    V = [311, 5, 5]
    for i in range(2):
        conn(i, V[i], bool(ctx.bool("clean")) if full or i and "connect" in events else False, 0)
    for j in range(k):
        what = ctx.choice("what", events)
        i = ctx.choice("client", [0, 1])
        c, ver = cs[i], V[i]
        if what in ("subscribe", "unsubscribe", "retain", "publish", "end") and not c.open:
            ctx.assume(False)
        if what == "subscribe":
            f = ctx.choice("filter", ["t", "t/#", "$x"] if full else ["t", "$x"])
            o = (ctx.int("qos", 0, 2),) if ver != 5 else (ctx.int("qos", 0, 2), ctx.bool("nl"), ctx.bool("rap"), ctx.int("rh", 0, 2))
            if not full and (j < k - 1 or f != "t" or "retain" in events):
                o = ctx.choice("options", [(1,), (2,)] if ver != 5 else [(1, False, True, 0), (2, True, False, 2)])
            c.sub((f,) + o)
            subs[(c.cid, f)] = o
        elif what == "unsubscribe":
            f = ctx.choice("filter", ["t", "$x"])
            c.unsub([f])
            subs.pop((c.cid, f), None)
        elif what == "retain":
            t = ctx.choice("topic", ["t", "$x", 't"\\/é'] if full else ["t", 't"\\/é'])
            if full:
                p = list(ctx.bytes("payload", ctx.choice("length", [0, 1, 2])))
            elif i and j == k - 1 and t != "t":      # any text, here only
                p = list(ctx.bytes("payload", 2))
            else:
                p = list(ctx.choice("payload", [b"", b"a\xffb\xc3\xa9"]))
            q = ctx.choice("pub qos", [0, 1, 2] if full else [0, 2]) if full or len(p) != 2 else 1
            props = [] if ver != 5 or (not full and len(p) == 2) else ctx.choice("props", [[], [(2, 100), (8, b"r"), (9, b"\xff"), (38, (b"k", b"v")), (38, (b"k", b"v"))]])
            n = ctx.int("id", 1, 65534) if q else None
            c.pub(t, ref.mk(p), qos=q, retain=True, props=props, id=n)
            if q == 2:
                c.ack(PUBREL, n)
            if p:
                retained[t] = (p, q)
            else:
                retained.pop(t, None)
        elif what == "publish":
            q = ctx.choice("pub qos", [0, 1, 2] if full else [1, 2])
            c.pub("t", b"\xfe", qos=q, id=65535 if q else None, props=[(2, 100)] if ver == 5 else [])
        elif what == "end":
            if ctx.bool("gracefully"):
                c.disconnect()
            else:
                c.die()
            s = sessions[c.cid]
            if s["clean"]:
                del sessions[c.cid]
                for x in [x for x in subs if x[0] == c.cid]:
                    del subs[x]
            else:
                s["connected"] = False
        elif what == "connect":
            if c.open:
                ctx.assume(False)
            will = {"topic": "w", "payload": b"\xff", "qos": 1} if ctx.bool("will") else None
            conn(i, ver, bool(ctx.bool("clean")), ctx.int("keep", 0, 65535), will=will)
    state(ctx, w, sessions, subs, retained)
    undisturbed(ctx, w)


def undisturbed(ctx, w):
    for c in w.clients:
        c.got()
    a, b = w.connect("x1", 5), w.connect("x2", 311)
    a.sub("q")
    b.sub("q")
    a.got(), b.got()
    a.pub("q", b"1")
    b.pub("q", b"2")
    for c in (a, b):
        r = c.pubs()
        ctx.check([bytes(x["payload"]) for x in r] == [b"1", b"2"] and not c.other, "MQTT clients are served as before", lambda: (r, c.other))


def others(ctx):
    "requests which are not of the interface get an answer, too, and change nothing"
    w = world(ctx)
    a = w.connect("a", ctx.choice("version", [5, 311]), clean=False)
    a.sub("t", 1)
    a.pub("t", b"r", retain=True)
    a.got()
    m = ctx.choice("method", ["GET", "PUT", "POST", "PATCH", "DELETE"])
    path = ctx.choice("path", ["/", "/api/v0001/", "/api/v0001/client", "/api/v0001/clients/", "/api/v0001/clients/a/b", "/api/v0001/clients/A",
                               "/api/v0001/subscriptions/a", "/api/v0001/retained/t", "/x/api/v0001/clients", "/%ff%00", "/api/v0001/clientsx"] +
                              (["/api/v0001/clients", "/api/v0001/clients/a", "/api/v0001/subscriptions", "/api/v0001/retained"] if m != "GET" else []))
    body, h = b"", []
    if m in ("PUT", "POST", "PATCH"):
        body = ctx.choice("body", [b"", b"{}", b'{"a": [1, "x"]}', b"{", b"\xff", b"a=b&c=d"])
        h = ["Content-Length: %d" % len(body)] if body or ctx.bool("length") else []
        t = ctx.choice("type", [None, "application/json", "application/x-www-form-urlencoded"])
        if t:
            h.append("Content-Type: " + t)
    st, v = request(ctx, w, m, path, h, body)
    ctx.check(400 <= st < 500 and v is None, "what is not there is not found", lambda: (st, v))
    ctx.check(a.open and not a.got(), "nothing is sent to clients")
    state(ctx, w, {"a": {"connected": True, "ver": a.ver, "clean": False, "keep": 0}},
          {("a", "t"): (2,) if a.ver != 5 else (2, False, False, 0)}, {"t": (list(b"r"), 0)})


def make(tier):
    q = tier == "quick"
    h = []
    S = ["subscribe", "unsubscribe", "end", "connect"]
    h.append(Harness("sessions", history, "%d operations of 2 clients: SUBSCRIBE, UNSUBSCRIBE, end, CONNECT" % (2 if q else 3), k=2 if q else 3, events=S, full=not q))
    h.append(Harness("messages", history, "%d operations: retained messages, any payload up to 2 bytes, and others in flight" % (2 if q else 3), k=2 if q else 3, events=["retain", "publish", "end", "subscribe"], full=not q))
    h.append(Harness("others", others, "5 methods, 15 paths, 6 bodies"))
    return h


if __name__ == "__main__":
    raise SystemExit(main("C33", make))
