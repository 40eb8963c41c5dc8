"C27: MQTT over websockets: the same as over TCP, however the bytes are divided into frames"
import base64
import hashlib
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *
from checks.c22 import conn
from checks.c26 import script, expected, watcher

KEY = "dGhlIHNhbXBsZSBub25jZQ=="


def request(key=KEY, names="Sec-WebSocket-Key", extra=(), sep=": "):
    ls = ["GET /mqtt HTTP/1.1", "Host: server.example.com", "Upgrade: websocket", "Connection: Upgrade"] + list(extra) + [
        names + sep + key, "Sec-WebSocket-Protocol: mqtt", "Sec-WebSocket-Version: 13"]
    return "\r\n".join(ls).encode() + b"\r\n\r\n"


def frame(data, mask=(0, 0, 0, 0), op=2, fin=True):
    "a frame of a client, RFC 6455 5.2"
    n = len(data)
    h = [(0x80 if fin else 0) | op]
    h += [0x80 | n] if n < 126 else [0x80 | 126, n // 256, n % 256] if n < 65536 else [0x80 | 127, 0, 0, 0, 0, n >> 24, n >> 16 & 255, n >> 8 & 255, n & 255]
    return h + list(mask) + [x ^ mask[i % 4] for i, x in enumerate(data)]


class WS:
    "what the client sees: the answer to the handshake, and the frames of the server"

    def __init__(self, ctx, c):
        self.ctx, self.c, self.seen = ctx, c, 0
        self.control = []
        self.bin = []

    def handshake(self, key=KEY):
        ctx = self.ctx
        out = bytes(x for o in self.c.sock.out for x in o)
        self.seen = len(self.c.sock.out)
        head, sep, rest = out.partition(b"\r\n\r\n")
        ls = head.decode().split("\r\n")
        hs = {x.split(":", 1)[0].strip().lower(): x.split(":", 1)[1].strip() for x in ls[1:]}
        want = base64.b64encode(hashlib.sha1((key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11").encode()).digest()).decode()
        ctx.check(sep and not rest and ls[0].startswith("HTTP/1.1 101") and hs.get("upgrade", "").lower() == "websocket" and hs.get("connection", "").lower() == "upgrade"
                  and hs.get("sec-websocket-accept") == want and hs.get("sec-websocket-protocol") == "mqtt", "the handshake is answered as RFC 6455 wants it", out)

    def got(self):
        "the packets in the frames received since the last call"
        ctx = self.ctx
        data = [x for o in self.c.sock.out[self.seen:] for x in o]
        self.seen = len(self.c.sock.out)
        while data:
            ctx.check(len(data) >= 2 and data[0] in (0x82, 0x8A, 0x88) and data[1] < 128, "frames of the server are whole, binary (or control frames) and not masked", lambda: data)
            op, n, k = data[0], data[1], 2
            if n == 126:
                n, k = data[2] * 256 + data[3], 4
                ctx.check(n > 125, "lengths are as short as possible")
            elif n == 127:
                n, k = sum(x << (56 - 8 * i) for i, x in enumerate(data[2:10])), 10
                ctx.check(n > 65535, "lengths are as short as possible")
            ctx.check(len(data) >= k + n, "frames of the server are whole")
            (self.bin if op == 0x82 else self.control).append(data[k:k + n])
            data = data[k + n:]
        bs = [x for f in self.bin for x in f]
        self.bin = []
        out = []
        for x in ref.split(bs, self.c.ver):
            out.append(ref.decode(x, self.c.ver))
        return out


def opened(ctx, w, ver):
    c = w.new(ver)
    c.arrive(request())
    s = WS(ctx, c)
    s.handshake()
    return c, s


def frames(ctx, ver, k, pause, cut):
    """the stream is divided into frames at k places, with any masks; the frames are cut into segments"""
    w = World(ctx)
    o = watcher(w, 5)
    c, s = opened(ctx, w, ver)
    ps, pl, i = script(ctx, ver, 0)
    bs = []
    for p in ps:
        bs += list(ref.encode(p, ver))
    at = [0]
    for j in range(k):
        at.append(ctx.choice("frame ends", list(range(at[-1], len(bs) + 1))))
    at.append(len(bs))
    mask = ctx.bytes("mask", 4)
    seg = ctx.choice("cut", list(range(0, 9))) if cut else None
    for n, (x, y) in enumerate(zip(at, at[1:])):
        f = ref.mk(frame(bs[x:y], mask if n == 0 else (1, 2, 3, 4), op=0 if n and cut else 2, fin=not cut or n == k))
        if seg:
            c.arrive(f[:seg])
            if pause:
                c.pause()
            f = f[seg:]
        c.arrive(f)
        if pause:
            c.pause()
    expected(ctx, ver, s.got(), pl, i)
    how = ctx.choice("end", ["end", "disconnect", "close frame"])
    if how == "end":
        c.end()
    elif how == "close frame":
        c.arrive(ref.mk(frame([3, 232], op=8)))
    else:
        c.arrive(ref.mk(frame(ref.encode({"t": DISCONNECT, "rc": 0, "props": [] if ver == 5 else None}, ver))))
    ctx.check(c.coro.done and c.sock.closed, "then the connection is closed")
    ctx.check(len(o.pubs()) == (0 if how == "disconnect" else 1), "the will is sent if there was no DISCONNECT")


def control(ctx, ver):
    """control frames between and inside packets are no data; a ping is answered"""
    w = World(ctx)
    o = watcher(w, 5)
    c, s = opened(ctx, w, ver)
    ps, pl, i = script(ctx, ver, 0)
    bs = []
    for p in ps:
        bs += list(ref.encode(p, ver))
    x = ctx.choice("at", list(range(0, len(bs) + 1)))
    data = ctx.bytes("ping", ctx.choice("length", [0, 2]))
    op = ctx.choice("control frame", [9, 10])
    if x:
        c.arrive(ref.mk(frame(bs[:x])))
    c.arrive(ref.mk(frame(list(data), mask=ctx.bytes("mask", 4), op=op)))
    c.pause()
    if x < len(bs):
        c.arrive(ref.mk(frame(bs[x:])))
    expected(ctx, ver, s.got(), pl, i)
    ctx.check(len(s.control) == (op == 9) and land(*[seqeq(y, data) for y in s.control]), "a ping is answered by a pong with the same data", lambda: s.control)


def ends(ctx, ver):
    """the stream ends inside any frame"""
    w = World(ctx)
    o = watcher(w, 5)
    c, s = opened(ctx, w, ver)
    ps, pl, i = script(ctx, ver, 0)
    f1 = frame(ref.encode(ps[0], ver), (1, 2, 3, 4))
    f2 = frame(ref.encode(ps[2], ver), (1, 2, 3, 4))
    at = ctx.choice("bytes", list(range(0, len(f1 + f2) + 1)))
    if at:
        c.arrive(ref.mk((f1 + f2)[:at]))
    c.end()
    ctx.check(c.coro.done and c.sock.closed, "the connection is closed")
    ctx.check(len(o.pubs()) == (at >= len(f1)), "the will is sent, if the client was connected")


def refused(ctx, ver, what):
    """frames which a client must not send end the connection and have no other effect"""
    w = World(ctx)
    o = watcher(w, 5)
    o2 = w.connect("reader", 311)
    o2.sub("x")
    o2.got()
    c, s = opened(ctx, w, ver)
    first = ctx.bool("before CONNECT")
    if not first:
        ps, pl, i = script(ctx, ver, 0)
        c.arrive(ref.mk(frame(ref.encode(ps[0], ver), (1, 2, 3, 4))))
        s.got()
    x = ref.encode({"t": PUBLISH, "dup": False, "qos": 0, "retain": False, "topic": b("x"), "id": None, "payload": b"m", "props": [] if ver == 5 else None}, ver)
    mask = (1, 2, 3, 4)
    if what == "opcode":
        op = ctx.int("opcode", 0, 15)
        ctx.assume(lnot(lor(*[eq(op, k) for k in (0, 2, 8, 9, 10)])))
        f = frame(x, mask)
        f[0] = ite(ctx.bool("fin"), 128, 0) + op
    else:
        f = frame(x, (0, 0, 0, 0))
        f[1] = f[1] & 127
        f[2:6] = []
    c.arrive(ref.mk(f))
    ctx.check(c.coro.done and c.sock.closed, "frames with other opcodes, or without mask, end the connection", lambda: f)
    ctx.check(len(o.pubs()) == (0 if first else 1) and not o2.pubs(), "they have no other effect")


def shake(ctx, ver):
    """the request may come in pieces, with header names in any case and in any order of headers"""
    w = World(ctx)
    c = w.new(ver)
    key = ctx.choice("key", [KEY, "AAECAwQFBgcICQoLDA0ODw=="])
    r = request(key, ctx.choice("name", ["Sec-WebSocket-Key", "sec-websocket-key", "SEC-WEBSOCKET-KEY"]),
                ctx.choice("more", [[], ["Origin: http://example.com:8080", "Cookie: a=b; c: d"], ["X-Long: " + "x" * 2000], ["Origin:null", "X-Empty:"]]),
                ctx.choice("separator", [": ", ":", ":\t ", ":  "]))
    k = ctx.choice("cut", [0, 1, 2, 10, len(r) // 2, len(r) - 3, len(r) - 1])
    if k:
        c.arrive(r[:k])
        if ctx.bool("pause"):
            c.pause()
        ctx.check(not c.sock.out and not c.sock.closed, "the request is not complete")
    c.arrive(r[k:])
    s = WS(ctx, c)
    s.handshake(key)
    c.arrive(ref.mk(frame(ref.encode(conn("c", ver), ver))))
    ctx.check(types(s.got()) == [CONNACK], "MQTT follows")


def lengths(ctx, ver):
    """frames of all forms of lengths, in both directions"""
    w = World(ctx)
    c, s = opened(ctx, w, ver)
    P = [] if ver == 5 else None
    c.arrive(ref.mk(frame(ref.encode(conn("c", ver), ver))))
    c.arrive(ref.mk(frame(ref.encode({"t": SUBSCRIBE, "id": 1, "filters": [(b("t"), 0, False, False, 0)], "props": P}, ver))))
    ctx.check(types(s.got()) == [CONNACK, SUBACK], "connected")
    n = ctx.choice("length", [100, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 200, 65520, 65525, 65526, 65527, 65528, 65529, 65530, 65531, 65532, 65533, 65536, 70000])
    mask = ctx.choice("mask", [(0, 0, 0, 0), (1, 2, 3, 255)])
    x = ref.encode({"t": PUBLISH, "dup": False, "qos": 0, "retain": False, "topic": b("t"), "id": None, "payload": [i & 255 for i in range(n)], "props": P}, ver)
    c.arrive(ref.mk(frame(x, mask)))
    r = s.got()
    ctx.check(types(r) == [PUBLISH] and list(r[0]["payload"]) == [i & 255 for i in range(n)], "the message comes back", n)


def make(tier):
    deep = tier == "thorough"
    hs = []
    for ver in (5, 311):
        for pause in (False, True):
            s = " with pauses" if pause else ""
            hs.append(Harness("frames %d%s" % (ver, s), frames, "5 packets in %d frames divided anywhere%s" % (3 if deep else 2, s), ver=ver, k=2 if deep else 1, pause=pause, cut=False))
        hs.append(Harness("segments %d" % ver, frames, "5 packets in 2 fragments, each cut within its first bytes", ver=ver, k=1, pause=True, cut=True))
        hs.append(Harness("control %d" % ver, control, "one control frame anywhere", ver=ver))
        hs.append(Harness("ends %d" % ver, ends, "the stream ends anywhere", ver=ver))
        for what in ("opcode", "mask"):
            hs.append(Harness("refused %s %d" % (what, ver), refused, "any opcode which is not for MQTT, or no mask", ver=ver, what=what))
        hs.append(Harness("lengths %d" % ver, lengths, "25 lengths around the limits", ver=ver))
    hs.append(Harness("handshake", shake, "7 cuts, 3 spellings, 4 separators, 4 sets of headers", ver=5))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C27", make))
