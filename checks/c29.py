"""C29: MQTT-SN messages survive encoding and decoding, malformed ones are refused

The oracle is the MQTT-SN 1.2 specification, sections 5.2 to 5.4, written down here."""
from sx.run import Harness, main
from sx.load import Loader
from sx.vals import land, lor, lnot, eq, ite, SymBytes
from checks.lib import Sock, fmt, seqeq
from checks.codec import anystr

CONNECT, CONNACK, PUBLISH = 4, 5, 12
FIXED = {CONNECT: 4, CONNACK: 1, PUBLISH: 5}   # bytes after the message type


def frame(body):
    "body is the message type and what follows"
    n = len(body) + 1
    if n > 255:
        n += 2
        return [1, n // 256, n % 256] + body
    return [n] + body


def flags(ctx, f):
    "sets the flags, returns their byte"
    v = [ctx.bool(n) for n in ("dup", "retain", "will", "clean")]
    q, t = ctx.int("qos", -1, 2), ctx.int("topicidtype", 0, 3)
    f.DUP, f.RETAIN, f.Will, f.CleanSession = v
    f.QoS, f.TopicIdType = q, t
    i = [ite(x, 1, 0) for x in v]
    return i[0] * 128 + (q % 4) * 32 + i[1] * 16 + i[2] * 8 + i[3] * 4 + t


def flagsare(f, b):
    q = (b // 32) % 4
    return land(eq(f.DUP, b // 128 == 1), eq(f.QoS, ite(q == 3, -1, q)), eq(f.RETAIN, (b // 16) % 2 == 1),
                eq(f.Will, (b // 8) % 2 == 1), eq(f.CleanSession, (b // 4) % 2 == 1), eq(f.TopicIdType, b % 4))


LONG = [(), 1, 2, 240, 247, 248, 249, 250, 251, 252, 255, 256, 257, 300]


def roundtrip(ctx, typ, huge=False):
    "packing any message, and unpacking that"
    M = fmt(Loader(ctx), 0)
    p = {CONNECT: M.Connects, CONNACK: M.Connacks, PUBLISH: M.Publishes}[typ]()
    body = [typ]
    if typ == CONNACK:
        p.ReturnCode = ctx.int("rc", 0, 255)
        body += [p.ReturnCode]
    else:
        fl = flags(ctx, p.Flags)
        body += [fl]
    if typ == CONNECT:
        p.ProtocolId, p.Duration = ctx.int("protocolid", 0, 255), ctx.int("duration", 0, 65535)
        body += [p.ProtocolId, p.Duration // 256, p.Duration % 256]
        text = anystr(ctx, "id") + [97] * ctx.choice("more", [0, 20, 245, 248, 249, 250, 300] + ([65523] if huge else []))
        ident = (SymBytes(text) if ctx.symbolic else bytes(text)).decode("utf-8")
        p.ClientId = ident
        body += text
    if typ == PUBLISH:
        p.TopicId, p.MsgId = ctx.int("topicid", 0, 65535), ctx.int("msgid", 0, 65535)
        body += [p.TopicId // 256, p.TopicId % 256, p.MsgId // 256, p.MsgId % 256]
        n = ctx.choice("data", [0, 1, 3])
        data = list(ctx.bytes("d", n)) + [7] * ctx.choice("more", [0, 20, 244, 245, 246, 247, 248, 249, 300] + ([65520] if huge else []))
        p.Data = SymBytes(data) if ctx.symbolic else bytes(data)
        body += data
    want = frame(body)
    b = p.pack()
    ctx.check(seqeq(b, want), "the message has the bytes the specification gives it")
    p.__str__()
    if len(want) != len(list(b)):
        return
    q = M.unpackPacket(b)
    ctx.check(type(q) is type(p), "the type of the message is kept")
    ctx.check(q == p, "decoding gives an equal message")
    if typ == CONNACK:
        ctx.check(eq(q.ReturnCode, p.ReturnCode), "the return code survives")
    elif typ == CONNECT:
        ctx.check(land(flagsare(q.Flags, fl), eq(q.ProtocolId, p.ProtocolId), eq(q.Duration, p.Duration), eq(q.ClientId, ident)),
                  "flags, protocol id, duration and client id survive")
    else:
        ctx.check(land(flagsare(q.Flags, fl), eq(q.TopicId, p.TopicId), eq(q.MsgId, p.MsgId), seqeq(q.Data, data)),
                  "flags, topic id, message id and data survive")


def arbitrary(ctx, n):
    "any bytes: refused unless they are exactly one of the messages, whose fields are then those of the bytes"
    M = fmt(Loader(ctx), 0)
    b = ctx.bytes("b", n)
    es = list(b)
    try:
        p = M.unpackPacket(b)
    except (MemoryError, RecursionError):
        raise
    except Exception:
        p = None
    known = False
    # reference: length, type, fields
    for off in (1, 3):
        if n < off + 1:
            continue
        if off == 1:
            ok = land(eq(es[0], n), lnot(eq(es[0], 1)))
        else:
            ok = land(eq(es[0], 1), eq(es[1], n // 256), eq(es[2], n % 256))
        if not ok:
            continue
        for t in FIXED:
            if es[off] == t:
                rest = es[off + 1:]
                known = len(rest) == 1 if t == CONNACK else len(rest) >= FIXED[t]
                break
        else:
            continue
        if known and t == CONNECT:
            try:
                text = (SymBytes(rest[4:]) if ctx.symbolic else bytes(rest[4:])).decode("utf-8")
            except UnicodeDecodeError:
                known = False
        break
    if not known:
        ctx.check(p is None, "what is not a message is refused")
        return
    ctx.check(p is not None, "a message is accepted")
    if p is None:
        return
    if t == CONNACK:
        ctx.check(land(type(p) is M.Connacks, eq(p.ReturnCode, rest[0])), "a CONNACK has the return code in its bytes")
    elif t == CONNECT:
        ctx.check(land(type(p) is M.Connects, flagsare(p.Flags, rest[0]), eq(p.ProtocolId, rest[1]),
                       eq(p.Duration, rest[2] * 256 + rest[3]), eq(p.ClientId, text)), "a CONNECT has the fields in its bytes")
    else:
        ctx.check(land(type(p) is M.Publishes, flagsare(p.Flags, rest[0]), eq(p.TopicId, rest[1] * 256 + rest[2]),
                       eq(p.MsgId, rest[3] * 256 + rest[4]), seqeq(p.Data, rest[5:])), "a PUBLISH has the fields in its bytes")


def differ(ctx, typ):
    "messages are equal when all their fields are, and only then"
    M = fmt(Loader(ctx), 0)
    ps, fs = [], []
    for i in (0, 1):
        p = {CONNECT: M.Connects, CONNACK: M.Connacks, PUBLISH: M.Publishes}[typ]()
        if typ == CONNACK:
            f = [ctx.int("rc%d" % i, 0, 255)]
            p.ReturnCode = f[0]
        else:
            b = ctx.int("flags%d" % i, 0, 255)
            p.Flags.unpack(b)
            f = [b] + [ctx.int("x%d.%d" % (j, i), 0, 255) for j in range(1, FIXED[typ])] + list(ctx.bytes("t%d" % i, 1, 1, 127))
            if typ == CONNECT:
                p.ProtocolId, p.Duration = f[1], f[2] * 256 + f[3]
                p.ClientId = (SymBytes(f[4:]) if ctx.symbolic else bytes(f[4:])).decode("utf-8")
            else:
                p.TopicId, p.MsgId = f[1] * 256 + f[2], f[3] * 256 + f[4]
                p.Data = SymBytes(f[5:]) if ctx.symbolic else bytes(f[5:])
        ps.append(p)
        fs.append(f)
    ctx.check(eq(ps[0] == ps[1], seqeq(*fs)), "messages are equal when all of their fields are")


def stream(ctx, n):
    "getPacket takes exactly one message off a stream, however the stream is cut"
    M = fmt(Loader(ctx), 0)
    b = ctx.bytes("b", n)
    es = list(b)
    s = Sock(ctx, "s", chunk=lambda k: ctx.choice("take", list(range(1, k + 1))))
    s.feed(b)
    try:
        r = M.getPacket(s)
    except (AssertionError, M.MQTTSNException):   # only for lengths which cannot be
        ctx.check(n > 0 and (eq(es[0], 0) if n < 3 else lor(eq(es[0], 0), land(eq(es[0], 1), eq(es[1], 0), es[2] < 3))),
                  "only a length which does not cover itself is refused")
        return
    if n == 0:
        ctx.check(r is None, "the end of the stream is no message")
        return
    if es[0] == 1:
        if n < 3:
            ctx.check(r is None, "the stream ended in the length")
            return
        size = es[1] * 256 + es[2]
        ctx.assume(size >= 3)
    else:
        size = es[0]
        ctx.assume(size >= 1)
    if size > n:
        ctx.check(r is None, "the stream ended in the message")
        return
    ctx.check(r is not None, "a complete message is returned")
    if r is not None:
        k = len(list(r))
        ctx.check(land(eq(k, size), seqeq(list(r), es[:k]), eq(s.consumed, k)), "exactly one message is taken off the stream")


def make(tier):
    h = []
    for t, name in ((CONNECT, "CONNECT"), (CONNACK, "CONNACK"), (PUBLISH, "PUBLISH")):
        h.append(Harness(name, roundtrip, "any fields; texts of 0-2 arbitrary characters or data of 0-3 arbitrary bytes, and up to 300 more fixed ones"
                         + (", or 65523" if tier == "thorough" else ""), typ=t, huge=tier == "thorough"))
        h.append(Harness("equal " + name, differ, "two messages of any fields, texts and data of 1 byte", typ=t))
    for n in range(0, 9 if tier == "quick" else 13):
        h.append(Harness("bytes %d" % n, arbitrary, "all byte strings of length %d" % n, n=n))
    for n in range(0, 6 if tier == "quick" else 8):
        h.append(Harness("stream %d" % n, stream, "all byte strings of length %d, cut into any segments" % n, n=n))
    return h


if __name__ == "__main__":
    raise SystemExit(main("C29", make))
