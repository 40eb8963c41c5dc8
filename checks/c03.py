"C03: variable byte integers / remaining lengths"
from sx.run import Harness, main
from sx.load import Loader
from sx.vals import land, lor, eq, SymBytes
from checks.lib import Sock, fmt, seqeq

MAX = 268435455


def ref_encode(n, size):
    return [((n >> (7 * i)) & 127) + (128 if i < size - 1 else 0) for i in range(size)]


def size_of(n):
    return 1 if n < 128 else 2 if n < 16384 else 3 if n < 2097152 else 4


def roundtrip(ctx):
    V = fmt(Loader(ctx), 5).VBIs
    n = ctx.int("n", 0, MAX)
    size = size_of(n)
    b = V.encode(n)
    ctx.check(eq(len(b), size), "encoding has the minimum number of bytes")
    ctx.check(seqeq(b, ref_encode(n, size)), "encoding is base 128, least significant first")
    v, used = V.decode(b)
    ctx.check(land(eq(v, n), eq(used, size)), "decode(encode(n)) is n")
    tail = ctx.bytes("tail", 2)
    v, used = V.decode(b + tail)
    ctx.check(land(eq(v, n), eq(used, size)), "decoding ignores what follows")


def header(ctx, ver):
    """fixed headers: pack and unpack of any flags and any remaining length"""
    M = fmt(Loader(ctx), ver)
    n = ctx.int("n", 0, MAX)
    typ = ctx.int("type", 0, 15)
    dup, ret = ctx.int("dup", 0, 1), ctx.int("retain", 0, 1)
    qos = ctx.int("qos", 0, 3)
    size = size_of(n)
    fh = M.FixedHeaders(typ)
    fh.DUP, fh.QoS, fh.RETAIN = dup, qos, ret
    b = fh.pack(n)
    want = [typ * 16 + dup * 8 + qos * 2 + ret] + ref_encode(n, size)
    ctx.check(seqeq(b, want), "fixed header bytes are type, flags and minimal remaining length")
    g = M.FixedHeaders(1)
    used = g.unpack(b, MAX + 5) if ver == 5 else g.unpack(b)
    t = g.PacketType if ver == 5 else g.MessageType
    ctx.check(land(eq(used, size + 1), eq(g.remainingLength, n), eq(t, typ), eq(g.DUP, dup == 1),
                   eq(g.RETAIN, ret == 1), eq(g.QoS, qos)), "unpacking a fixed header returns what was packed")


def arbitrary(ctx, ver):
    """decoding arbitrary bytes: at most four bytes are a length, and for MQTT 5 only the minimal encoding"""
    M = fmt(Loader(ctx), ver)
    k = ctx.choice("bytes", [1, 2, 3, 4, 5])
    b = ctx.bytes("b", k)
    es = list(b)
    # reference
    size, val = None, 0
    for i in range(min(4, k)):
        val = val + (es[i] & 127) * 128 ** i
        if es[i] < 128:
            size = i + 1
            break
    if ver == 5 and size is not None and size > 1 and es[size - 1] == 0:
        size = None
    fh = M.FixedHeaders(1)
    try:
        r = fh.unpack(bytes([0x10]) + b, MAX + 5) if ver == 5 else fh.unpack(bytes([0x10]) + b)
    except Exception:
        r = None
    if size is None:
        ctx.check(r is None, "a malformed length is refused")
    else:
        ctx.check(r is not None, "a well formed length is accepted")
        ctx.check(land(eq(r, size + 1), eq(fh.remainingLength, val)), "the length decodes to its value")


def stream(ctx, ver):
    """reading a header from a stream: never more than four length bytes are taken as a length"""
    M = fmt(Loader(ctx), ver)
    k = ctx.choice("bytes", [1, 2, 3, 4, 5, 6])
    b = ctx.bytes("b", k)
    es = list(b)
    size, val = None, 0
    for i in range(min(4, k)):
        val = val + (es[i] & 127) * 128 ** i
        if es[i] < 128:
            size = i + 1
            break
    avail = k - size if size is not None else 0
    s = Sock(ctx)
    s.feed(bytes([0x30]) + b)
    try:
        p = M.getPacket(s)
    except Exception:
        p = None
    if size is None:
        ctx.check(p is None, "no packet is read when the length does not end within four bytes")
        if k > 4:
            ctx.check(s.consumed <= 6, "at most five length bytes are consumed")
    elif val <= avail:
        ctx.check(p is not None, "a complete packet is read")
        n = 1 + size
        ctx.check(eq(len(p), n + val), "the packet has exactly its remaining length")
        ctx.check(seqeq(p, [0x30] + es[:len(p) - 1]), "the packet is the bytes of the stream")
        ctx.check(eq(s.consumed, len(p)), "no byte beyond the packet is consumed")
    else:
        ctx.check(p is None, "a truncated packet is not returned")


def make(tier):
    hs = [Harness("vbi-roundtrip", roundtrip, "all n in 0..268435455")]
    for v in (5, 311):
        hs.append(Harness("header-v%d" % v, header, "all n in 0..268435455, all types and flags", ver=v))
        hs.append(Harness("decode-arbitrary-v%d" % v, arbitrary, "all buffers of 1..5 bytes", ver=v))
        hs.append(Harness("stream-v%d" % v, stream, "all streams of 1 + 1..6 bytes", ver=v))
    return hs


if __name__ == "__main__":
    raise SystemExit(main("C03", make))
