"round trips of every packet type between the code under test and the reference codec"
from sx.run import Harness
from sx.load import Loader
from sx.vals import land, lor, lnot, eq
from checks import ref
from checks.lib import fmt, seqeq
from checks.ref import (CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE,
                        UNSUBACK, PINGREQ, PINGRESP, DISCONNECT, AUTH, WILL)


def utf(ctx, name, k):
    "a string whose characters need 1, 2, 3 or 4 bytes: the UTF-8 bytes"
    out = []
    for i, n in enumerate(k):
        lo, hi = {1: (1, 0x7F), 2: (0x80, 0x7FF), 3: (0x800, 0xFFFF), 4: (0x10000, 0x10FFFF)}[n]
        out += list(ctx.str("%s%d" % (name, i), 1, lo=lo, hi=hi).encode("utf-8"))
    return out


SHAPES = [(), (1,), (2,), (3,), (4,), (1, 2)]


def anystr(ctx, name, shapes=SHAPES):
    return utf(ctx, name, ctx.choice(name + ".shape", shapes))


def value(ctx, i, name, small=False):
    t = ref.PROPS[i][1]
    if t == "b":
        return ctx.int(name, 0, 255)
    if t == "h":
        return ctx.int(name, 0, 65535)
    if t == "w":
        return ctx.int(name, 0, 2**32 - 1)
    if t == "v":
        return ctx.int(name, 0, 268435455)
    if t == "x":
        return list(ctx.bytes(name, ctx.choice(name + ".len", [2] if small == "one" else [0, 2] if small else [0, 1, 3])))
    if t == "s":
        return anystr(ctx, name, [(2, 1)] if small == "one" else [(), (1,), (2, 1)] if small else SHAPES)
    return (anystr(ctx, name + ".k", [(1,)] if small == "one" else [(), (1,)] if small else SHAPES), anystr(ctx, name + ".v", [(2,)] if small == "one" else [(), (2,)]))


def props(ctx, packet, mode, huge=False, full=False):
    """mode none, one (any single property), two (any ordered pair, a repeated one only where
    allowed), long (a property section of 128 bytes or more)"""
    ids = [i for i in sorted(ref.PROPS) if packet in ref.PROPS[i][2]]
    if mode == "none" or not ids:
        return []
    if mode == "one":
        i = ctx.choice("prop", ids)
        return [(i, value(ctx, i, "val"))]
    if mode == "two":
        pairs = [(a, b) for a in ids for b in ids if a < b or (a == b and a in ref.MULTIPLE)]
        a, b = ctx.choice("props", pairs)
        small = True if full or len(pairs) < 60 else "one"       # CONNECT and CONNACK: 100 pairs or more
        return [(a, value(ctx, a, "val0", small)), (b, value(ctx, b, "val1", small))]
    # section lengths 127, 128, 130, and for one packet type per kind 16383, 16384
    n = ctx.choice("long", [(122, 0), (123, 0), (124, 1)] + ([(8000, 8378), (8000, 8379)] if huge else []))
    v1 = [97] * n[0]
    v2 = list(ctx.bytes("v", 1, 1, 127)) + [98] * (n[1] - 1) if n[1] else []
    return [(38, (v1, v2))]


def packet(ctx, t, ver, mode, full=False):
    v5 = ver == 5
    P = (lambda: props(ctx, t, mode, t == PUBLISH, full)) if v5 else (lambda: None)
    pid = lambda: ctx.int("id", 1, 65535)
    few = mode != "none"
    S = (lambda n: anystr(ctx, n, [(1,)])) if few else (lambda n: anystr(ctx, n))
    p = {"t": t}
    if t == CONNECT:
        p.update(level=5 if v5 else 4, clean=ctx.bool("clean"), keep=ctx.int("keep", 0, 65535), props=[] if v5 else None,
                 cid=anystr(ctx, "cid", [(), (1,), (2, 1)] if full else [(), (2,)] if mode == "none" else [(1,)]), will=None, user=None, pw=None)
        if mode != "will":
            p["props"] = P()
        if mode in ("will", "none") and ctx.choice("will", [mode == "will", True]):
            p["will"] = {"qos": ctx.int("wq", 0, 2), "retain": ctx.bool("wr"),
                         "topic": anystr(ctx, "wt", [(1,), (3,)] if full else [(1,)] if mode == "will" else [(2,)]),
                         "payload": list(ctx.bytes("wp", ctx.choice("wplen", [0, 2] if full or mode == "none" else [1]))),
                         "props": (props(ctx, WILL, "one") if mode == "will" else []) if v5 else None}
        if mode == "none":
            u = ctx.choice("creds", [(0, 0), (1, 0), (1, 1)] + ([(0, 1)] if v5 else []))
            if u[0]:
                p["user"] = anystr(ctx, "user", [(), (1,), (2,)] if full else [(), (2,)])
            if u[1]:
                p["pw"] = list(ctx.bytes("pw", ctx.choice("pwlen", [0, 1, 2] if full else [0, 1])))
    elif t == CONNACK:
        p.update(sp=ctx.bool("sp"), rc=ctx.int("rc", 0, 255), props=P())
        if not v5:
            ctx.assume(p["rc"] <= 5)
    elif t == PUBLISH:
        q = ctx.choice("qos", [0, 1, 2])
        p.update(qos=q, dup=ctx.bool("dup") if q else False, retain=ctx.bool("retain"), topic=S("topic"),
                 id=pid() if q else None, props=P(),
                 payload=list(ctx.bytes("payload", ctx.choice("plen", [0, 1, 3] if mode == "none" else [1]))))
    elif t in (PUBACK, PUBREC, PUBREL, PUBCOMP):
        p.update(id=pid(), rc=ctx.int("rc", 0, 255) if v5 else 0, props=P())
    elif t == SUBSCRIBE:
        n = ctx.choice("n", [1, 2] if mode == "none" else [1])
        fs = []
        for i in range(n):
            shape = ctx.choice("f%d.shape" % i, [(1,)] if few else [(1,), (2,)] if n > 1 else [(1,), (2,), (3, 1), (4,), ()])
            opt = v5 and (full or (not few and i == 0 and shape == (1,)))
            fs.append((utf(ctx, "f%d" % i, shape),
                       ctx.int("q", 0, 2), ctx.bool("nl") if opt else False, ctx.bool("rap") if opt else False,
                       ctx.int("rh", 0, 2) if opt else 0))
        p.update(id=pid(), props=P(), filters=fs)
    elif t == UNSUBSCRIBE:
        n = ctx.choice("n", [1, 2] if mode == "none" else [1])
        p.update(id=pid(), props=P(), filters=[anystr(ctx, "f%d" % i, [(1,), (2, 1), ()]) for i in range(n)])
    elif t in (SUBACK, UNSUBACK):
        n = ctx.choice("n", [1, 2] if mode == "none" else [1])
        p.update(id=pid(), props=P(), codes=[ctx.int("code", 0, 255) for i in range(n)] if v5 or t == SUBACK else None)
        for c in p["codes"] or []:
            ctx.assume(lor(*[eq(c, x) for x in ([0, 1, 2, 128] if not v5 else ref.RCS[t] if full or mode == "none" else ref.RCS[t][:1] + ref.RCS[t][-1:])]))
    elif t in (DISCONNECT, AUTH):
        p.update(rc=ctx.int("rc", 0, 255) if v5 else 0, props=P())
    if "rc" in p and v5:
        codes = ref.RCS[t] if full or mode == "none" else ref.RCS[t][:1] + ref.RCS[t][-1:]
        ctx.assume(lor(*[eq(p["rc"], x) for x in codes]))
    return p


def roundtrip(ctx, t, ver, mode, full=False):
    M = fmt(Loader(ctx), ver)
    p = packet(ctx, t, ver, mode, full)
    # what the code packs means the same to the reference decoder
    q = ref.build(M, p, ver)
    b = q.pack()
    try:
        d = ref.decode(b, ver)
    except ref.Malformed as e:
        ctx.fail("packing produces a well formed packet", str(e))
    ctx.check(ref.same(d, p), "packing preserves every field")
    # what the reference encoder writes means the same to the code
    for short in (True, False) if ver == 5 and t in (PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT, AUTH) else (True,):
        e = ref.encode(p, ver, short)
        u = M.unpackPacket(ref.mk(e))
        ctx.check(ref.same(ref.norm(u, ver), p), "unpacking returns every field")
    # and the packet the code unpacks from its own bytes is equal to the original
    u = M.unpackPacket(b)
    ctx.check(ref.same(ref.norm(u, ver), p), "unpacking what was packed returns every field")
    ctx.check(seqeq(u.pack(), b), "packing again gives the same bytes")
    ctx.check(u == q, "the unpacked packet compares equal to the packet that was packed")


def harnesses(ver, tier):
    hs = []
    name = lambda t: ref.NAMES[t].lower()
    for t in range(1, 16 if ver == 5 else 15):
        modes = ["none"]
        if ver == 5 and t not in (PINGREQ, PINGRESP):
            modes += ["one", "two", "long"]
            if t == CONNECT:
                modes.append("will")
        for m in modes:
            hs.append(Harness("%s-%s" % (name(t), m), roundtrip,
                              "every field value; strings of 0..2 characters of 1..4 bytes, binary data of 0..3 bytes, 1..2 "
                              "filters or codes, properties: " + {"none": "none", "one": "any one", "two": "any two", "will": "any one of the will",
                                                                    "long": "sections of 127..130 (PUBLISH also 16383, 16384) bytes"}[m], t=t, ver=ver, mode=m, full=tier == "thorough"))
    return hs
