"C04: malformed packets are refused, well formed ones accepted with the right fields"
from sx.run import Harness, main
from sx.load import Loader
from sx.vals import land, lor, lnot, eq
from checks import ref
from checks.lib import fmt

V5 = 5


def judge(ctx, M, b, ver):
    try:
        u = M.unpackPacket(b)
    except Exception:
        u = None
    try:
        d = ref.decode(list(b), ver)
    except ref.Unjudged:
        return
    except ref.Malformed as e:
        d, why = None, str(e)
    if d is None:
        ctx.check(u is None, "a malformed packet is refused", why)
    else:
        ctx.check(u is not None, "a well formed packet is accepted")
        ctx.check(ref.same(ref.norm(u, ver), d), "a packet is decoded to the fields it carries")


def raw(ctx, ver, t, n):
    "fixed header with any flags and any one-byte remaining length, n arbitrary bytes"
    M = fmt(Loader(ctx), ver)
    k = ctx.choice("n", n)
    fl = ctx.int("flags", 0, 15)
    b = ref.mk([t * 16 + fl]) + ref.mk([k]) + ctx.bytes("b", k)
    judge(ctx, M, b, ver)


def length(ctx, ver):
    "the remaining length says something else than the bytes present"
    M = fmt(Loader(ctx), ver)
    t = ctx.choice("type", [2, 3, 4, 6, 8, 9, 10, 11, 12, 14])
    good = {2: [0, 0] + [0] * (ver == 5), 3: [0, 1, 97] + [0] * (ver == 5), 4: [0, 1], 6: [0, 1],
            8: [0, 1] + [0] * (ver == 5) + [0, 1, 97, 0], 9: [0, 1] + [0] * (ver == 5) + [1],
            10: [0, 1] + [0] * (ver == 5) + [0, 1, 97], 11: [0, 1] + [0, 0] * (ver == 5), 12: [], 14: []}[t]
    rl = ctx.int("rl", 0, 20)
    ctx.assume(rl > len(good))
    b = ref.mk([t * 16 + ref.FLAGS.get(t, 0), rl] + good)
    try:
        M.unpackPacket(b)
        ok = True
    except Exception:
        ok = False
    ctx.check(not ok, "a packet shorter than its remaining length is refused")


def pre(ctx, ver, t, prefix, n, suffix=(), flags=None):
    "a legal beginning followed by n arbitrary bytes"
    M = fmt(Loader(ctx), ver)
    k = ctx.choice("n", n)
    body = []
    for i, x in enumerate(prefix):
        if x == "?":
            body += list(ctx.bytes("p%d" % i, 1))
        else:
            body.append(x)
    body += list(ctx.bytes("b", k)) + list(suffix)
    fl = ref.FLAGS.get(t, 0) if flags is None else flags
    judge(ctx, M, ref.mk([t * 16 + fl, len(body)] + body), ver)


def prop(ctx, t, extra, n):
    """a property section of declared length with one symbolic identifier and its value, and
    'extra' bytes more or less than the declared length"""
    M = fmt(Loader(ctx), 5)
    i = ctx.int("id", 0, 127)
    k = ctx.choice("n", n)
    v = list(ctx.bytes("v", k))
    ps = [i] + v
    decl = len(ps) + extra
    sec = [decl] + ps
    w = t == ref.WILL
    if w:
        body = [0, 4] + list(b"MQTT") + [5, 6, 0, 9, 0, 0, 1, 99] + sec + [0, 1, 97, 0, 1, 98]
        t = ref.CONNECT
    elif t == ref.CONNECT:
        body = [0, 4] + list(b"MQTT") + [5, 2, 0, 9] + sec + [0, 1, 99]
    elif t == ref.CONNACK:
        body = [0, 0] + sec
    elif t == ref.PUBLISH:
        body = [0, 1, 97] + sec
    elif t in (ref.PUBACK, ref.PUBREC, ref.PUBREL, ref.PUBCOMP):
        body = [0, 1, 0] + sec
    elif t in (ref.SUBSCRIBE, ref.UNSUBSCRIBE):
        body = [0, 1] + sec + [0, 1, 97] + ([0] if t == ref.SUBSCRIBE else [])
    elif t in (ref.SUBACK, ref.UNSUBACK):
        body = [0, 1] + sec + [0]
    else:
        body = [0] + sec
    judge(ctx, M, ref.mk([t * 16 + ref.FLAGS.get(t, 0), len(body)] + body), 5)


def twice(ctx, t):
    "the same property twice"
    M = fmt(Loader(ctx), 5)
    ids = [i for i in sorted(ref.PROPS) if t in ref.PROPS[i][2]]
    i = ctx.choice("id", ids)

    def val(k):
        ty = ref.PROPS[i][1]
        return ref.enc_prop(i, {"s": [97], "x": [1], "p": ([97], [98])}.get(ty) or ctx.int("v%d" % k, 0, 100))
    sec = val(0) + val(1)
    sec = [len(sec)] + sec
    body = {ref.CONNECT: [0, 4] + list(b"MQTT") + [5, 2, 0, 9] + sec + [0, 1, 99],
            ref.WILL: [0, 4] + list(b"MQTT") + [5, 6, 0, 9, 0, 0, 1, 99] + sec + [0, 1, 97, 0, 1, 98],
            ref.CONNACK: [0, 0] + sec, ref.PUBLISH: [0, 1, 97] + sec, ref.SUBSCRIBE: [0, 1] + sec + [0, 1, 97, 0],
            ref.DISCONNECT: [0] + sec, ref.AUTH: [0] + sec}[t]
    t = ref.CONNECT if t == ref.WILL else t
    judge(ctx, M, ref.mk([t * 16 + ref.FLAGS.get(t, 0), len(body)] + body), 5)


def reason(ctx, t):
    "every reason code byte"
    M = fmt(Loader(ctx), 5)
    c = ctx.int("code", 0, 255)
    body = {ref.CONNACK: [0, c, 0], ref.SUBACK: [0, 1, 0, c], ref.UNSUBACK: [0, 1, 0, c], ref.DISCONNECT: [c],
            ref.AUTH: [c, 0]}.get(t) or [0, 1, c]
    judge(ctx, M, ref.mk([t * 16 + ref.FLAGS.get(t, 0), len(body)] + body), 5)


def version(ctx):
    "MQTT 3.1.1 CONNECT: any protocol name, level and flags"
    pre(ctx, 311, 1, ["?"] * 0, [0])


def make(tier):
    full = tier == "thorough"
    hs = []
    for v in (5, 311):
        nm = lambda s: "%s-v%d" % (s, v)
        for t in range(0, 16):
            n = [0, 1, 2, 3, 4]
            if t in (2, 4, 5, 6, 7, 14, 15, 9, 11):
                n = [0, 1, 2, 3, 4, 5, 6] if full else [0, 1, 2, 3] if v == 5 and t in (2, 14) else [0, 1, 2, 3, 4] if v == 5 else [0, 1, 2, 3, 4, 5]
            if t in (3, 8, 10):
                n = [0, 1, 2, 3, 4, 5, 6, 7] if full else [0, 1, 2, 3, 4, 5] if v == 5 else [0, 1, 2, 3, 4, 5, 6]
            hs.append(Harness(nm("raw-type%d" % t), raw, "any flags, every body of %d..%d bytes" % (n[0], n[-1]), ver=v, t=t, n=n))
        hs.append(Harness(nm("length"), length, "remaining length up to 20 bytes more than present", ver=v))
        M = [0, 4] + list(b"MQTT")
        P = [0] * (v == 5)
        lvl = 5 if v == 5 else 4
        hs.append(Harness(nm("connect-name"), pre, "any protocol name of 4 bytes and any level", ver=v, t=1,
                          prefix=[0, 4, "?", "?", "?", "?", "?", 2, 0, 9] + P + [0, 1, 99], n=[0]))
        hs.append(Harness(nm("connect-flags"), pre, "any connect flags, 6 arbitrary bytes", ver=v, t=1,
                          prefix=M + [lvl, "?", 0, 9] + P + [0, 1, 99], n=[0, 2, 4, 6] if full else [0, 2, 4]))
        hs.append(Harness(nm("connect-will"), pre, "will fields: 7 arbitrary bytes", ver=v, t=1,
                          prefix=M + [lvl, 6, 0, 9] + P + [0, 0] + P, n=[4, 5, 6] if not full else [4, 5, 6, 7]))
        hs.append(Harness(nm("connect-creds"), pre, "user name and password: arbitrary bytes", ver=v, t=1,
                          prefix=M + [lvl, 0xC2, 0, 9] + P + [0, 0], n=[2, 4, 5, 6]))
        hs.append(Harness(nm("connect-cid"), pre, "client identifier: arbitrary bytes", ver=v, t=1,
                          prefix=M + [lvl, 2, 0, 9] + P, n=[0, 1, 2, 3, 4, 5]))
        hs.append(Harness(nm("subscribe-second"), pre, "a second filter of arbitrary bytes", ver=v, t=8,
                          prefix=[0, 1] + P + [0, 1, 97, 1], n=[1, 2, 3, 4, 5]))
        for q in (0, 1, 2, 3):
            hs.append(Harness(nm("publish-qos%d" % q), pre, "packet identifier, properties and payload: arbitrary bytes",
                              ver=v, t=3, prefix=[0, 1, 97], n=[0, 1, 2, 3, 4], flags=q * 2))
    T = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, ref.WILL]
    for t in T:
        for x in (0, -1, 1):
            if x == 0 or t in (1, 3, 14, 2, 8, ref.WILL):
                hs.append(Harness("prop-%d%+d" % (t, x), prop, "any identifier, any value of 1..5 bytes, declared length %+d" % x,
                                  t=t, extra=x, n=[1, 2, 3, 4, 5] if full else [1, 2] if x else [1, 2, 4] if t in (1, 2, 3, 6, 7, 8, 9, 14, 15, 99) else [1, 2, 5] if t in (4, 5) else [1, 2, 4, 5]))
    for t in (1, 2, 3, 8, 14, 15, ref.WILL):
        hs.append(Harness("twice-%d" % t, twice, "every property of the packet twice", t=t))
    for t in sorted(ref.RCS):
        hs.append(Harness("reason-%d" % t, reason, "all 256 reason codes", t=t))
    return hs


if __name__ == "__main__":
    raise SystemExit(main("C04", make))
