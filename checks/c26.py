"C26: the listener: however the bytes of a connection are cut up, the same happens as if each packet came alone"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *
from checks.c22 import conn


def script(ctx, ver, keep):
    "what the client under test sends, and how many packets each part is answered by"
    P = [] if ver == 5 else None
    pl = ctx.bytes("payload", 2)
    i = ctx.int("id", 1, 65535)
    ps = [conn("c", ver, keep=keep, will={"topic": b("w"), "payload": b("W"), "qos": 0, "retain": False, "props": P}),
          {"t": SUBSCRIBE, "id": 1, "filters": [(b("t"), 1, False, False, 0)], "props": P},
          {"t": PUBLISH, "dup": False, "qos": 2, "retain": False, "topic": b("t"), "id": i, "payload": list(pl), "props": P},
          {"t": PUBREL, "id": i, "rc": 0, "props": P},
          {"t": PINGREQ}]
    return ps, pl, i


def expected(ctx, ver, rs, pl, i):
    ctx.check(types(rs) == [CONNACK, SUBACK, PUBLISH, PUBREC, PUBCOMP, PINGRESP] or types(rs) == [CONNACK, SUBACK, PUBREC, PUBLISH, PUBCOMP, PINGRESP], "every packet is handled, in order", lambda: rs)
    m = [x for x in rs if x["t"] == PUBLISH][0]
    k = {x["t"]: x for x in rs}
    ctx.check(land(eq(k[CONNACK]["rc"], 0), eq(k[SUBACK]["codes"][0], 1), seqeq(m["payload"], pl), eq(m["qos"], 1), eq(k[PUBREC]["id"], i), eq(k[PUBCOMP]["id"], i)), "as they were sent", lambda: rs)


def watcher(w, ver):
    o = w.connect("o", ver)
    o.sub("w")
    o.got()
    return o


def cuts(ctx, ver, k, pause):
    """the stream is cut at k places, with pauses between the pieces or without"""
    w = World(ctx)
    o = watcher(w, 5)
    c = w.new(ver)
    ps, pl, i = script(ctx, ver, 0)
    bs = []
    for p in ps:
        bs += list(ref.encode(p, ver))
    at = [0]
    for j in range(k):
        at.append(ctx.choice("cut", list(range(at[-1], len(bs) + 1))))
    at.append(len(bs))
    for x, y in zip(at, at[1:]):
        if x < y:
            c.arrive(ref.mk(bs[x:y]))
            if pause:
                c.pause()
            ctx.check(not c.sock.closed, "the connection stays open", (x, y))
    expected(ctx, ver, c.got(), pl, i)
    finish(ctx, w, c, o)


def each(ctx, ver, n, pause):
    """the stream comes in pieces of n bytes"""
    w = World(ctx)
    o = watcher(w, 311)
    c = w.new(ver)
    ps, pl, i = script(ctx, ver, 0)
    bs = []
    for p in ps:
        bs += list(ref.encode(p, ver))
    for x in range(0, len(bs), n):
        c.arrive(ref.mk(bs[x:x + n]))
        if pause:
            c.pause()
    expected(ctx, ver, c.got(), pl, i)
    finish(ctx, w, c, o)


def finish(ctx, w, c, o):
    how = ctx.choice("end", ["end", "disconnect"])
    if how == "end":
        c.end()
    else:
        c.arrive(ref.mk(ref.encode({"t": DISCONNECT, "rc": 0, "props": [] if c.ver == 5 else None}, c.ver)))
    ctx.check(c.coro.done and c.sock.closed, "then the connection is closed")
    ctx.check(len(o.pubs()) == (1 if how == "end" else 0), "the will is sent if there was no DISCONNECT")


def partial(ctx, ver):
    """the stream ends inside any packet"""
    w = World(ctx)
    o = watcher(w, 5)
    c = w.new(ver)
    ps, pl, i = script(ctx, ver, 0)
    bs = []
    for p in ps:
        bs += list(ref.encode(p, ver))
    first = len(ref.encode(ps[0], ver))
    at = ctx.choice("bytes", list(range(0, len(bs))))
    if at:
        c.arrive(ref.mk(bs[:at]))
    c.end()
    ctx.check(c.coro.done and c.sock.closed, "the connection is closed")
    ctx.check(len(o.pubs()) == (1 if at >= first else 0), "the will is sent, if the client had been connected")
    d = w.connect("c", ver)
    ctx.check(d.connack is not None and eq(d.connack["rc"], 0), "the client can connect again")


def stalled(ctx, ver):
    """a client which stops inside a packet is disconnected when its keep alive is over, and not before"""
    w = World(ctx)
    o = watcher(w, 5)
    c = w.new(ver)
    ps, pl, i = script(ctx, ver, 10)
    head = list(ref.encode(ps[0], ver))
    rest = list(ref.encode(ps[2], ver))
    c.arrive(ref.mk(head))
    ctx.check(types(c.got()) == [CONNACK], "connected")
    n = ctx.choice("bytes", list(range(0, len(rest))))
    if n:
        c.arrive(ref.mk(rest[:n]))
    t = ctx.int("eighths", 0, 8 * 40)
    ctx.assume(lor(t < 8 * 14, t > 8 * 16))
    ctx.advance(t)
    c.pause()
    over = bool(t > 8 * 15)
    c.pause()
    ctx.check(c.sock.closed == over, "the keep alive counts inside packets too", t)
    ctx.check(len(o.pubs()) == over, "the will is sent then")
    if not over:
        c.arrive(ref.mk(rest[n:]))
        ctx.check(types(c.got()) == [PUBREC], "the packet is handled when the rest of it arrives")
    else:
        ctx.check(c.coro.done, "the thread of the connection has ended")


def slow(ctx, ver):
    """the socket takes only a part of what is sent at a time"""
    w = World(ctx)
    o = watcher(w, 5)
    c = w.new(ver)
    n = ctx.int("taken", 1, 6)
    c.sock.partial = lambda m: ite(n < m, n, m)
    ps, pl, i = script(ctx, ver, 0)
    for p in ps:
        c.arrive(ref.mk(ref.encode(p, ver)))
    expected(ctx, ver, c.got(), pl, i)
    finish(ctx, w, c, o)


def reset(ctx, ver):
    """a connection is reset by the other side, at any time: it is closed, its will sent, others are served"""
    w = World(ctx)
    o = watcher(w, 5)
    c = w.new(ver)
    ps, pl, i = script(ctx, ver, 0)
    others = []
    for v in (5, 311):
        d = w.connect("d%d" % v, v)
        d.sub("t")
        d.got()
        others.append(d)
    at = ctx.choice("packets", list(range(0, len(ps) + 1)))
    for p in ps[:at]:
        c.arrive(ref.mk(ref.encode(p, ver)))
    for d in others:
        d.ackall()
    c.got()
    c.sock.broken = True
    p = w.connect("p", ctx.choice("version", [5, 311]))
    first = ctx.bool("found out by sending")
    q = ctx.choice("qos", [0, 1])
    if first:
        p.pub("t", b"x", qos=q)
    c.go()
    ctx.check(c.coro.done and c.sock.closed, "a connection which was reset is closed")
    if not first:
        p.pub("t", b"x", qos=q)
    ctx.check(types(p.got()) == [PUBACK] * q and p.open, "the publisher is answered")
    for d in others:
        r = d.pubs()
        ctx.check(len(r) == 1 and bool(seqeq(r[0]["payload"], b"x")) and d.open, "other subscribers get the message", lambda: r)
    ctx.check(len(o.pubs()) == (1 if at else 0), "the will is sent, if the client had been connected")


def version(ctx, lens):
    """the protocol name and level decide who handles the connection"""
    w = World(ctx)
    o = watcher(w, 5)
    c = w.new(5)
    lv = ctx.int("level", 0, 255)
    name = ctx.choice("name", ["MQTT", "MQIsdp", "MQTx", "M", ""])
    if name == "MQTx":
        name = "MQT" + chr(ctx.choice("letter", [0x53, 0x74]))
    n = len(name)
    cid = b("c")
    for v in (4, 5):
        body = [0, n] + b(name) + [lv, 2, 0, 0] + ([0] if v == 5 else []) + [0, 1] + cid
        bs = [0x10, len(body)] + body
        if lv == v:
            break
    else:
        bs += []
    c.arrive(ref.mk(bs))
    good = name == "MQTT" and bool(lor(lv == 4, lv == 5))
    if not good:
        c.end()
        ctx.check(c.coro.done and c.sock.closed, "other protocols are not served", (name, lv))
        out = [y for x in c.sock.out for y in x]
        ctx.check(len(out) == 0 or out[0] == 0x20, "at most a CONNACK is sent", lambda: out)
        return
    c.ver = 5 if lv == 5 else 311
    r = c.got()
    ctx.check(types(r) == [CONNACK] and eq(r[0]["rc"], 0), "by the broker of that version", lambda: r)
    c.sub("t")
    ctx.check(types(c.got()) == [SUBACK], "by the broker of that version")


def long(ctx, ver):
    """the length of the packets: remaining lengths of 1, 2 and 3 bytes (and 4, which CONNECT can only have with many properties)"""
    w = World(ctx)
    c = w.new(ver)
    n = ctx.choice("length", [0, 100, 16000, 65000])
    p = conn("c", ver, user=b("u"), pw=[65] * n)
    if n == 65000 and ver == 5:
        p["props"] = [(38, (b("k"), [66] * 65000))] * 33
    bs = ref.mk(ref.encode(p, ver))
    c.arrive(bs[:12])
    c.arrive(bs[12:])
    ctx.check(types(c.got()) == [CONNACK], "CONNECT is accepted", n)
    q = {"t": PUBLISH, "dup": False, "qos": 1, "retain": False, "topic": b("t"), "id": 7, "payload": [66] * n, "props": [] if ver == 5 else None}
    bs = ref.mk(ref.encode(q, ver))
    k = ctx.choice("cut", [1, 2, 3, len(bs) - 1])
    c.arrive(bs[:k])
    c.arrive(bs[k:])
    ctx.check(types(c.got()) == [PUBACK], "PUBLISH is accepted", n)


def make(tier):
    deep = tier == "thorough"
    hs = []
    for ver in (5, 311):
        for pause in (False, True):
            s = " with pauses" if pause else ""
            hs.append(Harness("cuts %d%s" % (ver, s), cuts, "5 packets, %d cuts anywhere%s" % (2 if deep else 1, s), ver=ver, k=2 if deep else 1, pause=pause))
            for n in (1, 2, 3, 7):
                hs.append(Harness("pieces %d of %d%s" % (ver, n, s), each, "5 packets in pieces of %d bytes%s" % (n, s), ver=ver, n=n, pause=pause))
        hs.append(Harness("partial %d" % ver, partial, "the stream ends anywhere", ver=ver))
        hs.append(Harness("stalled %d" % ver, stalled, "a packet is left incomplete anywhere, any time passes", ver=ver))
        hs.append(Harness("slow %d" % ver, slow, "1 to 6 bytes are taken at a time", ver=ver))
        hs.append(Harness("reset %d" % ver, reset, "after any of 5 packets", ver=ver))
        hs.append(Harness("long %d" % ver, long, "packets of up to 65000 bytes (CONNECT: 2.1 MB)", ver=ver))
    hs.append(Harness("version", version, "all protocol levels, 6 names", lens=None))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C26", make))
