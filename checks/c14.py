"C14: will messages"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *
from checks.c09 import minq

NEVER = 0xFFFFFFFF
ENDS = ["disconnect", "disconnect with will", "die", "half packet", "malformed", "second connect", "bad topic", "keep alive", "taken over", "taken over clean"]


def end(ctx, w, c, how, kw, codes=(4, 0x80, 0x81, 0x82, 0x83, 0x93, 0x97, 0x99)):
    """one of the ways in which a connection ends; for taken over the new connection is returned"""
    if how == "disconnect":
        c.disconnect(rc=0)
    elif how == "disconnect with will":
        c.disconnect(rc=ctx.choice("reason code", list(codes)))
    elif how == "die":
        c.die()
    elif how == "half packet":
        c.raw(ref.mk([0x30, 5, 0, 1, 97]))
        c.die()
    elif how == "malformed":
        c.raw(ref.mk([0x36, 5, 0, 1, 97, 0, 1]))      # QoS 3
    elif how == "second connect":
        c.send({"t": CONNECT, "cid": b("c"), "clean": False, "keep": 0, "will": None, "user": None, "pw": None, "props": [] if c.ver == 5 else None})
    elif how == "bad topic":
        c.pub("a/#", b"x")
    elif how == "keep alive":
        w.after(8 * 16)
        c.idle()
    else:
        n = w.connect("c", c.ver, **dict(kw, will=None, clean=how == "taken over clean", keep=0))
        c.open = c.open and not c.sock.closed
        ctx.check(not c.open, "the old connection is closed")
        return n
    ctx.check(not c.open, "the connection is closed", how)
    return None


def seen(ctx, s, n, want, what):
    "the watcher has received the will n times, as it was set"
    r = s.pubs()
    ctx.check(len(r) == n, "the will is sent when it is due, once", lambda: (r, n, what))
    for x in r:
        pl, qos, sq, props = want
        ctx.check(land(seqeq(x["topic"], b("w/t")), seqeq(x["payload"], b(pl)), eq(x["qos"], minq(qos, sq)), eq(x["retain"], False), eq(x["dup"], False)),
                  "the will is published as it was given in CONNECT", lambda: (r, want))
        ctx.check(x["props"] is None or same_props(x["props"], props), "with its properties", lambda: (r, want))


def setup(ctx, ver, sver, wprops=(), keep=10, **kw):
    w = World(ctx)
    s = w.connect("s", sver)
    sq = ctx.int("subscriber qos", 0, 2)
    s.sub(("w/t", sq))
    s.got()
    qos = ctx.choice("will qos", [0, 1, 2])
    ret = bool(ctx.bool("will retain"))
    pl = ctx.bytes("payload", 1)
    other = w.connect("o", ver, will={"topic": "w/t", "payload": b"other", "qos": 1})
    kw = dict(kw, keep=keep)
    c = w.connect("c", ver, will={"topic": "w/t", "payload": pl, "qos": qos, "retain": ret, "props": list(wprops)}, **kw)
    ctx.check(c.connack is not None and eq(c.connack["rc"], 0), "the client is accepted")
    ctx.check(len(s.pubs()) == 0, "nothing is sent before the connection ends")
    return w, s, c, kw, (pl, qos, sq, [(i, v) for i, v in wprops if i != 24]), ret


def kept(ctx, w, want, ret, sent, ver):
    "a will message with RETAIN is retained, once it is sent"
    pl, qos, sq, props = want
    n = w.connect("n", ver)
    n.sub(("w/t", 2))
    r = n.pubs()
    ctx.check(len(r) == (1 if ret and sent else 0), "the will is retained if RETAIN was set and it was sent", lambda: (r, ret, sent))
    if r:
        ctx.check(land(seqeq(r[0]["payload"], b(pl)), eq(r[0]["qos"], qos), eq(r[0]["retain"], True)), "the retained will", lambda: r)
        ctx.check(ver != 5 or same_props(r[0]["props"], props), "the retained will has its properties", lambda: r)


def ends(ctx, ver, sver):
    """no will delay: the will is sent at once, unless the client disconnects normally"""
    e = ctx.choice("session", [None, 100]) if ver == 5 else None
    kw = {"clean": bool(ctx.bool("clean")), "props": [] if e is None else [(17, e)]}
    w, s, c, kw, want, ret = setup(ctx, ver, sver, **kw)
    how = ctx.choice("end", [x for x in ENDS if x != "disconnect with will" or ver == 5])
    n = end(ctx, w, c, how, kw)
    sent = 0 if how == "disconnect" else 1
    seen(ctx, s, sent, want, how)
    w.after(8 * 200)
    seen(ctx, s, 0, want, "later")
    if n is None:
        n = w.connect("c", ver, clean=bool(ctx.bool("clean again")))
    n.die()
    w.after(8 * 200)
    seen(ctx, s, 0, want, "the will of one connection is not that of the next")
    kept(ctx, w, want, ret, sent, sver)


def delay(ctx, how, quick):
    """the will delay interval, the session expiry interval and the time until the client is back"""
    d = ctx.int("delay", 0, NEVER)
    k = ctx.choice("expiry", ["absent", "some", "never"])
    e = {"absent": None, "never": NEVER}.get(k, ctx.int("expiry value", 1, NEVER - 1) if k == "some" else None)
    pr = [(1, 1), (24, d)]
    w, s, c, kw, want, ret = setup(ctx, 5, 5, wprops=pr, clean=True, keep=0, props=[] if e is None else [(17, e)])
    return after(ctx, w, s, c, kw, want, ret, d, 0 if e is None else e, how, quick)


def after(ctx, w, s, c, kw, want, ret, d, life, how, quick):
    n = None
    if how == "disconnect with expiry":
        e2 = ctx.int("new expiry", 0, NEVER)
        ctx.assume(lor(life > 0, e2 == 0))
        c.disconnect(rc=4, props=[(17, e2)])
        life = e2
    else:
        n = end(ctx, w, c, how, kw, (4, 0x82))
    due = ite(life < d, life, d)
    if bool(due == 0):
        seen(ctx, s, 1, want, "no delay")
        sent = 1
    else:
        if n is not None:
            # the connection which took over is the resumption (or the end) of the session
            sent = 1 if how == "taken over clean" else 0
            seen(ctx, s, sent, want, how)
        else:
            seen(ctx, s, 0, want, "not before the delay")
            t = ctx.int("seconds", 1, 2 ** 33)
            ctx.assume(lor(t < due, t > due + 2))
            w.after(t * 8)
            over = bool(t > due)
            seen(ctx, s, 1 if over else 0, want, "at the end of the delay")
            sent = 1 if over else 0
            if not over:
                clean = bool(ctx.bool("clean start"))
                n = w.connect("c", 5, clean=clean, props=[(17, 1000)])
                ctx.check(eq(n.connack["sp"], lnot(clean)), "the session is still there")
                seen(ctx, s, 1 if clean else 0, want, "the session goes on: no will; it ends: the will is sent")
                sent = 1 if clean else 0
    w.after(8 * 2 ** 34)
    seen(ctx, s, 0, want, "not again")
    kept(ctx, w, want, ret, sent, 5)


def late(ctx):
    """the client is back after the time at which its will or its session ended, but before the broker has looked for that"""
    e = ctx.int("expiry", 1, 1000)
    d = ctx.int("delay", 1, 1000)
    w, s, c, kw, want, ret = setup(ctx, 5, 5, wprops=[(24, d)], clean=True, keep=0, props=[(17, e)])
    c.die()
    t = ctx.int("seconds", 0, 2000)
    ctx.assume(lnot(eq(t, e)))
    ctx.advance(t * 8)
    clean = bool(ctx.bool("clean start"))
    have = bool(ctx.bool("a will again"))
    n = w.connect("c", 5, clean=clean, keep=0, props=[(17, 1000)], will={"topic": "w/t", "payload": b"new", "props": [(24, ctx.int("new delay", 0, 500))]} if have else None)
    ctx.check(eq(n.connack["sp"], land(lnot(clean), t < e)), "the session is there until it expires", lambda: (n.connack, t, e))
    r = s.pubs()
    if bool(n.connack["sp"]):
        ctx.check(len(r) == 0 or len(r) == 1 and bool(t >= d), "the session goes on: no will, unless it was due already", lambda: (r, t, d))
    else:
        ctx.check(len(r) == 1, "the session ended: the will is sent", lambda: (r, t, d, e))
    ctx.check(len(r) == 0 or seqeq(r[0]["payload"], b(want[0])), "it is the will of the first connection", lambda: r)
    w.after(8 * 3000)
    ctx.check(len(s.pubs()) == 0, "no will while the client is connected")
    if have:
        n.die()
        w.after(8 * 501)
        r = s.pubs()
        ctx.check(len(r) == 1 and seqeq(r[0]["payload"], b(b"new")), "the new will is sent after its own delay", lambda: r)
    else:
        n.die()
        w.after(8 * 3000)
        ctx.check(len(s.pubs()) == 0, "there is no will any more")


def properties(ctx, npv):
    """the properties of the will"""
    pr = []
    if ctx.bool("format"):
        pr.append((1, ctx.int("PayloadFormatIndicator", 0, 1)))
    for i, name in ((3, "ContentType"), (8, "ResponseTopic"), (9, "CorrelationData")):
        if ctx.bool("has " + name):
            v = ctx.bytes(name, npv) if i == 9 else b(ctx.str(name, npv, lo=97, hi=0x7E))
            pr.append((i, list(v)))
    for i in range(ctx.choice("user properties", [0, 2])):
        pr.append((38, (b(ctx.str("key", 1, lo=97, hi=122)), b(ctx.str("value", 1)))))
    if ctx.bool("delayed"):
        pr.append((24, 5))
    w, s, c, kw, want, ret = setup(ctx, 5, 5, wprops=pr, props=[(17, 100)])
    c.die()
    w.after(80)
    seen(ctx, s, 1, want, "properties")
    kept(ctx, w, want, ret, 1, 5)


def many(ctx, ver):
    """several clients with wills end in any order: each will is sent when its own connection ends"""
    w = World(ctx)
    s = w.connect("s", ver)
    s.sub("w/#")
    s.got()
    cs = {}
    for x in "abc":
        cs[x] = w.connect(x, ver, will={"topic": "w/" + x, "payload": x.encode(), "qos": 1}, clean=ctx.bool("clean"), props=[(17, 50)])
    for i in range(3):
        x = ctx.choice("who", sorted(cs))
        how = ctx.choice("how", ["die", "disconnect"])
        c = cs.pop(x)
        c.die() if how == "die" else c.disconnect()
        r = s.pubs()
        ctx.check(len(r) == (how == "die") and land(*[land(seqeq(y["topic"], b("w/" + x)), seqeq(y["payload"], b(x))) for y in r]), "the will of the client which is gone", lambda: (r, x, how))
    w.after(1000)
    ctx.check(len(s.pubs()) == 0, "no other wills are sent")


def again(ctx, ver, k):
    """the same client connects k times, each time with a will or without; each connection ends in some way.  Only the
    will of a connection that does not end by a normal DISCONNECT is ever sent: once, at the end of its delay, or
    of the session, unless the session is resumed before"""
    w = World(ctx)
    s = w.connect("s", ver)
    s.sub("w")
    s.got()
    waiting = None                  # (payload, due)
    c = None
    for i in range(k):
        last = i == k - 1
        have = bool(ctx.bool("will"))
        d = ctx.choice("delay", [0, 100] if not last or k > 3 else [100]) if have and ver == 5 else 0
        clean = bool(ctx.bool("clean")) if i else False
        pl = b(b"%d" % i)
        due = []
        if c is not None and c.open:
            # taken over
            if cwill is not None:
                if cwill[1] == 0 or clean:
                    due.append(cwill[0])
            waiting = None
        if waiting and clean:
            due.append(waiting)
        waiting = None
        c = w.connect("c", ver, clean=clean, keep=0, props=[(17, 200)], will={"topic": "w", "payload": pl, "props": [(24, d)] if d else []} if have else None)
        cwill = (pl, d) if have else None
        sent(ctx, s, due, "connecting")
        how = ctx.choice("end", ["disconnect", "die"] + ["disconnect with will"] * (ver == 5 and (last or k > 3)) + ["taken over"] * (not last))
        if how == "taken over":
            continue
        c.disconnect() if how == "disconnect" else c.die() if how == "die" else c.disconnect(rc=4)
        if how != "disconnect" and have:
            if d == 0:
                sent(ctx, s, [pl], how)
            else:
                waiting = pl
        sent(ctx, s, [], how)
        if not last and ctx.bool("later"):
            w.after(8 * 110)
            sent(ctx, s, [waiting] if waiting else [], "after the delay")
            waiting = None
    w.after(8 * 300)
    sent(ctx, s, [waiting] if waiting else [], "at the end")
    w.after(8 * 300)
    sent(ctx, s, [], "never again")


def sent(ctx, s, want, what):
    r = s.pubs()
    ctx.check(len(r) == len(want) and land(*[seqeq(x["payload"], y) for x, y in zip(r, want)]), "the wills which are due are sent, and no others", lambda: (r, want, what))


def own(ctx, ver):
    """the session of a client which dies receives its own will, if it is subscribed to it"""
    w = World(ctx)
    kw = {"clean": False, "props": [(17, 1000)]}
    c = w.connect("c", ver, will={"topic": "w", "payload": b"own", "qos": 1}, **kw)
    c.sub("w")
    c.got()
    c.die()
    c = w.connect("c", ver, **kw)
    r = c.ackall()
    ctx.check(len(r) == 1 and seqeq(r[0]["payload"], b(b"own")), "queued like any other message", lambda: r)


def make(tier):
    deep = tier == "thorough"
    hs = []
    for ver, sver in ((5, 5), (311, 311), (5, 311), (311, 5)):
        hs.append(Harness("ends %d->%d" % (ver, sver), ends, "%d ways to end a connection" % len(ENDS), ver=ver, sver=sver))
    for how in ("die", "disconnect with will", "disconnect with expiry", "taken over", "taken over clean", "malformed"):
        hs.append(Harness("delay " + how, delay, "all delays, expiry intervals and times up to 2^33 s", how=how, quick=not deep))
    hs.append(Harness("late", late, "all delays and expiry intervals up to 1000 s, times up to 2000 s, the clean up thread late"))
    hs.append(Harness("properties", properties, "each property present or absent, texts of %d characters" % (3 if deep else 1), npv=3 if deep else 1))
    for ver in (5, 311):
        hs.append(Harness("many %d" % ver, many, "3 clients in any order", ver=ver))
        hs.append(Harness("again %d" % ver, again, "%d connections of one client" % (4 if deep else 3), ver=ver, k=4 if deep else 3))
        hs.append(Harness("own %d" % ver, own, "one client", ver=ver))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C14", make))
