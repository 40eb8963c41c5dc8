"C19: every request gets its response, with its packet identifier, in order, and the response is true"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *
from checks.c09 import minq, maxq
from checks.topic import matches

SPECIAL = {"test/nosubscribe": None, "test/QoS 1 only": 1, "test/QoS 0 only": 0}
FILTERS = ["a", "a/+", "#"] + list(SPECIAL)
TOPICS = ["a", "a/b", "test/nosubscribe", "test/QoS 1 only", "test/QoS 0 only"]


def granted(f, q):
    c = SPECIAL.get(f, 2)
    return 0x80 if c is None else minq(q, c)


def userprops(ctx, ver):
    return [(38, (b("k"), b(ctx.str("value", 1, lo=97, hi=122))))] * ctx.choice("user properties", [0, 1, 2]) if ver == 5 else []


def sub(ctx, ver, k, sets):
    """SUBSCRIBE with several filters; then what was granted is what is delivered"""
    w = World(ctx)
    s = w.connect("s", ver)
    p = w.connect("p", 5)
    fs = [(f, ctx.int("qos", 0, 2)) for f in ctx.choice("filters", sets)]
    i = ctx.int("id", 1, 65535)
    up = userprops(ctx, ver) if k else []
    s.sub(list(fs), id=i, props=up)
    r = s.got()
    ctx.check(len(r) == 1 and r[0]["t"] == SUBACK and eq(r[0]["id"], i), "one SUBACK with the identifier of the SUBSCRIBE", lambda: r)
    ctx.check(land(eq(len(r[0]["codes"]), len(fs)), *[eq(x, granted(f, q)) for x, (f, q) in zip(r[0]["codes"], fs)]), "one code per filter, in order, with the granted QoS", lambda: (r, fs))
    if ver == 5:
        ctx.check(same_props([x for x in r[0]["props"] if x[0] == 38], up), "user properties are sent back (a service of this broker for tests)", lambda: r)
    have = {}
    for f, q in fs:
        if SPECIAL.get(f, 2) is not None:
            have[f] = granted(f, q)
    for t in TOPICS[:1 + (ver == 5)] + TOPICS[2:]:
        p.pub(t, b"x", qos=2, id=TOPICS.index(t) + 1)
        p.got()
        r = s.pubs()
        hit = [q for f, q in have.items() if matches(f, t)]
        ctx.check(len(r) == (1 if hit else 0), "a refused filter is not subscribed to, the others are", lambda: (r, t, fs))
        if hit:
            ctx.check(eq(r[0]["qos"], maxq(hit)), "the granted QoS is what is used", lambda: (r, fs))


def unsub(ctx, ver, sets):
    """UNSUBSCRIBE with several filters, some not subscribed to"""
    w = World(ctx)
    s = w.connect("s", ver)
    p = w.connect("p", 5)
    have = list(ctx.choice("have", [[], ["a"], ["a", "a/+"], ["a/+", "#"]]))
    if have:
        s.sub([(f, 1) for f in have])
        s.got()
    o = w.connect("o", ver)
    o.sub([("a", 1), ("a/+", 1), ("#", 1)])
    o.got()
    fs = ctx.choice("filters", sets)
    i = ctx.int("id", 1, 65535)
    s.unsub(fs, id=i)
    r = s.got()
    ctx.check(len(r) == 1 and r[0]["t"] == UNSUBACK and eq(r[0]["id"], i), "one UNSUBACK with the identifier of the UNSUBSCRIBE", lambda: r)
    codes = []
    for f in fs:
        codes.append(0 if f in have else 0x11)
        if f in have:
            have.remove(f)
    if ver == 5:
        ctx.check(list(r[0]["codes"]) == codes, "one code per filter, in order", lambda: (r, fs, codes))
    for t in ("a", "a/b"):
        p.pub(t, b"x", qos=1, id=5)
        r = s.pubs()
        ctx.check(len(r) == (1 if any(matches(f, t) for f in have) else 0), "exactly these subscriptions are removed", lambda: (r, t, fs, have))
        ctx.check(len(o.pubs()) == 1, "those of other clients are not")


def inflight(ctx, ver):
    """unsubscribing does not affect messages in flight"""
    w = World(ctx)
    s = w.connect("s", ver)
    p = w.connect("p", ver)
    s.sub(("a", 2))
    s.got()
    q = ctx.choice("qos", [1, 2])
    p.pub("a", b"x", qos=q)
    r = s.pubs()
    ctx.check(len(r) == 1, "delivered")
    s.unsub(["a"])
    u = s.got()
    ctx.check(types(u) == [UNSUBACK], "UNSUBACK", lambda: u)
    s.ack(PUBACK if q == 1 else PUBREC, r[0]["id"])
    u = s.got()
    ctx.check(types(u) == ([PUBREL] if q == 2 else []) and s.open, "the delivery is completed", lambda: u)


def pub(ctx, ver, onrel):
    """PUBLISH: the acknowledgement"""
    w = World(ctx, publish_on_pubrel=onrel)
    o = w.connect("o", ver)
    subbed = ctx.bool("somebody subscribed")
    if subbed:
        o.sub("a")
        o.got()
    p = w.connect("p", ver)
    i = ctx.int("id", 1, 65535)
    q = ctx.choice("qos", [0, 1, 2])
    p.pub("a", ctx.bytes("payload", 1), qos=q, id=i, retain=ctx.bool("retain"), dup=ctx.bool("dup") if q else False)
    r = p.got()
    ctx.check(types(r) == [[], [PUBACK], [PUBREC]][q], "QoS 0: none, 1: PUBACK, 2: PUBREC", lambda: r)
    if q:
        ctx.check(eq(r[0]["id"], i), "with the identifier of the PUBLISH", lambda: r)
        if ver == 5:
            ctx.check(r[0]["rc"] in ((0,) if subbed else (0, 0x10)), "no matching subscribers (0x10) only if there are none", lambda: r)
    if q == 2:
        p.ack(PUBREL, i)
        r = p.got()
        ctx.check(types(r) == [PUBCOMP] and eq(r[0]["id"], i) and (ver != 5 or r[0]["rc"] == 0), "PUBREL: PUBCOMP", lambda: r)


def ping(ctx, ver):
    w = World(ctx)
    c = w.connect("c", ver)
    d = w.connect("d", ver)
    for i in range(2):
        c.send({"t": PINGREQ})
        r = c.got()
        ctx.check(types(r) == [PINGRESP] and c.open and len(d.got()) == 0, "PINGREQ is answered by PINGRESP", lambda: r)


def errors(ctx, onrel):
    """topics which make this broker answer with errors, for testing clients"""
    w = World(ctx, publish_on_pubrel=onrel)
    c = w.connect("c", 5)
    up = userprops(ctx, 5)
    i = ctx.int("id", 1, 65535)
    q = ctx.choice("qos", [1, 2])
    topic = ctx.choice("topic", ["test_qos_1_2_errors", "test_qos_1_2_errors_pubcomp"])
    c.pub(topic, b"x", qos=q, id=i, props=up)
    r = c.got()
    bad = topic == "test_qos_1_2_errors"
    ctx.check(types(r) == [PUBACK if q == 1 else PUBREC] and eq(r[0]["id"], i), "acknowledged", lambda: r)
    ctx.check((r[0]["rc"] == 0x87) if bad else r[0]["rc"] in (0, 0x10), "not authorized", lambda: r)
    if bad:
        ctx.check(same_props([x for x in r[0]["props"] if x[0] == 38], up), "with the user properties of the PUBLISH", lambda: r)
    if q == 2:
        c.send({"t": PUBREL, "id": i, "rc": 0, "props": up})
        r = c.got()
        ctx.check(types(r) == [PUBCOMP] and land(eq(r[0]["id"], i), eq(r[0]["rc"], 0x92)), "packet identifier not found", lambda: r)
        if not bad:
            ctx.check(same_props([x for x in r[0]["props"] if x[0] == 38], up), "with the user properties of the PUBREL", lambda: r)
        c.pub("other", b"x", qos=2, id=i)
        c.got()
        c.ack(PUBREL, i)
        r = c.got()
        ctx.check(types(r) == [PUBCOMP] and r[0]["rc"] == 0, "only once", lambda: r)


def disconnect(ctx):
    """cmd/disconnectWithRC makes the broker disconnect with the code in the payload"""
    w = World(ctx)
    o = w.connect("o", 5)
    o.sub("#")
    o.got()
    c = w.connect("c", 5, will={"topic": "w", "payload": b"w"})
    rc = ctx.choice("code", [0x00, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A,
                                 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2])
    c.pub("cmd/disconnectWithRC", str(rc).encode(), qos=ctx.choice("qos", [0, 1]))
    r = c.got()
    ctx.check(types(r) == [DISCONNECT] and r[0]["rc"] == rc and not c.open, "DISCONNECT with this code", lambda: (r, rc))
    ctx.check(set(i for i, v in r[0]["props"]) == {31, 28, 38}, "with sample properties", lambda: r)
    ctx.check(len(o.pubs()) == 0 and o.open, "nobody else notices")


def make(tier):
    deep = tier == "thorough"
    one = [[f] for f in FILTERS]
    two = [["a", "test/nosubscribe"], ["test/QoS 0 only", "a/+"], ["test/nosubscribe", "test/QoS 1 only"], ["a", "a"], ["#", "a"]]
    three = [["test/QoS 1 only", "test/nosubscribe", "a"], ["a/+", "#", "a"], ["test/nosubscribe", "test/nosubscribe", "#"]]
    us = [["a"], ["a/+"], ["x"], ["a", "x"], ["x", "a/+"], ["a", "a/+"], ["#", "a", "x"], ["a", "a"]]
    hs = []
    for ver in (5, 311):
        hs.append(Harness("sub1 %d" % ver, sub, "one filter", ver=ver, k=1, sets=one))
        hs.append(Harness("sub2 %d" % ver, sub, "two filters", ver=ver, k=0, sets=two))
        if deep:
            hs.append(Harness("sub3 %d" % ver, sub, "three filters", ver=ver, k=0, sets=three))
        hs.append(Harness("unsub %d" % ver, unsub, "%d sets of filters" % len(us), ver=ver, sets=us))
        hs.append(Harness("inflight %d" % ver, inflight, "one message", ver=ver))
        for onrel in (False, True):
            hs.append(Harness("pub %d%s" % (ver, " on pubrel" if onrel else ""), pub, "one message", ver=ver, onrel=onrel))
        hs.append(Harness("ping %d" % ver, ping, "two requests", ver=ver))
    for onrel in (False, True):
        hs.append(Harness("errors%s" % (" on pubrel" if onrel else ""), errors, "one message", onrel=onrel))
    hs.append(Harness("disconnect", disconnect, "all codes"))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C19", make))
