"C09: a publication reaches exactly the matching subscribers, once, unchanged, in order"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq
from checks.brk import *
from checks.topic import matches

FILTERS = ["a/b", "a/+", "#", "a/#", "$a/b", "b"]


def maxq(qs):
    m = qs[0]
    for q in qs[1:]:
        m = ite(q > m, q, m)
    return m


def minq(a, b):
    return ite(a < b, a, b)


def expect(ctx, r, topic, payload, qos, what):
    ctx.check(land(seqeq(r["topic"], b(topic)), seqeq(r["payload"], b(payload))), "topic and payload are unchanged", lambda: (r, what))
    ctx.check(eq(r["qos"], qos), "QoS is the lower of the publication's and the highest matching subscription's", lambda: (r, what))
    ctx.check(eq(r["retain"], False), "the RETAIN flag of a message sent as it is published is 0", lambda: (r, what))
    ctx.check(eq(r["dup"], False), "the DUP flag of a first delivery is 0", lambda: (r, what))


def fan(ctx, vers, pver, filters, topics, same=False):
    """three subscribers with symbolic subscriptions and QoS, one message with a symbolic QoS, RETAIN, DUP and payload"""
    w = World(ctx)
    subs = []
    for i, v in enumerate(vers):
        c = w.connect("s%d" % i, v)
        mine = []
        for f in ctx.choice("filters of s%d" % i, filters):
            q = ctx.int("qos of s%d %s" % (i, f), 0, 2)
            c.sub((f, q))
            mine.append((f, q))
        c.got()
        subs.append((c, mine))
    p = w.connect("p", pver)
    topic = ctx.choice("topic", topics)
    qos = ctx.choice("qos", [0, 1, 2])
    payload = ctx.bytes("payload", 2)
    p.pub(topic, payload, qos=qos, retain=ctx.bool("retain"), dup=ctx.bool("dup") if qos else False)
    for c, mine in subs:
        r = c.pubs()
        qs = [q for f, q in mine if matches(f, topic)]
        ctx.check(len(r) == (1 if qs else 0), "one copy for a client with matching subscriptions, none for others", lambda: (mine, topic, r))
        if qs:
            expect(ctx, r[0], topic, payload, minq(qos, maxq(qs)), mine)
        ctx.check(not c.other and c.open, "nothing else is sent to a subscriber", lambda: c.other)
    got = p.pubs()
    ctx.check(len(got) == 0 and p.open, "nothing is delivered to a client without subscriptions", lambda: got)


def order(ctx, ver, pver, k):
    """k messages of symbolic QoS to two topics, from one publisher: each subscriber gets them in that order"""
    w = World(ctx)
    c = w.connect("s", ver)
    sq = ctx.int("sub qos", 0, 2)
    c.sub([("t/#", sq)])
    c.got()
    d = w.connect("d", ver)
    d.sub([("t/x", 2), ("t/y", 0)])
    d.got()
    p = w.connect("p", pver)
    sent = []
    for i in range(k):
        q = ctx.choice("qos", [0, 1, 2])
        t = ctx.choice("topic", ["t/x", "t/y"])
        pl = ctx.bytes("payload", 1)
        p.pub(t, pl, qos=q, id=i + 1)
        sent.append((t, pl, q))
    r = c.pubs()
    ctx.check(len(r) == k, "every message is delivered", lambda: r)
    for x, (t, pl, q) in zip(r, sent):
        expect(ctx, x, t, pl, minq(q, sq), "in order")
    r = d.pubs()
    ctx.check(len(r) == k, "every message is delivered", lambda: r)
    for x, (t, pl, q) in zip(r, sent):
        expect(ctx, x, t, pl, minq(q, 2 if t == "t/x" else 0), "in order")


def both(ctx, ver):
    """a client publishes to its own subscription, unsubscribes, subscribes again with another QoS"""
    w = World(ctx)
    c = w.connect("c", ver)
    o = w.connect("cc", 5)                 # its identifier begins like the other one
    o.sub(["#", "a/+", "a/b"])
    o.got()
    q1, q2 = ctx.int("q1", 0, 2), ctx.int("q2", 0, 2)
    pq = ctx.choice("qos", [0, 1, 2])
    c.sub(("a/+", q1))
    c.sub(("a/b", q2), id=2)
    c.got()
    n = 0
    have = {"a/+": q1, "a/b": q2}
    for step in range(2):
        what = ctx.choice("step", ["unsub a/+", "unsub a/b", "resub a/+", "resub a/b", "none"])
        if what == "none":
            continue
        f = what.split()[1]
        if what.startswith("unsub"):
            c.unsub([f], id=7)
            have.pop(f, None)
        else:
            have[f] = ctx.int("new qos", 0, 2)
            c.sub((f, have[f]), id=8)
        c.got()
    pl = ctx.bytes("payload", 1)
    c.pub("a/b", pl, qos=pq, id=9)
    r = c.pubs()
    ctx.check(len(r) == (1 if have else 0), "one copy if and only if a matching subscription is left", lambda: (have, r))
    if have:
        expect(ctx, r[0], "a/b", pl, minq(pq, maxq(list(have.values()))), have)
    r = o.pubs()
    ctx.check(len(r) == 1, "other subscribers are not affected", lambda: r)


def gone(ctx, ver):
    """subscriptions of clients without a session deliver nothing and disturb nobody"""
    w = World(ctx)
    c = w.connect("c", ver)
    d = w.connect("cc", 5)
    e = w.connect("C", 311)
    for x in (c, d, e):
        x.sub("a")
        x.got()
    how = ctx.choice("how", ["disconnect", "die"])
    c.disconnect() if how == "disconnect" else c.die()
    p = w.connect("p", ctx.choice("publisher", [5, 311]))
    qos = ctx.choice("qos", [0, 1, 2])
    pl = ctx.bytes("payload", 1)
    p.pub("a", pl, qos=qos)
    for x in (d, e):
        r = x.pubs()
        ctx.check(len(r) == 1, "one copy for each subscriber left", lambda: r)
        expect(ctx, r[0], "a", pl, qos, how)
    ctx.check(len(c.got()) == 0, "nothing is sent on a closed connection")
    c2 = w.connect("c", ver, clean=False)
    ctx.check(not c2.connack["sp"], "no session is left", lambda: c2.connack)
    p.pub("a", pl, qos=qos, id=2)
    r = c2.pubs()
    ctx.check(len(r) == 0, "the subscriptions ended with the session", lambda: r)


def props(ctx, npv, deep):
    """properties of an MQTT 5 publication are forwarded unaltered, in the order of user properties"""
    w = World(ctx)
    s = w.connect("s", 5)
    s3 = w.connect("s3", 311)
    s.sub("t")
    s3.sub("t")
    s.got(), s3.got()
    p = w.connect("p", 5)
    pr = []
    if ctx.bool("format"):
        pr.append((1, ctx.int("PayloadFormatIndicator", 0, 1)))
    n = ctx.choice("length", [1, 3])
    for i, name in ((3, "ContentType"), (8, "ResponseTopic"), (9, "CorrelationData")):
        if ctx.bool("has " + name):
            v = ctx.bytes(name, n) if i == 9 else b(ctx.str(name, n, lo=97, hi=0x7E))
            pr.append((i, list(v)))
    for i in range(ctx.choice("user properties", [0, 1, 2])):
        pr.append((38, (b(ctx.str("key", 1, lo=97, hi=122)), b(ctx.str("value", 1)))))
    qos = ctx.choice("qos", [0, 2])
    pl = ctx.bytes("payload", 1)
    p.pub("t", pl, qos=qos, props=pr)
    r = s.pubs()
    ctx.check(len(r) == 1, "delivered once", lambda: r)
    got = r[0]["props"]
    ctx.check(same_props(got, pr), "the properties are forwarded unaltered", lambda: (got, pr))
    expect(ctx, r[0], "t", pl, qos, "props")
    r = s3.pubs()
    ctx.check(len(r) == 1, "an MQTT 3.1.1 subscriber gets the message without properties", lambda: r)
    expect(ctx, r[0], "t", pl, qos, "props")


def make(tier):
    deep = tier == "thorough"
    hs = []
    pairs = [(), ("a/b",), ("a/+", "#"), ("a/#", "a/b")] if deep else [(), ("a/b",), ("a/+", "#")]
    for pver in (5, 311):
        for vers in ((5, 311),) if not deep else ((5, 311, 5), (311, 5, 311)):
            hs.append(Harness("fan %s<-%d" % ("".join("%d," % v for v in vers), pver),
                              lambda ctx, vers, pver: fan(ctx, vers, pver, pairs if deep or pver == 5 else pairs[:1] + pairs[2:], ["a/b", "a/c", "$a/b"] if deep else ["a/b", "a/c"]),
                              "%d subscribers with 0-2 subscriptions out of %s, symbolic QoS, RETAIN, DUP, payload of 2 bytes" % (len(vers), pairs),
                              vers=vers, pver=pver))
        for ver in (5, 311):
            k = 4 if deep else 3
            hs.append(Harness("order %d<-%d" % (ver, pver), order, "%d messages to 2 topics, two subscribers" % k, ver=ver, pver=pver, k=k))
    for ver in (5, 311):
        hs.append(Harness("both %d" % ver, both, "own subscriptions, two changes of them", ver=ver))
        hs.append(Harness("gone %d" % ver, gone, "sessions that ended", ver=ver))
        hs.append(Harness("dollar %d" % ver, lambda ctx, ver: fan(ctx, (ver,), ver, [("$a/b", "#"), ("$a/#", "+/b"), ("$a/+", "a/b"), ("#", "$a/#")],
                                                                   ["a/b", "$a/b", "$a/c"]), "topics starting with $", ver=ver))
    hs.append(Harness("props", props, "each property present or absent, texts of up to 3 characters", npv=2, deep=deep))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C09", make))
