"C10: retained messages"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *
from checks.topic import matches
from checks.c09 import minq

T = ["a", "a/b", "$d/a"]


class Model:
    "what is retained: topic -> (payload, qos)"

    def __init__(self):
        self.m = {}

    def publish(self, topic, payload, qos, retain):
        if retain:
            if len(payload) == 0:
                self.m.pop(topic, None)
            else:
                self.m[topic] = (payload, qos)


def check_retained(ctx, r, want, subq, what):
    "r: publications received on subscribing; want: topic -> (payload, qos)"
    ctx.check(len(r) == len(want), "one message for each retained message that matches", lambda: (r, want, what))
    for t in want:
        mine = [x for x in r if bytes_of(x["topic"]) == t.encode()]
        ctx.check(len(mine) == 1, "one message for each retained message that matches", lambda: (r, want, what))
        x = mine[0]
        ctx.check(seqeq(x["payload"], b(want[t][0])), "the retained payload is the last one", lambda: (r, want, what))
        ctx.check(eq(x["retain"], True), "RETAIN is 1 on messages sent because of a new subscription", lambda: (r, what))
        ctx.check(eq(x["qos"], minq(want[t][1], subq)), "QoS is the lower of the retained message's and the subscription's", lambda: (r, want, what))
        ctx.check(eq(x["dup"], False), "DUP is 0")


def bytes_of(x):
    return bytes(list(x)) if not any(is_sym(y) for y in x) else None


def history(ctx, pvers, ver, k, filters, deep=True):
    """k publications (symbolic topic, payload, QoS, RETAIN), then a new subscription"""
    w = World(ctx)
    m = Model()
    live = w.connect("live", ver)
    live.sub(["#", "$d/#"])
    live.got()
    for i in range(k):
        pver = ctx.choice("publisher version", pvers)
        p = w.connect("p%d" % i, pver)
        t = ctx.choice("topic", T)
        payload = ctx.choice("payload", [b"", ctx.bytes("content", 1)])
        retain = ctx.bool("retain") if deep or i > 0 else True
        qos = ctx.choice("qos", [0, 2]) if deep or i < k - 1 else 1
        p.pub(t, payload, qos=qos, retain=retain)
        retain = bool(retain)
        m.publish(t, payload, qos, retain)
        r = live.pubs()
        ctx.check(len(r) == 1 and seqeq(r[0]["payload"], b(payload)) and eq(r[0]["retain"], False),
                  "existing subscribers get it once, with RETAIN 0, even when it is empty", lambda: r)
        if (deep or i == 0) and ctx.bool("publisher leaves"):
            p.disconnect()
    s = w.connect("s", ver)
    f = ctx.choice("filter", filters)
    sq = ctx.int("sub qos", 0, 2)
    s.sub((f, sq))
    check_retained(ctx, s.pubs(), {t: v for t, v in m.m.items() if matches(f, t)}, sq, f)


def options(ctx, ver):
    """subscribing again, with retain handling and retain as published; unsubscribing in between; several filters"""
    w = World(ctx)
    p = w.connect("p", ctx.choice("publisher version", [5, 311]))
    rq = ctx.choice("retained qos", [0, 2])
    p.pub("a", b"1", qos=rq, retain=True)
    p.pub("a/b", b"2", qos=0, retain=True, id=2)
    s = w.connect("s", ver)
    known = set()
    for i in range(2):
        f = ctx.choice("filter", ["a", "a/#"])
        sq = ctx.int("sub qos", 0, 2) if i else 1
        rh = ctx.int("retain handling", 0, 2) if ver == 5 else 0
        rap = ctx.bool("retain as published") if ver == 5 else False
        s.sub((f, sq, False, rap, rh), id=i + 1)
        send = lor(rh == 0, land(rh == 1, f not in known))
        r = s.pubs()
        if send:
            want = {"a": (b"1", rq), "a/b": (b"2", 0)} if f == "a/#" else {"a": (b"1", rq)}
            check_retained(ctx, r, want, sq, (f, rh))
        else:
            ctx.check(len(r) == 0, "retain handling 1 sends retained messages for new subscriptions only, 2 never", lambda: (r, rh, f))
        known.add(f)
        if i == 0 and ctx.bool("unsubscribe"):
            s.unsub([f], id=7)
            s.got()
            known.discard(f)


def several(ctx, ver):
    """two filters in one SUBSCRIBE, that may match the same message"""
    w = World(ctx)
    p = w.connect("p", ver)
    pl = ctx.bytes("payload", 1)
    rq = ctx.choice("retained qos", [0, 2])
    p.pub("a/b", pl, qos=rq, retain=True)
    s = w.connect("s", ver)
    fs = ctx.choice("filters", [("a/b", "a/c"), ("a/c", "a/b"), ("a/b", "a/+"), ("b", "c")])
    q1, q2 = ctx.int("q1", 0, 2), ctx.int("q2", 0, 2)
    s.sub([(fs[0], q1), (fs[1], q2)])
    r = s.pubs()
    hits = [q for f, q in zip(fs, (q1, q2)) if matches(f, "a/b")]
    # each filter counts as if it were in a SUBSCRIBE of its own
    ctx.check(len(r) == len(hits), "one copy for each matching filter", lambda: r)
    for x in r:
        ctx.check(land(seqeq(x["payload"], b(pl)), eq(x["retain"], True)), "the retained message", lambda: r)
    due = [minq(rq, q) for q in hits]
    ctx.check(lor(*[land(*[eq(x["qos"], q) for x, q in zip(r, d)]) for d in (due, due[::-1])]), "each with the QoS of its subscription", lambda: (due, r))


def handling(ctx):
    """several filters in one SUBSCRIBE, each new or not and with its own QoS and retain handling"""
    w = World(ctx)
    p = w.connect("p", 5)
    rq = {"a": 2, "b": 1, "c": 0}
    for i, t in enumerate("abc"):
        p.pub(t, t.encode(), qos=rq[t], retain=True, id=i + 1)
    s = w.connect("s", 5)
    old = ctx.choice("already subscribed", ["", "a", "b", "ac"])
    if old:
        s.sub(list(old))
        s.got()
    fs = ctx.choice("filters", ["ab", "ba", "cb", "cab"])
    o = [(f, ctx.int("qos " + f, 1, 2) if f == "a" else 2, False, False, ctx.int("retain handling " + f, 0, 2) if len(fs) < 3 else 1) for f in fs]
    s.sub(o)
    r = s.pubs()
    for f, q, _, _, rh in o:
        mine = [x for x in r if bytes_of(x["topic"]) == f.encode()]
        ctx.check(eq(len(mine), ite(lor(rh == 0, land(rh == 1, f not in old)), 1, 0)), "each filter's own retain handling counts", lambda: (old, o, r))
        for x in mine:
            ctx.check(land(seqeq(x["payload"], b(f)), eq(x["qos"], minq(rq[f], q)), eq(x["retain"], True)), "and its own QoS", lambda: (old, o, r))
    ctx.check(len(r) <= len(fs), "only those", lambda: (o, r))


def survive(ctx, ver):
    """retained messages outlive the session of the publisher, also when they are its will"""
    w = World(ctx)
    pl = ctx.bytes("payload", 1)
    how = ctx.choice("how", ["publish", "will", "both"])
    wq = ctx.choice("will qos", [0, 1, 2])
    wr = ctx.bool("will retain")
    p = w.connect("p", ver, clean=ctx.bool("clean"), will=None if how == "publish" else {"topic": "a", "payload": b"W", "qos": wq, "retain": wr})
    if how != "will":
        p.pub("a", pl, qos=1, retain=True)
    p.die() if how != "publish" else p.disconnect()
    w.after(8 * 10)
    q = w.connect("p", ver)
    want = {}
    if how != "will":
        want = {"a": (pl, 1)}
    if how != "publish" and wr:
        want = {"a": (b"W", wq)}
    s = w.connect("s", ctx.choice("subscriber version", [5, 311]))
    sq = ctx.int("sub qos", 0, 2)
    s.sub(("a", sq))
    check_retained(ctx, s.pubs(), want, sq, how)


def props(ctx):
    """an MQTT 5 retained message keeps its properties; the subscription identifier is that of the new subscription"""
    w = World(ctx)
    p = w.connect("p", 5)
    pr = [(1, ctx.int("PayloadFormatIndicator", 0, 1)), (3, b(ctx.str("ContentType", 2, lo=97, hi=122))), (9, list(ctx.bytes("Correlation", 1))),
          (38, (b("k"), b(ctx.str("value", 1, lo=97, hi=122)))), (38, (b("k"), b("2")))]
    p.pub("a", b"1", retain=True, props=pr)
    for i in range(2):
        s = w.connect("s%d" % i, 5)
        sid = ctx.int("subscription id", 0, 268435455)
        have = sid > 0
        s.sub("a", props=[(11, sid)] if have else [])
        r = s.pubs()
        ctx.check(len(r) == 1 and same_props(r[0]["props"], sorted(pr + ([(11, sid)] if have else []), key=lambda x: x[0])),
                  "the properties are those of the publication, and the identifier of this subscription", lambda: (r, pr))


def make(tier):
    deep = tier == "thorough"
    hs = []
    F = ["a", "#", "a/#", "+", "+/+", "$d/a", "$d/+"]
    for ver in (5, 311):
        k = 3 if deep else 2
        hs.append(Harness("history %d" % ver, history, "%d publications to 3 topics (1 byte or empty), then one of %d filters" % (k, len(F)),
                          pvers=[5, 311] if deep else [ver], ver=ver, k=k, filters=F if deep else F[1:3] + F[6:], deep=deep))
        hs.append(Harness("options %d" % ver, options, "two SUBSCRIBEs, with UNSUBSCRIBE between them or not", ver=ver))
        hs.append(Harness("several %d" % ver, several, "two filters in one SUBSCRIBE", ver=ver))
        hs.append(Harness("survive %d" % ver, survive, "publisher leaves; will messages", ver=ver))
    hs.append(Harness("cross 5<-311", history, "publisher MQTT 3.1.1, subscriber MQTT 5", pvers=[311], ver=5, k=1, filters=F))
    hs.append(Harness("cross 311<-5", history, "publisher MQTT 5, subscriber MQTT 3.1.1", pvers=[5], ver=311, k=1, filters=F))
    hs.append(Harness("handling", handling, "2 or 3 filters in one SUBSCRIBE, retain handling 0..2 each"))
    hs.append(Harness("props", props, "MQTT 5 properties of retained messages"))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C10", make))
