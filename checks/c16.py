"C16: topic aliases (MQTT 5)"
import itertools
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *

TOPICS = ["t/a", "t/b", "t/c"]


def inbound(ctx, k, vers):
    """k publications with or without topic and alias; what they mean is decided by what went before on the same connection"""
    top = ctx.choice("broker maximum", [0, 2])
    w = World(ctx, topicAliasMaximum=top)
    ss = []
    for i, v in enumerate(vers):
        s = w.connect("s%d" % i, v)
        s.sub("#")
        s.got()
        ss.append(s)
    kw = {"clean": False, "props": [(17, 1000)]}
    c = w.connect("c", 5, **kw)
    m = [x for i, x in c.connack["props"] if i == 34]
    ctx.check(m == ([top] if top else []), "CONNACK tells the client the maximum", lambda: c.connack)
    table = {}
    for i in range(k):
        what = ctx.choice("publish", ["topic", "topic and alias", "alias", "nothing"])
        a = ctx.int("alias", 0, 65535) if "alias" in what else None
        t = ctx.choice("topic", TOPICS[:2]) if "topic" in what else ""
        pl = ctx.bytes("payload", 1)
        qos = ctx.choice("qos", [0, 1]) if i == 0 else 0
        c.pub(t, pl, qos=qos, props=[] if a is None else [(35, a)])
        known = None
        bad = what == "nothing"
        if a is not None:
            bad = bad or bool(lor(a == 0, a > top))
            if not bad:
                if t:
                    table = {x: y for x, y in table.items() if not bool(x == a)}
                    table[a] = t
                else:
                    known = [y for x, y in table.items() if bool(x == a)]
                    bad = not known
        want = (known[0] if known else t)
        for s in ss:
            r = s.pubs()
            ctx.check(len(r) == (0 if bad else 1), "delivered to the topic which the alias stands for, or not at all", lambda: (r, what, a, table))
            if r:
                ctx.check(land(seqeq(r[0]["topic"], b(want)), seqeq(r[0]["payload"], b(pl))), "the topic is the one last set for the alias", lambda: (r, what, a, table))
                ctx.check(not r[0].get("aliased"), "the publisher's alias means nothing to the subscriber", lambda: r)
        got = c.got()
        if bad:
            ctx.check(not c.open and len(got) == 1 and got[0]["t"] == DISCONNECT and got[0]["rc"] in (0x82, 0x94), "an invalid alias is a protocol error", lambda: got)
            break
        ctx.check(c.open and len(got) == (qos > 0), "the publication is accepted", lambda: got)
    # aliases belong to the connection
    if c.open and table:
        x = ctx.choice("then", ["same connection", "reconnect", "other client"])
        if x == "same connection":
            return
        if x == "reconnect":
            c.die() if ctx.bool("die") else c.disconnect()
            c = w.connect("c", 5, **kw)
        else:
            c = w.connect("d", 5)
        c.pub("", b"x", props=[(35, list(table)[0])])
        ctx.check(not c.open, "aliases end with the connection, and are not those of other clients")
        for s in ss:
            ctx.check(len(s.pubs()) == 0, "nothing is delivered")


def outbound(ctx, k, more):
    """the broker uses aliases only as far as the client allows, and consistently"""
    w = World(ctx)
    m = ctx.choice("client maximum", [None, 0, 1, 2])
    pr = [(17, 1000)] + ([] if m is None else [(34, m)])
    if more:
        pr += [(33, 1)]
    s = w.connect("s", 5, clean=not more, props=pr)
    s.sub(("t/#", 1))
    s.got()
    p = w.connect("p", ctx.choice("publisher", [5, 311]))
    sent = []
    for i in range(k):
        t = ctx.choice("topic", TOPICS)
        pl = ctx.bytes("payload", 1)
        q = ctx.choice("qos", [0, 1]) if not more else 1
        p.pub(t, pl, qos=q, id=i + 1)
        sent.append((t, pl))
        if i == 0 and ctx.bool("reconnect"):
            if q == 0 or ctx.bool("acknowledged"):
                compare(ctx, out(ctx, s, m), sent)
                sent = []
            else:
                s.pubs()
            s.die()
            m = ctx.choice("new maximum", [None, 1])
            s = w.connect("s", 5, clean=False, props=[(17, 1000)] + ([] if m is None else [(34, m)]) + ([(33, 1)] if more else []))
            r = out(ctx, s, m)
            compare(ctx, r, sent)
            sent = []
    r = out(ctx, s, m)
    compare(ctx, r, sent)


def out(ctx, s, m):
    r = []
    for _ in range(10):
        ps = s.got()
        if not ps:
            return r
        for x in ps:
            a = [v for i, v in x["props"] if i == 35]
            ctx.check(not a or (m is not None and land(a[0] > 0, a[0] <= m)), "aliases from 1 to the client's maximum only", lambda: (x, m))
            s.alias(x)
            r.append(x)
            if x["qos"]:
                s.ack(PUBACK, x["id"])
    ctx.fail("the broker stops sending")


def compare(ctx, r, sent):
    ctx.check(len(r) == len(sent) and land(*[land(seqeq(x["topic"], b(t)), seqeq(x["payload"], b(pl))) for x, (t, pl) in zip(r, sent)]),
              "the client, which resolves the aliases, sees the topics published to", lambda: (r, sent))


def dropped(ctx):
    """a publication which is discarded (too large or expired) sets no alias"""
    w = World(ctx)
    size = ctx.int("maximum packet size", 1, 40)
    kw = {"clean": False, "props": [(17, 0xFFFFFFFF), (34, 1), (39, size)]}
    ctx.assume(size > 20)
    s = w.connect("s", 5, **kw)
    s.sub(("t/#", 1))
    s.got()
    p = w.connect("p", 5)
    big = bytes(60)
    how = ctx.choice("discarded", ["large", "expired", "none"])
    if how == "large":
        p.pub("t/a", big, qos=ctx.choice("qos", [0, 1]))
    elif how == "expired":
        s.die()
        p.pub("t/a", b"x", qos=1, props=[(2, 1)])
        ctx.advance(80)
        s = w.connect("s", 5, **kw)
    ctx.check(len(s.got()) == 0, "it is discarded")
    sent = []
    for i in range(2):
        t = ctx.choice("topic", TOPICS[:2])
        pl = ctx.bytes("payload", 1)
        p.pub(t, pl, qos=1, id=i + 5)
        sent.append((t, pl))
    compare(ctx, out(ctx, s, 1), sent)


def sizes(ctx):
    """a publication which only fits without an alias is sent without one (one which only fits with it may be discarded)"""
    w = World(ctx)
    s = w.connect("s", 5, clean=False, props=[(17, 0xFFFFFFFF), (34, 2), (39, 24)])
    s.sub(("#", 1))
    s.got()
    p = w.connect("p", 5)
    sent = []
    for i in range(3):
        t = ctx.choice("topic", ["t", "t/aaa"])
        pl = bytes(ctx.choice("size", [12, 14, 15] if i else [1, 14]))
        p.pub(t, pl, qos=1, id=i + 5)
        # 2 + 2 + topic + 2 + 1 + payload without an alias
        sent.append((t, pl, 7 + len(t) + len(pl) <= 24))
    r = out(ctx, s, 2)
    ways = [[(t, pl) for (t, pl, fits), also in zip(sent, more) if fits or also] for more in itertools.product((False, True), repeat=3)]
    compare(ctx, r, next((x for x in ways if len(x) == len(r) and all(len(y["payload"]) == len(pl) for y, (_, pl) in zip(r, x))), ways[0]))


def make(tier):
    deep = tier == "thorough"
    k = 4 if deep else 3
    return [Harness("inbound", inbound, "%d publications, aliases 0..65535" % k, k=k, vers=(5, 311) if deep else (5,)),
            Harness("outbound", outbound, "%d publications to 3 topics, with a reconnection" % k, k=k, more=False),
            Harness("outbound, receive maximum 1", outbound, "%d publications to 3 topics, with a reconnection" % k, k=k, more=True),
            Harness("inbound 311", inbound, "2 publications, subscribers of both versions", k=2, vers=(5, 311)),
            Harness("dropped", dropped, "one discarded publication, then two"),
            Harness("sizes", sizes, "3 publications around the largest size")]


if __name__ == "__main__":
    import sys
    sys.exit(main("C16", make))
