"C17: MQTT 5 subscription options and subscription identifiers"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *
from checks.c09 import minq, maxq
from checks.topic import matches

BIG = 268435455
SMALL = 127          # identifiers of one byte, where their encoding is not the point


def ids(x):
    return [v for i, v in x["props"] if i == 11]


def perm(a, b):
    "the same values in any order"
    if len(a) != len(b):
        return False
    if not a:
        return True
    return lor(*[land(eq(a[0], b[i]), perm(a[1:], b[:i] + b[i + 1:])) for i in range(len(b))])


def opts(ctx, c, f, id, some=True, top=BIG):
    o = {"f": f, "q": ctx.int("qos", 0, 2), "nl": bool(ctx.bool("noLocal")), "rap": ctx.bool("retainAsPublished"), "id": None}
    if not some or ctx.bool("has identifier"):
        o["id"] = ctx.int("identifier", 1, top)
    c.sub((f, o["q"], o["nl"], o["rap"], 0), id=id, props=[] if o["id"] is None else [(11, o["id"])])
    r = c.got()
    ctx.check(len(r) == 1 and r[0]["t"] == SUBACK, "accepted", lambda: r)
    return o


def delivered(ctx, c, have, own, topic, pl, qos, retain, what):
    "what a client with the subscriptions have receives of a publication"
    hit = [o for o in have if matches(o["f"], topic) and not (own and o["nl"])]
    r = c.pubs()
    ctx.check(len(r) == (1 if hit else 0), "with noLocal a client's own messages are not sent to it", lambda: (r, have, what))
    if not hit:
        return
    x = r[0]
    ctx.check(land(seqeq(x["payload"], b(pl)), eq(x["qos"], minq(qos, maxq([o["q"] for o in hit])))), "payload and QoS", lambda: (x, hit))
    ctx.check(perm(ids(x), [o["id"] for o in hit if o["id"] is not None]),
              "the identifiers of all matching subscriptions which have one are sent, no others", lambda: (x, hit))
    # which of several overlapping subscriptions decides about RETAIN is left open
    ctx.check(lor(land(x["retain"], retain, lor(*[o["rap"] for o in hit])),
                  land(lnot(x["retain"]), lor(lnot(retain), *[lnot(o["rap"]) for o in hit]))),
              "RETAIN is kept if and only if retain as published is set", lambda: (x, hit))


def local(ctx, n, filters, topic, pubs=("c", "d", "311")):
    """a client with n subscriptions and another one; each of them publishes"""
    w = World(ctx)
    c = w.connect("c", 5)
    have = [opts(ctx, c, f, i + 1, some=i == n - 1, top=BIG if n == 1 else SMALL) for i, f in enumerate(ctx.choice("filters", filters))]
    d = w.connect("d", 5)
    d.sub((topic, 2, True, True, 0), props=[(11, 7)])
    d.got()
    dhave = [{"f": topic, "q": 2, "nl": True, "rap": True, "id": 7}]
    who = ctx.choice("publisher", list(pubs))
    p = {"c": c, "d": d}.get(who) or w.connect("e", 311)
    pl = ctx.bytes("payload", 1)
    qos = ctx.choice("qos", [0, 2] if n == 1 else [2])
    retain = ctx.bool("retain")
    p.pub(topic, pl, qos=qos, retain=retain)
    delivered(ctx, c, have, p is c, topic, pl, qos, retain, who)
    delivered(ctx, d, dhave, p is d, topic, pl, qos, retain, who)


def replace(ctx):
    """subscribing again replaces options and identifier; unsubscribing removes them"""
    w = World(ctx)
    c = w.connect("c", 5)
    p = w.connect("p", 5)
    have = {}
    for i in range(3):
        f = ctx.choice("filter", ["a/b", "a/+"])
        if f in have and ctx.bool("unsubscribe"):
            c.unsub([f], id=9)
            c.got()
            del have[f]
            continue
        o = {"f": f, "q": 0, "nl": i == 0, "rap": i == 1, "id": ctx.int("identifier", 1, SMALL)}
        if i == 2:
            o = {"f": f, "q": 0, "nl": bool(ctx.bool("noLocal")), "rap": ctx.bool("rap"), "id": ctx.int("identifier", 1, SMALL) if ctx.bool("has identifier") else None}
        c.sub((f, 0, o["nl"], o["rap"], 0), id=i + 1, props=[] if o["id"] is None else [(11, o["id"])])
        c.got()
        have[f] = o
    own = ctx.bool("own")
    retain = ctx.bool("retain")
    (c if own else p).pub("a/b", b"x", retain=retain)
    delivered(ctx, c, list(have.values()), bool(own), "a/b", b"x", 0, retain, "replaced")


def one_packet(ctx):
    """several filters in one SUBSCRIBE share the identifier and have their own options"""
    w = World(ctx)
    c = w.connect("c", 5)
    sid = ctx.int("identifier", 1, SMALL)
    os = [{"f": f, "q": ctx.int("qos", 0, 2), "nl": bool(ctx.bool("noLocal")), "rap": ctx.bool("rap"), "id": sid} for f in ("x", "y")]
    c.sub([(o["f"], o["q"], o["nl"], o["rap"], 0) for o in os], props=[(11, sid)])
    c.got()
    p = w.connect("p", 5)
    for t in ("x", "y"):
        own = bool(ctx.bool("own"))
        retain = ctx.bool("retain")
        (c if own else p).pub(t, b"m", qos=2, id=7 + (t == "y"), retain=retain)
        r = c.pubs()
        ctx.check(types(c.other) == ([PUBREC] if own else []), "acknowledged", lambda: c.other)
        hit = [o for o in os if o["f"] == t and not (own and o["nl"])]
        ctx.check(len(r) == len(hit), "noLocal belongs to the filter", lambda: (r, os))
        for x, o in zip(r, hit):
            ctx.check(land(eq(x["qos"], o["q"]), eq(x["retain"], land(retain, o["rap"])), perm(ids(x), [sid])), "with the options of its filter", lambda: (r, os))


def refused(ctx):
    """an identifier of 0, or in a PUBLISH from a client, and noLocal in a shared subscription are protocol errors"""
    w = World(ctx)
    o = w.connect("o", 5)
    o.sub("#")
    o.got()
    c = w.connect("c", 5)
    what = ctx.choice("what", ["zero", "publish", "shared"])
    if what == "zero":
        c.raw(ref.mk([0x82, 9, 0, 1, 2, 11, 0, 0, 1, 97, 0]))
    elif what == "publish":
        i = ctx.int("identifier", 1, BIG)
        c.pub("a", b"x", qos=ctx.choice("qos", [0, 1, 2]), props=[(11, i)])
    else:
        c.sub(("$share/g/a", 1, True, ctx.bool("rap"), 0))
    r = c.got()
    ctx.check(not c.open and len(r) == 1 and r[0]["t"] == DISCONNECT and r[0]["rc"] >= 0x80, "the connection is closed with an error", lambda: r)
    ctx.check(len(o.got()) == 0 and o.open, "nobody else notices")
    o.pub("a", b"x")
    ctx.check(len(o.got()) == 1 and len(c.got()) == 0, "no subscription is made")


def session(ctx):
    """options and identifiers are part of the session"""
    w = World(ctx)
    kw = {"clean": False, "props": [(17, 100)]}
    c = w.connect("c", 5, **dict(kw, clean=ctx.bool("clean start")))
    have = [opts(ctx, c, "a", 1)]
    p = w.connect("p", 5)
    c.die()
    retain = ctx.bool("retain")
    away = ctx.bool("away")
    if away:
        p.pub("a", b"x", qos=2, retain=retain)
    c = w.connect("c", 5, **kw)
    if away:
        r = c.pubs()
        o = have[0]
        ctx.check(lor(land(eq(o["q"], 0), len(r) == 0), land(o["q"] > 0, len(r) == 1)), "queued if QoS is not 0", lambda: r)
        for x in r:
            ctx.check(land(eq(x["retain"], land(retain, o["rap"])), perm(ids(x), [i for i in [o["id"]] if i is not None])), "with the options", lambda: r)
        return
    own = bool(ctx.bool("own"))
    (c if own else p).pub("a", b"x", retain=retain)
    delivered(ctx, c, have, own, "a", b"x", 0, retain, "session")


def make(tier):
    deep = tier == "thorough"
    F2 = [["a/b", "a/+"], ["a/+", "a/b"], ["a/b", "c"]] + [["#", "a/#"]] * deep
    hs = [Harness("one", local, "one subscription", n=1, filters=[["a/b"], ["#"], ["c"]], topic="a/b"),
          Harness("two", local, "two subscriptions", n=2, filters=F2 if deep else F2[:2], topic="a/b"),
          Harness("replace", replace, "three operations"), Harness("one packet", one_packet, "two filters"),
          Harness("refused", refused, "one packet"), Harness("session", session, "one subscription")]
    if deep:
        hs.append(Harness("three", local, "three subscriptions", n=3, filters=[["a/b", "a/+", "#"]], topic="a/b"))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C17", make))
