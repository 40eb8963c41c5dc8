"C12: inbound QoS 2 messages are passed on exactly once, QoS 1 at least once, and acknowledged with their identifier"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq
from checks.brk import *
from checks.c11 import KEEP


def flow(ctx, ver, k, onrel, deep, over=None):
    """k operations of a publisher with two identifiers (symbolic): PUBLISH (QoS 2 or 1, DUP symbolic), PUBREL, reconnecting"""
    w = World(ctx, publish_on_pubrel=onrel)
    o = w.connect("o", over or ver)
    o.sub(("t/#", 2))
    o.got()
    c = w.connect("c", ver, **(KEEP[ver] if ver == 311 else dict(KEEP[ver], clean=onrel)))
    ids = [ctx.int("id1", 1, 65535), ctx.int("id2", 1, 65535)]
    ctx.assume(ids[0] != ids[1])
    pending = {}                     # index -> payload, waiting for PUBREL
    seen = set()
    for step in range(k):
        ops = ["pub 0", "rel 0"]
        if 0 in seen:
            ops += ["pub 1"] + ["rel 1"] * (1 in seen)
        if deep or step < k - 1:     # what they leave behind shows in what follows
            ops += ["qos1", "again"]
        op = ctx.choice("op", ops)
        if op == "again":
            c.die() if ctx.choice("how", ["die", "disconnect"]) == "die" else c.disconnect()
            c = w.connect("c", ver, **KEEP[ver])
            ctx.check(c.connack is not None and eq(c.connack["sp"], True), "the session is present")
            r = c.got()
            ctx.check(len(r) == 0, "nothing is sent on reconnecting", lambda: r)
            continue
        if op == "qos1":
            pl, i = ctx.bytes("payload", 1), ctx.int("id of qos 1", 1, 65535)
            ctx.assume(land(i != ids[0], i != ids[1]))
            c.pub("t/1", pl, qos=1, id=i, dup=ctx.bool("dup"))
            acked(ctx, c, ver, PUBACK, i)
            delivered(ctx, o, [("t/1", pl, 1)])
            continue
        j = int(op[-1])
        seen.add(j)
        if op.startswith("pub"):
            if j in pending:
                pl = pending[j]             # a retransmission of the same message
            else:
                pl = ctx.bytes("payload", 1)
            c.pub("t/%d" % j, pl, qos=2, id=ids[j], dup=ctx.bool("dup"))
            acked(ctx, c, ver, PUBREC, ids[j])
            delivered(ctx, o, [] if j in pending or onrel else [("t/%d" % j, pl, 2)])
            pending[j] = pl
        else:
            c.ack(PUBREL, ids[j])
            acked(ctx, c, ver, PUBCOMP, ids[j], 0 if j in pending else 0x92)
            delivered(ctx, o, [("t/%d" % j, pending[j], 2)] if j in pending and onrel else [])
            pending.pop(j, None)
    ctx.check(c.open and o.open, "the connections stay open")


def acked(ctx, c, ver, t, i, rc=0):
    r = c.got()
    ctx.check(len(r) == 1 and r[0]["t"] == t and eq(r[0]["id"], i), "the packet is answered once, with its identifier", lambda: (r, t))
    if ver == 5:
        ok = r[0]["rc"]
        ctx.check(eq(ok, rc) if t == PUBCOMP else lor(eq(ok, 0), eq(ok, 0x10)), "the reason code is right", lambda: r)


def delivered(ctx, o, want):
    r = o.pubs()
    ctx.check(len(r) == len(want) and not o.other, "each message is passed on exactly once", lambda: (r, want))
    for x, (t, pl, q) in zip(r, want):
        ctx.check(land(seqeq(x["topic"], b(t)), seqeq(x["payload"], b(pl)), eq(x["qos"], q), eq(x["dup"], False)),
                  "the message is passed on unchanged, with DUP 0", lambda: (r, want))


def clean(ctx, ver, onrel):
    """a clean start forgets the identifiers: the same one then carries a new message"""
    w = World(ctx, publish_on_pubrel=onrel)
    o = w.connect("o", ver)
    o.sub(("t/#", 2))
    o.got()
    how = ctx.choice("how", ["clean", "keep"])
    c = w.connect("c", ver, **(KEEP[ver] if ver == 311 else dict(KEEP[ver], clean=ctx.bool("clean start"))))
    i = ctx.int("id", 1, 65535)
    c.pub("t/a", b"1", qos=2, id=i)
    acked(ctx, c, ver, PUBREC, i)
    delivered(ctx, o, [] if onrel else [("t/a", b"1", 2)])
    c.die()
    c = w.connect("c", ver, **(KEEP[ver] if how == "keep" else {"clean": True}))
    j = ctx.int("second id", 1, 65535)
    same = eq(i, j)
    c.pub("t/b" if how == "clean" or not same else "t/a", b"2" if how == "clean" or not same else b"1", qos=2, id=j, dup=ctx.bool("dup"))
    acked(ctx, c, ver, PUBREC, j)
    new = how == "clean" or not same
    delivered(ctx, o, [("t/b", b"2", 2)] if new and not onrel else [])
    c.ack(PUBREL, j)
    acked(ctx, c, ver, PUBCOMP, j)
    delivered(ctx, o, [("t/b", b"2", 2) if new else ("t/a", b"1", 2)] if onrel else [])
    c.ack(PUBREL, j)
    acked(ctx, c, ver, PUBCOMP, j, 0x92)
    delivered(ctx, o, [])


def two(ctx, ver, onrel):
    """two publishers use the same identifier independently"""
    w = World(ctx, publish_on_pubrel=onrel)
    o = w.connect("o", 5)
    o.sub(("t/#", 2))
    o.got()
    c, d = w.connect("c", ver), w.connect("cc", ver)
    i = ctx.int("id", 1, 65535)
    j = ctx.int("id of d", 1, 65535)
    c.pub("t/c", b"1", qos=2, id=i)
    acked(ctx, c, ver, PUBREC, i)
    delivered(ctx, o, [] if onrel else [("t/c", b"1", 2)])
    d.pub("t/d", b"2", qos=2, id=j)
    acked(ctx, d, ver, PUBREC, j)
    delivered(ctx, o, [] if onrel else [("t/d", b"2", 2)])
    d.ack(PUBREL, j)
    acked(ctx, d, ver, PUBCOMP, j)
    delivered(ctx, o, [("t/d", b"2", 2)] if onrel else [])
    c.pub("t/c", b"1", qos=2, id=i, dup=True)
    acked(ctx, c, ver, PUBREC, i)
    delivered(ctx, o, [])
    c.ack(PUBREL, i)
    acked(ctx, c, ver, PUBCOMP, i)
    delivered(ctx, o, [("t/c", b"1", 2)] if onrel else [])


def make(tier):
    deep = tier == "thorough"
    hs = []
    for ver in (5, 311):
        for onrel in (False, True):
            k = 5 if deep else 4
            n = "%d %s" % (ver, "on PUBREL" if onrel else "on PUBLISH")
            hs.append(Harness("flow " + n, flow, "%d operations with two symbolic identifiers" % k, ver=ver, k=k, onrel=onrel, deep=deep))
            hs.append(Harness("clean " + n, clean, "reconnecting with and without clean start", ver=ver, onrel=onrel))
            hs.append(Harness("two " + n, two, "two publishers, symbolic identifiers", ver=ver, onrel=onrel))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C12", make))
