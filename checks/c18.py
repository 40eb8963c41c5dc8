"C18: shared subscriptions (MQTT 5): each message goes to exactly one member of each group"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *
from checks.c09 import minq
from checks.c17 import perm, ids
from checks.topic import matches


class Group:
    "subscriptions: client name -> {filter: (qos, rap, id)}"

    def __init__(self, ctx, w, names, **kw):
        self.ctx, self.w = ctx, w
        self.c = {n: w.connect(n, 5, **kw) for n in names}
        self.subs = {n: {} for n in names}
        self.n = 0

    def sub(self, n, f, opts=True):
        ctx = self.ctx
        q = ctx.int("qos of %s" % n, 0, 2) if opts else 2
        rap = ctx.bool("retain as published") if opts else False
        sid = ctx.int("identifier", 1, 127)
        self.c[n].sub((f, q, False, rap, 0), id=3, props=[(11, sid)])
        r = self.c[n].got()
        ctx.check(len(r) == 1 and r[0]["t"] == SUBACK and eq(r[0]["codes"][0], q), "the subscription is accepted", lambda: r)
        self.subs[n][f] = (q, rap, sid)

    def unsub(self, n, f):
        self.c[n].unsub([f], id=4)
        r = self.c[n].got()
        self.ctx.check(len(r) == 1 and r[0]["t"] == UNSUBACK and r[0]["codes"] == [0 if f in self.subs[n] else 17], "UNSUBACK", lambda: r)
        self.subs[n].pop(f, None)

    def end(self, n):
        self.c[n].die() if self.ctx.bool("die") else self.c[n].disconnect()
        self.subs[n] = {}

    def publish(self, p, topic, qos, retain=False):
        """who gets the message: one member of each group whose filter matches, and the ordinary subscribers"""
        ctx = self.ctx
        self.n += 1
        pl = ctx.bytes("payload", 1)
        p.pub(topic, pl, qos=qos, retain=retain, id=10 + self.n)
        groups, plain, got = {}, {}, {}
        for n in self.c:
            for f, o in self.subs[n].items():
                g = f.split("/", 2) if f.startswith("$share/") else None
                if g and matches(g[2], topic):
                    groups.setdefault(f, []).append((n, o))
                elif not g and matches(f, topic):
                    plain.setdefault(n, []).append(o)
            got[n] = self.c[n].pubs() if self.c[n].open else []
        total = sum(len(x) for x in got.values())
        ctx.check(total == len(groups) + len(plain), "one copy per group and one per ordinary subscriber", lambda: (got, self.subs))
        # an assignment of the copies to groups and ordinary subscriptions exists
        copies = [(n, x) for n in got for x in got[n]]
        for n, x in copies:
            ctx.check(land(seqeq(x["payload"], b(pl)), seqeq(x["topic"], b(topic)), eq(x["dup"], False)), "unchanged", lambda: x)
        want = [[(n, o)] for n in plain for o in plain[n]] + list(groups.values())
        ctx.check(assign(copies, want, qos, retain), "to a member of the group, with the options and identifier of its subscription", lambda: (got, self.subs))


def assign(copies, want, qos, retain):
    if not want:
        return not copies
    rs = []
    for i, (n, x) in enumerate(copies):
        for m, (q, rap, sid) in want[0]:
            if m == n:
                rs.append(land(eq(x["qos"], minq(qos, q)), perm(ids(x), [sid]), eq(x["retain"], land(retain, rap)),
                               assign(copies[:i] + copies[i + 1:], want[1:], qos, retain)))
    return lor(*rs) if rs else False


def one(ctx, k, pver, opts=True, deep=False):
    """k members of one group, any publisher"""
    w = World(ctx)
    g = Group(ctx, w, "abc"[:k])
    for n in g.c:
        g.sub(n, "$share/g/t/+", opts)
    # the publisher may be a member of the group itself
    p = g.c["a"] if pver == 5 and ctx.bool("publisher is a member") else w.connect("p", pver)
    for i in range(2):
        g.publish(p, ctx.choice("topic", ["t/x", "u"]) if i == 0 else "t/y", ctx.choice("qos", [0, 1, 2]) if i == 0 or deep else 1, ctx.bool("retain") if i == 0 else False)


def groups(ctx, pver, opts=True, deep=False):
    """several groups and ordinary subscriptions"""
    w = World(ctx)
    g = Group(ctx, w, "abc")
    for n in "abc":
        for f in ctx.choice("subscriptions of %s" % n, {"a": [["$share/g/t"], ["$share/g/t", "t"]],
                                                          "b": [["$share/g/t"], ["$share/h/t"], ["$share/g/#"]],
                                                          "c": [["t"], ["$share/h/t", "$share/g/t"], ["$share/h/+", "u"], []]}[n]):
            g.sub(n, f, opts=opts and f == "$share/g/t" and (deep or n != "c"))
    p = w.connect("p", pver)
    g.publish(p, "t", ctx.choice("qos", [0, 2]))


def changes(ctx, k, pver, deep=False):
    """members come and go"""
    w = World(ctx)
    g = Group(ctx, w, "abc")
    F = "$share/g/t"
    g.sub("a", F, False)
    g.sub("b", F, False)
    p = w.connect("p", pver)
    for i in range(k):
        n = ctx.choice("who", "abc" if deep or i < k - 1 else "ab")
        if not g.c[n].open:
            g.c[n] = w.connect(n, 5, clean=bool(ctx.bool("clean")))
        elif F in g.subs[n]:
            how = ctx.choice("what", ["unsubscribe", "leave", "subscribe again"])
            if how == "unsubscribe":
                g.unsub(n, F)
            elif how == "leave":
                g.end(n)
            else:
                g.sub(n, F, False)
        elif ctx.bool("other filter"):
            g.unsub(n, F)
        else:
            g.sub(n, F, False)
        g.publish(g.c["a"] if g.c["a"].open and i == k - 1 and ctx.bool("publisher is a") else p, "t", 1)


def several(ctx):
    """a member with several subscriptions leaves: none of them takes messages any more"""
    w = World(ctx)
    g = Group(ctx, w, "ab")
    g.sub("b", "$share/g/t", False)
    for f in ctx.choice("subscriptions", [["$share/h/u", "$share/g/t"], ["u", "$share/h/t", "$share/g/t", "$share/h/u"], ["$share/g/+", "$share/g/t", "$share/g/#", "t"]]):
        g.sub("a", f, False)
    g.sub("b", "$share/h/t", False)
    g.end("a")
    if ctx.bool("connects again"):
        g.c["a"] = w.connect("a", 5, clean=False)
    p = w.connect("p", 5)
    for t in "tut":
        g.publish(p, t, 1)


def away(ctx):
    """a member with a session is away: a message meant for it is queued for it"""
    w = World(ctx)
    kw = {"clean": False, "props": [(17, 100)]}
    g = Group(ctx, w, "ab", **dict(kw, clean=ctx.bool("clean start")))
    for n in "ab":
        g.sub(n, "$share/g/t", False)
    p = w.connect("p", 5)
    g.c["a"].die()
    pls = []
    for i in range(2):
        pl = ctx.bytes("payload", 1)
        p.pub("t", pl, qos=1, id=i + 1)
        pls.append(pl)
    r = g.c["b"].pubs()
    a = w.connect("a", 5, **kw)
    q = a.pubs()
    ctx.check(len(r) + len(q) == 2, "every message goes to exactly one member", lambda: (r, q))
    r, q = [x["payload"] for x in r], [x["payload"] for x in q]
    ctx.check(lor(*[land(seqeq(x, b(pls[0])), seqeq(y, b(pls[1]))) for x, y in ((r + q), (q + r))]), "each of them once", lambda: (r, q))


def v3(ctx):
    """for MQTT 3.1.1 clients $share has no meaning: such a filter matches the topics spelt like it"""
    w = World(ctx)
    s = w.connect("s", 311)
    f = ctx.choice("filter", ["$share/g/t", "$share/g", "$share/g/+"])
    s.sub(f)
    s.got()
    m = w.connect("m", 5)
    m.sub("$share/g/t")
    m.got()
    p = w.connect("p", ctx.choice("publisher", [5, 311]))
    t = ctx.choice("topic", ["t", "$share/g/t", "$share/g", "$x"])
    q = ctx.choice("qos", [0, 1])
    p.pub(t, b"x", qos=q)
    r = s.pubs()
    ctx.check(p.open and len(r) == (1 if matches(f, t) else 0), "an ordinary filter", lambda: (r, f, t))
    r = m.pubs()
    ctx.check(len(r) == (t == "t"), "the group of the other client is not affected", lambda: r)


def make(tier):
    deep = tier == "thorough"
    hs = []
    for pver in (5, 311):
        hs.append(Harness("one %d" % pver, one, "2 members, 2 messages", k=2, pver=pver, opts=deep or pver == 5, deep=deep))
        hs.append(Harness("groups %d" % pver, groups, "3 clients, up to 4 groups and ordinary subscriptions", pver=pver, opts=deep or pver == 5, deep=deep))
    hs.append(Harness("single", one, "1 member, 2 messages", k=1, pver=5, opts=deep, deep=deep))
    hs.append(Harness("three", one, "3 members, 2 messages", k=3, pver=5, deep=True) if deep else Harness("changes 311", changes, "1 change", k=1, pver=311))
    hs.append(Harness("changes 5", changes, "%d changes" % (4 if deep else 3), k=4 if deep else 3, pver=5, deep=deep))
    hs.append(Harness("several", several, "a member with up to 4 subscriptions leaves"))
    hs.append(Harness("away", away, "2 messages"))
    hs.append(Harness("v3", v3, "3 filters, 4 topics"))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C18", make))
