"C08: invalid topic filters and topic names are refused and have no effect"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq
from checks.brk import *
from checks.topic import valid_filter, valid_name


def probe(ctx, w, p, c, ver, names=("a", "a/a", "a/b/c", "$a")):
    "nothing published reaches c: it has no subscriptions"
    for n in names:
        p.pub(n, b"probe")
    r = c.pubs()
    ctx.check(len(r) == 0, "an invalid filter subscribes to nothing", lambda: r)


def filters(ctx, ver, n, how, alphabet="a/+#$"):
    """SUBSCRIBE and UNSUBSCRIBE with a filter that is not valid, alone or next to a valid one"""
    filt = ctx.str("filter", n, alphabet=alphabet)
    ctx.assume(lnot(valid_filter(filt)))
    w = World(ctx)
    keepses = {"clean": False} if ver == 311 else {"clean": True, "props": [(17, 100)]}
    c = w.connect("a", ver, **keepses)
    p = w.connect("b", ver)
    if how == "unsub":
        c.sub("keep/me")
        c.got()
        c.unsub(["keep/me", filt])
    else:
        c.sub({"alone": [filt], "before": [filt, "a/b/c"], "after": ["a/b/c", filt]}[how])
    refused(ctx, c, ver)
    ctx.check(p.open, "other connections are not affected")
    c2 = w.connect("a", ver, **dict(keepses, clean=False))
    ctx.check(c2.connack is not None and c2.connack["rc"] == 0, "the client can connect again", lambda: c2.connack)
    if how == "unsub":
        p.pub("keep/me", b"x")
        ctx.check(len(c2.pubs()) == 1, "a refused UNSUBSCRIBE removes no subscription")
    else:
        probe(ctx, w, p, c2, ver)
    ctx.check(p.open and c2.open, "other connections are not affected")


def refused(ctx, c, ver):
    got = c.got()
    ctx.check(not c.open, "the connection is closed", lambda: got)
    if ver == 5:
        ctx.check(len(got) == 1 and got[0]["t"] == DISCONNECT and got[0]["rc"] >= 0x80,
                  "an MQTT 5 client gets a DISCONNECT with an error and nothing else", lambda: got)
    else:
        ctx.check(len(got) == 0, "an MQTT 3.1.1 client gets no acknowledgement", lambda: got)


def names(ctx, ver, n, alphabet="a/+#$"):
    """PUBLISH to a name containing a wildcard"""
    name = ctx.str("name", n, alphabet=alphabet)
    ctx.assume(lnot(valid_name(name)))
    qos = ctx.choice("qos", [0, 1, 2])
    retain = ctx.bool("retain")
    w = World(ctx)
    c = w.connect("a", ver)
    s = w.connect("b", ver)
    s.sub(["#", "$a/#", "$"])
    s.got()
    c.pub(name, b"m", qos=qos, retain=retain)
    refused(ctx, c, ver)
    ctx.check(len(s.got()) == 0, "a message with an invalid topic name is not delivered")
    s2 = w.connect("c", ver)
    s2.sub(["#", "$a/#", "$"])
    ctx.check(len(s2.pubs()) == 0, "a message with an invalid topic name is not retained")
    ctx.check(s.open and s2.open, "other connections are not affected")


def wills(ctx, ver, n, alphabet="a/+#"):
    """a will message with an invalid topic name"""
    name = ctx.str("name", n, alphabet=alphabet) if n else ""
    ctx.assume(lnot(valid_name(name)))
    w = World(ctx)
    s = w.connect("b", ver)
    s.sub("#")
    s.got()
    c = w.connect("a", ver, will={"topic": name, "payload": b"w", "qos": ctx.int("qos", 0, 2), "retain": ctx.bool("retain")})
    ctx.check(c.connack is None or c.connack["rc"] != 0, "the connection is refused", lambda: c.connack)
    ctx.check(not c.open, "the connection is closed")
    ctx.check(len(s.got()) == 0 and s.open, "the will message is not published")


def share(ctx, n):
    """shared subscriptions: $share/{name}/{filter}, the name without wildcards, both not empty"""
    rest = ctx.str("rest", n, alphabet="a/+#")
    cs = list(b(rest))
    first = None
    cuts = []                       # the name ends at the first slash
    for i, c in enumerate(cs):
        cuts.append(land(eq(c, ord("/")), *[lnot(eq(x, ord("/"))) for x in cs[:i]],
                         i > 0, i < n - 1,
                         *[land(lnot(eq(x, ord("+"))), lnot(eq(x, ord("#")))) for x in cs[:i]],
                         *([valid_filter(cs[i + 1:])])))
    ok = lor(*cuts)
    w = World(ctx)
    c = w.connect("a", 5, props=[(17, 100)])
    p = w.connect("b", 5)
    c.sub("$share/" + rest)
    got = c.got()
    if ok:
        ctx.check(c.open and len(got) == 1 and got[0]["t"] == SUBACK and got[0]["codes"][0] == 2, "a valid shared filter is accepted", lambda: got)
        return
    ctx.check(not c.open and len(got) == 1 and got[0]["t"] == DISCONNECT and got[0]["rc"] >= 0x80, "an invalid shared filter is refused", lambda: got)
    c2 = w.connect("a", 5, clean=False, props=[(17, 100)])
    probe(ctx, w, p, c2, 5)


def make(tier):
    hs = []
    deep = tier == "thorough"
    N = 5 if deep else 3
    for ver in (5, 311):
        hs.append(Harness("filters%d" % ver, lambda ctx, ver: filters(ctx, ver, ctx.choice("length", range(1, N + 1)),
                                                                       ctx.choice("how", ["alone", "before", "after", "unsub"])),
                          "invalid filters of up to %d characters over a / + # $" % N, ver=ver))
        hs.append(Harness("names%d" % ver, lambda ctx, ver: names(ctx, ver, ctx.choice("length", range(1, N + 1))),
                          "names with wildcards, up to %d characters" % N, ver=ver))
        hs.append(Harness("wills%d" % ver, lambda ctx, ver: wills(ctx, ver, ctx.choice("length", range(0, N + 1))),
                          "will topics that are empty or contain wildcards, up to %d characters" % N, ver=ver))
    hs.append(Harness("share", lambda ctx: share(ctx, ctx.choice("length", range(1, (6 if deep else 5) + 1))),
                      "$share/ followed by up to %d characters over a / + #" % (6 if deep else 5)))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C08", make))
