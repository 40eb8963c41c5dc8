"C07: which topic names a topic filter matches"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq
from checks.brk import *
from checks.topic import valid_filter, valid_name, matches


def match(ctx, ver, n, m, f=None, t=None, share=None, retained=False):
    """a client subscribes to a filter, a message is published to a name: it is delivered if and only if
    the filter matches the name"""
    filt = ctx.str("filter", n, **(f or {}))
    name = ctx.str("name", m, **(t or {}))
    ctx.assume(valid_filter(filt))
    ctx.assume(valid_name(name))
    ctx.assume(lnot(land(*[eq(x, ord(y)) for x, y in zip(list(b(filt)), "$share/")])) if n > 7 else True)
    w = World(ctx)
    c = w.connect("a", ver)
    p = w.connect("b", ver)
    if retained:
        p.pub(name, b"m", retain=True)
    full = filt if share is None else share + filt
    c.sub(full, id=1)
    r = c.pubs()
    got = c.other
    ctx.check(len(got) == 1 and got[0]["t"] == SUBACK and eq(got[0]["codes"][0], 2), "a valid filter is accepted", lambda: got)
    if not retained:
        ctx.check(not r, "nothing is delivered before it is published")
        p.pub(name, b"m")
        r = c.pubs()
    ctx.check(len(r) <= 1, "at most one copy is delivered", lambda: r)
    ctx.check(eq(matches(filt, name), len(r) == 1), "the message is delivered if and only if the filter matches its topic",
              lambda: (full, name, r))
    if r:
        ctx.check(land(seqeq(r[0]["topic"], b(name)), seqeq(r[0]["payload"], b(b"m"))), "topic and payload are unchanged")
    ctx.check(c.open and p.open, "the connections stay open")


def make(tier):
    hs = []
    deep = tier == "thorough"
    A = {"alphabet": "a/+#$"}
    T = {"alphabet": "a/$"}
    N = 6 if deep else 5
    for ver in (5, 311):
        for n in range(1, N + 1):
            hs.append(Harness("wild%d/%d" % (ver, n), lambda ctx, ver, n: match(ctx, ver, n, ctx.choice("name length", range(1, N + 1)), A, T),
                              "filters of %d characters over a / + # $, names of up to %d characters over a / $" % (n, N), ver=ver, n=n))
        K = 4 if deep else 3
        for n in range(1, K + 1):
            hs.append(Harness("any%d/%d" % (ver, n), lambda ctx, ver, n: match(ctx, ver, n, ctx.choice("name length", range(1, K + 1))),
                              "filters of %d and names of up to %d characters, each any of U+0001..U+007E" % (n, K), ver=ver, n=n))
        R = 5 if deep else 3
        hs.append(Harness("retained%d" % ver, lambda ctx, ver, R: match(ctx, ver, ctx.choice("filter length", range(1, R + 1)),
                                                                     ctx.choice("name length", range(1, R + 1)), A, T, retained=True),
                          "retained messages: filters and names of up to %d characters" % R, ver=ver, R=R))
        if ver == 5:
            hs.append(Harness("share/5", lambda ctx: match(ctx, 5, ctx.choice("filter length", (1, 2, 3)), ctx.choice("name length", (1, 2, 3)),
                                                           A, T, "$share/g/"),
                              "shared subscriptions: filters and names of up to 3 characters behind $share/g/"))
        hs.append(Harness("meta%d" % ver, lambda ctx, ver: match(ctx, ver, ctx.choice("filter length", (3,)), ctx.choice("name length", (2, 3)),
                                                                 {"alphabet": "+/.*("}, {"alphabet": "ab/.*(\n"}),
                          "filters with regular expression metacharacters", ver=ver))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C07", make))
