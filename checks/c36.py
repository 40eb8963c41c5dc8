"C36: the optional behaviours are what the broker's options say, whatever the versions of publisher and subscriber"
from sx.run import Harness, main
from checks.brk import *
from checks.topic import matches


def copies(ctx, vers, pver, sets, own=False):
    """every matching subscription is served on its own: overlapping_single is False"""
    w = World(ctx, overlapping_single=False)
    subs = []
    n = 0
    p = w.connect("p", pver)
    for i, v in enumerate(vers):
        c = p if own else w.connect("s%d" % i, v)
        mine = []
        for j, f in enumerate(ctx.choice("filters of s%d" % i, sets)):
            n += 1
            q = ctx.choice("qos of s%d %s" % (i, f), [0, 2] if j else [0, 1, 2])
            nl = ctx.bool("no local %d" % n) if v == 5 and own and not f.startswith("$share") else False
            rap = ctx.bool("retain as published %d" % n) if v == 5 and j == 0 else False
            c.sub((f, q, nl, rap, 2) if v == 5 else (f, q), id=n, props=[(11, n)] if v == 5 else ())
            mine.append((f, q, nl, rap, n))
        c.got()
        subs.append((c, v, mine))
    topic = ctx.choice("topic", ["a/b", "a/c"])
    qos = ctx.choice("qos", [0, 1, 2])
    retain = ctx.bool("retain")
    payload = ctx.bytes("payload", 1)
    p.pub(topic, payload, qos=qos, retain=retain, id=9)
    for c, v, mine in subs:
        r = c.pubs()
        due = [m for m in mine if matches(m[0].split("/", 2)[2] if m[0].startswith("$share") else m[0], topic) and not m[2]]
        ctx.check(len(r) == len(due), "one copy for each matching subscription", lambda: (mine, topic, r))
        for x in r:
            ctx.check(land(seqeq(x["topic"], b(topic)), seqeq(x["payload"], b(payload)), eq(x["dup"], False)), "topic and payload are unchanged", lambda: x)
        if v == 5:
            for f, q, nl, rap, ident in due:
                x = [x for x in r if [y for i, y in x["props"] if i == 11] == [ident]]
                ctx.check(len(x) == 1, "each copy has the identifier of its subscription", lambda: (mine, r))
                ctx.check(land(eq(x[0]["qos"], min(q, qos)), eq(x[0]["retain"], land(rap, retain))),
                          "QoS and RETAIN of a copy are those of its subscription", lambda: (mine, r))
        else:
            ctx.check(sorted(x["qos"] for x in r) == sorted(min(m[1], qos) for m in due), "the QoS of a copy is that of its subscription", lambda: (mine, r))
            for x in r:
                ctx.check(eq(x["retain"], False), "the RETAIN flag is 0", lambda: x)
        ids = [x["id"] for x in r if x["qos"]]
        ctx.check(len(set(ids)) == len(ids), "each copy has a packet identifier of its own", lambda: r)
        ctx.check(c.open, "the connection stays open")
        if c is not p:
            ctx.check(not c.other, "nothing else is sent", lambda: c.other)
            ctx.check(not [x for x in c.ackall()], "acknowledging the copies leaves nothing", lambda: r)


def single(ctx, vers, pver):
    """overlapping_single is True: one copy, with the identifiers of the matching subscriptions, or the first of them"""
    w = World(ctx, overlapping_single=True)
    subs = []
    for i, v in enumerate(vers):
        c = w.connect("s%d" % i, v)
        qs = []
        for j, f in enumerate(("a/b", "a/+", "#")):
            qs.append(ctx.choice("qos of s%d %s" % (i, f), [0, 2] if j else [0, 1, 2]))
            c.sub((f, qs[-1]), id=j + 1)
        c.got()
        subs.append((c, qs))
    p = w.connect("p", pver)
    qos = ctx.choice("qos", [0, 1, 2])
    payload = ctx.bytes("payload", 1)
    p.pub("a/b", payload, qos=qos, id=9)
    for c, qs in subs:
        r = c.pubs()
        ctx.check(len(r) == 1, "one copy however many subscriptions match", lambda: r)
        ctx.check(land(eq(r[0]["qos"], min(qos, max(qs))), seqeq(r[0]["payload"], b(payload))), "the highest QoS is used", lambda: (qs, r))


def absent(ctx, ver, pver, k, keep):
    """QoS 0 messages for a session whose client is not there"""
    w = World(ctx, dropQoS0=not keep)
    props = [(17, 1000)] if ver == 5 else ()
    s = w.connect("s", ver, clean=False, props=props)
    s.sub("t/#", id=3)
    s.got()
    o = w.connect("o", ver)
    o.sub("t/#")
    o.got()
    p = w.connect("p", pver)
    early = ctx.choice("in flight", [None, 0, 1, 2])
    if early is not None:
        p.pub("t/0", b"e", qos=early, id=1)
        r = s.pubs()
        ctx.check(len(r) == 1 and r[0]["qos"] == early, "a connected client gets QoS 0 at once", lambda: r)
    s.disconnect() if ctx.bool("disconnect") else s.die()
    sent = []
    for i in range(k):
        q = ctx.choice("qos", [0, 1] if k > 2 else [0, 1, 2])
        pl = ctx.bytes("payload", 1)
        p.pub("t/%d" % (i + 1), pl, qos=q, id=i + 2)
        sent.append(("t/%d" % (i + 1), pl, q))
    ctx.check(len(o.pubs()) == k + (early is not None), "other clients are not affected")
    due = [x for x in sent if x[2] or keep]
    again = []
    first = 1 if early else 0
    for n in range(2):
        s = w.connect("s", ver, clean=False, props=props)
        ctx.check(s.connack is not None and s.connack["sp"], "the session is still there", lambda: s.connack)
        r = s.pubs()
        what = "unfinished messages, then those published meanwhile, QoS 0 ones %s, in order" % ("too" if keep else "excepted") if n == 0 else "only unfinished messages are sent again, QoS 0 ones are not"
        ctx.check([(x["qos"], b(mkbytes(x["topic"]))) for x in r] == [(early, b("t/0"))] * first + [(q, b(t)) for t, pl, q in due], what, lambda: (r, due))
        for x, (t, pl, q) in zip(r[first:], due):
            ctx.check(land(seqeq(x["payload"], b(pl)), eq(x["dup"], n > 0), eq(x["retain"], False)), "payload and flags of a message which was kept", lambda: (x, n))
        if ctx.choice("acknowledged", [False, True]) and n == 0:
            for x in r:
                if x["qos"] == 1:
                    s.ack(PUBACK, x["id"])
                elif x["qos"] == 2:
                    s.ack(PUBREC, x["id"])
                    s.ack(PUBCOMP, x["id"])
            s.got()
            due, first = [], 0
        due = [x for x in due if x[2]]
        # a message published now comes at once
        p.pub("t/n", b"n", qos=0)
        r = s.pubs()
        ctx.check(len(r) == 1 and r[0]["qos"] == 0, "QoS 0 is sent to a connected client", lambda: r)
        s.die()


def limit(ctx, k):
    """QoS 0 messages while as many messages are in flight as the client allows: kept in order"""
    w = World(ctx, dropQoS0=False)
    s = w.connect("s", 5, clean=False, props=[(17, 1000), (33, 1)])
    s.sub("t")
    s.got()
    p = w.connect("p", ctx.choice("publisher", [5, 311]))
    sent = [1]
    p.pub("t", b"0", qos=1, id=1)
    for i in range(k):
        q = ctx.choice("qos", [0, 1, 2])
        sent.append(q)
        p.pub("t", b"%d" % (i + 1), qos=q, id=i + 2)
    if ctx.bool("interrupted"):
        r = s.pubs()
        ctx.check(len(r) == 1, "no more than the receive maximum is in flight", lambda: r)
        s.die()
        s = w.connect("s", 5, clean=False, props=[(17, 1000), (33, 1)])
    r = s.ackall()
    ctx.check([(x["qos"], x["payload"][0]) for x in r] == [(q, 48 + i) for i, q in enumerate(sent)], "all messages arrive, once and in order", lambda: (sent, r))
    s.die()
    s = w.connect("s", 5, clean=False, props=[(17, 1000)])
    ctx.check(not s.pubs(), "nothing is left")


def expired(ctx):
    """QoS 0 messages which are kept expire as others do"""
    w = World(ctx, dropQoS0=False)
    s = w.connect("s", 5, clean=False, props=[(17, 1000)])
    s.sub("t")
    s.got()
    s.die()
    p = w.connect("p", 5)
    e, d = ctx.int("expiry", 1, 4), ctx.int("delay", 0, 6)
    p.pub("t", b"a", qos=0, props=[(2, e)])
    p.pub("t", b"b", qos=0)
    w.after(d * 8 + 4)
    s = w.connect("s", 5, clean=False, props=[(17, 1000)])
    r = s.pubs()
    live = len(r) == 2
    ctx.check(eq(d < e, live), "a message is sent unless it has expired", lambda: (e, d, r))
    if live:
        ctx.check(r[0]["payload"] == [97] and eq([v for i, v in r[0]["props"] if i == 2][0], e - d), "with what is left of the interval", lambda: (e, d, r))
    ctx.check(r[-1]["payload"] == [98] and not [i for i, v in r[-1]["props"] if i == 2], "messages without an interval do not expire", lambda: r)


def ends(ctx, ver):
    """the QoS 0 messages kept end with the session"""
    w = World(ctx, dropQoS0=False)
    s = w.connect("s", ver, clean=False, props=[(17, 10)])
    s.sub("t")
    s.got()
    s.die()
    p = w.connect("p", 5)
    p.pub("t", b"a", qos=0)
    p.pub("t", b"b", qos=1, id=1)
    how = ctx.choice("how", ["clean", "expired"] if ver == 5 else ["clean"])
    if how == "expired":
        w.after(11 * 8)
    s = w.connect("s", ver, clean=how == "clean", props=[(17, 10)])
    ctx.check(not s.connack["sp"] and not s.pubs(), "nothing is left of the session that ended", lambda: s.connack)
    if ctx.bool("die"):
        s.die()
        s = w.connect("s", ver, clean=False, props=[(17, 10)])
        ctx.check(not s.pubs(), "nor does it come back")


def empty(ctx):
    """an empty client identifier in MQTT 3.1.1"""
    allowed = ctx.bool("allowed")
    w = World(ctx, zero_length_clientids=allowed)
    o = w.connect("o", 311)
    o.sub("w")
    o.got()
    clean = ctx.bool("clean")
    will = {"topic": "w", "payload": b"w"} if ctx.bool("will") else None
    c = w.connect("", 311, clean=clean, will=will)
    ok = allowed and clean
    ctx.check(c.connack is not None and c.connack["rc"] == (0 if ok else 2) and not c.connack["sp"], "an empty identifier is refused with code 2 unless it is allowed, and the session clean", lambda: (allowed, clean, c.connack))
    ctx.check(c.open == ok, "the connection is closed if it was refused")
    ctx.check(not o.pubs() and o.open, "nobody else notices")
    c.sub("t") if ok else None
    p = w.connect("p", 311)
    ctx.check(p.connack["rc"] == 0, "a client with an identifier is accepted")
    p.pub("t", b"x")
    ctx.check(len([x for x in c.pubs()]) == (1 if ok else 0), "it is a client like others")
    if ok and ctx.bool("another"):
        d = w.connect("", 311)
        ctx.check(d.connack["rc"] == 0 and c.open and d.open, "two of them are two clients")
        c.disconnect()
        d.sub("t")
        d.got()
        p.pub("t", b"y")
        ctx.check(len(d.pubs()) == 1, "the other one goes on")


def command(ctx):
    """the optional behaviours are set on the command line"""
    n = ctx.choice("option", range(4))
    name = ["overlapping_single", "dropQoS0", "zero_length_clientids", "publish_on_pubrel"][n]
    on = {"overlapping_single": True, "dropQoS0": True, "zero_length_clientids": True, "publish_on_pubrel": False}
    value = ctx.choice("value", ["off", "false", "0", "False", "on", "true", "1"])
    form = ctx.choice("form", ["--x=v", "--x", "-x"] if n < 3 else ["--x=v", "--x"])
    on[name] = value in ("on", "true", "1")
    args = ["--%s=%s" % (name, value)] if form == "--x=v" else ["--" + name, value] if form == "--x" else ["-" + "odz"[n], value]
    if ctx.bool("another"):
        other = "dropQoS0" if n == 0 else "overlapping_single"
        on[other] = not on[other]
        args = args + ["--port=1999", "--%s=off" % other]
    w = World(ctx, argv=args)
    for ver in (5, 311):
        s = w.connect("s%d" % ver, ver, clean=False, props=[(17, 1000)])
        s.sub("a/b")
        s.sub("a/+")
        s.got()
        p = w.connect("p%d" % ver, 311)
        p.pub("a/b", b"0", qos=2, id=5)
        copies = 1 if on["overlapping_single"] else 2
        early = s.ackall()
        ctx.check(len(early) == (0 if on["publish_on_pubrel"] else copies), "a QoS 2 message is passed on when it is published, or when it is released", lambda: (args, early))
        p.ack(PUBREL, 5)
        late = s.ackall()
        ctx.check(len(early) + len(late) == copies, "one copy for each subscription, or one for all of them", lambda: (args, early, late))
        s.die()
        p.pub("a/b", b"1", qos=0)
        s = w.connect("s%d" % ver, ver, clean=False, props=[(17, 1000)])
        r = s.ackall()
        ctx.check(len(r) == (0 if on["dropQoS0"] else copies), "QoS 0 messages for absent clients are kept, or not", lambda: (args, r))
        s.unsub(["a/b", "a/+"])
    c = w.connect("", 311)
    ctx.check(c.connack is not None and c.connack["rc"] == (0 if on["zero_length_clientids"] else 2), "an empty identifier is allowed, or not", lambda: (args, c.connack))


def make(tier):
    deep = tier == "thorough"
    hs = []
    sets = [("a/b", "a/+"), ("#", "a/c"), ("a/#",)] + ([("a/b", "#", "+/b"), ()] if deep else [])
    for pver in (5, 311):
        for vers in ((5, 311),) if deep else ((5,), (311,)):
            hs.append(Harness("copies %s<-%d" % ("".join("%d," % v for v in vers), pver), lambda ctx, vers, pver: copies(ctx, vers, pver, sets),
                              "subscribers with up to %d subscriptions out of %s, all QoS, retain as published" % (3 if deep else 2, sets), vers=vers, pver=pver))
        hs.append(Harness("single <-%d" % pver, single, "two subscribers with three overlapping subscriptions each" if deep else "one subscriber with three overlapping subscriptions",
                          vers=(5, 311), pver=pver) if deep else
                  Harness("single <-%d" % pver, lambda ctx, pver: single(ctx, (ctx.choice("version", [5, 311]),), pver), "one subscriber with three overlapping subscriptions", pver=pver))
    hs.append(Harness("copies own", lambda ctx: copies(ctx, (5,), 5, [("a/b", "a/+"), ("#", "$share/g/a/b")], own=True), "a client's own subscriptions, no local"))
    hs.append(Harness("copies own 311", lambda ctx: copies(ctx, (311,), 311, [("a/b", "a/+")], own=True), "a client's own subscriptions"))
    for ver in (5, 311):
        for pver in (5, 311):
            for keep in (True, False):
                k = 3 if deep else 2
                hs.append(Harness("absent %d<-%d %s" % (ver, pver, "kept" if keep else "dropped"), absent, "%d messages for an absent client, one in flight, two reconnections" % k,
                                  ver=ver, pver=pver, k=k, keep=keep))
        hs.append(Harness("ends %d" % ver, ends, "the session ends by a clean start or by expiry", ver=ver))
    hs.append(Harness("limit", limit, "%d messages beyond a receive maximum of 1" % (4 if deep else 2), k=4 if deep else 2))
    hs.append(Harness("expired", expired, "expiry intervals of 1 to 4 s, absence of up to 6.5 s"))
    hs.append(Harness("command line", command, "each option in each form, or two of them"))
    hs.append(Harness("empty", empty, "clean session, will, and the option"))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C36", make))
