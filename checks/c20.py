"C20: receive maximum and maximum packet size (MQTT 5)"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.brk import *

KW = {"clean": False, "props": [(17, 1000)]}


def outbound(ctx, k, ops, late):
    """never more than the client's receive maximum of unacknowledged QoS 1 and 2 messages; nothing is lost, the order is kept"""
    w = World(ctx)
    rm = ctx.choice("receive maximum", [1, 2, 3])
    kw = {"clean": False, "props": [(17, 1000), (33, rm)]}
    s = w.connect("s", 5, **dict(kw, clean=late))
    s.sub("t")
    s.got()
    p = w.connect("p", ctx.choice("publisher", [5, 311]) if late else 5)
    sent, seen, flight = [], [], []
    top = [rm]

    def publish():
        pl = len(sent) + 1
        p.pub("t", bytes([pl]), qos=ctx.choice("qos", [1, 2]), id=pl)
        sent.append(pl)

    def receive():
        for x in s.got():
            if x["t"] == PUBREL:
                continue
            ctx.check(x["t"] == PUBLISH, "a publication", lambda: x)
            if any(m[0] == x["id"] for m in flight):
                ctx.check(eq(x["dup"], True), "sent again", lambda: x)
                continue
            ctx.check(eq(x["dup"], False), "first sending", lambda: x)
            seen.append(x["payload"][0])
            flight.append([x["id"], x["qos"], "sent"])
        ctx.check(len(flight) <= top[0], "not more than the receive maximum in flight", lambda: (flight, top))

    def ack(m):
        if m[1] == 1:
            flight.remove(m)
            s.ack(PUBACK, m[0])
        elif m[2] == "sent":
            if ctx.choice("pubrec", ["ok", "error"]) == "error":
                flight.remove(m)
                s.ack(PUBREC, m[0], 0x87)
            else:
                m[2] = "rec"
                s.ack(PUBREC, m[0])
        else:
            flight.remove(m)
            s.ack(PUBCOMP, m[0])

    for i in range(k):
        publish()
        receive()
    for i in range(ops):
        op = ctx.choice("op", ["publish"] + ["ack %d" % j for j in range(len(flight))] + ["reconnect"])
        if op == "publish":
            publish()
        elif op == "reconnect":
            s.die()
            if late and ctx.bool("message while away"):
                publish()
            rm2 = ctx.choice("new receive maximum", [1, 3])
            top[0] = rm2
            s = w.connect("s", 5, clean=False, props=[(17, 1000), (33, rm2)])
            ids = []
            for x in s.got():
                ids.append(x["id"])
                m = [y for y in flight if y[0] == x["id"]]
                if x["t"] == PUBLISH and not m:
                    seen.append(x["payload"][0])
                    flight.append([x["id"], x["qos"], "sent"])
            ctx.check(len(ids) <= rm2, "not more than the receive maximum of the new connection", lambda: (ids, rm2))
            # what is not sent again yet is not in flight on the new connection: acknowledge what was
            while flight:
                for m in flight[:]:
                    if m[0] in ids:
                        if m[1] == 1:
                            s.ack(PUBACK, m[0])
                        elif m[2] == "sent":
                            s.ack(PUBREC, m[0])
                            s.ack(PUBCOMP, m[0])
                        else:
                            s.ack(PUBCOMP, m[0])
                        flight.remove(m)
                        ids.remove(m[0])
                        break
                else:
                    break
                for x in s.got():
                    if x["t"] == PUBREL and any(m[0] == x["id"] for m in flight) and x["id"] not in ids:
                        ids.append(x["id"])
                    if x["t"] == PUBLISH:
                        ids.append(x["id"])
                        if not any(m[0] == x["id"] for m in flight):
                            seen.append(x["payload"][0])
                            flight.append([x["id"], x["qos"], "sent"])
                ctx.check(len(ids) <= rm2, "not more than the receive maximum of the new connection", lambda: (ids, rm2))
            ctx.check(not flight, "everything unfinished is sent again", lambda: (flight, ids))
            break
        else:
            ack(flight[int(op.split()[1])])
        receive()
    for _ in range(20):
        if not flight:
            break
        ack(flight[0])
        receive()
    ctx.check(seen == sent, "every message is delivered in the end, in order", lambda: (seen, sent))


def inbound(ctx, k, onrel, kinds=("qos 0", "qos 1", "qos 2", "again", "pubrel", "reconnect")):
    """the broker's receive maximum: a client which exceeds it is disconnected, others are not"""
    rm = ctx.choice("broker's receive maximum", [1, 2])
    w = World(ctx, receiveMaximum=rm, publish_on_pubrel=onrel)
    o = w.connect("o", 5)
    o.sub("#")
    o.got()
    c = w.connect("c", 5, **KW)
    ctx.check([v for i, v in c.connack["props"] if i == 33] == [rm], "CONNACK tells the client", lambda: c.connack)
    flight = []
    for i in range(k):
        op = ctx.choice("op", list(kinds))
        if op == "pubrel":
            if flight:
                c.ack(PUBREL, flight.pop(0))
                r = c.got()
                ctx.check(types(r) == [PUBCOMP] and r[0]["rc"] == 0 and c.open, "released", lambda: r)
        elif op == "reconnect":
            c.die()
            c = w.connect("c", 5, **KW)
        else:
            q = 2 if op == "again" else int(op[4])
            if op == "again" and not flight:
                continue
            mid = flight[0] if op == "again" else i + 1
            c.pub("t", b"x", qos=q, id=mid, dup=op == "again" or op.endswith("dup"))
            r = c.got()
            if q > 0 and op != "again" and len(flight) >= rm:
                ctx.check(types(r) == [DISCONNECT] and r[0]["rc"] == 0x93 and not c.open, "receive maximum exceeded", lambda: (r, flight))
                ctx.check(o.open, "others are not affected")
                return
            ctx.check(c.open and types(r) == [[], [PUBACK], [PUBREC]][q], "accepted", lambda: (r, flight))
            if q == 2 and op != "again":
                flight.append(mid)


def limits(ctx, n):
    """each connection has its own limits: what an earlier connection of the session said has no meaning any more"""
    w = World(ctx)
    p = w.connect("p", 5)
    wide, many = 40, 4
    for i in range(n):
        rm = ctx.choice("receive maximum", [None, 1, 3])
        size = None if rm else ctx.choice("maximum packet size", [None, 30])
        info = None if rm or size else ctx.choice("request problem information", [None, 0])
        s = w.connect("s", 5, clean=False, props=[(17, 1000)] + [(a, v) for a, v in ((33, rm), (39, size), (23, info)) if v is not None])
        ctx.check(s.connack is not None and eq(s.connack["rc"], 0), "the connection is accepted", lambda: s.connack)
        s.sub(("t", 1), props=[(38, (b("k"), b("v")))])
        r = s.got()
        ctx.check(len(r) == 1 and (len(r[0]["props"]) > 0) == (info is None), "problem information is sent as the client wants on this connection", lambda: (r, info))
        p.pub("t", bytes(wide))
        r = s.got()
        ctx.check(len(r) == (1 if size is None else 0), "the maximum packet size is that of this connection", lambda: (r, size))
        for j in range(many):
            p.pub("t", b"x", qos=1, id=j + 1)
        r = s.got()
        ctx.check(len(r) == min(many, rm or many), "the receive maximum is that of this connection", lambda: (r, rm))
        seen = 0
        while r:
            seen += len(r)
            for x in r:
                s.ack(PUBACK, x["id"])
            r = s.got()
        ctx.check(seen == many, "everything is delivered", lambda: seen)
        if ctx.bool("gracefully"):
            s.disconnect()
        else:
            s.die()


def size_out(ctx, n):
    """no packet is larger than the client's maximum; a publication that is too large is dropped as if it had been delivered"""
    w = World(ctx)
    size = ctx.int("maximum packet size", 8, 60)
    s = w.connect("s", 5, clean=ctx.bool("clean start"), props=[(17, 1000), (39, size), (33, 1)])
    ctx.check(s.connack is not None and eq(s.connack["rc"], 0), "CONNACK fits", lambda: s.connack)
    o = w.connect("o", 5)
    for c in (s, o):
        c.sub(("t", 1))
        r = c.got()
        ctx.check(len(r) == 1, "SUBACK")
    p = w.connect("p", 5)
    for i in range(2):
        ln = ctx.choice("length", n)
        q = ctx.choice("qos", [0, 1])
        up = [(38, (b("k"), b("v" * 5)))] * ctx.choice("user properties", [0, 1])
        p.pub("t", bytes(ln), qos=q, id=i + 1, props=up)
        p.got()
        full = 5 + 2 * (q > 0) + 1 + len(up) * (1 + 2 + 1 + 2 + 5) + ln
        r = s.got()
        ctx.check(len(r) == (1 if bool(full <= size) else 0), "sent if it fits, dropped if it does not", lambda: (r, full, size))
        for x in r:
            ctx.check(x["size"] <= size and eq(len(x["payload"]), ln), "within the maximum", lambda: (x, size))
            if x["qos"]:
                s.ack(PUBACK, x["id"])
        r = o.got()
        ctx.check(len(r) == 1 and eq(len(r[0]["payload"]), ln) and r[0]["size"] == full, "other clients get it", lambda: (r, full))
        for x in r:
            if x["qos"]:
                o.ack(PUBACK, x["id"])
    ctx.check(s.open, "the connection stays open")


def size_other(ctx):
    """other packets leave out what does not fit"""
    w = World(ctx)
    size = ctx.int("maximum packet size", 10, 60)
    c = w.connect("c", 5, props=[(39, size)])
    n = ctx.choice("length", [1, 30])
    up = [(38, (b("k"), b("v" * n)))]
    how = ctx.choice("packet", ["suback", "unsuback", "puback", "pubcomp", "disconnect"])
    if how == "suback":
        c.sub("a", props=up)
    elif how == "unsuback":
        c.send({"t": UNSUBSCRIBE, "id": 1, "filters": [b("a")], "props": up})
    elif how == "puback":
        c.pub("test_qos_1_2_errors", b"x", qos=1, props=up)
    elif how == "pubcomp":
        c.ack(PUBREL, 77)
    else:
        c.send({"t": CONNECT, "cid": b("c"), "clean": True, "keep": 0, "will": None, "user": None, "pw": None, "props": []})
    r = c.got()
    ctx.check(len(r) == 1 and r[0]["size"] <= size, "the response is sent and fits", lambda: (r, size))
    ctx.check(r[0]["t"] == {"suback": SUBACK, "unsuback": UNSUBACK, "puback": PUBACK, "pubcomp": PUBCOMP, "disconnect": DISCONNECT}[how], "the response", lambda: r)


def size_in(ctx):
    """the broker's maximum: a larger packet is refused and has no effect"""
    w = World(ctx, maximumPacketSize=30)
    o = w.connect("o", 5)
    o.sub("t")
    o.got()
    c = w.connect("c", 5)
    ctx.check([v for i, v in c.connack["props"] if i == 39] == [30], "CONNACK tells the client", lambda: c.connack)
    n = ctx.choice("payload", [0, 10, 23, 24, 25, 26, 100])
    c.pub("t", bytes(n), qos=0)
    total = n + 6
    r = o.pubs()
    ctx.check(len(r) == (1 if total <= 30 else 0), "delivered if it is not too large", lambda: (r, total))
    ctx.check(c.open == (total <= 30), "the connection is closed if it is")
    if total > 30:
        r = c.got()
        ctx.check(types(r) == [DISCONNECT] and r[0]["rc"] >= 0x80, "with an error", lambda: r)
    ctx.check(o.open, "others are not affected")


def zero(ctx):
    """a receive maximum or a maximum packet size of 0 is a protocol error"""
    w = World(ctx)
    c = w.connect("c", 5, props=[(ctx.choice("property", [33, 39]), 0)])
    ctx.check(not c.open and (c.connack is None or c.connack["rc"] >= 0x80), "the connection is refused", lambda: c.connack)
    d = w.connect("c", 5, clean=False)
    ctx.check(d.connack is not None and eq(d.connack["sp"], False), "no session is created")


def problem(ctx):
    """request problem information 0: no reason strings and user properties except in PUBLISH, CONNACK and DISCONNECT"""
    w = World(ctx)
    v = ctx.choice("request problem information", [None, 0, 1])
    c = w.connect("c", 5, props=[] if v is None else [(23, v)])
    up = [(38, (b("k"), b("v")))]
    how = ctx.choice("packet", ["suback", "unsuback", "puback", "pubcomp", "publish", "disconnect"])
    if how == "suback":
        c.sub("a", props=up)
    elif how == "unsuback":
        c.send({"t": UNSUBSCRIBE, "id": 1, "filters": [b("a")], "props": up})
    elif how == "puback":
        c.pub("test_qos_1_2_errors", b"x", qos=1, props=up)
    elif how == "pubcomp":
        c.ack(PUBREL, 77)
    elif how == "disconnect":
        c.pub("cmd/disconnectWithRC", b"130")
    else:
        c.sub("a")
        c.got()
        c.pub("a", b"x", props=up)
    r = c.got()
    ctx.check(len(r) == 1, "one packet", lambda: r)
    extra = [i for i, x in r[0]["props"] if i in (31, 38)]
    want = bool(extra) if how in ("publish", "disconnect") else (v != 0 or not extra)
    ctx.check(want, "problem information is sent as the client wants", lambda: (r, v))


def make(tier):
    deep = tier == "thorough"
    hs = [Harness("outbound", outbound, "4 messages, then %d operations, receive maximum 1..3" % (3 if deep else 2), k=4 if deep else 3, ops=3 if deep else 2, late=deep),
          Harness("outbound late", outbound, "3 operations", k=0 if not deep else 1, ops=4 if deep else 3, late=True)]
    for onrel in (False, True):
        hs.append(Harness("inbound%s" % (" on pubrel" if onrel else ""), inbound, "%d operations, receive maximum 1..2" % (5 if deep else 4), k=5 if deep else 4, onrel=onrel))
    hs.append(Harness("inbound dup", inbound, "3 operations, with DUP", k=4 if deep else 3, onrel=False, kinds=("qos 2", "qos 2 dup", "qos 1 dup", "pubrel")))
    hs.append(Harness("limits", limits, "%d connections of a session with different limits" % (3 if deep else 2), n=3 if deep else 2))
    hs += [Harness("size out", size_out, "maximum 8..60, two messages", n=(0, 5, 20, 48, 60) if deep else (0, 20, 48)), Harness("size other", size_other, "maximum 10..60"),
           Harness("size in", size_in, "lengths around the maximum"), Harness("zero", zero, "one CONNECT"), Harness("problem", problem, "6 packets")]
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C20", make))
