"C28: the client libraries keep the protocol"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq, ite
from checks.app import *


def P(ver):
    return [] if ver == 5 else None


def message(ctx, ver, e, m):
    "the callback was called with this message"
    ok = land(seqeq(ref.text(e[1]), m["topic"]), seqeq(e[2], m["payload"]), eq(e[3], m["qos"]), eq(ref.truth(e[4]), m["retain"]))
    if ver == 5 and e[6] is not None:
        ok = land(ok, same_props(ref.norm_props(e[6], PUBLISH), m["props"]))
    return ok


def incoming(ctx, ver, steps):
    """whatever the server sends: QoS 1 is acknowledged, QoS 2 is passed on once, when released, and every PUBREL is answered"""
    a = App(ctx, ver)
    a.connect()
    a.got()
    held = {}
    for k in range(steps):
        op = ctx.choice("packet", ["qos 0", "qos 1", "qos 2", "release"])
        i = ctx.choice("id", [1, 2]) if op in ("qos 2", "release") else ctx.int("pid", 1, 65535)
        if op == "release":
            a.arrive({"t": PUBREL, "id": i, "rc": 0, "props": P(ver)})
            es, out = a.happened(), a.got()
            ctx.check(types(out) == [PUBCOMP] and eq(out[0]["id"], i), "PUBREL is answered by PUBCOMP", lambda: out)
            if i in held:
                m = held.pop(i)
                ctx.check(len(es) == 1 and es[0][0] == "message" and message(ctx, ver, es[0], m), "then the message is passed on", lambda: (es, m))
            else:
                ctx.check(not es, "once", lambda: es)
            continue
        q = int(op[-1])
        dup = i in held if q == 2 else ctx.bool("dup") if q == 1 else False
        if q == 2 and i in held:
            m = dict(held[i], dup=True)
        else:
            m = {"t": PUBLISH, "dup": dup, "qos": q, "retain": ctx.bool("retain"), "topic": b("t") + list(ctx.bytes("topic", 1, lo=48, hi=57)), "id": i if q else None,
                 "payload": list(ctx.bytes("payload", 2)), "props": [(38, (b("k"), list(ctx.bytes("value", 1, lo=48, hi=57))))] if ver == 5 else None}
        a.arrive(m)
        es, out = a.happened(), a.got()
        if q == 2:
            held[i] = m
            ctx.check(types(out) == [PUBREC] and eq(out[0]["id"], i) and not es, "QoS 2 is answered by PUBREC, and waits", lambda: (out, es))
        else:
            ctx.check(len(es) == 1 and es[0][0] == "message" and message(ctx, ver, es[0], m), "the message is passed on", lambda: (es, m))
            ctx.check(types(out) == [PUBACK] * q and land(*[eq(x["id"], i) for x in out]), "QoS 1 is answered by PUBACK", lambda: out)
    ctx.check(not a.receiver.done, "the library keeps receiving")


def refused(ctx, ver):
    """a message which the application does not take is not acknowledged"""
    a = App(ctx, ver)
    a.connect()
    a.got()
    q = ctx.choice("qos", [1, 2])
    a.accept = lambda m: False
    m = {"t": PUBLISH, "dup": False, "qos": q, "retain": False, "topic": b("t"), "id": 5, "payload": b(b"x"), "props": P(ver)}
    a.arrive(m)
    if q == 2:
        ctx.check(types(a.got()) == [PUBREC] and not a.happened(), "it waits")
        a.arrive({"t": PUBREL, "id": 5, "rc": 0, "props": P(ver)})
    ctx.check(not a.got() and len(a.happened()) == 1, "it is passed on, but not acknowledged")
    a.accept = lambda m: True
    a.arrive(dict(m, dup=True) if q == 1 else {"t": PUBREL, "id": 5, "rc": 0, "props": P(ver)})
    ctx.check(types(a.got()) == [PUBACK if q == 1 else PUBCOMP] and len(a.happened()) == 1, "it is passed on again, and acknowledged")


def outgoing(ctx, ver, steps):
    """publications: identifiers which are not in use, the handshakes, and when the application is told"""
    a = App(ctx, ver)
    a.connect()
    a.got()
    a.lib.msgid = ctx.int("last id", 1, 65534)
    many = False
    flight = []         # [id, qos, state]
    for k in range(steps):
        op = ctx.choice("what", (["publish"] if not k else ["publish", "publish after many others", "first", "last"] if not many else ["publish", "first", "last"]))
        if op[:7] == "publish":
            q = ctx.choice("qos", [0, 1, 2])
            if op != "publish":         # which are complete: the counter is anywhere
                if not q:
                    ctx.assume(False)
                many = True
                a.lib.msgid = ctx.int("last id", 1, 65534)
            pl, r = ctx.bytes("payload", 2), ctx.bool("retain")
            i = a.call(a.lib.publish, "t", pl, q, r)
            out = a.got()
            ctx.check(types(out) == [PUBLISH] and not a.happened(), "PUBLISH is sent", lambda: out)
            m = out[0]
            ctx.check(land(eq(m["qos"], q), seqeq(m["topic"], b("t")), seqeq(m["payload"], pl), eq(m["retain"], r), lnot(m["dup"])), "as it was given", lambda: m)
            if q:
                ctx.check(land(eq(m["id"], i), m["id"] >= 1, m["id"] <= 65535), "with its identifier", lambda: (m, i))
                ctx.check(land(*[lnot(eq(m["id"], x[0])) for x in flight]), "which is not in use", lambda: (m, flight))
                flight.append([i, q, "sent"])
            continue
        if not flight:
            continue
        x = flight[0 if op == "first" else -1]
        i = x[0]
        if x[1] == 1:
            a.arrive({"t": PUBACK, "id": i, "rc": 0, "props": P(ver)})
            flight.remove(x)
            es = a.happened()
            ctx.check(len(es) == 1 and es[0][0] == "published" and eq(es[0][1], i) and not a.got(), "the application learns that it has been published", lambda: es)
        elif ctx.choice("reply", ["rec", "comp"] if x[2] != "sent" else ["rec", "refuse"] if ver == 5 else ["rec"]) == "rec":
            a.arrive({"t": PUBREC, "id": i, "rc": 0, "props": P(ver)})
            out = a.got()
            ctx.check(types(out) == [PUBREL] and eq(out[0]["id"], i) and not a.happened(), "PUBREC is answered by PUBREL", lambda: out)
            x[2] = "released"
        elif x[2] == "sent":
            a.arrive({"t": PUBREC, "id": i, "rc": ctx.choice("rc", [0x80, 0x97]), "props": []})
            ctx.check(not a.got(), "a PUBREC with an error ends the exchange")
            a.happened()
            flight.remove(x)
        else:
            a.arrive({"t": PUBCOMP, "id": i, "rc": 0, "props": P(ver)})
            flight.remove(x)
            es = a.happened()
            ctx.check(len(es) == 1 and es[0][0] == "published" and eq(es[0][1], i) and not a.got(), "the application learns that it has been published", lambda: es)
    ctx.check(not a.receiver.done, "the library keeps receiving")
    if not flight:
        s = a.sock
        a.call(a.lib.disconnect)
        ctx.check(types(a.got()) == [DISCONNECT] and s.closed and a.receiver.done, "and can be disconnected")


def cut(ctx, ver, k, pause):
    """however the server's bytes are cut, with or without pauses"""
    a = App(ctx, ver)
    a.connect()
    a.got()
    i = a.call(a.lib.publish, "t", b"x", 1)
    a.got()
    pl = ctx.bytes("payload", 2)
    ms = [{"t": PUBLISH, "dup": False, "qos": q, "retain": False, "topic": b("t"), "id": 5 if q else None, "payload": list(pl), "props": P(ver)} for q in (1, 2)]
    bs = []
    for p in [ms[0], {"t": PUBACK, "id": i, "rc": 0, "props": P(ver)}, ms[1], {"t": PUBREL, "id": 5, "rc": 0, "props": P(ver)},
              {"t": SUBACK, "id": 7, "codes": [1], "props": P(ver)}]:
        bs += list(ref.encode(p, ver))
    at = [0]
    for j in range(k):
        at.append(ctx.choice("cut", list(range(at[-1], len(bs) + 1))))
    at.append(len(bs))
    for x, y in zip(at, at[1:]):
        if x < y:
            a.arrive(ref.mk(bs[x:y]))
            for _ in range(3 if pause else 0):
                a.pause()
    es, out = a.happened(), a.got()
    ctx.check([e[0] for e in es] == ["message", "published", "message", "subscribed"], "every packet is handled, in order", lambda: es)
    ctx.check(message(ctx, ver, es[0], ms[0]) and message(ctx, ver, es[2], ms[1]) and eq(es[3][1], 7), "as it was sent", lambda: es)
    ctx.check(types(out) == [PUBACK, PUBREC, PUBCOMP], "and answered", lambda: out)


def slow(ctx, ver):
    """the socket takes only part of what is sent"""
    a = App(ctx, ver)
    n = ctx.int("taken", 1, 8)
    a.partial = lambda k: ite(n < k, n, k)
    a.connect(willFlag=True, willTopic="w", willMessage=b"W", willQoS=1)
    a.call(a.lib.subscribe, ["t"], [a.mod.MQTTV5.SubscribeOptions(1)] if ver == 5 else [1])
    a.call(a.lib.publish, "t", b"x", 2)
    a.arrive({"t": PUBLISH, "dup": False, "qos": 1, "retain": False, "topic": b("t"), "id": 5, "payload": b("x"), "props": P(ver)})
    a.arrive({"t": PUBLISH, "dup": False, "qos": 2, "retain": False, "topic": b("t"), "id": 6, "payload": b("x"), "props": P(ver)})
    out = a.got()
    ctx.check(types(out) == [CONNECT, SUBSCRIBE, PUBLISH, PUBACK, PUBREC], "all of it is sent, once", lambda: out)
    a.arrive({"t": PUBREC, "id": out[2]["id"], "rc": 0, "props": P(ver)})
    a.arrive({"t": PUBREL, "id": 6, "rc": 0, "props": P(ver)})
    ctx.check(types(a.got()) == [PUBREL, PUBCOMP], "all of it is sent, once")


def again(ctx, ver, ops):
    """the connection is lost and the client connects again: the exchanges of its session go on"""
    a = App(ctx, ver)
    keep = [(17, 100)] if ver == 5 else ()
    if ver == 5:
        a.lib.sessionexpiry = 100
    a.connect(clean=False)
    a.got()
    q = ctx.choice("out", [1, 2, "released"])
    i = a.call(a.lib.publish, "t", b"x", 1 if q == 1 else 2)
    p = a.got()[0]
    if q == "released":
        a.arrive({"t": PUBREC, "id": i, "rc": 0, "props": P(ver)})
    if ops > 1:
        j = a.call(a.lib.publish, "t", b"y", 1)
    m = {"t": PUBLISH, "dup": False, "qos": 2, "retain": False, "topic": b("t"), "id": 6, "payload": list(ctx.bytes("payload", 1)), "props": P(ver)}
    inn = ctx.choice("in", ["nothing", "publish", "released"])
    if inn != "nothing":
        a.arrive(m)
    if inn == "released":
        a.arrive({"t": PUBREL, "id": 6, "rc": 0, "props": P(ver)})
    a.happened()
    a.end()
    ctx.check(a.receiver.done, "the receiver ends with the connection")
    ctx.check(a.happened() == [("lost",)], "and the application learns of it")
    sp = ctx.bool("session present")
    a.connect(clean=False, sp=sp)
    out = a.got()
    ctx.check(types(out[:1]) == [CONNECT], "it connects")
    out = out[1:]
    if sp:
        if q == "released":
            ctx.check(types(out[:1]) == [PUBREL] and eq(out[0]["id"], i), "PUBREL is sent again", lambda: out)
        else:
            ctx.check(types(out[:1]) == [PUBLISH] and land(eq(out[0]["id"], i), out[0]["dup"], same(dict(out[0], dup=0), dict(p, dup=0))), "PUBLISH is sent again, as a duplicate", lambda: out)
        if ops > 1:
            ctx.check(types(out[1:]) == [PUBLISH] and eq(out[1]["id"], j), "in the same order", lambda: out)
        if inn != "nothing":
            a.happened()
            a.arrive({"t": PUBREL, "id": 6, "rc": 0, "props": P(ver)})
            ctx.check(len(a.happened()) == (inn == "publish") and types(a.got()) == [PUBCOMP], "a message which was on its way is passed on, once")
        if q == 1:
            a.arrive({"t": PUBACK, "id": i, "rc": 0, "props": P(ver)})
        else:
            if q == 2:
                a.arrive({"t": PUBREC, "id": i, "rc": 0, "props": P(ver)})
                ctx.check(types(a.got()) == [PUBREL], "the exchange goes on")
            a.arrive({"t": PUBCOMP, "id": i, "rc": 0, "props": P(ver)})
        es = a.happened()
        ctx.check(len(es) == 1 and es[0][0] == "published" and eq(es[0][1], i), "the exchange comes to its end", lambda: es)
    else:
        ctx.check(out == [], "nothing is sent if the server does not know the session", lambda: out)
        if inn != "nothing":
            a.arrive({"t": PUBREL, "id": 6, "rc": 0, "props": P(ver)})
            ctx.check(a.happened() == [] and types(a.got()) == [PUBCOMP], "messages of a session which is no more are not passed on")


def same(x, y):
    return ref.same(x, y)


def requests(ctx, ver, what):
    """what the application asks for is what is sent"""
    cid = "c" + ctx.str("cid", 1)
    ctx.assume(eq(cid[1:] == "\0", False))
    a = App(ctx, ver, cid)
    ctx.assume(utf(cid))
    if what == "connect":
        k = {}
        exp = {"t": CONNECT, "level": 5 if ver == 5 else 4, "clean": ctx.bool("clean"), "keep": ctx.int("keep", 0, 65535), "cid": ref.text(cid), "will": None, "user": None, "pw": None, "props": P(ver)}
        if ctx.bool("will"):
            k.update(willFlag=True, willTopic="w", willMessage=ctx.bytes("will message", 1), willQoS=ctx.choice("qos", [0, 1, 2]), willRetain=ctx.bool("will retain"))
            exp["will"] = {"qos": k["willQoS"], "retain": k["willRetain"], "topic": b("w"), "payload": list(k["willMessage"]), "props": P(ver)}
            if ver == 5 and ctx.bool("delay"):
                k["willProperties"] = a.mod.MQTTV5.Properties(a.mod.MQTTV5.PacketTypes.WILLMESSAGE)
                exp["will"]["props"] = [(24, ctx.int("delay", 0, 2 ** 32 - 1))]
                k["willProperties"].WillDelayInterval = exp["will"]["props"][0][1]
        if ctx.bool("user"):
            k["username"] = "u"
            exp["user"] = b("u")
        if exp["user"] is not None and ctx.bool("pw") or ver == 5 and exp["user"] is None and ctx.bool("only pw"):
            k["password"] = ctx.bytes("password", 2)
            exp["pw"] = list(k["password"])
        if ver == 5 and ctx.bool("properties"):
            k["properties"] = a.mod.MQTTV5.Properties(a.mod.MQTTV5.PacketTypes.CONNECT)
            exp["props"] = [(17, ctx.int("expiry", 0, 2 ** 32 - 1)), (33, ctx.int("receive maximum", 1, 65535))]
            k["properties"].SessionExpiryInterval, k["properties"].ReceiveMaximum = [v for i, v in exp["props"]]
        a.connect(clean=exp["clean"], keepalive=exp["keep"], host="h", port=4711, **k)
        r = a.got()
        ctx.check(len(r) == 1 and a.sock.address == ("h", 4711), "one packet is sent to the server", lambda: r)
        exp["level"] = r[0].get("level", exp["level"])
        if ver == 5:
            for x, y in ((r[0], exp),) + (((r[0]["will"], exp["will"]),) if exp["will"] and r[0]["will"] else ()):
                x["props"], y["props"] = sorted(x["props"], key=lambda z: z[0]), sorted(y["props"], key=lambda z: z[0])
        ctx.check(same(r[0], exp), "CONNECT is sent as asked for", lambda: (r, exp))
        return
    a.connect()
    a.got()
    if what == "subscribe":
        n = ctx.choice("filters", [1, 2])
        fs, os = ["a/#", "b"][:n], []
        exp = {"t": SUBSCRIBE, "filters": [], "props": P(ver)}
        for f in fs:
            if ver == 5:
                x = (ctx.choice("qos", [0, 1, 2]), ctx.bool("nl"), ctx.bool("rap"), ctx.choice("rh", [0, 1, 2])) if f == "a/#" else (1, True, False, 2)
                os.append(a.mod.MQTTV5.SubscribeOptions(*x))
            else:
                x = (ctx.int("qos", 0, 2), False, False, 0)
                os.append(x[0])
            exp["filters"].append((b(f),) + x)
        k = {}
        if ver == 5 and ctx.bool("properties"):
            k["properties"] = a.mod.MQTTV5.Properties(a.mod.MQTTV5.PacketTypes.SUBSCRIBE)
            exp["props"] = [(11, ctx.int("id", 1, 2 ** 28 - 1))]
            k["properties"].SubscriptionIdentifier = exp["props"][0][1]
        exp["id"] = a.call(a.lib.subscribe, fs, os, **k)
        r = a.got()
        ctx.check(len(r) == 1 and same(r[0], exp), "SUBSCRIBE is sent as asked for", lambda: (r, exp))
        codes = [ctx.choice("code", [0, 1, 2, 128]) if f == "b" or ver != 5 else 1 for f in fs]
        a.arrive({"t": SUBACK, "id": exp["id"], "codes": codes, "props": P(ver)})
        es = a.happened()
        ctx.check(len(es) == 1 and es[0][0] == "subscribed" and eq(es[0][1], exp["id"]), "the application learns of SUBACK", lambda: es)
        ctx.check(land(*[eq(x.value if ver == 5 else x, y) for x, y in zip(es[0][2], codes)]) and len(es[0][2]) == n, "and of its codes", lambda: es)
    elif what == "unsubscribe":
        n = ctx.choice("filters", [1, 2])
        fs = ["a/#", "b"][:n]
        i = a.call(a.lib.unsubscribe, fs)
        r = a.got()
        ctx.check(len(r) == 1 and same(r[0], {"t": UNSUBSCRIBE, "id": i, "filters": [b(f) for f in fs], "props": P(ver)}), "UNSUBSCRIBE is sent as asked for", lambda: r)
        a.arrive({"t": UNSUBACK, "id": i, "codes": [0] * n if ver == 5 else None, "props": P(ver)})
        es = a.happened()
        ctx.check(len(es) == 1 and es[0][0] == "unsubscribed" and eq(es[0][1], i), "the application learns of UNSUBACK", lambda: es)
    elif what == "publish":
        q = ctx.choice("qos", [0, 1, 2])
        t = ctx.str("topic", 1)
        ctx.assume(utf(t))
        ctx.assume(land(*[lnot(t == x) for x in "+#\0"]))
        k = {}
        exp = {"t": PUBLISH, "dup": False, "qos": q, "retain": ctx.bool("retain"), "topic": ref.text(t), "payload": list(ctx.bytes("payload", ctx.choice("length", [0, 3]))), "props": P(ver)}
        if ver == 5 and ctx.bool("properties"):
            k["properties"] = a.mod.MQTTV5.Properties(a.mod.MQTTV5.PacketTypes.PUBLISH)
            exp["props"] = [(2, ctx.int("expiry", 0, 2 ** 32 - 1))]
            k["properties"].MessageExpiryInterval = exp["props"][0][1]
        i = a.call(a.lib.publish, t, ref.mk(exp["payload"]), q, exp["retain"], **k)
        exp["id"] = i if q else None
        r = a.got()
        ctx.check(len(r) == 1 and same(r[0], exp), "PUBLISH is sent as asked for", lambda: (r, exp))
    elif what == "disconnect":
        k = {}
        exp = {"t": DISCONNECT, "rc": 0, "props": P(ver)}
        if ver == 5 and ctx.bool("properties"):
            k["properties"] = a.mod.MQTTV5.Properties(a.mod.MQTTV5.PacketTypes.DISCONNECT)
            exp["props"] = [(17, ctx.int("expiry", 0, 2 ** 32 - 1))]
            k["properties"].SessionExpiryInterval = exp["props"][0][1]
        if ctx.bool("terminate"):
            s = a.sock
            a.call(a.lib.terminate)
            ctx.check(not a.got() and s.closed and a.receiver.done, "the connection is closed without DISCONNECT")
        else:
            s = a.sock
            a.call(a.lib.disconnect, **k)
            r = a.got()
            ctx.check(len(r) == 1 and same(r[0], exp), "DISCONNECT is sent as asked for", lambda: (r, exp))
            ctx.check(s.closed and a.receiver.done, "the connection is closed")
        ctx.check(not a.happened(), "the application is not told of what it asked for")


def utf(s):
    return land(*[lor(ord(x) < 0xD800, ord(x) > 0xDFFF) if isinstance(x, str) else lor(x < 0xD800, x > 0xDFFF) for x in (s.e if is_sym(s) else s)])


def answer(ctx, ver):
    """only an accepting CONNACK connects"""
    a = App(ctx, ver)
    k = ctx.choice("answer", ["refused", "end", "part", "other"])
    rc = ctx.choice("rc", [0x80, 0x87, 0x9f]) if ver == 5 else ctx.int("rc", 1, 5)
    bs = {"refused": list(ref.encode({"t": CONNACK, "sp": False, "rc": rc, "props": P(ver)}, ver)), "end": [], "part": [0x20],
          "other": list(ref.encode({"t": PINGRESP}, ver))}[k]
    make = a.socket

    def mk(*x, **y):
        s = make()
        s.feed(ref.mk(bs))
        s.ended = True
        return s
    ctx.make_socket = mk
    try:
        a.call(a.lib.connect)
        done = True
    except INTERNAL:
        raise
    except Exception:
        done = False
    ctx.check(not done and a.receiver is None, "otherwise connect fails")


def direct(ctx, ver):
    """without callback the application asks for messages itself"""
    a = App(ctx, ver, callback=False)
    a.connect()
    a.got()
    q = ctx.choice("qos", [0, 1, 2])
    m = {"t": PUBLISH, "dup": False, "qos": q, "retain": ctx.bool("retain"), "topic": b("t"), "id": ctx.int("id", 1, 65535) if q else None, "payload": list(ctx.bytes("payload", 2)), "props": P(ver)}
    a.sock.feed(ref.mk(ref.encode(m, ver)))
    r = a.call(a.lib.receive)
    if q == 2:
        ctx.check(r is None and types(a.got()) == [PUBREC], "QoS 2 waits")
        a.sock.feed(ref.mk(ref.encode({"t": PUBREL, "id": m["id"], "rc": 0, "props": P(ver)}, ver)))
        r = a.call(a.lib.receive)
    ctx.check(r is not None and message(ctx, ver, ("message",) + tuple(r)[:5] + (None,), m), "the message is returned", lambda: r)
    ctx.check(types(a.got()) == [[], [PUBACK], [PUBCOMP]][q], "and acknowledged")


def default(ctx, ver):
    """an application which leaves everything to the library's own callback"""
    a = App(ctx, ver, callback="default")
    a.connect()
    a.got()
    i = a.call(a.lib.subscribe, ["t"], [a.mod.MQTTV5.SubscribeOptions(1)] if ver == 5 else [1])
    j = [a.call(a.lib.publish, "t", b"x", q) for q in (1, 2)]
    k = a.call(a.lib.unsubscribe, ["t"])
    a.got()
    m = {"t": PUBLISH, "dup": False, "qos": 0, "retain": ctx.bool("retain"), "topic": b("t"), "id": None, "payload": list(ctx.bytes("payload", 1)), "props": P(ver)}
    exp = []
    for n in range(2):
        op = ctx.choice("packet", ["suback", "unsuback", "puback", "pubrec", "qos 0", "qos 1", "qos 2"])
        if op == "suback":
            a.arrive({"t": SUBACK, "id": i, "codes": [1], "props": P(ver)})
        elif op == "unsuback":
            a.arrive({"t": UNSUBACK, "id": k, "codes": [0] if ver == 5 else None, "props": P(ver)})
        elif op == "puback":
            if j[0]:
                a.arrive({"t": PUBACK, "id": j[0], "rc": 0, "props": P(ver)})
            j[0] = None
        elif op == "pubrec":
            if j[1]:
                a.arrive({"t": PUBREC, "id": j[1], "rc": 0, "props": P(ver)})
                a.arrive({"t": PUBCOMP, "id": j[1], "rc": 0, "props": P(ver)})
                exp.append(PUBREL)
            j[1] = None
        elif op == "qos 0":
            a.arrive(m)
        elif op == "qos 1":
            a.arrive(dict(m, qos=1, id=7))
            exp.append(PUBACK)
        else:
            a.arrive(dict(m, qos=2, id=8))
            a.arrive({"t": PUBREL, "id": 8, "rc": 0, "props": P(ver)})
            exp += [PUBREC, PUBCOMP]
    out = a.got()
    ctx.check(types(out) == exp, "every packet is answered as it should be", lambda: (exp, out))
    ctx.check(not a.receiver.done, "the library keeps receiving")


def stray(ctx, ver):
    """an acknowledgement of something else ends no exchange: the library gives up the connection, or ignores it"""
    a = App(ctx, ver)
    if ver == 5:
        a.lib.sessionexpiry = 100
    a.connect(clean=False)
    a.got()
    i, j = [a.call(a.lib.publish, "t", b"x", q) for q in (1, 2)]
    a.got()
    what = ctx.choice("packet", ["puback of qos 2", "puback", "pubrec", "pubcomp"])
    k = j
    if what != "puback of qos 2":
        k = ctx.int("id", 1, 65535)
        ctx.assume(land(lnot(eq(k, i)), lnot(eq(k, j))))
    a.arrive({"t": {"pubr": PUBREC, "pubc": PUBCOMP}.get(what[:4], PUBACK), "id": k, "rc": 0, "props": P(ver)})
    es = a.happened()
    ctx.check(es == [("lost",)] * a.receiver.done, "the application is not told of anything but the end of the connection", lambda: es)
    ctx.check([x for x in types(a.got()) if x != PUBREL] == [], "nothing is sent again")
    if a.receiver.done:
        a.connect(clean=False, sp=True)
        out = a.got()[1:]
        ctx.check(types(out) == [PUBLISH, PUBLISH] and land(eq(out[0]["id"], i), eq(out[1]["id"], j)), "both exchanges go on", lambda: out)
    a.arrive({"t": PUBREC, "id": j, "rc": 0, "props": P(ver)})
    a.arrive({"t": PUBCOMP, "id": j, "rc": 0, "props": P(ver)})
    a.arrive({"t": PUBACK, "id": i, "rc": 0, "props": P(ver)})
    es = a.happened()
    ctx.check(len(es) == 2 and [e[0] for e in es] == ["published"] * 2 and land(eq(es[0][1], j), eq(es[1][1], i)), "and come to their end", lambda: es)


def back(ctx, ver):
    """the application disconnects, keeping its session, and comes back, with or without exchanges in flight"""
    a = App(ctx, ver)
    if ver == 5:
        a.lib.sessionexpiry = 100
    a.connect(clean=False)
    a.got()
    i = None
    if ctx.bool("in flight"):
        q = ctx.choice("qos", [1, 2])
        i = a.call(a.lib.publish, "t", b"x", q)
        a.call(a.lib.pause)
    s = a.sock
    a.call(a.lib.disconnect)
    ctx.check(types(a.got())[-1:] == [DISCONNECT] and s.closed and a.receiver.done and a.happened() == [], "it has disconnected")
    for n in range(2):
        sp = n == 0 or ctx.bool("session present")
        a.connect(clean=False, sp=sp)
        out = a.got()[1:]
        if i is not None and sp:
            ctx.check(types(out) == [PUBLISH] and land(eq(out[0]["id"], i), out[0]["dup"]), "what was in flight is sent again", lambda: out)
        else:
            ctx.check(out == [], "nothing is sent again", lambda: out)
        if i is not None:
            a.call(a.lib.resume)
            if sp:
                for t in ([PUBACK] if q == 1 else [PUBREC, PUBCOMP]):
                    a.arrive({"t": t, "id": i, "rc": 0, "props": P(ver)})
                es = a.happened()
                ctx.check(len(es) == 1 and es[0][0] == "published" and eq(es[0][1], i), "the exchange comes to its end", lambda: es)
                a.got()
            i = None
        a.arrive({"t": PUBLISH, "dup": False, "qos": 1, "retain": False, "topic": b("t"), "id": 9, "payload": b"z", "props": P(ver)})
        ctx.check(types(a.got()) == [PUBACK] and len(a.happened()) == 1, "messages are passed on as before")
        j = a.call(a.lib.publish, "t", b"n", 1)
        a.got()
        a.arrive({"t": PUBACK, "id": j, "rc": 0, "props": P(ver)})
        ctx.check([e[0] for e in a.happened()] == ["published"], "publications are done as before")
        s = a.sock
        a.call(a.lib.disconnect)
        ctx.check(types(a.got()) == [DISCONNECT] and s.closed and a.receiver.done and a.happened() == [], "it has disconnected")


def told(ctx):
    """an MQTT 5 server disconnects the client"""
    a = App(ctx, 5)
    a.connect()
    a.got()
    rc = ctx.choice("rc", [0x81, 0x8B, 0x8E, 0x9C])
    ps = [(31, b(ctx.str("reason", 1, lo=97, hi=122)))] if ctx.bool("reason") else []
    a.arrive({"t": DISCONNECT, "rc": rc, "props": ps})
    es = a.happened()
    ctx.check(len(es) == 1 and es[0][0] == "disconnected" and eq(es[0][1].value, rc) and same_props(ref.norm_props(es[0][2], DISCONNECT), ps), "the application learns why", lambda: es)
    a.end()
    ctx.check(a.happened() == [("lost",)] and a.receiver.done and a.got() == [], "and of the end of the connection")


def paused(ctx, ver):
    """while the application has paused, messages are neither passed on nor acknowledged, and exchanges go on"""
    a = App(ctx, ver)
    a.connect()
    a.got()
    i = a.call(a.lib.publish, "t", b"x", 2)
    m = {"t": PUBLISH, "dup": False, "qos": 2, "retain": False, "topic": b("t"), "id": 6, "payload": b"y", "props": P(ver)}
    a.arrive(m)
    a.got()
    a.call(a.lib.pause)
    for q in (0, 1, 2) if ctx.bool("all") else (ctx.choice("qos", [1, 2]),):
        a.arrive(dict(m, qos=q, id=q + 10 if q else None))
    ctx.check(not a.got() and not a.happened(), "nothing is passed on or acknowledged")
    a.arrive({"t": PUBREC, "id": i, "rc": 0, "props": P(ver)})
    ctx.check(types(a.got()) == [PUBREL], "the exchange goes on")
    if ctx.bool("resume"):
        a.call(a.lib.resume)
        q = ctx.choice("again", [0, 1, 2])
        a.arrive(dict(m, qos=q, id=q + 10 if q else None, dup=q > 0))
        if q == 2:
            a.arrive({"t": PUBREL, "id": 12, "rc": 0, "props": P(ver)})
        es = a.happened()
        ctx.check(types(a.got()) == [[], [PUBACK], [PUBREC, PUBCOMP]][q] and len(es) == 1 and es[0][0] == "message" and eq(es[0][3], q), "then messages are passed on and acknowledged", lambda: es)
        a.arrive({"t": PUBREL, "id": 6, "rc": 0, "props": P(ver)})
        ctx.check(types(a.got()) == [PUBCOMP] and len(a.happened()) == 1, "as is the one received before the pause")
        ctx.check(not a.receiver.done, "the library keeps receiving")
    else:
        s = a.sock
        a.call(a.lib.disconnect)
        ctx.check(types(a.got()) == [DISCONNECT] and s.closed and a.receiver.done, "it can disconnect without waiting for what is in flight")


def leave(ctx, ver, k):
    """the application disconnects while exchanges are in flight: they are completed first"""
    a = App(ctx, ver)
    a.connect()
    a.got()
    flight = []
    for n in range(k):
        q = ctx.choice("qos", [1, 2] + (["in"] if n == 0 else []))
        if q == "in":
            a.arrive({"t": PUBLISH, "dup": False, "qos": 2, "retain": False, "topic": b("t"), "id": 6, "payload": b"y", "props": P(ver)})
            flight.append([q, 6])
        else:
            flight.append([q, a.call(a.lib.publish, "t", b"x", q)])
    a.got()
    due = []
    for q, i in flight:
        due += [(PUBACK, i)] if q == 1 else [(PUBREC, i), (PUBCOMP, i)] if q == 2 else [(PUBREL, 6)]
    if ctx.bool("reversed") and k > 1 and flight[0][0] != 2 and flight[1][0] != 2:
        due.reverse()
    extra = ctx.choice("another message", [None, 0, 1])
    if extra is not None:
        due.insert(0, (PUBLISH, extra))
    size = ctx.choice("packets at a time", [1, 2, 9])
    wait = [ctx.choice("delay", [0, 2])]
    early = []

    def during():
        if wait[0]:
            wait[0] -= 1
            return
        early.append(a.sock.closed)
        for t, i in due[:size]:
            a.sock.feed(ref.mk(ref.encode({"t": t, "id": i, "rc": 0, "props": P(ver)} if t != PUBLISH else
                                          {"t": t, "dup": False, "qos": i, "retain": False, "topic": b("t"), "id": 9 if i else None, "payload": b"z", "props": P(ver)}, ver)))
        if due:
            del due[:size]
            wait[0] = 1
    a.during = during
    s = a.sock
    a.call(a.lib.disconnect)
    ctx.check(not due and not any(early[:1]), "disconnect waits for the exchanges in flight", lambda: (flight, due))
    out, es = a.got(), a.happened()
    exp = [PUBREL] * len([1 for q, i in flight if q == 2]) + [PUBCOMP] * len([1 for q, i in flight if q == "in"]) + [PUBACK] * (extra == 1)
    ctx.check(sorted(types(out[:-1])) == sorted(exp), "and completes them", lambda: (flight, out))
    ctx.check(types(out[-1:]) == [DISCONNECT] and s.closed and a.receiver.done, "then disconnects", lambda: out)
    ctx.check(sorted(e[0] for e in es) == sorted(["published"] * len([1 for q, i in flight if q != "in"]) + ["message"] * (len([1 for q, i in flight if q == "in"]) + (extra is not None))),
              "the application learns of them", lambda: es)


def ends(ctx, ver):
    """the server closes the connection anywhere in its stream"""
    a = App(ctx, ver)
    a.connect()
    a.got()
    bs = []
    for q in (0, 1):
        bs += list(ref.encode({"t": PUBLISH, "dup": False, "qos": q, "retain": False, "topic": b("t"), "id": 5 if q else None, "payload": b("x"), "props": P(ver)}, ver))
    n = ctx.choice("bytes", list(range(len(bs) + 1)))
    if n:
        a.arrive(ref.mk(bs[:n]))
    if ctx.bool("pause"):
        a.pause()
    a.end()
    es = a.happened()
    ctx.check([e[0] for e in es] == ["message"] * ((n == len(bs)) + (n >= first(ver))) + ["lost"], "whole messages are passed on, and the application learns of the end", lambda: es)
    ctx.check(a.receiver.done, "the receiver ends")


def first(ver):
    return len(ref.encode({"t": PUBLISH, "dup": False, "qos": 0, "retain": False, "topic": b("t"), "id": None, "payload": b("x"), "props": P(ver)}, ver))


def make(tier):
    deep = tier == "thorough"
    hs = []
    n = 4 if deep else 3
    for ver in (5, 311):
        hs.append(Harness("incoming %d" % ver, incoming, "%d packets from the server, 2 identifiers for QoS 2" % n, ver=ver, steps=n))
        hs.append(Harness("outgoing %d" % ver, outgoing, "%d publications and acknowledgements in any order" % (n + 1), ver=ver, steps=n + 1))
        hs.append(Harness("refused %d" % ver, refused, "one message", ver=ver))
        for pause in (False, True):
            hs.append(Harness("cut %d%s" % (ver, " with pauses" if pause else ""), cut, "5 packets cut at %d places" % (2 if deep else 1), ver=ver, k=2 if deep else 1, pause=pause))
        hs.append(Harness("slow %d" % ver, slow, "1..8 bytes are taken at a time", ver=ver))
        hs.append(Harness("again %d" % ver, again, "one or two publications and one message in flight", ver=ver, ops=2))
        for what in ("connect", "subscribe", "unsubscribe", "publish", "disconnect"):
            hs.append(Harness("%s %d" % (what, ver), requests, "any arguments, text of one character", ver=ver, what=what))
        hs.append(Harness("answer %d" % ver, answer, "4 answers", ver=ver))
        hs.append(Harness("direct %d" % ver, direct, "one message", ver=ver))
        hs.append(Harness("default %d" % ver, default, "two packets of any type", ver=ver))
        hs.append(Harness("stray %d" % ver, stray, "one acknowledgement which does not fit", ver=ver))
        hs.append(Harness("back %d" % ver, back, "two returns, one publication in flight or none", ver=ver))
        hs.append(Harness("paused %d" % ver, paused, "one to three messages while paused", ver=ver))
        hs.append(Harness("leave %d" % ver, leave, "%d exchanges in flight and another message, answered in groups" % (3 if deep else 2), ver=ver, k=3 if deep else 2))
        hs.append(Harness("ends %d" % ver, ends, "2 messages, ended anywhere", ver=ver))
    hs.append(Harness("told", told, "four reasons"))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C28", make))
