"C11: outbound QoS 1 and 2 deliveries: each message is delivered until it is acknowledged, and not after that"
from sx.run import Harness, main
from sx.vals import land, lor, lnot, eq
from checks.brk import *

KEEP = {5: {"clean": False, "props": [(17, 1000)]}, 311: {"clean": False}}


class Flow:
    "the subscriber and what the specification says about its in-flight messages"

    def __init__(self, ctx, ver, clean=None, **opts):
        self.ctx, self.ver = ctx, ver
        self.w = World(ctx, **opts)
        self.p = self.w.connect("p", ctx.choice("publisher version", [5, 311]) if opts.pop("pv", None) else ver)
        # whether a MQTT 5 session can be resumed does not depend on how it was started
        self.s = self.w.connect("s", ver, **(KEEP[ver] if ver == 311 else dict(KEEP[ver], clean=ctx.bool("clean start") if clean is None else clean)))
        self.s.sub(("t", 2))
        self.s.got()
        self.flight = []          # in order: [payload, qos, id, state]
        self.queue = []           # published while the subscriber was away
        self.n = 0

    def publish(self, qos):
        ctx = self.ctx
        self.n += 1
        pl = ctx.bytes("payload", 1)
        self.p.pub("t", pl, qos=qos, id=self.n)
        if not self.s.open:
            if qos > 0:
                self.queue.append([pl, qos])
            return
        r = self.s.got()
        ctx.check(len(r) == 1 and r[0]["t"] == PUBLISH, "the message is sent once", lambda: r)
        self.first(r[0], pl, qos)

    def first(self, x, pl, qos):
        ctx = self.ctx
        ctx.check(land(eq(x["qos"], qos), eq(x["dup"], False), seqeq(x["payload"], b(pl))), "the first delivery has DUP 0 and the message's QoS", lambda: x)
        if qos > 0:
            ctx.check(land(x["id"] > 0, x["id"] < 65536, *[lnot(eq(x["id"], m[2])) for m in self.flight]),
                      "the packet identifier is not zero and not in use", lambda: (x, self.flight))
            self.flight.append([pl, qos, x["id"], "sent"])

    def ack(self, m, rc=0):
        ctx, s = self.ctx, self.s
        if m[1] == 1:
            s.ack(PUBACK, m[2], rc)
            self.flight.remove(m)
            self.quiet()
        elif m[3] == "sent":
            s.ack(PUBREC, m[2], rc)
            if rc >= 0x80:
                self.flight.remove(m)
                self.quiet()
            else:
                m[3] = "rec"
                self.pubrel(m)
        else:
            s.ack(PUBCOMP, m[2], rc)
            self.flight.remove(m)
            self.quiet()

    def pubrel(self, m):
        r = self.s.got()
        self.ctx.check(len(r) == 1 and r[0]["t"] == PUBREL and eq(r[0]["id"], m[2]), "PUBREC is answered with PUBREL for the same identifier", lambda: r)
        if self.ver == 5:
            self.ctx.check(eq(r[0]["rc"], 0), "PUBREL has reason code 0")

    def quiet(self):
        r = self.s.got()
        self.ctx.check(len(r) == 0 and self.s.open, "nothing is sent in response to PUBACK or PUBCOMP, or to what does not fit", lambda: r)

    def leave(self):
        if self.ctx.choice("leave", ["disconnect", "die"]) == "die":
            self.s.die()
        else:
            self.s.disconnect()
        self.ctx.check(not self.s.open, "the connection is closed")

    def back(self):
        ctx = self.ctx
        self.s = self.w.connect("s", self.ver, **KEEP[self.ver])
        ctx.check(self.s.connack is not None and eq(self.s.connack["sp"], True), "the session is present", lambda: self.s.connack)
        r = self.s.got()
        ctx.check(len(r) == len(self.flight) + len(self.queue), "the unfinished messages are sent again, and the queued ones for the first time", lambda: (r, self.flight, self.queue))
        for x, m in zip(r, self.flight):
            if m[3] == "rec":
                ctx.check(x["t"] == PUBREL and eq(x["id"], m[2]), "after PUBREC only PUBREL is sent again, in the original order", lambda: (r, self.flight))
            else:
                ctx.check(x["t"] == PUBLISH and land(eq(x["id"], m[2]), eq(x["dup"], True), eq(x["qos"], m[1]), seqeq(x["payload"], b(m[0]))),
                          "PUBLISH is sent again with the same identifier, QoS and payload and DUP 1, in the original order", lambda: (r, self.flight))
        q, self.queue = self.queue, []
        for x, (pl, qos) in zip(r[len(self.flight):], q):
            ctx.check(x["t"] == PUBLISH, "queued messages are sent", lambda: r)
            self.first(x, pl, qos)

    def finish(self):
        if not self.s.open:
            self.back()
        while self.flight:
            self.ack(self.flight[0])
        self.s.die()
        self.back()


def flow(ctx, ver, ops, start, clean):
    f = Flow(ctx, ver, clean=clean)
    for q in start:
        f.publish(ctx.choice("qos", q) if isinstance(q, tuple) else q)
    for i in range(ops):
        what = ["publish"]
        if f.s.open:
            what += ["ack %d" % j for j in range(len(f.flight))] + ["wrong"] * bool(f.flight) + ["leave"]
        else:
            what += ["back"]
        op = ctx.choice("op", what)
        if op == "publish":
            f.publish(ctx.choice("qos", [1, 2]))
        elif op == "leave":
            f.leave()
        elif op == "back":
            f.back()
        elif op == "wrong":
            wrong(ctx, f)
        else:
            f.ack(f.flight[int(op.split()[1])])
    f.finish()


def wrong(ctx, f):
    "an acknowledgement that fits no message in flight changes nothing"
    m = f.flight[0]
    if ctx.choice("wrong", ["id", "type"]) == "id":
        t = ctx.choice("packet", [PUBACK, PUBCOMP, PUBREC])
        i = ctx.int("id", 1, 65535)
        ctx.assume(land(*[lnot(eq(i, x[2])) for x in f.flight]))
        f.s.ack(t, i)
        r = f.s.got()
        if t == PUBREC:
            ctx.check(f.s.open and len(r) <= 1 and all(x["t"] == PUBREL and eq(x["id"], i) for x in r), "an unknown identifier is at most answered with PUBREL", lambda: r)
            if f.ver == 5:
                ctx.check(len(r) == 1 and eq(r[0]["rc"], 0x92), "PUBREL says that the identifier was not found", lambda: r)
        else:
            ctx.check(f.s.open and len(r) == 0, "an unknown identifier is ignored", lambda: r)
        return
    if m[1] == 1:
        f.s.ack(PUBCOMP, m[2])
        f.quiet()
    elif m[3] == "sent":
        f.s.ack(ctx.choice("packet", [PUBACK, PUBCOMP]), m[2])
        f.quiet()
    elif ctx.choice("packet", ["PUBACK", "PUBREC"]) == "PUBACK":
        f.s.ack(PUBACK, m[2])
        f.quiet()
    else:                                   # repeated PUBREC
        f.s.ack(PUBREC, m[2])
        f.pubrel(m)


def codes(ctx):
    "MQTT 5 reason codes in PUBACK, PUBREC and PUBCOMP"
    f = Flow(ctx, 5)
    f.publish(1)
    f.publish(2)
    f.publish(2)
    good = [0x00, 0x10]
    bad = [0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99]
    which = ctx.choice("which", ["puback", "pubrec", "pubcomp"])
    m = f.flight[0 if which == "puback" else 1]
    if which == "pubcomp":
        f.ack(m)
        f.ack(m, ctx.choice("code", [0, 0x92]))
    else:
        f.ack(m, ctx.choice("code", good + bad))
    f.finish()


def wrap(ctx, ver):
    """packet identifiers near the end of their range: the next ones are valid and not in use.  The counter is set
    from outside (65000 deliveries are out of reach); where there is no such counter this changes nothing"""
    f = Flow(ctx, ver, clean=False)
    early = ctx.choice("in flight", [1, 2, 3])
    for i in range(early):
        f.publish(2)
    try:
        f.w.broker(ver).broker.getClient("s").msgid = ctx.choice("next", [65533, 65534, 65535, 1])
    except AttributeError:
        pass
    for i in range(3):
        f.publish(ctx.choice("qos", [1, 2]) if early == 1 else 1)
        if i < 2 and early < 3 and ctx.bool("ack"):
            f.ack(f.flight[-1])
    f.finish()


def fewer(ctx, n, ops):
    "the receive maximum of the new connection is smaller than what is in flight: the others are sent again as there is room, unless they are acknowledged before"
    f = Flow(ctx, 5, clean=False)
    for i in range(n):
        f.publish(ctx.choice("qos", [1, 2]))
    if ctx.bool("the first is received"):
        m = f.flight[0]
        ctx.assume(m[1] == 2)
        f.ack(m)
    f.leave()
    most = ctx.choice("receive maximum", [1, 2])
    f.s = s = f.w.connect("s", 5, clean=False, props=[(17, 1000), (33, most)])
    wait = list(f.flight)
    now = []

    def more():
        r = s.got()
        k = max(0, min(most - len(now), len(wait)))
        ctx.check(len(r) == k and s.open, "as many unfinished messages are sent again as the client takes", lambda: (r, f.flight, now))
        for x in r:
            m = wait.pop(0)
            now.append(m)
            if m[3] == "rec":
                ctx.check(x["t"] == PUBREL and eq(x["id"], m[2]), "after PUBREC only PUBREL is sent again, in the original order", lambda: (r, f.flight))
            else:
                ctx.check(x["t"] == PUBLISH and land(eq(x["id"], m[2]), eq(x["dup"], True), eq(x["qos"], m[1]), seqeq(x["payload"], b(m[0]))),
                          "PUBLISH is sent again with the same identifier, QoS and payload and DUP 1, in the original order", lambda: (r, f.flight))
    more()
    for i in range(ops):
        if not f.flight:
            break
        m = f.flight[ctx.choice("acknowledged", list(range(len(f.flight))))]
        if m[1] == 2 and m[3] == "sent":
            s.ack(PUBREC, m[2])
            m[3] = "rec"
            f.pubrel(m)
            continue
        s.ack(PUBACK if m[1] == 1 else PUBCOMP, m[2])
        f.flight.remove(m)
        for l in (wait, now):
            if m in l:
                l.remove(m)
        more()
    s.die()
    f.finish()


def make(tier):
    deep = tier == "thorough"
    hs = []
    for ver in (5, 311):
        k = 5 if deep else 3
        hs.append(Harness("flow %d" % ver, flow, "2 messages in flight, then %d operations (publish, acknowledge any, wrong acknowledgement, leave, return), then everything is completed" % k,
                          ver=ver, ops=k, start=[(1, 2), (1, 2)], clean=True))
        hs.append(Harness("late %d" % ver, flow, "%d operations from an empty session" % (k + 1), ver=ver, ops=k + 1, start=[], clean=None if deep else False))
        hs.append(Harness("wrap %d" % ver, wrap, "the identifier counter at its end", ver=ver))
    hs.append(Harness("fewer", fewer, "%d messages in flight, a new connection with receive maximum 1-2, then %d acknowledgements of any of them" % ((3, 5) if deep else (2, 4)), n=3 if deep else 2, ops=5 if deep else 4))
    hs.append(Harness("codes", codes, "all reason codes"))
    return hs


if __name__ == "__main__":
    import sys
    sys.exit(main("C11", make))
