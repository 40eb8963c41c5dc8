"""
Reference MQTT 3.1.1 / 5.0 codec, written from the OASIS specifications and not from
the code under test.  It works on plain or symbolic bytes; a packet is a dict:

 t  packet type
 CONNECT      clean keep cid will(None|dict qos retain topic payload props) user pw props level
 CONNACK      sp rc props            PUBLISH  dup qos retain topic id props payload
 PUBACK..     id rc props            SUBSCRIBE id filters[(f, qos, nl, rap, rh)] props
 SUBACK       id codes props         UNSUBSCRIBE id filters props     UNSUBACK id codes props
 DISCONNECT   rc props               AUTH rc props

Strings are lists of UTF-8 bytes, binary data lists of bytes.  props is a list of
(identifier, value) sorted by identifier; None for 3.1.1.
"""
from sx.vals import land, lor, lnot, eq, ite, is_sym, mkbytes

CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, \
    PINGREQ, PINGRESP, DISCONNECT, AUTH = range(1, 16)
WILL = 99
NAMES = {1: "Connects", 2: "Connacks", 3: "Publishes", 4: "Pubacks", 5: "Pubrecs", 6: "Pubrels", 7: "Pubcomps",
         8: "Subscribes", 9: "Subacks", 10: "Unsubscribes", 11: "Unsubacks", 12: "Pingreqs", 13: "Pingresps",
         14: "Disconnects", 15: "Auths"}

# MQTT 5.0 table 2-4: identifier -> (name, type, packets)
_ALLACK = (CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH)
PROPS = {
    1: ("Payload Format Indicator", "b", (PUBLISH, WILL)),
    2: ("Message Expiry Interval", "w", (PUBLISH, WILL)),
    3: ("Content Type", "s", (PUBLISH, WILL)),
    8: ("Response Topic", "s", (PUBLISH, WILL)),
    9: ("Correlation Data", "x", (PUBLISH, WILL)),
    11: ("Subscription Identifier", "v", (PUBLISH, SUBSCRIBE)),
    17: ("Session Expiry Interval", "w", (CONNECT, CONNACK, DISCONNECT)),
    18: ("Assigned Client Identifier", "s", (CONNACK,)),
    19: ("Server Keep Alive", "h", (CONNACK,)),
    21: ("Authentication Method", "s", (CONNECT, CONNACK, AUTH)),
    22: ("Authentication Data", "x", (CONNECT, CONNACK, AUTH)),
    23: ("Request Problem Information", "b", (CONNECT,)),
    24: ("Will Delay Interval", "w", (WILL,)),
    25: ("Request Response Information", "b", (CONNECT,)),
    26: ("Response Information", "s", (CONNACK,)),
    28: ("Server Reference", "s", (CONNACK, DISCONNECT)),
    31: ("Reason String", "s", _ALLACK),
    33: ("Receive Maximum", "h", (CONNECT, CONNACK)),
    34: ("Topic Alias Maximum", "h", (CONNECT, CONNACK)),
    35: ("Topic Alias", "h", (PUBLISH,)),
    36: ("Maximum QoS", "b", (CONNACK,)),
    37: ("Retain Available", "b", (CONNACK,)),
    38: ("User Property", "p", (CONNECT, PUBLISH, SUBSCRIBE, UNSUBSCRIBE, WILL) + _ALLACK),
    39: ("Maximum Packet Size", "w", (CONNECT, CONNACK)),
    40: ("Wildcard Subscription Available", "b", (CONNACK,)),
    41: ("Subscription Identifier Available", "b", (CONNACK,)),
    42: ("Shared Subscription Available", "b", (CONNACK,)),
}
MULTIPLE = (11, 38)

# MQTT 5.0 table 2-6: packet type -> reason codes
RCS = {
    CONNACK: [0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99,
              0x9A, 0x9B, 0x9C, 0x9D, 0x9F],
    PUBACK: [0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
    PUBREC: [0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
    PUBREL: [0, 0x92], PUBCOMP: [0, 0x92],
    SUBACK: [0, 1, 2, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2],
    UNSUBACK: [0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91],
    DISCONNECT: [0, 4, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8C, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96,
                 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2],
    AUTH: [0, 0x18, 0x19],
}

FLAGS = {PUBREL: 2, SUBSCRIBE: 2, UNSUBSCRIBE: 2}


class Malformed(Exception):
    pass


class Unjudged(Exception):
    "an encoding on which this reference takes no position"


# ------------------------------------------------------------------ encoding
def vbi(n):
    if n < 128:
        return [n]
    if n < 16384:
        return [(n & 127) + 128, n >> 7]
    if n < 2097152:
        return [(n & 127) + 128, ((n >> 7) & 127) + 128, n >> 14]
    return [(n & 127) + 128, ((n >> 7) & 127) + 128, ((n >> 14) & 127) + 128, n >> 21]


def u16(n):
    return [n >> 8, n & 255]


def u32(n):
    return [n >> 24, (n >> 16) & 255, (n >> 8) & 255, n & 255]


def blob(b):
    return u16(len(b)) + list(b)


def enc_prop(i, v):
    t = PROPS[i][1]
    return [i] + (u16(v) if t == "h" else u32(v) if t == "w" else vbi(v) if t == "v" else
                  blob(v) if t in "sx" else blob(v[0]) + blob(v[1]) if t == "p" else [v])


def enc_props(ps):
    b = []
    for i, v in ps:
        b += enc_prop(i, v)
    return vbi(len(b)) + b


def fixed(t, flags, body):
    return [t * 16 + flags] + vbi(len(body)) + body


def bit(x):
    return ite(x, 1, 0) if is_sym(x) else int(bool(x))


def encode(p, ver, short=True):
    """short: acknowledgements use the shortest encoding allowed"""
    t, v5 = p["t"], ver == 5
    P = (lambda: enc_props(p.get("props") or [])) if v5 else (lambda: [])
    fl = FLAGS.get(t, 0)
    if t == CONNECT:
        w = p.get("will")
        f = bit(p["clean"]) * 2 + (0x80 if p.get("user") is not None else 0) + (0x40 if p.get("pw") is not None else 0)
        if w is not None:
            f = f + 4 + w["qos"] * 8 + bit(w["retain"]) * 32
        b = blob(b"MQTT") + [p.get("level", 5 if v5 else 4), f] + u16(p["keep"]) + P() + blob(p["cid"])
        if w is not None:
            b += (enc_props(w.get("props") or []) if v5 else []) + blob(w["topic"]) + blob(w["payload"])
        if p.get("user") is not None:
            b += blob(p["user"])
        if p.get("pw") is not None:
            b += blob(p["pw"])
    elif t == CONNACK:
        b = [bit(p["sp"]), p["rc"]] + P()
    elif t == PUBLISH:
        fl = bit(p["dup"]) * 8 + p["qos"] * 2 + bit(p["retain"])
        b = blob(p["topic"])
        if p["id"] is not None:
            b += u16(p["id"])
        b += P() + list(p["payload"])
    elif t in (PUBACK, PUBREC, PUBREL, PUBCOMP):
        b = u16(p["id"])
        if v5 and not (short and is_zero(p["rc"]) and not p["props"]):
            b += [p["rc"]]
            if p["props"] or not short:
                b += P()
    elif t == SUBSCRIBE:
        b = u16(p["id"]) + P()
        for f in p["filters"]:
            b += blob(f[0])
            b += [f[1] + bit(f[2]) * 4 + bit(f[3]) * 8 + f[4] * 16] if v5 else [f[1]]
    elif t == UNSUBSCRIBE:
        b = u16(p["id"]) + P()
        for f in p["filters"]:
            b += blob(f)
    elif t in (SUBACK, UNSUBACK):
        b = u16(p["id"]) + P() + (list(p["codes"]) if v5 or t == SUBACK else [])
    elif t in (PINGREQ, PINGRESP):
        b = []
    elif t in (DISCONNECT, AUTH):
        b = []
        if v5 and not (short and is_zero(p["rc"]) and not p["props"]):
            b = [p["rc"]]
            if p["props"] or not short or t == AUTH:
                b += P()
    return fixed(t, fl, b)


def is_zero(x):
    return bool(x == 0)


# ------------------------------------------------------------------ decoding
class Rd:
    def __init__(self, b):
        self.b, self.i = b, 0

    def left(self):
        return len(self.b) - self.i

    def u8(self):
        if self.left() < 1:
            raise Malformed("truncated")
        self.i += 1
        return self.b[self.i - 1]

    def u16(self):
        return self.u8() * 256 + self.u8()

    def u32(self):
        return self.u16() * 65536 + self.u16()

    def vbi(self, minimal=True):
        v = 0
        for k in range(4):
            d = self.u8()
            v = v + (d & 127) * 128 ** k
            if d < 128:
                if minimal and k > 0 and d == 0:
                    raise Malformed("not minimal")
                return v
        raise Malformed("five byte integer")

    def take(self, n):
        if n > self.left():
            raise Malformed("overrun")
        n = n.__index__()
        self.i += n
        return list(self.b[self.i - n:self.i])

    def blob(self):
        return self.take(self.u16())

    def utf(self):
        s = self.blob()
        if not utf8_ok(s):
            raise Malformed("UTF-8")
        return s

    def rest(self):
        return self.take(self.left())


def utf8_ok(s):
    "well formed UTF-8 without U+0000; forks on the class of each lead byte"
    i = 0

    def cont(k, lo=0x80, hi=0xBF):
        return i + k < len(s) and bool(land(s[i + k] >= lo, s[i + k] <= hi))
    while i < len(s):
        c = s[i]
        if c < 0x80:
            if c == 0:
                return False
            i += 1
        elif c < 0xC2:
            return False
        elif c < 0xE0:
            if not cont(1):
                return False
            i += 2
        elif c < 0xF0:
            lo, hi = (0xA0, 0xBF) if c == 0xE0 else (0x80, 0x9F) if c == 0xED else (0x80, 0xBF)
            if not (cont(1, lo, hi) and cont(2)):
                return False
            i += 3
        elif c < 0xF5:
            lo, hi = (0x90, 0xBF) if c == 0xF0 else (0x80, 0x8F) if c == 0xF4 else (0x80, 0xBF)
            if not (cont(1, lo, hi) and cont(2) and cont(3)):
                return False
            i += 4
        else:
            return False
    return True


def dec_props(r, packet):
    n = r.vbi()
    q = Rd(r.take(n))
    out, seen = [], []
    while q.left():
        i = q.vbi()
        ids = sorted(PROPS)
        k = None
        for c in ids:
            if i == c:
                k = c
                break
        if k is None:
            raise Malformed("unknown property")
        name, t, packets = PROPS[k]
        if packet not in packets:
            raise Malformed("property not allowed here")
        if k in seen and k not in MULTIPLE:
            raise Malformed("property twice")
        seen.append(k)
        v = (q.u8() if t == "b" else q.u16() if t == "h" else q.u32() if t == "w" else q.vbi() if t == "v" else
             q.blob() if t == "x" else q.utf() if t == "s" else (q.utf(), q.utf()))
        out.append((k, v))
    out.sort(key=lambda x: x[0])
    return out


def oneof(x, vals):
    return bool(lor(*[eq(x, v) for v in vals]))


def rcode(r, t):
    c = r.u8()
    if not oneof(c, RCS[t]):
        raise Malformed("reason code")
    return c


def ack_id(r):
    i = r.u16()
    if i == 0:
        raise Unjudged("an acknowledgement of packet identifier 0")
    return i


def decode(b, ver):
    "b: one whole packet; raises Malformed"
    v5 = ver == 5
    b = list(b)
    r = Rd(b)
    h = r.u8()
    t, fl = h >> 4, h & 15
    for k in range(1, 16 if v5 else 15):
        if t == k:
            t = k
            break
    else:
        raise Malformed("packet type")
    n = r.vbi(minimal=v5)
    if n != r.left():
        raise Malformed("remaining length")
    if t != PUBLISH and fl != FLAGS.get(t, 0):
        raise Malformed("fixed header flags")
    P = (lambda w=t: dec_props(r, w)) if v5 else (lambda w=t: None)
    p = {"t": t}
    if t == CONNECT:
        if not bool(land(*[eq(x, y) for x, y in zip(r.take(6), [0, 4] + list(b"MQTT"))])):
            raise Malformed("protocol name")
        p["level"] = r.u8()
        if v5 and p["level"] != 5:
            raise Malformed("protocol level")
        f = r.u8()
        if f & 1 == 1:
            raise Malformed("reserved connect flag")
        wf, wq, wr = f & 4 == 4, (f >> 3) & 3, f & 32 == 32
        uf, pf = f & 128 == 128, f & 64 == 64
        p["clean"] = f & 2 == 2
        if wf:
            if wq == 3:
                raise Malformed("will qos")
        elif f & 0x38 != 0:
            raise Malformed("will flags")
        if not v5 and pf and not uf:
            raise Malformed("password without user name")
        p["keep"] = r.u16()
        p["props"] = P()
        p["cid"] = r.utf()
        p["will"] = p["user"] = p["pw"] = None
        if wf:
            w = {"qos": wq, "retain": wr}
            w["props"] = P(WILL)
            w["topic"] = r.utf()
            w["payload"] = r.blob()
            p["will"] = w
        if uf:
            p["user"] = r.utf()
        if pf:
            p["pw"] = r.blob()
    elif t == CONNACK:
        c = r.u8()
        if c > 1:
            raise Malformed("connack flags")
        p["sp"] = c == 1
        p["rc"] = rcode(r, t) if v5 else r.u8()
        p["props"] = P()
    elif t == PUBLISH:
        p["dup"], p["qos"], p["retain"] = fl & 8 == 8, (fl >> 1) & 3, fl & 1 == 1
        if p["qos"] == 3:
            raise Malformed("qos 3")
        p["topic"] = r.utf()
        if p["qos"] == 0:
            p["qos"] = 0
            p["id"] = None
            if p["dup"]:
                raise Malformed("dup with qos 0")
        else:
            p["id"] = r.u16()
            if p["id"] == 0:
                raise Malformed("packet id 0")
        p["props"] = P()
        p["payload"] = r.rest()
    elif t in (PUBACK, PUBREC, PUBREL, PUBCOMP):
        p["id"] = ack_id(r)
        p["rc"], p["props"] = 0, [] if v5 else None
        if v5 and r.left():
            p["rc"] = rcode(r, t)
            if r.left():
                p["props"] = P()
    elif t == SUBSCRIBE:
        p["id"] = r.u16()
        if p["id"] == 0:
            raise Malformed("packet id 0")
        p["props"] = P()
        p["filters"] = []
        while r.left():
            f = r.utf()
            o = r.u8()
            if v5:
                if bool(lor(o & 3 == 3, o & 0x30 == 0x30, o > 63)):
                    raise Malformed("subscription options")
                p["filters"].append((f, o & 3, o & 4 == 4, o & 8 == 8, (o >> 4) & 3))
            else:
                if o > 2:
                    raise Malformed("requested qos")
                p["filters"].append((f, o, False, False, 0))
        if not p["filters"]:
            raise Malformed("no filter")
    elif t == UNSUBSCRIBE:
        p["id"] = r.u16()
        if p["id"] == 0:
            raise Malformed("packet id 0")
        p["props"] = P()
        p["filters"] = []
        while r.left():
            p["filters"].append(r.utf())
        if not p["filters"]:
            raise Malformed("no filter")
    elif t == SUBACK or (t == UNSUBACK and v5):
        p["id"] = ack_id(r)
        p["props"] = P()
        p["codes"] = []
        while r.left():
            if v5:
                p["codes"].append(rcode(r, t))
            else:
                c = r.u8()
                if not oneof(c, [0, 1, 2, 128]):
                    raise Malformed("return code")
                p["codes"].append(c)
    elif t == UNSUBACK:
        p["id"] = ack_id(r)
        p["props"] = None
        p["codes"] = None
    elif t in (DISCONNECT, AUTH):
        p["rc"], p["props"] = 0, [] if v5 else None
        if v5 and r.left():
            p["rc"] = rcode(r, t)
            if r.left():
                p["props"] = P()
            elif t == AUTH:
                # 3.15.2.1: reason code and property length are omitted together
                raise Malformed("AUTH without property length")
    if r.left():
        raise Malformed("trailing bytes")
    return p


def split(stream, ver):
    "the packets of a byte stream sent by the code under test: list of element lists"
    b, out, i = list(stream), [], 0
    while i < len(b):
        n, k, m = 0, i + 1, 1
        while True:
            if k >= len(b) or k > i + 4:
                raise Malformed("stream ends inside a packet")
            d = b[k]
            k += 1
            n = n + (d & 127) * m
            m *= 128
            if d < 128:
                break
        n = n.__index__()
        if k + n > len(b):
            raise Malformed("stream ends inside a packet")
        out.append(b[i:k + n])
        i = k + n
    return out


# ------------------------------------------------------------------ comparison
def same(a, b):
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return False
        return land(*[same(a[k], b[k]) for k in sorted(a)])
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        return land(*[same(x, y) for x, y in zip(a, b)]) if a else True
    if a is None or b is None:
        return a is b
    return eq(a, b)


# ------------------------------------------------------------------ code under test <-> dict
def text(x):
    "the UTF-8 bytes of a str (or bytes) of the code under test"
    if x is None:
        return None
    if hasattr(x, "encode"):
        x = x.encode("utf-8")
    return list(x)


def mk(es):
    return mkbytes(list(es))


def mkstr(es):
    return mkbytes(list(es)).decode("utf-8")


def norm_props(P, packet):
    out = []
    for i in sorted(PROPS):
        name, t, packets = PROPS[i]
        a = name.replace(" ", "")
        if not hasattr(P, a):
            continue
        v = getattr(P, a)
        for x in (v if i in MULTIPLE else [v]):
            out.append((i, text(x) if t in "sx" else (text(x[0]), text(x[1])) if t == "p" else x))
    return out


def truth(x):
    return x if is_sym(x) else bool(x)


def norm(q, ver):
    "the dict of a packet object of the code under test"
    v5 = ver == 5
    t = q.fh.PacketType if v5 else q.fh.MessageType
    if is_sym(t):
        t = t.__index__()
    P = (lambda: norm_props(q.properties, t)) if v5 else (lambda: None)
    p = {"t": t}
    ident = (lambda: q.packetIdentifier) if v5 else (lambda: q.messageIdentifier)
    if t == CONNECT:
        p.update(level=q.ProtocolVersion, clean=truth(q.CleanStart if v5 else q.CleanSession), keep=q.KeepAliveTimer,
                 props=P(), cid=text(q.ClientIdentifier), will=None,
                 user=text(q.username) if q.usernameFlag else None, pw=text(q.password) if q.passwordFlag else None)
        if q.WillFlag:
            p["will"] = {"qos": q.WillQoS, "retain": truth(q.WillRETAIN) == True, "topic": text(q.WillTopic),
                         "payload": text(q.WillMessage),
                         "props": norm_props(q.WillProperties, WILL) if v5 else None}
    elif t == CONNACK:
        p.update(sp=truth(q.sessionPresent if v5 else q.flags) == True, rc=q.reasonCode.value if v5 else q.returnCode, props=P())
    elif t == PUBLISH:
        p.update(dup=truth(q.fh.DUP), qos=q.fh.QoS, retain=truth(q.fh.RETAIN), topic=text(q.topicName),
                 id=None if q.fh.QoS == 0 else ident(), props=P(), payload=list(q.data))
    elif t in (PUBACK, PUBREC, PUBREL, PUBCOMP):
        p.update(id=ident(), rc=q.reasonCode.value if v5 else 0, props=P())
    elif t == SUBSCRIBE:
        fs = [(text(f), o.QoS, truth(o.noLocal), truth(o.retainAsPublished), o.retainHandling) if v5 else
              (text(f), o, False, False, 0) for f, o in q.data]
        p.update(id=ident(), filters=fs, props=P())
    elif t == UNSUBSCRIBE:
        p.update(id=ident(), filters=[text(f) for f in (q.topicFilters if v5 else q.data)], props=P())
    elif t in (SUBACK, UNSUBACK):
        codes = [c.value for c in q.reasonCodes] if v5 else (list(q.data) if t == SUBACK else None)
        p.update(id=ident(), codes=codes, props=P())
    elif t in (DISCONNECT, AUTH):
        p.update(rc=q.reasonCode.value if v5 else 0, props=P())
    return p


def set_props(P, ps):
    multi = {}
    for i, v in ps:
        name, t, _ = PROPS[i]
        a = name.replace(" ", "")
        x = mkstr(v) if t == "s" else mk(v) if t == "x" else (mkstr(v[0]), mkstr(v[1])) if t == "p" else v
        if i in MULTIPLE:
            multi.setdefault(a, []).append(x)
        else:
            setattr(P, a, x)
    for a in multi:
        setattr(P, a, multi[a])


def build(M, p, ver):
    "a packet object of the code under test"
    v5 = ver == 5
    t = p["t"]
    q = getattr(M, NAMES[t])()
    if v5 and t not in (PINGREQ, PINGRESP):
        set_props(q.properties, p.get("props") or [])
    if t == CONNECT:
        if v5:
            q.CleanStart = p["clean"]
        else:
            q.CleanSession = p["clean"]
        q.KeepAliveTimer = p["keep"]
        q.ClientIdentifier = mkstr(p["cid"])
        w = p.get("will")
        if w is not None:
            q.WillFlag, q.WillQoS, q.WillRETAIN = True, w["qos"], w["retain"]
            q.WillTopic, q.WillMessage = mkstr(w["topic"]), mk(w["payload"])
            if v5:
                set_props(q.WillProperties, w.get("props") or [])
        if p.get("user") is not None:
            q.usernameFlag, q.username = True, mkstr(p["user"])
        if p.get("pw") is not None:
            q.passwordFlag, q.password = True, mk(p["pw"])
    elif t == CONNACK:
        if v5:
            q.sessionPresent = p["sp"]
            q.reasonCode.value = p["rc"]
        else:
            q.flags, q.returnCode = bit(p["sp"]), p["rc"]
    elif t == PUBLISH:
        q.fh.DUP, q.fh.QoS, q.fh.RETAIN = p["dup"], p["qos"], p["retain"]
        q.topicName, q.data = mkstr(p["topic"]), mk(p["payload"])
    if t in (PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK) and p["id"] is not None:
        if v5:
            q.packetIdentifier = p["id"]
        else:
            q.messageIdentifier = p["id"]
    if v5 and t in (PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT, AUTH):
        q.reasonCode.value = p["rc"]
    if t == SUBSCRIBE:
        q.data = [(mkstr(f[0]), M.SubscribeOptions(f[1], f[2], f[3], f[4]) if v5 else f[1]) for f in p["filters"]]
    elif t == UNSUBSCRIBE:
        fs = [mkstr(f) for f in p["filters"]]
        if v5:
            q.topicFilters = fs
        else:
            q.data = fs
    elif t in (SUBACK, UNSUBACK) and v5:
        q.reasonCodes = []
        for c in p["codes"]:
            q.reasonCodes.append(M.ReasonCodes(t, identifier=c))
    elif t == SUBACK:
        q.data = list(p["codes"])
    return q
