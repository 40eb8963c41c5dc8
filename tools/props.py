NOTE = ("Bounded: holds for every value within the bounds listed per harness in the evidence file (bounds exhausted unless the "
        "evidence says otherwise); trusted: the symbolic interpreter in sx/, its stand-ins for sockets, clock, threads and the "
        "standard library, and Z3. Every counterexample is replayed on the plain source before it is reported, and sample "
        "inputs of explored paths are replayed on the plain source to validate the encoding.")
NOTES = "Solver-based checking of the real Python code; see DESIGN.md. tools/meta.py generates this file and properties.jsonl."
F5, F3 = "mqtt/formats/MQTTV5/MQTTV5.py", "mqtt/formats/MQTTV311/MQTTV311.py"


def mech(*a):
    return [{"name": n, "where": w} for n, w in a]


P = []


def add(id, title, statement, over, all, why, files, mech, note="", **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, all=all, why=why, files=files, mech=mech, note=note, **k))


add("C01", "MQTT 5 packets survive encoding and decoding",
    "Every MQTT 5.0 packet that can be built through the packet classes (all 15 types, every flag, field and property, any Unicode "
    "text, any binary data) is packed into bytes that an independent implementation of the specification reads back as exactly the "
    "same packet. Conversely every encoding the specification allows for a packet is unpacked into a packet with the same fields, "
    "including acknowledgements and DISCONNECT/AUTH with omitted reason code or properties and property sections of 128 or more bytes. "
    "Packing what was unpacked gives the same bytes, and the unpacked packet compares equal to the original.",
    ["inputs"], "for all packets and all values of their fields within the stated string and list lengths",
    "The format tests round trip one instance of each packet; the value of every field, every property on every packet type and the length boundaries are never covered.",
    [F5], mech(("pack/unpack of each packet class", F5), ("Properties", F5), ("VBIs", F5)))
add("C02", "MQTT 3.1.1 packets survive encoding and decoding",
    "Every MQTT 3.1.1 packet that can be built through the packet classes (all 14 types, every flag and field, any Unicode text, any "
    "binary data) is packed into bytes that an independent implementation of the specification reads back as exactly the same packet. "
    "Conversely every encoding allowed by the specification is unpacked into a packet with the same fields, and the unpacked packet compares equal to the one that was packed.",
    ["inputs"], "for all packets and all values of their fields within the stated string and list lengths",
    "The only 3.1.1 round trip in the repository packs default-constructed packets.",
    [F3], mech(("pack/unpack of each packet class", F3), ("writeUTF/readUTF", F3)))
add("C03", "Remaining lengths and variable byte integers",
    "Every length from 0 to 268435455 is encoded in the minimum number of bytes, least significant group first, and decodes to itself whatever follows it, "
    "in both protocol versions and together with every packet type and flag. A length that does not end within four bytes is refused, and MQTT 5 refuses "
    "encodings that are longer than necessary. Reading a packet from a stream takes exactly the bytes its length announces and never returns a truncated packet.",
    ["inputs"], "for all values 0..268435455 and all byte sequences of up to 6 bytes",
    "The module's self test tries thirteen values.",
    [F5, F3], mech(("VBIs.encode/decode", F5), ("FixedHeaders.encode/decode", F3), ("getPacket", F5), ("getPacket", F3)))
add("C04", "Malformed packets are refused, legal packets accepted",
    "Unpacking any sequence of bytes either raises an exception or returns the packet those bytes carry according to the specification: it never "
    "accepts a malformed packet (wrong reserved bits or flags, QoS 3, packet identifier 0, text that is not well formed UTF-8 or contains U+0000, fields "
    "overrunning their container, trailing or missing bytes, unknown, misplaced or repeated properties, reason codes not defined for the packet, missing "
    "filters, wrong protocol name or bad connect flags). It never refuses a well formed packet. This holds for MQTT 5.0 and 3.1.1.",
    ["inputs"], "for all byte sequences within the stated lengths, for every packet type, and for arbitrary bytes in each part of structured packets",
    "Tests send well formed packets; the space of malformed ones is not sampled at all by the stable tests.",
    [F5, F3], mech(("unpackPacket and the unpack methods", F5), ("unpackPacket and the unpack methods", F3), ("readUTF", F5), ("ReasonCodes", F5)))

B5, B3 = "mqtt/brokers/V5/", "mqtt/brokers/V311/"
BOTH = [B5 + "MQTTBrokers.py", B5 + "Brokers.py", B5 + "SubscriptionEngines.py", B3 + "MQTTBrokers.py", B3 + "Brokers.py", B3 + "SubscriptionEngines.py"]
add("C07", "A message is delivered exactly when the filter matches its topic name",
    "A client holding a subscription receives a message if and only if the topic filter matches the topic name by the rules of the specification: levels "
    "are compared exactly (case, characters, empty levels), + stands for exactly one level (possibly empty), # at the end for the parent and any number of "
    "further levels, and a filter beginning with a wildcard does not match a name beginning with $. This holds for ordinary subscriptions, for $share "
    "subscriptions (the filter after the share name) and for the retained messages sent on subscribing, in MQTT 5.0 and 3.1.1.",
    ["inputs"], "for all valid filters and names within the stated lengths, over any characters",
    "Matching has a handful of examples in the tests; errors hide in empty levels, the parent of #, $ and characters with a meaning in regular expressions.",
    [B5 + "Topics.py", B3 + "Topics.py", B5 + "SubscriptionEngines.py", B3 + "SubscriptionEngines.py"],
    mech(("topicMatches", B5 + "Topics.py"), ("topicMatches", B3 + "Topics.py"), ("subscriptions, getRetainedTopics", B5 + "SubscriptionEngines.py")))
add("C08", "Invalid topic filters and topic names are refused without effect",
    "A SUBSCRIBE or UNSUBSCRIBE containing a filter that the specification does not allow (wildcards not alone in their level, # not at the end, an empty "
    "filter, a shared subscription without name or filter or with a wildcard in its name) ends the connection, an MQTT 5 client being told by a DISCONNECT with an error "
    "code; nothing is subscribed to or unsubscribed from, valid filters in the same packet included. A PUBLISH or will message "
    "whose topic name is empty or contains a wildcard is refused, delivered to nobody, and not retained. The client can connect again and other clients are not affected.",
    ["inputs"], "for all invalid filters and names within the stated lengths",
    "The tests use valid filters and names nearly everywhere.",
    [B5 + "MQTTBrokers.py", B3 + "MQTTBrokers.py", B5 + "Topics.py", B3 + "Topics.py"],
    mech(("subscribe, unsubscribe, publish, connect", B5 + "MQTTBrokers.py"), ("subscribe, unsubscribe, publish, connect", B3 + "MQTTBrokers.py"), ("isValidTopicName", B5 + "Topics.py")))
add("C09", "A publication reaches exactly the matching subscribers, once and unchanged",
    "Each connected client with one or more subscriptions matching a publication gets exactly one copy, every other client none, whatever the versions (3.1.1 or 5.0) of publisher "
    "and subscribers. Topic and payload are those published, the QoS is the lower of the publication's and the highest of the matching subscriptions', "
    "RETAIN and DUP are 0, and MQTT 5 properties (payload format, content type, response topic, correlation data, user properties in order) are passed on unaltered. "
    "Messages of a publisher arrive in the order in which they were published. Subscribing again replaces the QoS, unsubscribing and the end "
    "of a session end the delivery, and other clients are not affected.",
    ["inputs", "histories"], "for all QoS values, payloads, flags and properties and all sequences of these operations within the stated bounds",
    "Tests check single combinations of QoS and versions; which of several overlapping subscriptions counts, in which order they are met, and what earlier operations left behind is not covered.",
    BOTH, mech(("publish", B5 + "Brokers.py"), ("publish", B3 + "Brokers.py"), ("publishArrived", B5 + "MQTTBrokers.py"), ("publishArrived", B3 + "MQTTBrokers.py")))
add("C10", "Retained messages: the last one per topic is kept and sent to new subscriptions",
    "After any sequence of publications, a new subscription gets, for each topic matching its filter, exactly the last message published to it with RETAIN "
    "(none if that had an empty payload), with RETAIN set, its payload and properties, and the lower of its QoS and the granted QoS; messages "
    "without RETAIN change nothing. In MQTT 5 the retain handling option decides whether they are sent on subscribing (always, only if the subscription is new, "
    "never), they carry the identifier of the new subscription and are not sent for shared subscriptions. They outlive "
    "the session of their publisher, may be set by a will message, and are common to MQTT 3.1.1 and 5.0 clients.",
    ["inputs", "histories"], "for all sequences of publications, subscriptions and flags within the stated bounds",
    "Tests retain a few fixed messages; overwriting, deleting, resubscribing and crossing the protocol versions in all orders is not covered.",
    BOTH, mech(("setRetained, getRetained", B5 + "SubscriptionEngines.py"), ("__doRetained__", B5 + "Brokers.py"), ("__doRetained__", B3 + "Brokers.py")))
add("C11", "Outbound QoS 1 and 2: delivered until acknowledged, and not again after that",
    "A QoS 1 or 2 message sent to a client stays in flight under a packet identifier from 1 to 65535 that no other message in flight has, until it is acknowledged. "
    "The first sending has DUP 0. PUBREC is answered by PUBREL with the same identifier, after which the PUBLISH is not sent again. If the client reconnects to its session, "
    "unacknowledged messages are sent again in their original order with the same identifier, QoS and payload and DUP 1, those acknowledged with PUBREC as PUBREL, followed by "
    "the messages queued meanwhile in their order. Acknowledged messages, or MQTT 5 ones refused with an error in PUBREC, are never sent again. Acknowledgements that are "
    "unexpected or of the wrong type change nothing.",
    ["histories", "inputs"], "for all histories of publications, acknowledgements, connection losses and returns within the stated bounds",
    "Tests acknowledge everything at once with a well behaved client; losing the connection between any two packets is not tried.",
    [B5 + "MQTTBrokers.py", B3 + "MQTTBrokers.py"], mech(("MQTTClients.resend, puback, pubrec, pubcomp", B5 + "MQTTBrokers.py"), ("MQTTClients.resend, puback, pubrec, pubcomp", B3 + "MQTTBrokers.py")))
add("C12", "Inbound QoS 2 messages are passed on exactly once, and acknowledged",
    "A QoS 2 message is passed on to subscribers exactly once however often its PUBLISH is repeated with the same identifier before PUBREL, with or without DUP, also after reconnecting "
    "to the session; after PUBREL the identifier carries a new message. With publish_on_pubrel it is passed on when PUBREL arrives, otherwise "
    "with the first PUBLISH. A QoS 1 message is passed on each time it arrives. Each PUBLISH is answered by PUBACK or PUBREC, and each PUBREL by PUBCOMP, with its own identifier "
    "(MQTT 5: with an error code if the identifier is unknown). A clean start forgets the identifiers, and different clients use the same identifier independently.",
    ["histories", "inputs"], "for all histories of PUBLISH, PUBREL and reconnections with symbolic identifiers and flags within the stated bounds",
    "Tests send each message once.",
    [B5 + "MQTTBrokers.py", B3 + "MQTTBrokers.py"], mech(("publish, pubrel", B5 + "MQTTBrokers.py"), ("publish, pubrel", B3 + "MQTTBrokers.py")))
add("C13", "Sessions last as long as the client asked for and keep what belongs to them",
    "CONNACK says session present if and only if a session of that client is resumed: it had not ended and no clean start (3.1.1: clean session) is asked for. An MQTT 5 session ends with the "
    "connection if the expiry interval is 0 or absent, after that many seconds otherwise, never for 0xFFFFFFFF; the interval in DISCONNECT replaces that in CONNECT and "
    "setting one there after 0 is a protocol error. A 3.1.1 session is kept after clean session 0 and ends with the connection after 1. A session keeps its subscriptions, the QoS 1 and 2 messages "
    "that arrive while the client is away, and the identifiers of unreleased QoS 2 messages received from it; nothing of them is left when it ends, "
    "and what one client does with its session changes nothing for others.",
    ["histories", "inputs"], "for all sequences of connections with symbolic flags, intervals and times between them within the stated bounds",
    "Tests wait for one or two short intervals of real time.",
    [B5 + "MQTTBrokers.py", B5 + "Brokers.py", B3 + "MQTTBrokers.py", B3 + "Brokers.py"],
    mech(("connect, disconnect", B5 + "MQTTBrokers.py"), ("expireSessions, cleanSession", B5 + "Brokers.py"), ("connect, disconnect", B3 + "MQTTBrokers.py")))
add("C14", "Will messages: sent once, unchanged, when and only when they are due",
    "If a connection whose CONNECT carried a will ends in any way other than a DISCONNECT with reason code 0 (connection lost between or inside packets, protocol error, malformed packet, keep alive "
    "timeout, take over by another connection, MQTT 5 DISCONNECT with another code), the will message is published exactly once with its topic, payload, QoS and properties to the matching subscriptions, "
    "and retained if it asked for that; after DISCONNECT with reason code 0 it is never published. An MQTT 5 will is published after the will delay, or when the session ends if that is earlier, and not at all if the session is "
    "resumed before that; a 3.1.1 will is published at once. The wills of different clients do not affect each other.",
    ["histories", "inputs"], "for all ways a connection ends, delays, expiry intervals, times and will contents within the stated bounds",
    "Tests end one connection in one way with one will; delays against session expiry, take overs and reconnections are not combined.",
    BOTH, mech(("disconnect, sendWill", B5 + "MQTTBrokers.py"), ("disconnect, terminate", B5 + "Brokers.py"), ("disconnect", B3 + "MQTTBrokers.py"), ("disconnect", B3 + "Brokers.py")))
add("C15", "Message expiry intervals are counted down, and expired messages are not sent",
    "An MQTT 5 message published with a message expiry interval that has to wait in the server (queued for an absent client, held back by the client's receive maximum, retained, or kept until PUBREL) "
    "is sent to an MQTT 5 subscriber with the interval reduced by the seconds it waited, and not sent for the first time once the interval has passed; an expired message takes no packet identifier and no room in the "
    "receive maximum, and those behind it are delivered. A message without interval never expires and is sent without one. A will's interval is counted from its publication.",
    ["inputs", "histories"], "for all intervals, waiting times and orders of messages within the stated bounds",
    "Tests wait a few seconds of real time for one message.",
    [B5 + "MQTTBrokers.py", B5 + "Brokers.py", B5 + "SubscriptionEngines.py"], mech(("publishArrived, resend", B5 + "MQTTBrokers.py"), ("publish, __doRetained__", B5 + "Brokers.py")))
add("C16", "Topic aliases stand for the topic they were last set to, on one connection only",
    "A PUBLISH with an empty topic name and an alias the client has set on this connection is published to the topic the alias was last set to; an alias of 0 or above the maximum the server announced, "
    "an alias never set and an empty topic without an alias end the connection with an error and publish nothing. Aliases of one connection are unknown to the next and to other clients, and are never passed on to subscribers. "
    "The server sends a client only aliases from 1 to the client's topic alias maximum, none if that is absent or 0, and each message it sends can be resolved by the aliases sent before it on the same connection to the topic it was published to.",
    ["inputs", "histories"], "for all sequences of publications with symbolic aliases, topics and maxima within the stated bounds",
    "Tests use a few aliases in the intended order.",
    [B5 + "MQTTBrokers.py"], mech(("publish", B5 + "MQTTBrokers.py"), ("publishArrived, resend, __sendPublish", B5 + "MQTTBrokers.py")))
add("C17", "MQTT 5 subscription options and identifiers are honoured",
    "A client that subscribed with no local does not get its own publications through that subscription and gets those of all others. RETAIN of a forwarded message is that of the publication if the subscription asked for retain as published, and 0 otherwise. "
    "A forwarded message carries exactly the subscription identifiers of the client's matching subscriptions. Options apply per filter, are replaced with the identifier when the client subscribes again, and are kept with the session. "
    "A subscription identifier of 0, one in a PUBLISH from a client and no local on a shared subscription are protocol errors. Publications of 3.1.1 clients are treated in the same way.",
    ["inputs", "histories"], "for all combinations of options and identifiers over several overlapping subscriptions, clients and publications within the stated bounds",
    "Tests set one option at a time.",
    [B5 + "MQTTBrokers.py", B5 + "Brokers.py", B5 + "SubscriptionEngines.py", "mqtt/brokers/V311/Brokers.py"],
    mech(("subscribe", B5 + "SubscriptionEngines.py"), ("publish", B5 + "Brokers.py"), ("publishArrived", B5 + "MQTTBrokers.py")))
add("C18", "A shared subscription delivers each message to exactly one of its members",
    "A message matching the filter of a shared subscription $share/name/filter is sent to exactly one client of those subscribed under that name and filter, with the QoS and the identifier of that client's subscription; "
    "groups with other names and ordinary subscriptions get it as if the group did not exist. Clients joining, leaving by UNSUBSCRIBE or by the end of their session change only the set of those who may get it; "
    "when all members are away, one whose session is kept gets it on its return. For a 3.1.1 client $share has no special meaning.",
    ["inputs", "histories", "schedules"], "for all choices of the receiving member and all memberships within the stated bounds",
    "The choice of the member is random; a test sees one choice per run.",
    [B5 + "SubscriptionEngines.py", B5 + "Brokers.py", B3 + "SubscriptionEngines.py"], mech(("subscriptions", B5 + "SubscriptionEngines.py"), ("publish", B5 + "Brokers.py")))
add("C19", "Each request is answered once, by its own acknowledgement",
    "SUBSCRIBE is answered by one SUBACK with its packet identifier and one code per filter in order, UNSUBSCRIBE by one UNSUBACK likewise (MQTT 5: saying for each filter whether there was a subscription), PINGREQ by one PINGRESP, and each publication with QoS 1 or 2 by "
    "acknowledgements with its identifier; no others are sent. The granted QoS is the one at which messages are delivered. The special topics for testing (test/nosubscribe, the test/QoS and error topics, cmd/disconnectWithRC) have their documented effect and no other. "
    "Unsubscribing does not withdraw messages in flight.",
    ["inputs"], "for all packet identifiers, filters, QoS values and combinations within the stated bounds",
    "Tests use one identifier and mostly one filter at a time.",
    [B5 + "MQTTBrokers.py", B3 + "MQTTBrokers.py"], mech(("subscribe, unsubscribe, pingreq, publish", B5 + "MQTTBrokers.py"), ("subscribe, unsubscribe, pingreq, publish", B3 + "MQTTBrokers.py")))
add("C20", "Receive maximum and maximum packet size are kept in both directions",
    "The server never has more unacknowledged QoS 1 and 2 messages at a client than that client's receive maximum, sends the others in order as soon as acknowledgements make room, and loses none; QoS 0 messages are not held back. A client "
    "with more unreleased QoS 1 and 2 messages than the server's receive maximum is disconnected with 0x93. No packet larger than the client's maximum packet size is sent: such a message is dropped as if it had been delivered, reason strings and user "
    "properties are left out where they do not fit or were not asked for. A packet larger than the server's maximum ends the connection. A value of 0 is refused.",
    ["inputs", "histories"], "for all maxima and all orders of messages, acknowledgements and reconnections within the stated bounds",
    "Tests use one or two values and acknowledge at once.",
    [B5 + "MQTTBrokers.py"], mech(("resend, publishArrived", B5 + "MQTTBrokers.py"), ("respond", B5 + "MQTTBrokers.py"), ("connect, publish", B5 + "MQTTBrokers.py")))
add("C21", "Keep alive: silent clients are disconnected, active ones are not",
    "A client that sends no packet for one and a half times its keep alive interval is disconnected (MQTT 5: with reason code 0x8D) and its will is sent; one that sends a packet of any type in each interval is not, and neither is one whose interval is 0. Packets sent by the server do not count. "
    "If the server announced a server keep alive, that one counts instead. After a reconnection the interval of the current connection counts. Other clients are not affected.",
    ["inputs", "schedules"], "for all intervals and times of packets within the stated bounds",
    "The test waits for one interval of real time.",
    [B5 + "MQTTBrokers.py", B3 + "MQTTBrokers.py"], mech(("keepAlive, handlePacket, connect", B5 + "MQTTBrokers.py"), ("keepalive, handlePacket, connect", B3 + "MQTTBrokers.py")))
add("C22", "Connections: CONNECT first and once, one connection per client identifier",
    "Any packet before CONNECT, a second CONNECT and packets only a server may send end the connection without other effect; after DISCONNECT nothing is processed. Every well formed CONNECT is answered by exactly one CONNACK and accepted whatever its client identifier, user name and "
    "password. An empty client identifier gets a fresh one, unused by any other client (MQTT 5: reported in CONNACK; 3.1.1: only with clean session, if allowed). A new connection with the identifier of a connected client ends the older one (MQTT 5: reason code 0x8E), takes over its session with what is in flight, "
    "and a later end of the older connection has no effect on it. Other clients are not affected.",
    ["inputs", "histories"], "for all first packets, identifiers, flags and orders of these events within the stated bounds",
    "Tests take over one connection and send one second CONNECT.",
    [B5 + "MQTTBrokers.py", B3 + "MQTTBrokers.py", B5 + "Brokers.py", B3 + "Brokers.py"], mech(("connect, disconnect, handleRequest", B5 + "MQTTBrokers.py"), ("connect, disconnect, handleRequest", B3 + "MQTTBrokers.py")))

add("C23", "Reinitialising a broker leaves nothing of what was before",
    "After reinitialize() there are no sessions, subscriptions, retained messages, queued or in flight messages, delayed wills or expiry times from before, whatever happened before it, for clients of either protocol version; "
    "clients that connect afterwards find the broker as it is after start, and work with each other. Connections from before get nothing any more and do not disturb the new ones.",
    ["histories"], "for all histories of operations before it, and of times after it, within the stated bounds",
    "Tests reinitialise between test cases, after one history each.",
    BOTH, mech(("reinitialize", B5 + "MQTTBrokers.py"), ("reinitialize, reinit", B5 + "Brokers.py"), ("reinitialize", B3 + "MQTTBrokers.py"), ("reinitialize", B3 + "Brokers.py")))
add("C24", "Whatever bytes arrive on one connection, other clients are unaffected",
    "Any bytes on a connection, before or after CONNECT, at most end that connection. The connections of other clients stay open and get nothing that was not published to them, what is in flight to or from them can be finished, "
    "sessions of absent clients, retained messages and the lock of the broker stay as they should be, and publications between the others still arrive, exactly once.",
    ["inputs"], "for all short packets of every type with arbitrary contents, and all well formed packets with bytes replaced or cut anywhere, within the stated bounds",
    "Tests send a handful of malformed packets and look at the connection they sent them on.",
    BOTH + ["mqtt/formats/MQTTV5/MQTTV5.py", "mqtt/formats/MQTTV311/MQTTV311.py"],
    mech(("handleRequest, handlePacket", B5 + "MQTTBrokers.py"), ("handleRequest, handlePacket", B3 + "MQTTBrokers.py"), ("unpackPacket, getPacket", "mqtt/formats/MQTTV5/MQTTV5.py"), ("unpackPacket, getPacket", "mqtt/formats/MQTTV311/MQTTV311.py")))
add("C25", "Concurrent requests take effect as if one came after the other",
    "When a request of one client, a keep alive timeout or the periodic clean up is being handled and at any point of that a request of another connection, a new connection, a take over or the end of a connection arrives in another thread, "
    "the outcome - what every client receives, which connections stay open, and what clients find that connect later - is that of handling one of the two completely before the other. No thread is left waiting for the lock.",
    ["schedules"], "for all pairs of requests on MQTT 5 and 3.1.1 connections and all points of interruption at which the first uses the environment, within the stated bounds",
    "Tests run clients one after another; a schedule that interrupts a request is never forced.",
    BOTH, mech(("handleRequest, keepalive, connect", B5 + "MQTTBrokers.py"), ("handleRequest, keepalive, connect", B3 + "MQTTBrokers.py"), ("run", "mqtt/brokers/start.py")))
add("C26", "The listener: how a stream is cut into segments does not matter",
    "However the bytes of a connection arrive - cut anywhere, with pauses of any length between the pieces, several packets in one piece - the server does what it does when each packet arrives alone: the same answers, messages and state, with clients of both "
    "protocol versions on one port. A connection whose stream ends inside a packet is ended (with its will) and no thread goes on reading it; one that stalls inside a packet is ended by its keep alive, not earlier and not never. The protocol name and level of CONNECT decide who handles "
    "the connection; unknown ones are refused. Packets of any remaining length are read.",
    ["inputs", "schedules"], "for all places where the stream is cut or ends and all pauses within the stated bounds",
    "On the loopback interface packets arrive whole.",
    ["mqtt/brokers/listeners/TCPListeners.py", F5, F3], mech(("handle", "mqtt/brokers/listeners/TCPListeners.py"), ("getPacket", F5), ("getPacket", F3)))
add("C27", "MQTT over websockets is the same as over TCP",
    "A client which connects by websocket gets the handshake of RFC 6455, and then the same service as over TCP however its MQTT packets are divided into frames and these into segments, with any masks; control frames are no data, and a ping is answered by a pong with its data. "
    "What the server sends are well formed frames which contain exactly the packets. A stream which ends anywhere ends the connection.",
    ["inputs", "schedules"], "for all divisions into frames and segments, masks, control frames, lengths and ends within the stated bounds",
    "The tests use one client library, which sends one packet in one frame.",
    ["mqtt/brokers/listeners/TCPListeners.py"], mech(("BufferedSockets, handshake, handle", "mqtt/brokers/listeners/TCPListeners.py")))
add("C28", "The client libraries keep the protocol towards server and application",
    "The MQTT 3.1.1 and 5 clients send exactly what the application asks for, with packet identifiers not in use; they answer each QoS 1 message by PUBACK, pass each QoS 2 message to the application once and answer every PUBREC and PUBREL, and tell the application when a publication is done. "
    "How the stream of the server is cut and how much of theirs a socket takes at a time makes no difference. After a reconnection the exchanges of a session that goes on are continued. When the application disconnects, exchanges in flight are completed first; while it has paused, messages are neither passed on nor acknowledged. An acknowledgement which fits no exchange ends none. They are connected only after an accepting CONNACK; when the server disconnects them or closes the connection they stop and tell the application.",
    ["inputs", "histories", "schedules"], "for all orders of packets and calls, arguments, cuts and ends within the stated bounds",
    "The clients are only used against the server here, which keeps the protocol, over an undisturbed connection.",
    ["mqtt/clients/V5/main.py", "mqtt/clients/V5/internal.py", "mqtt/clients/V311/main.py", "mqtt/clients/V311/internal.py"],
    mech(("Client", "mqtt/clients/V5/main.py"), ("Receivers", "mqtt/clients/V5/internal.py"), ("Client", "mqtt/clients/V311/main.py"), ("Receivers", "mqtt/clients/V311/internal.py")))
add("C29", "MQTT-SN messages survive encoding and decoding, others are refused",
    "Every MQTT-SN 1.2 message that can be built through the message classes, with any fields, is packed as the specification says (including the three byte length of long messages) and unpacked to an equal message; messages with different fields are not equal. Bytes are refused unless they are exactly one message of the specification. "
    "getPacket takes exactly one message off a stream.",
    ["inputs"], "for all messages and byte strings within the stated lengths",
    "There is no test of the MQTT-SN format.",
    ["mqtt/formats/MQTTSN/MQTTSN.py"], mech(("pack, unpack, unpackPacket, getPacket", "mqtt/formats/MQTTSN/MQTTSN.py")))
add("C30", "The server is what its configuration file and command line say",
    "Every listener of the configuration file is served, on its port and with its TLS options, and no other; the limits (receive maximum, topic alias maximum, maximum packet size, server keep alive) are announced to clients and enforced with the values configured, wherever they are in the file; comments and unknown lines are ignored. "
    "All listeners are one server. Without a listener there is one on the port of the command line. A server told to end stops every listener and disconnects every client.",
    ["inputs"], "for all values and places of the options and all combinations of listeners within the stated bounds",
    "The tests start one server with one configuration.",
    ["startbroker.py", "mqtt/brokers/start.py"], mech(("process_option, process_config, run, main", "mqtt/brokers/start.py"), ("create", "mqtt/brokers/listeners/TCPListeners.py")))
add("C31", "MQTT-SN datagrams publish to MQTT subscribers or have no effect",
    "A datagram with an MQTT-SN PUBLISH with QoS -1, or with QoS 0 from an address that is connected, and a short topic name which is valid, is published: every MQTT 3.1.1 and 5 subscriber whose filter matches gets it once, in order, with its payload, and it is retained if RETAIN is set. "
    "Any other datagram has no effect on MQTT clients, and the server goes on. CONNECT is answered by CONNACK to where it came from, refused for another protocol or a session without identifier; an identifier is connected from one address.",
    ["inputs", "histories"], "for all datagrams and sequences of events within the stated bounds",
    "There is no test of MQTT-SN, and a UDP port gets anything.",
    ["mqtt/brokers/SN/MQTTSNBrokers.py", "mqtt/brokers/SN/Brokers.py", "mqtt/brokers/listeners/UDPListeners.py"],
    mech(("handleRequest, connect, publish", "mqtt/brokers/SN/MQTTSNBrokers.py"), ("publish", "mqtt/brokers/SN/Brokers.py"), ("handle", "mqtt/brokers/listeners/UDPListeners.py")))
add("C32", "The proxies pass on every byte unchanged to the right connection",
    "The tracing proxy and the restart proxy send what a client sends to the server and what the server sends to the client, all of it, unchanged, in order and on the connection it belongs to, however the stream is cut, whatever a packet contains and however much a socket takes at a time; "
    "when either side ends, the other is ended too and other connections stay. Only the control messages (topic MQTTSAS topic, TERMINATE) are handled by the proxies themselves.",
    ["inputs", "schedules"], "for all packets, cuts, partial writes and orders of events within the stated bounds",
    "There is no test of the proxies.",
    ["mqtt/proxy/mqttsas.py", "mqtt/restart/netproxy.py"], mech(("handle", "mqtt/proxy/mqttsas.py"), ("TheServer", "mqtt/restart/netproxy.py")))
add("C33", "The HTTP interface shows the server's state, and changes nothing",
    "GET of /api/v0001/clients, clients/<id>, subscriptions and retained answers 200 with JSON, whatever has happened before: exactly the MQTT 3.1.1 and 5 clients which are connected or have a session (with identifier, keep alive interval, clean start and whether they are connected), "
    "exactly the subscriptions there are with their QoS or options, and exactly the retained messages with payload (also those which are not text) and QoS. Any other request of any method, with any body, gets an error response. No request has an effect on MQTT clients or the state.",
    ["inputs", "histories"], "for all histories, payloads, options and requests within the stated bounds",
    "There is no test of the HTTP interface.",
    ["mqtt/brokers/listeners/HTTPListeners.py"], mech(("jsonize, get_*, APIs, requestHandler", "mqtt/brokers/listeners/HTTPListeners.py")))
add("C34", "Models are explored completely, and generated tests judge the results",
    "Exploring a model takes every path through it - every sequence of enabled actions, with every combination of values from the pools - once, whatever the random choices, takes no action which is not enabled, and ends. Results become values for later actions up to the number allowed, and values which are finished with are taken no more; an exception ends the path. "
    "A generated test makes the same calls, with the results of this run in place of those of the generation, and is successful if and only if every call has the result (or none) the test says, by the model's rules if there are any, and every observation of the test is made, before, during or within the time to wait after the call.",
    ["inputs", "schedules"], "for all models, choices, results and times of observations within the stated bounds",
    "There is no test of the test generator.",
    ["mbt/main.py"], mech(("Executions, Traces, Actions", "mbt/main.py"), ("Tests", "mbt/main.py")))
add("C35", "Which conformance statements were met is measured exactly",
    "A statement [MQTT...] is met when a message naming it is logged, wherever it is in the message and whatever else the message says; that message is logged the first time only, messages without a statement are always logged. "
    "What there is to meet are the statements in the source lines of the functions, methods, modules and classes within classes of the modules measured: in assertions and raised exceptions (exceptions), and elsewhere (coverage statements), each once. "
    "The report says for each kind how many were met, out of how many, the percentage, and exactly those met and not met; it is the same whether returned or logged.",
    ["inputs"], "for all messages and sources within the stated bounds",
    "There is no test of the coverage measurement.",
    ["mqtt/brokers/coverage.py"], mech(("Filters.filter, getmeasures", "mqtt/brokers/coverage.py"), ("getCoverage, getSources, between", "mqtt/brokers/coverage.py")))
add("C36", "The optional behaviours are what the options say, for clients of every version",
    "With overlapping_single off, a client gets one copy of a publication for each of its matching subscriptions, with the QoS, RETAIN flag and (MQTT 5) identifier of that subscription, and one copy if it is on, whichever the versions of publisher and subscriber. "
    "With dropQoS0 off, QoS 0 messages for a session whose client is absent, or has as many messages in flight as it allows, are kept in order among the others, sent exactly once, expire as others do and end with the session; if it is on, those for an absent client are never sent. "
    "An MQTT 3.1.1 client without identifier is refused with return code 2, and without other effect, unless zero_length_clientids is on and its session is clean. A QoS 2 message is passed on once, when it is released if publish_on_pubrel is on, and otherwise when it is published. The command line sets each of them.",
    ["inputs", "histories"], "for all combinations of options, versions, subscriptions, QoS and histories within the stated bounds",
    "The tests run the server with one setting of the options.",
    BOTH + ["mqtt/brokers/start.py"], mech(("Brokers.distribute, MQTTClients.publishArrived, sendQueued", B5), ("Brokers.publish, MQTTClients.publishArrived, resend, MQTTBrokers.connect", B3), ("main, run", "mqtt/brokers/start.py")))
