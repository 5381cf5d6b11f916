#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property list)."""
import json, os
B5 = "interoperability/mqtt/brokers/V5/"
B3 = "interoperability/mqtt/brokers/V311/"
L = "interoperability/mqtt/brokers/listeners/"
F = "interoperability/mqtt/formats/"
C = "interoperability/mqtt/clients/"
BOTH = [B5 + "MQTTBrokers.py", B5 + "Brokers.py", B3 + "MQTTBrokers.py", B3 + "Brokers.py"]
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=("packets sent on each client connection",)):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": list(files),
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None}})


H = ["histories", "inputs"]
p("B01", "A publication reaches exactly the matching subscribers",
  "A publication the broker accepts is delivered to every client holding a subscription whose filter matches its topic and to no other client: '+' stands for exactly one level (possibly empty), a trailing '#' for the parent and any number of levels, filters without a leading '$' never match topics starting with '$' (nor the reverse), and everything else is compared literally, character for character. Topic, payload and application properties arrive unchanged.",
  H, "all filters, topics, payloads and all sequences of subscribe/unsubscribe/publish by any number of 3.1.1 and 5.0 clients",
  "client_test*.py uses half a dozen fixed topics and filters and one or two clients; it cannot cover all filter/topic pairs nor all subscription histories.",
  BOTH + [B5 + "Topics.py", B3 + "Topics.py", B5 + "SubscriptionEngines.py", B3 + "SubscriptionEngines.py"],
  [("topicMatches", B5 + "Topics.py"), ("topicMatches", B3 + "Topics.py"), ("Brokers.publish", B5 + "Brokers.py"), ("Brokers.publish", B3 + "Brokers.py")],
  [("subscriptions", "the set of (client, filter, options)", B5 + "SubscriptionEngines.py")])
p("B02", "QoS 2 publications are routed exactly once, QoS 1 at least once",
  "Every QoS 1 PUBLISH is routed and then answered by one PUBACK with its packet id; a QoS 2 PUBLISH is answered by a PUBREC and is routed exactly once between its first PUBLISH and the PUBREL that completes it, no matter how often PUBLISH or PUBREL is repeated, with which DUP flag, or across how many reconnections of a continuing session. PUBREL is always answered by a PUBCOMP with its packet id, and after it the same id starts a new message.",
  H, "all interleavings of PUBLISH/PUBREL repetitions, packet ids, connection losses and resumptions, with routing on PUBLISH or on PUBREL (publish_on_pubrel)",
  "tests send each message once over an unbroken connection; duplicates across reconnections and both routing options are not sampled.",
  BOTH, [("publish / pubrel handlers", B5 + "MQTTBrokers.py"), ("publish / pubrel handlers", B3 + "MQTTBrokers.py")],
  [("inbound", "ids (or stored messages) of incomplete incoming QoS 2 publications", B5 + "MQTTBrokers.py")])
p("B03", "Outgoing QoS 1/2 messages stay in flight until their handshake ends",
  "An outgoing QoS 1 message is finished only by a PUBACK, an outgoing QoS 2 message only by PUBREC (answered by PUBREL) followed by PUBCOMP, each carrying its packet id. Acknowledgements with an unknown id, for a message of the other QoS, or out of handshake order neither finish, duplicate nor disturb any message.",
  H, "all sequences of acknowledgements, valid or not, over any number of concurrent in-flight messages",
  "tests acknowledge correctly and in order; wrong, repeated and crossed acknowledgements are never sent.",
  BOTH, [("puback/pubrec/pubcomp", B5 + "MQTTBrokers.py"), ("puback/pubrec/pubcomp", B3 + "MQTTBrokers.py")],
  [("outbound/outmsgs", "in-flight messages in order / by id", B5 + "MQTTBrokers.py")])
p("B04", "Resuming a session resends exactly the unfinished messages",
  "When a client resumes its session the broker resends, in the original order and before anything new, every unfinished QoS 1/2 message exactly once: the PUBLISH with the same packet id, topic and payload and DUP set if its PUBREC or PUBACK has not been received, otherwise the PUBREL. Finished messages are never sent again, and the first transmission of a message never has DUP set.",
  ["histories", "fault_sequences"], "all points at which the connection can be lost, any number of times, during any mix of handshakes",
  "one test loses the connection once at one point with three messages.",
  BOTH, [("resend / resendPub / sendFirst", B5 + "MQTTBrokers.py"), ("resend", B3 + "MQTTBrokers.py")],
  [("outbound", "in-flight messages", B5 + "MQTTBrokers.py")])
p("B05", "Messages of one publisher arrive in the order they were published",
  "For each subscriber, messages from one publisher on one topic with the same QoS are first sent in the order in which the broker accepted them, including messages that waited for a reconnection or for a free receive-maximum slot.",
  H, "all histories with several publishers, disconnected subscribers, and exhausted windows",
  "tests publish at most a handful of messages to one topic and compare counts or sets.",
  BOTH, [("publishArrived / sendQueued", B5 + "MQTTBrokers.py"), ("publishArrived", B3 + "MQTTBrokers.py")])
p("B06", "Packet identifiers of in-flight messages are never reused",
  "Every QoS 1/2 PUBLISH the broker sends carries a packet id in 1..65535 that no other unfinished message to the same client has, also after the identifiers wrap around and across reconnections.",
  H, "all histories, including more than 65535 messages with some left unacknowledged",
  "tests send fewer than a hundred messages per client.",
  [B5 + "MQTTBrokers.py", B3 + "MQTTBrokers.py"], [("sendFirst", B5 + "MQTTBrokers.py"), ("publishArrived", B3 + "MQTTBrokers.py")],
  [("msgid", "next outgoing packet id", B5 + "MQTTBrokers.py")])
p("B07", "Sessions continue or start afresh as the client asked",
  "A client that ends a connection of a persistent session (3.1.1 clean session 0, 5.0 non-zero session expiry) and reconnects without asking for a clean start finds its subscriptions, unfinished and queued messages and incomplete incoming QoS 2 ids, and CONNACK says session present; in every other case session present is 0 and none of the former subscriptions or messages has any further effect on it. A non-persistent session leaves nothing behind, and no client's session affects another's.",
  H, "all sequences of connects with every combination of clean flag and expiry, disconnects and losses",
  "tests reconnect once or twice with one client.",
  BOTH, [("connect/disconnect", B5 + "MQTTBrokers.py"), ("connect/disconnect/cleanSession", B5 + "Brokers.py"), ("connect/disconnect", B3 + "Brokers.py")],
  [("clients", "session per client id", B5 + "Brokers.py")])
p("B08", "MQTT 5 sessions expire when their interval has passed, not before",
  "A 5.0 session survives a disconnection for its session expiry interval (the one in CONNECT, or the one a DISCONNECT replaced it with) counted from the moment the connection ended, and a reconnection after more than that interval finds no session, subscription or message; interval 0 ends the session with the connection and 0xFFFFFFFF never expires. A DISCONNECT cannot make a session that was opened with interval 0 persistent.",
  H, "all intervals, disconnection instants and reconnect delays, including repeated reconnects that change the interval",
  "one test uses one interval and one delay.",
  [B5 + "MQTTBrokers.py", B5 + "Brokers.py"], [("connect: expiry test", B5 + "MQTTBrokers.py"), ("disconnect: sessionEndedTime", B5 + "Brokers.py")],
  [("sessionExpiryInterval/sessionEndedTime", "when the session ends", B5 + "MQTTBrokers.py")])
p("B09", "Messages for absent persistent clients are kept and delivered",
  "QoS 1 and 2 messages matching the subscriptions of a disconnected client with a live session are all delivered after it reconnects, each once, with the right QoS and DUP clear; QoS 0 messages are dropped by default, or kept and delivered once if the broker is configured to keep them.",
  H, "all numbers, QoS mixes and orders of messages and all disconnect/reconnect histories, for both settings of dropQoS0",
  "one test queues three messages once with the default setting.",
  BOTH, [("publishArrived/resend/sendQueued", B5 + "MQTTBrokers.py"), ("publishArrived/resend", B3 + "MQTTBrokers.py")],
  [("queued", "messages waiting", B5 + "MQTTBrokers.py")])
p("B10", "Receive maximum bounds the messages in flight in both directions",
  "At no time has the broker more unfinished QoS 1/2 messages outstanding towards a 5.0 client than that client's receive maximum; further ones wait and each is sent once as soon as acknowledgements free a slot. A 5.0 client that exceeds the receive maximum advertised in CONNACK with new publications is disconnected with reason 0x93, while a client that stays within it, including by repeating a PUBLISH it already sent, never is.",
  H, "all receive maximum values and all interleavings of publications, acknowledgements, losses and resumptions",
  "the flow-control test runs one fixed exchange with receive maximum 2.",
  [B5 + "MQTTBrokers.py"], [("sendQueued / publishArrived", B5 + "MQTTBrokers.py"), ("publish: receiveMaximum test", B5 + "MQTTBrokers.py")],
  [("receiveMaximum", "window size", B5 + "MQTTBrokers.py")])
p("B11", "The retained message of a topic is the last one published retained",
  "A retained publication with a non-empty payload replaces the topic's retained message, one with an empty payload removes it, and nothing else changes it, whichever protocol version published it and whatever happens to the publisher afterwards. A new matching subscription immediately receives every matching retained message once with RETAIN set and QoS no higher than published and granted, and ordinary subscribers get the live copy with RETAIN clear unless they asked for retain-as-published.",
  H, "all sequences of retained publications, deletions and (re)subscriptions with all retain-handling and retain-as-published options",
  "tests retain three fixed messages and clear them.",
  BOTH + [B5 + "SubscriptionEngines.py", B3 + "SubscriptionEngines.py"],
  [("setRetained/getRetained", B5 + "SubscriptionEngines.py"), ("__doRetained__", B5 + "Brokers.py"), ("__doRetained__", B3 + "Brokers.py")],
  [("retained", "topic -> message", B5 + "SubscriptionEngines.py")])
p("B12", "SUBACK and UNSUBACK report, in order, what took effect",
  "SUBACK carries the SUBSCRIBE's packet id and one code per filter in order, and exactly the filters granted are subscribed with exactly the granted QoS, replacing an earlier subscription of that client to the identical filter. UNSUBACK carries the UNSUBSCRIBE's packet id (5.0: one code per filter saying whether it existed), and every named filter, and only those, no longer causes deliveries.",
  H, "all lists of filters and options, and all subscribe/resubscribe/unsubscribe histories",
  "tests subscribe and unsubscribe two or three fixed filters.",
  BOTH + [B5 + "SubscriptionEngines.py", B3 + "SubscriptionEngines.py"],
  [("subscribe/unsubscribe", B5 + "MQTTBrokers.py"), ("subscribe/unsubscribe", B5 + "SubscriptionEngines.py"), ("subscribe/unsubscribe", B3 + "SubscriptionEngines.py")])
p("B13", "Delivery options follow the matching subscriptions",
  "A delivery has the lower of the published QoS and the highest QoS among the client's matching subscriptions; with overlapping_single a client gets one copy however many of its subscriptions match, otherwise one per subscription at that subscription's own QoS. A 5.0 no-local subscription never returns a client's own publications to it and its options do not influence other copies, and the subscription identifiers on a copy are exactly those of the matching subscriptions it answers.",
  H + ["configurations"], "all combinations of overlapping subscriptions with differing QoS, no-local, retain-as-published and subscription identifiers, for both settings of overlapping_single",
  "two tests use one overlapping pair each.",
  [B5 + "Brokers.py", B5 + "SubscriptionEngines.py", B3 + "Brokers.py", B3 + "SubscriptionEngines.py"],
  [("publish/publishAction", B5 + "Brokers.py"), ("optionsOf", B5 + "SubscriptionEngines.py"), ("qosOf", B3 + "SubscriptionEngines.py")])
p("B14", "Each shared-subscription group receives a message exactly once",
  "For every share name and filter, a matching publication is delivered to exactly one of the clients sharing it, with that subscription's options, whatever the publisher's protocol version and independently of any other shared or ordinary subscriptions, which are served as if the shared one did not exist. Over many messages no member is excluded.",
  H + ["schedules"], "all group memberships, overlaps with ordinary subscriptions, joins, leaves and disconnections, and every random choice the broker can make",
  "one test uses two members and one filter.",
  [B5 + "Brokers.py", B5 + "Topics.py", B5 + "SubscriptionEngines.py", B3 + "Brokers.py"], [("publish: nonshared/shared", B5 + "Brokers.py")])
p("B15", "The will is published if and only if the connection ended abnormally",
  "A client's will is published exactly once, with the topic, payload, QoS, retain flag and properties given in its last CONNECT, when its connection ends by loss, keep-alive timeout, protocol error, takeover or a 5.0 DISCONNECT with a non-zero reason code, and never after a normal DISCONNECT. A will from an earlier connection is never published again.",
  H + ["fault_sequences"], "all ways a connection can end, at every point of a session, over repeated connections with and without wills",
  "tests close one socket once.",
  BOTH, [("setupWillMessage/sendWillMessage", B5 + "Brokers.py"), ("disconnect", B5 + "MQTTBrokers.py"), ("terminate", B3 + "Brokers.py")],
  [("will", "pending will of the connection", B5 + "MQTTBrokers.py")])
p("B16", "A delayed will is published on time unless the session is resumed",
  "A 5.0 will with a delay is published once when the lesser of the delay and the session expiry interval has passed after an abnormal disconnection, never earlier, and not at all if the client resumes the session before that; if the session is instead ended by a clean start the will is published then. One client's delayed will does not affect another's.",
  H + ["schedules"], "all delays, expiry intervals, reconnect instants, and any number of pending wills",
  "one test waits for one delay of a few seconds.",
  [B5 + "MQTTBrokers.py", B5 + "Brokers.py"], [("cleanupThreads.run", B5 + "MQTTBrokers.py"), ("setupWillMessage", B5 + "Brokers.py")],
  [("willMessageClients/delayedWillTime", "pending delayed wills", B5 + "Brokers.py")])
p("B17", "A client id has at most one connection",
  "When a client connects with the id of a connected client of the same protocol version, the older connection is closed (5.0: with reason 0x8E) before the new CONNACK, the session passes to the new connection according to its clean flag, and from then on messages for that client go only to the new connection, none lost and none duplicated beyond the resend rules.",
  H, "all takeover points during any exchange, repeated any number of times",
  "no existing test takes over a connection with traffic in flight.",
  [B5 + "MQTTBrokers.py", B3 + "MQTTBrokers.py"], [("connect: existing client id", B5 + "MQTTBrokers.py"), ("connect: existing client id", B3 + "MQTTBrokers.py")])
p("B18", "Topic aliases always resolve to the topic that was meant",
  "A 5.0 publication with a topic alias is routed to the topic most recently bound to that alias on the same connection; an alias that is zero, above the advertised maximum or unbound ends the connection with an error and routes nothing. Aliases the broker sends never exceed the client's maximum, are introduced together with their topic on that connection before being used alone, and resolve to the right topic on every copy including resent and queued ones.",
  H, "all sequences of alias definitions, uses and redefinitions in both directions, across reconnections, resends and several clients",
  "tests set and use one alias on one connection.",
  [B5 + "MQTTBrokers.py", B5 + "Brokers.py"], [("getAliasTopic / publish", B5 + "Brokers.py"), ("publishArrived", B5 + "MQTTBrokers.py")],
  [("topicAliasToNames/outgoingTopicNamesToAliases", "alias maps", B5 + "MQTTBrokers.py")])
p("B19", "Expired messages are not delivered and the remaining time is exact",
  "A message published with an expiry interval is sent to a 5.0 subscriber only while less than that many seconds have passed since the broker accepted it, and then carries the interval minus the whole seconds it has waited, for live, queued, resent and retained delivery alike and independently for every subscriber. Dropping an expired message does not hold up or lose any other message.",
  H, "all expiry intervals, waiting times and numbers of subscribers and resends",
  "one test waits for one message of one subscriber.",
  [B5 + "MQTTBrokers.py", B5 + "Brokers.py"], [("respond: MessageExpiryInterval", B5 + "MQTTBrokers.py")])
p("B20", "Maximum packet size is respected in both directions",
  "The broker never sends a 5.0 client a packet larger than that client's maximum packet size; a publication too large for it is treated as delivered to that client without disturbing others or later messages. A 5.0 client sending a packet larger than the broker's advertised maximum is disconnected and the packet has no other effect, and every smaller packet is accepted.",
  H, "all packet sizes around the limits and all sequences mixing oversized and ordinary messages",
  "one test sends one packet a size above the limit.",
  [B5 + "MQTTBrokers.py", F + "MQTTV5/MQTTV5.py"], [("respond: maximumPacketSize", B5 + "MQTTBrokers.py"), ("unpackPacket", F + "MQTTV5/MQTTV5.py")])
p("B21", "Application properties are forwarded unaltered to every subscriber",
  "User properties (in order, with repetitions), payload format indicator, content type, response topic and correlation data of a 5.0 publication or will appear unchanged on every copy sent to 5.0 subscribers, whether live, queued, resent or retained, and no copy shows a property of another message, of another subscriber's copy or of the publisher's connection (such as its topic alias). Copies to 3.1.1 subscribers carry topic and payload alone.",
  H, "all property combinations, numbers of subscribers and delivery paths",
  "tests send one message with properties to one subscriber.",
  [B5 + "MQTTBrokers.py", B5 + "Brokers.py"], [("publishAction", B5 + "Brokers.py"), ("publishArrived", B5 + "MQTTBrokers.py")])
p("B22", "Clients of different protocol versions share topics, and nothing else",
  "Publications (QoS 0-2, retained, wills) by 3.1.1 and 5.0 clients, and those of MQTT-SN clients with QoS -1 or 0 on two-character topics, reach matching subscribers of every other version under the same routing, QoS, retained and queueing rules as within one version. A publication never fails or ends the publisher's connection because of the version or connection state of a subscriber.",
  H, "all mixes of publisher and subscriber versions and session states",
  "no test connects clients of two versions to one broker.",
  BOTH + ["interoperability/mqtt/brokers/SN/Brokers.py", "interoperability/mqtt/brokers/SN/MQTTSNBrokers.py"],
  [("publish (cross-broker)", B5 + "Brokers.py"), ("publish (cross-broker)", B3 + "Brokers.py"), ("publish", "interoperability/mqtt/brokers/SN/Brokers.py")])
p("B23", "Keep-alive closes silent connections and only those",
  "A connection with a non-zero keep-alive (for 5.0 the smaller of the client's and the server's, announced in CONNACK) from which no packet arrived for more than one and a half times that time is closed with its will published; a connection that sends any packet within that time, or has keep-alive zero, is never closed for silence.",
  ["schedules", "histories"], "all keep-alive values and packet timings",
  "two tests wait for one timeout each.",
  [B5 + "MQTTBrokers.py", B3 + "MQTTBrokers.py", L + "TCPListeners.py"], [("keepalive", B5 + "MQTTBrokers.py"), ("keepalive", B3 + "MQTTBrokers.py")],
  [("lastPacket", "time of the last packet", B5 + "MQTTBrokers.py")])
p("B24", "A misbehaving client harms only its own connection",
  "Malformed packets and protocol violations (bad encoding, packet before CONNECT, second CONNECT, wildcard in a topic name, invalid filter, unknown alias and the like) end that connection, with its will published and its session treated as after any abnormal end, and have no other effect: the broker keeps serving, no other client is disconnected, delayed or sent anything else, and the offender can reconnect.",
  ["inputs", "histories", "fault_sequences"], "all byte sequences and all illegal packets at every point of a session",
  "tests send only well-formed, legal packets.",
  BOTH + [L + "TCPListeners.py"], [("handleRequest", B5 + "MQTTBrokers.py"), ("handleRequest", B3 + "MQTTBrokers.py")])
p("B25", "Connection set-up and simple exchanges follow the protocol",
  "The first packet on a connection must be CONNECT and is answered by exactly one CONNACK before anything else is sent: accepting, or refusing 3.1.1 empty client ids without clean session, after which the connection is closed and nothing has changed; a connection that starts with anything else, or asks for an unsupported protocol version, is closed without serving it. CONNACK announces the limits and assigned client id the broker then applies, an empty client id yields an id no other client has, and every PINGREQ is answered by one PINGRESP.",
  H + ["configurations"], "all CONNECT variants and configured limits, at any point relative to other clients",
  "tests use a few CONNECT variants with default limits.",
  [B5 + "MQTTBrokers.py", B3 + "MQTTBrokers.py"], [("connect", B5 + "MQTTBrokers.py"), ("connect", B3 + "MQTTBrokers.py")])
p("F01", "MQTT 5 packets are encoded exactly and decoded back to themselves",
  "Packing any MQTT 5.0 packet yields the bytes the standard prescribes for its fields, properties and payload, and unpacking those bytes yields a packet with equal fields, for every packet type, string (including non-ASCII), length and property combination.",
  ["inputs"], "all packets with all field values, string contents and lengths across the length-encoding boundaries",
  "the format test round-trips a few default packets.",
  [F + "MQTTV5/MQTTV5.py"], [("pack/unpack of every packet class, Properties, VBIs, writeUTF/readUTF", F + "MQTTV5/MQTTV5.py")], observe=("pack()/unpackPacket() results",))
p("F02", "MQTT 3.1.1 packets are encoded exactly and decoded back to themselves",
  "Packing any MQTT 3.1.1 packet yields the bytes the standard prescribes for its fields and payload, and unpacking those bytes yields a packet with equal fields, for every packet type, string (including non-ASCII) and length.",
  ["inputs"], "all packets with all field values, string contents and lengths across the length-encoding boundaries",
  "there is no stable test of the 3.1.1 format module.",
  [F + "MQTTV311/MQTTV311.py"], [("pack/unpack of every packet class", F + "MQTTV311/MQTTV311.py")], observe=("pack()/unpackPacket() results",))
p("F03", "MQTT-SN packets are encoded exactly and decoded back to themselves",
  "Packing any supported MQTT-SN packet (CONNECT, CONNACK, PUBLISH) yields the bytes the MQTT-SN standard prescribes for its flags, topic, ids and data, and unpacking those bytes yields an equal packet.",
  ["inputs"], "all field values, flags and data lengths the one-byte length format can carry",
  "the format test checks a couple of packets.",
  [F + "MQTTSN/MQTTSN.py"], [("pack/unpack, Flags", F + "MQTTSN/MQTTSN.py")], observe=("pack()/unpackPacket() results",))
p("F04", "Malformed packets are rejected, never misread",
  "Unpacking bytes that violate the MQTT 3.1.1 or 5.0 format (wrong fixed-header flags, reserved bits, truncated or overlong fields, unknown, repeated or misplaced properties, invalid UTF-8, QoS 3, bad lengths) raises an error or returns nothing; it never returns a packet, never reads beyond the given bytes and never loops.",
  ["inputs"], "all byte sequences: every single-field corruption of every packet type and every truncation point",
  "no test feeds malformed bytes.",
  [F + "MQTTV5/MQTTV5.py", F + "MQTTV311/MQTTV311.py"], [("unpack checks", F + "MQTTV5/MQTTV5.py"), ("unpack checks", F + "MQTTV311/MQTTV311.py")], observe=("unpackPacket() results",))
p("L01", "Packet handling does not depend on how bytes arrive",
  "The broker's reaction to a sequence of MQTT packets is the same over plain TCP and over WebSockets and however the bytes are split into segments or frames, including several packets in one segment or frame and packets split across them. A connection that stalls or ends in the middle of a packet delays or disturbs no other connection.",
  ["schedules", "inputs"], "all segmentations of the byte stream, both transports, all protocol versions",
  "tests send one packet per segment over TCP.",
  [L + "TCPListeners.py"], [("BufferedSockets.recv/wsrecv/send", L + "TCPListeners.py"), ("WebSocketTCPHandler.handle", L + "TCPListeners.py"), ("getPacket", F + "MQTTV5/MQTTV5.py"), ("getPacket", F + "MQTTV311/MQTTV311.py")], observe=("bytes on real TCP connections",))
p("L02", "Concurrent connections behave as if packets were handled one at a time",
  "With any number of connections active at once (and timers running), the observable result is that of handling the received packets one after another in some order: every packet sent to a client is whole and never interleaved with another, and no message, subscription or acknowledgement is lost or doubled through concurrency.",
  ["schedules"], "all interleavings of handler threads and the timer thread",
  "tests run one or two clients sequentially.",
  [B5 + "MQTTBrokers.py", B3 + "MQTTBrokers.py", "interoperability/mqtt/brokers/start.py"], [("shared lock in handleRequest", B5 + "MQTTBrokers.py"), ("shared lock in handleRequest", B3 + "MQTTBrokers.py"), ("cleanupThreads", B5 + "MQTTBrokers.py")])
p("S01", "With persistence, shared state survives a restart of the broker",
  "A broker configured with persistence that is stopped cleanly and started again still has the retained messages and subscriptions it had, delivers retained messages accordingly, and serves every client without error. Without persistence a restart begins empty.",
  ["histories", "crash_points"], "all contents of the stores at shutdown and all traffic after the restart, over repeated restarts",
  "no test restarts the broker.",
  ["interoperability/mqtt/brokers/start.py", B5 + "SubscriptionEngines.py"], [("setup_persistence / run", "interoperability/mqtt/brokers/start.py")],
  [("sharedData", "subscriptions and retained messages", "interoperability/mqtt/brokers/start.py")])
p("S02", "Configuration settings take effect, and reinitialisation empties the broker",
  "Limits and options set in the configuration file (receive_maximum, topic_alias_maximum, maximum_packet_size, persistence, listeners), and the port set with --port, are the ones the running broker announces and enforces, and the documented defaults hold otherwise. Reinitialising the broker discards all sessions, subscriptions and retained messages of every protocol version, any number of times, and the versions keep sharing state afterwards.",
  ["configurations", "histories"], "all settings and all broker states at reinitialisation",
  "tests run one configuration and never reinitialise.",
  ["interoperability/mqtt/brokers/start.py", B5 + "SubscriptionEngines.py", B3 + "SubscriptionEngines.py"], [("process_config", "interoperability/mqtt/brokers/start.py"), ("reinitialize", B5 + "Brokers.py")])
p("H01", "The HTTP interface shows the broker's state as it is",
  "A GET of retained, subscriptions, clients or clients/ID under /api/v0001 lists exactly the retained messages (topic, payload, QoS), the subscriptions (client, filter), and the 3.1.1 sessions (connected, clean session) that result from what clients of all protocol versions did before, as one consistent snapshot even while clients publish, subscribe, connect and leave; an unknown client, path or another method is answered with 404, and no request changes anything or disturbs a client.",
  ["histories", "schedules"], "all histories of client traffic and all interleavings of requests with it",
  "no test uses the HTTP interface.",
  ["interoperability/mqtt/brokers/listeners/HTTPListeners.py", B5 + "Subscriptions.py", B3 + "Subscriptions.py"], [("APIs.operation", "interoperability/mqtt/brokers/listeners/HTTPListeners.py"), ("get_retained_messages / get_subscriptions / get_clients", "interoperability/mqtt/brokers/listeners/HTTPListeners.py")],
  [("sharedData", "subscriptions and retained messages", "interoperability/mqtt/brokers/start.py")], observe=("answers to HTTP requests", "packets sent on each client connection"))
p("N01", "Each listener admits exactly the clients its settings allow",
  "A listener serves its protocol on its address and port, with TLS if it has certificate settings. A TLS listener shows the certificate configured for it and serves a client only over TLS and only if the client's certificate comes from an authority in cafile and is valid; without a certificate, only if require_certificate is false; without a server name (SNI), unless allow_non_sni_connections is false. Listeners of one file do not affect each other, clients of all of them share one broker, and refused attempts leave the others undisturbed.",
  ["configurations", "inputs", "histories"], "all settings of all listeners, all kinds of attempts, with any clients connected meanwhile",
  "no test uses client certificates, server names, or bind addresses.",
  [L + "TCPListeners.py", L + "HTTPListeners.py", "interoperability/mqtt/brokers/start.py"], [("create", L + "TCPListeners.py"), ("create", L + "HTTPListeners.py"), ("process_config", "interoperability/mqtt/brokers/start.py")], observe=("whether a client is served", "the certificate it is shown"))
p("V01", "Monitoring reports every packet, once, and changes nothing",
  "With the setting visual, every MQTT 5.0 packet the broker receives or sends is published, when it passes and exactly once, as a JSON report (direction, connection, client id, and the packet's type, flags, id, topic, payload, reason codes, filters and properties as they were) on $SYS/clients-packets to each client subscribed to that topic, of either protocol version, in the order of the packets; the reports themselves are not reported. With mscfile, a line with direction, connection and packet type is written for each of these packets, in that order. Without these settings there is none of it, and with them everything else that clients receive is what it would be without.",
  H + ["inputs", "configurations"], "all packets in all histories of client traffic, with observers of either version",
  "no test uses these settings.",
  [B5 + "MQTTBrokers.py", "interoperability/mqtt/formats/MQTTV5/MQTTV5.py", "interoperability/mqtt/brokers/start.py"], [("respond", B5 + "MQTTBrokers.py"), ("handleRequest", B5 + "MQTTBrokers.py"), ("json", "interoperability/mqtt/formats/MQTTV5/MQTTV5.py")], observe=("reports published on $SYS/clients-packets", "lines of the msc file", "packets sent on each client connection"))
p("C01", "The client library delivers and acknowledges each message correctly",
  "The test client (3.1.1 and 5.0) passes each incoming QoS 0 and 1 publication to the application once per PUBLISH and each QoS 2 publication exactly once per packet-id cycle however often PUBLISH or PUBREL is repeated, with topic, payload, QoS, retained flag and id unchanged. It answers PUBLISH with PUBACK or PUBREC and PUBREL with PUBCOMP carrying the same id.",
  H, "all sequences of incoming packets, including duplicates and interleaved ids",
  "the client is only ever tested against this broker, which never repeats packets within a connection.",
  [C + "V311/internal.py", C + "V5/internal.py", C + "V311/main.py", C + "V5/main.py"], [("Receivers.receive", C + "V311/internal.py"), ("Receivers.receive", C + "V5/internal.py")], observe=("callbacks and bytes sent by the client",))
p("C02", "The client library completes and accounts for what it sends",
  "For each outgoing publish, subscribe and unsubscribe the test client sends one well-formed packet with a packet id not used by another unfinished operation, completes it exactly when its acknowledgement with that id arrives (QoS 2: PUBREC answered by PUBREL, then PUBCOMP), reports it to the application once, and an acknowledgement with another id completes nothing. The bytes written are exactly the packet even if the socket accepts them piecemeal.",
  H + ["fault_sequences"], "all orders of operations and acknowledgements, right or wrong, and all partial writes",
  "tests run against one well-behaved broker.",
  [C + "V311/internal.py", C + "V5/internal.py", C + "V311/main.py", C + "V5/main.py"], [("Client.publish/subscribe", C + "V5/main.py"), ("Receivers.receive", C + "V5/internal.py"), ("sendtosocket", C + "V5/main.py")], observe=("callbacks and bytes sent by the client",))
p("R01", "The proxies forward traffic unchanged",
  "Through the display proxy and the restart proxy, the bytes a client sends arrive at the broker, and the bytes the broker sends arrive at that client, complete, in order and unaltered, for any number of simultaneous connections; when either side closes, the other side is closed after the data in transit. The packet descriptions the display proxy prints correspond to the packets that passed.",
  ["inputs", "schedules"], "all byte streams, segmentations and numbers of parallel connections",
  "there is no automated test of the proxies.",
  ["interoperability/mqtt/proxy/mqttsas.py", "interoperability/mqtt/restart/netproxy.py"], [("MyHandler.handle", "interoperability/mqtt/proxy/mqttsas.py"), ("netproxy handlers", "interoperability/mqtt/restart/netproxy.py")], observe=("bytes on real TCP connections",))
p("M01", "The model explorer covers choices and replays traces faithfully",
  "The model-based test explorer calls only actions whose preconditions hold with parameter values from the declared choices, reaches every enabled action and parameter combination before it repeats itself, and every recorded trace, when replayed, performs the same calls with the same parameters in the same order and checks the recorded results.",
  ["programs", "histories"], "all models (sets of actions, choices and preconditions) and exploration lengths",
  "there is no test of the explorer.",
  ["interoperability/mbt/main.py"], [("Models / Executions / Traces / Choices", "interoperability/mbt/main.py")], observe=("calls made to the modelled actions",))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
