#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the JSON stays well formed)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[0]} for m in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
C="vaux-mqtt/src/codec/mod.rs"; F="vaux-mqtt/src/codec/fixed.rs"
p("C01","Variable byte integers: every value round-trips in its shortest form",
 "Encoding any value from 0 to 268,435,455 as a variable byte integer produces its shortest one to four byte MQTT form, of exactly the size the library reports for it, and decoding that form followed by any other bytes gives the value back and consumes just that form. Encoding any larger value is refused and writes nothing. Decoding a sequence with no end is refused: an error when the fourth byte has the continuation bit set, an insufficient-data error when the bytes end before the value does.",
 ["inputs"],"all 2^32 values, all byte buffers",
 "Tests sample a few boundary values; an error in one of the four length classes or in the continuation handling of a longer form passes them.",
 [C],["encode_variable_byte_int","decode_variable_byte_int","variable_byte_int_size"])
p("C02","Decoding is total: any byte buffer yields a packet or an error",
 "Decoding a byte buffer, whatever its contents and length, returns a packet with the number of bytes it took or returns an error. It never panics, overflows, reads past the end of the buffer or loops without consuming input.",
 ["inputs"],"every byte buffer",
 "Tests decode a few dozen well-formed packets and a handful of malformed ones; the space of hostile buffers (truncated fields, huge lengths, invalid values) cannot be sampled.",
 [C,F,"vaux-macro/src/decode.rs","vaux-mqtt/src/connect.rs","vaux-mqtt/src/publish.rs","vaux-mqtt/src/property.rs"],
 ["decode and decode_packet","the Decode impl of every packet, property and primitive","require_remaining guards before get_u8/get_u16/get_u32"])
p("C03","Framing: a packet is decoded exactly when all its bytes are there",
 "Decoding reports insufficient data only when the buffer is a proper prefix of what its header and remaining length announce, and always then unless the header itself is already invalid. Otherwise the outcome depends only on the announced bytes, not on what follows them, and a decoded packet accounts for exactly one header byte, the remaining-length field and the remaining length itself. A packet whose announced length does not fit its content is refused rather than reported as incomplete.",
 ["inputs"],"every byte buffer and every continuation of it",
 "Tests decode single packets with nothing behind them; the effect of trailing bytes, of partial arrival and of a length that disagrees with the fields needs all splits of all streams.",
 [C,F],["decode: remaining length handling, split_off, the final length check, mapping of InsufficientData"])
p("C04","Encoded packets announce their exact length and sizes agree",
 "When encoding a packet succeeds, the bytes appended are one header byte with the packet's type and flags, a variable byte integer, and exactly as many further bytes as that integer announces, which is also the size the packet reports for itself; every property section inside likewise announces its exact length. What was already in the buffer is left unchanged. A packet that holds a string or binary field over 65,535 bytes is refused.",
 ["inputs"],"every packet value and every prior buffer content",
 "Size and encode are two separately generated functions per packet that must agree for each combination of optional fields; tests check a few combinations.",
 ["vaux-macro/src/encode.rs","vaux-macro/src/size.rs",C],["generated Encode / CodecSize / PropertyCodecSize impls","encode_string, encode_array_field"])
p("C05","PUBLISH round-trips: every field survives encode and decode",
 "Encoding a PUBLISH that satisfies the protocol's field rules and decoding the bytes gives back an equal packet: topic, flags, QoS, packet identifier, payload (an absent one reads back as an empty one) and every property including repeated user properties. A packet identifier is on the wire exactly when the QoS is above 0.",
 ["inputs"],"every well-formed PUBLISH value: all combinations of present and absent fields and all field values",
 "There are 2^9 presence combinations times unbounded values; tests round-trip a few.",
 ["vaux-mqtt/src/publish.rs","vaux-macro/src/encode.rs","vaux-mqtt/src/property.rs",C],["Encode/Decode for Publish","UserProperty encode/decode"])
p("C06","CONNECT round-trips with its will message, credentials and flags",
 "Encoding a CONNECT whose flags agree with its payload fields and decoding the bytes gives back an equal packet, including all properties, the client identifier, the will with all its properties, user name and password. The payload fields appear in the order of the specification and each is present exactly when its flag says so.",
 ["inputs"],"every CONNECT value whose flags and fields agree",
 "Presence combinations of properties, will, will properties and credentials are too many to sample, and a wrong order is invisible unless several are present at once.",
 ["vaux-mqtt/src/connect.rs","vaux-mqtt/src/will.rs","vaux-macro/src/encode.rs"],["Encode/Decode for Connect and WillHeader","set_will_message, will_message"])
p("C07","PUBACK, PUBREC, PUBREL and PUBCOMP round-trip, short forms included",
 "Encoding any publish acknowledgement and decoding the bytes gives back the same packet type, packet identifier, effective reason (none meaning success), reason string and user properties. The short form without reason is used exactly for success without properties, and a reason without a property length is accepted. Every reason code the protocol allows survives, and a header of another packet type is never taken for an acknowledgement.",
 ["inputs"],"every acknowledgement value of the four types, every accepted byte form",
 "Tests cover single reasons without properties; the abbreviated forms interact with reason and properties.",
 ["vaux-mqtt/src/pubresp.rs","vaux-macro/src/decode.rs","vaux-macro/src/encode.rs"],["Encode/Decode for PubResp","supported_reason"])
p("C08","SUBSCRIBE, SUBACK, UNSUBSCRIBE and UNSUBACK round-trip in order",
 "Encoding any subscription request, unsubscription request or their acknowledgements and decoding the bytes gives back an equal packet. Filters, options and reason codes keep their number and order, and packet identifier, subscription identifier and user properties survive.",
 ["inputs"],"every value of the four packets: filter and reason lists of any length",
 "Lists of arbitrary length whose end is only implied by the remaining length; tests use one or two entries.",
 ["vaux-mqtt/src/subscribe.rs","vaux-mqtt/src/unsubscribe.rs",C],["generated impls for Subscribe, SubAck, Unsubscribe, UnsubAck, SubscriptionFilter","Vec<Reason>, Vec<String>, Vec<SubscriptionFilter> codecs"])
p("C09","CONNACK, DISCONNECT and PING packets round-trip",
 "Encoding any CONNACK, DISCONNECT, PINGREQ or PINGRESP and decoding the bytes gives back an equal packet with every property, flag and reason. The short DISCONNECT form is used exactly for a normal disconnect without properties, and the ping packets are two bytes with no content.",
 ["inputs"],"every value of the four packets",
 "CONNACK alone has seventeen optional properties; tests set a few.",
 ["vaux-mqtt/src/connack.rs","vaux-mqtt/src/disconnect.rs","vaux-mqtt/src/lib.rs"],["generated impls for ConnAck, Disconnect, PingReq, PingResp"])
p("C10","Malformed packets are refused, never accepted as something else",
 "Decoding refuses every packet with a reserved header flag set, the reserved QoS 3 or a duplicate flag with QoS 0 in a PUBLISH, a reserved packet type, an unknown property, a property that the packet type does not allow, an unknown reason code, a property with an invalid boolean, QoS or payload format value, text that is not valid UTF-8, a field cut short by the packet's end, or properties that do not end exactly at the announced length.",
 ["inputs"],"every byte buffer",
 "A negative property over all inputs; tests try a few malformed packets.",
 [C,F,"vaux-macro/src/decode.rs","vaux-mqtt/src/property.rs"],["FixedHeader::decode flag checks","property match with unsupported arm","property_bytes_read != property_length","TryFrom<u8> for Reason / QoSLevel / PropertyType / PayloadFormat","String::from_utf8"])
p("C11","Wire code tables are one-to-one",
 "For every packet type, reason code, property, QoS level, payload format and retain-handling value the byte written is the code of the MQTT 5 specification, and that byte, and no other, is read back as that same value. Bytes that are not assigned to a value are refused.",
 ["inputs"],"every enumeration value and all 256 bytes",
 "The numeric values come from two separate tables (enum discriminants and conversion arms) with more than 90 entries; a swap of two rarely used entries passes the tests.",
 [C,"vaux-mqtt/src/property.rs","vaux-mqtt/src/publish.rs","vaux-mqtt/src/subscribe.rs"],["enum discriminants","TryFrom<u8>/From<u8> impls"])
p("C12","Flag accessors are exact and independent; PUBLISH flags stay consistent",
 "Setting any one of the flags of a packet header, a CONNECT or a subscription option and reading it back gives the value set, and every other flag reads as before. A PUBLISH built through the public constructors and setters never combines QoS 0 with a packet identifier or with the duplicate flag, and operations that would do so are refused.",
 ["inputs","histories"],"every flag byte, every value set, every sequence of setter calls",
 "Each setter must preserve the other bits from every starting state; tests start from a fresh value.",
 [F,"vaux-mqtt/src/connect.rs","vaux-mqtt/src/subscribe.rs","vaux-mqtt/src/publish.rs","vaux-mqtt/src/connack.rs"],["set_* / accessor pairs","Publish::new_with_payload, set_qos, set_dup, set_packet_id"])
T="vaux-broker/src/topic.rs"; S="vaux-broker/src/session.rs"; B="vaux-broker/src/lib.rs"
p("C13","A message reaches exactly the subscriptions whose filter matches its topic",
 "The subscribers found for a published topic are exactly those clients holding at least one filter that matches it by the MQTT rules: levels separated by '/', '+' matching exactly one level, a final '#' matching any number of further levels including none, and a leading wildcard never matching a topic that starts with '$'. Each matching filter of a client is reported once, with the QoS of that subscription, independent of the order of subscribing.",
 ["inputs","histories"],"every topic string, every set of subscriptions, every history that led to it",
 "Matching depends on the whole tree of filters; tests use a few fixed filters.",
 [T],["TopicTree::subscribe","matching_subscribers, collect_matches"],[("nodes","filter tree with the subscribers of each filter")],["TopicTree::matching_subscribers"],"topic module is private to the broker crate: guarded test hook")
p("C14","Subscribing and unsubscribing change exactly the named subscription",
 "After subscribing a client to a filter it holds that filter with the granted QoS, replacing an earlier one; after unsubscribing it no longer does, and whether a subscription existed is reported truthfully. Removing all subscriptions of a client leaves none of it, and no operation changes the subscriptions of any other client or other filter, whatever the order of operations.",
 ["histories"],"every sequence of subscribe, unsubscribe and unsubscribe-all operations by any clients on any filters",
 "A history property over filters that share tree nodes; tests run a few fixed sequences.",
 [T],["subscribe, unsubscribe, unsubscribe_all, ensure_path, find_path"],[("nodes","filter tree with the subscribers of each filter")],["TopicTree::matching_subscribers","unsubscribe result"],"topic module is private to the broker crate")
p("C15","The session pool never loses or double-counts a session",
 "The numbers of active and inactive sessions the broker counts always equal the numbers it holds, every session is held under its own client identifier exactly once, as active exactly when it is connected, and a connect never takes the active sessions beyond the configured limit. Activating, deactivating, adding and removing change just the session named and report truthfully whether it was there.",
 ["histories"],"every sequence of pool operations",
 "A counter kept beside a map drifts only after particular sequences (removing an inactive session, activating twice).",
 [S],["SessionPool::add, remove, remove_active, activate, deactivate, get_active, at_capacity"],[("active, inactive","sessions by client id"),("active_sessions, inactive_sessions","their counts")],["active_sessions, inactive_sessions, at_capacity"],"session module is private to the broker crate")
p("C16","Packet identifiers the broker assigns are nonzero and not in use",
 "A packet identifier the broker assigns to a QoS 1 message for a client is never 0 and never that of a message the client has not yet acknowledged, across wrap-around. A message stays pending until the client acknowledges that identifier, and acknowledging removes exactly that one and reports whether it was pending.",
 ["histories"],"every sequence of deliveries and acknowledgements, including beyond 65,535 messages",
 "The wrap-around after 65,535 assignments with old messages still pending is out of reach for the tests.",
 [S],["next_packet_id","track_qos_publish, acknowledge, drain_pending"],[("pending_ack","unacknowledged messages by packet id")],["Session API"],"session module is private to the broker crate")
p("C17","A publish is routed once per matching subscription at the right QoS",
 "Each connected client gets one copy of a published message per matching subscription, except the publisher itself where that subscription asked for no local messages. The copy's QoS is the lower of the published and the granted one, it carries a packet identifier exactly when that QoS is above 0 and is then kept until acknowledged; topic, payload, retain flag and the other properties are passed on, the sender's duplicate flag, packet identifier and topic alias are not. Nobody else gets a copy.",
 ["inputs","histories"],"every publish, every set of subscriptions and session states",
 "Broker tests run one publisher and one subscriber with fixed QoS over TCP.",
 [B,S,T],["Broker::route_publish","Session::next_packet_id, track_qos_publish, try_send_control"],[("pending_ack","messages kept until acknowledged")],["messages on the session's channel"],"routing is private to the broker crate")
p("C18","SUBACK and UNSUBACK answer each filter in order, truthfully",
 "The acknowledgement of a SUBSCRIBE or UNSUBSCRIBE carries the request's packet identifier and one reason per filter in request order. A granted reason states the QoS with which the subscription was in fact recorded, and an unsubscribe reason states whether that subscription existed.",
 ["inputs","histories"],"every request with any number of filters in any session state",
 "Tests send one or two filters and look at the first reason.",
 [B,T],["SUBSCRIBE and UNSUBSCRIBE handling"],None,["response packet"],"request handling is private to the broker crate")
p("C19","CONNECT negotiation: session present, keep-alive and expiry are truthful",
 "A new connection is accepted with session-present set exactly when the broker resumes a stored session for that client, which it does exactly when clean start is not requested and such a session exists; a clean start discards the stored session with its subscriptions. The keep-alive granted is the requested one brought into the configured range and the session expiry granted never exceeds the configured one; the answer tells the client when either differs from what it asked for, and an empty client identifier gets an assigned one that is reported.",
 ["inputs","histories"],"every CONNECT against every stored session state and configuration",
 "Tests connect a few times against a default configuration.",
 [B,S,"vaux-broker/src/config.rs"],["handle_connect and its session set-up"],[("sessions","stored sessions")],["CONNACK"],"connection set-up is private to the broker crate")
p("C20","A will message is published on abnormal end and only then",
 "The will given in a CONNECT is stored with all its fields, replaces that of an earlier connection, and is removed by a normal disconnect so that it is never published afterwards. When a connection with a will ends in any other way the will is taken once and the message published carries its topic, payload, QoS, retain flag and properties.",
 ["histories"],"every way and order in which connections end",
 "Tests end a connection in two ways with one fixed will.",
 [B,S],["initiate_will","Session::set_will, take_will, clear_will; publish_will"],[("will_message","will of the current connection")],["published message"],"will handling is private to the broker crate")
K="vaux-client/src/session.rs"
p("C21","Client packet identifiers are fresh and sending respects the server's limit",
 "A packet identifier the client assigns is never 0 and never one of a message still in flight. No QoS 1 or 2 message is sent while as many are in flight as the receive maximum the server announced; the free places are always that maximum less the messages in flight, each completion gives up exactly the place of its message, and a message that cannot be sent for lack of a place is refused without changing any state.",
 ["histories"],"every sequence of publishes, acknowledgements and connects",
 "Needs tens of thousands of messages or a small server limit with interleaved acknowledgements; the tests send a few.",
 [K],["ClientSession::write_next","handling of PUBACK, PUBREC and PUBCOMP","handle_connack"],[("qos_send_remaining","free places"),("pending_qos_send","messages in flight")],["bytes sent to the server"])
p("C22","Client QoS handshakes complete in protocol order, each message once",
 "For each QoS 1 or 2 message the client sends or receives, the acknowledgements appear in protocol order with the message's packet identifier, each exactly once. A QoS 2 message received again before its handshake has finished is not delivered twice, an acknowledgement for an unknown identifier changes no state, and a finished handshake leaves nothing behind.",
 ["histories"],"every interleaving of packets received and sent for any number of identifiers",
 "An interleaving of several handshakes with duplicates and strays; tests run single handshakes.",
 [K],["ClientSession::handle_packet, handle_recv_publish, track_sent_ack, write_next"],[("pending_qos_recv","received messages awaiting completion"),("pending_qos_send","sent messages awaiting completion")],["packets sent; packets delivered"])
p("C23","After CONNACK the client uses exactly the values the server announced",
 "After a successful CONNACK the client uses the keep-alive, session expiry and receive maximum the server announced, the latter less the messages still in flight, and the identifier the server assigned if it had none; what the server leaves out stays as it was. A CONNACK that refuses the connection is reported with the server's reason, leaves the client unconnected and changes none of these values. A keep-alive of 0 turns the pings off.",
 ["inputs"],"every CONNACK against every client configuration",
 "Each field has a present and an absent case, combined with earlier state.",
 [K,"vaux-client/src/client.rs"],["ClientSession::handle_connack","MqttClient::start"],None,["bytes sent to the server"])
p("C24","The packet stream yields the sent packets whatever the segmentation",
 "However the bytes of a sequence of packets are split into reads, reading from the stream yields those packets in order, each once, and then reports the end of the stream. Raw reading yields exactly the bytes of each packet; a stream that ends inside a packet, a malformed packet or one above the configured maximum gives an error, never a spin or a wrong packet, and writing puts exactly the packet's encoding on the stream. A read that is given up while it waits loses nothing.",
 ["inputs","schedules"],"every packet sequence and every segmentation of its bytes into reads",
 "The segmentation is decided by the network; tests on loopback nearly always see whole packets.",
 ["vaux-async/src/stream/packet.rs"],["PacketStream::read, read_raw, write, buffer growth"],[("buffer","bytes read and not yet decoded")],["PacketStream API"])
p("C25","The client's CONNECT says exactly what the client was configured with",
 "The first packet a started client sends is one CONNECT that carries the client identifier, clean start, keep alive in seconds, session expiry, credentials and will message (topic, payload, QoS, retain and every will property) the client was built with, and nothing that was not configured: what was not set is absent and its flag clear. The order of the builder's calls does not matter. A client whose keep alive is below 30 seconds is not built.",
 ["inputs"],"every configuration: each option set or left out, with every value, in every order of calls",
 "Some thirty options combine freely, most of them optional, and pass through four places (builder, client, session, packet) before they are bytes; tests build a few clients and never look at the CONNECT.",
 [K,"vaux-client/src/builder.rs","vaux-client/src/client.rs","vaux-client/src/connection.rs","vaux-mqtt/src/connect.rs"],["ClientSession::connect","ClientBuilder","MqttClient::start, ClientSession::new_from_client","Connect setters"],None,["the first packet on the wire"])
p("C26","Packets reach their consumer once and in order, submissions are sent in order",
 "Each received packet meant for the application is handed on exactly once, in the order of arrival, to the consumer registered for its packet type, or to the default consumer when there is none, however full the consumers' channels are; while one is full the client goes on sending what the application submits. What the application submits, directly or with ping, subscribe and stop, is taken in order and sent as submitted, save acknowledgements that the client makes itself.",
 ["schedules","histories"],"every sequence of packets, every choice of consumers and channel sizes, every interleaving of the client's task with reader and writer",
 "A lost, doubled or reordered packet needs a channel that is full at the moment a packet arrives while other packets wait on other channels; tests use one large channel.",
 ["vaux-client/src/client.rs","vaux-client/src/builder.rs"],["the task of MqttClient::start","forward_pending, qos_control","add_filtered_packet_handler","ping, subscribe, stop"],[("pending_forward","a packet read but not yet handed on")],["consumers' channels; packets sent"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
