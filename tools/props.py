"""What decides each property: the verified unit and its modules, and the bounded falsifier."""
import gen_codec, gen_rt

def codec():
    gen_codec.MODS.clear()
    return gen_codec.unit()
UNITS = {"codec": codec, "topic": gen_rt.topic, "broker": gen_rt.broker, "client": gen_rt.client, "stream": gen_rt.stream}
BASE = ["base", "prims", "enums", "kinds", "fixed", "lists"]
def pk(*ps): return [m for p in ps for m in (p, p + "_rt", p + "_pkt")]
ALLP = ["willheader", "connack", "connect", "publish", "pubresp", "disconnect", "subscribe", "suback", "unsuback", "unsubscribe"]
A64 = ["usize is 64 bits", "a buffer holds at most 2^63-1 bytes", "packets of 4 GiB and more of content are outside the size contracts"]

def C(modules, **k):
    return dict(unit="codec", srcs=["mqtt"], modules=modules, falsifier="codec", level="proof", assumptions=A64, **k)
PROPS = {
    "C01": C(["base", "prims"]),
    "C02": C(BASE + pk(*ALLP) + ["top"]),
    "C03": C(BASE + pk(*ALLP) + ["top"]),
    "C04": C(BASE + pk(*ALLP)),
    "C05": C(BASE + pk("publish")),
    "C06": C(BASE + pk("willheader", "connect")),
    "C07": C(BASE + pk("pubresp") + ["resp"]),
    "C08": C(BASE + pk("subscribe", "suback", "unsuback", "unsubscribe") + ["reqs"]),
    "C09": C(BASE + pk("connack", "disconnect") + ["top"]),
    "C10": C(BASE + pk(*ALLP)),
    "C11": C(["base", "prims", "enums", "fixed"]),
    "C12": C(["base", "prims", "enums", "fixed", "acc"]),
}
def T(unit, modules, falsifier, srcs, level="proof", assumptions=[], **k):
    modules = ["rt"] + modules
    return dict(unit=unit, srcs=srcs, modules=modules, falsifier=falsifier, level=level, assumptions=["usize is 64 bits"] + assumptions, **k)
TOPIC = ["a published topic name has no wildcard level", "the topic tree has fewer than 2^32 nodes", "the contracts of String, Vec, HashMap and split in contracts/rt.vrs"]
PROPS.update({
    "C13": T("topic", ["topic"], "broker", ["mqtt", "broker"], assumptions=TOPIC),
    "C14": T("topic", ["topic"], "broker", ["mqtt", "broker"], assumptions=TOPIC),
})

SESS = ["no other task changes the session table or a session while one broker function runs (locks are taken as borrows)", "the contracts of String, Vec, HashMap, Arc, RwLock, channels and time in contracts/rt.vrs and session.vrs"]
def B(roots, modules, extra=[], tagged=None): return T("broker", modules, "broker", ["mqtt", "broker"], assumptions=SESS + extra, roots=roots, tagged=tagged)
STEP = ["other connections run between the steps of a connection, one step being one turn of its loop"]
SERVE = r"serve_client$|handle_client$"
PROPS.update({
    "C15": B(r"^SessionPool::|handle_connect$|deactivate_session$|^BrokerState::new$|^Broker::new_with_config$", ["session", "conn"], STEP, SERVE),
    "C16": B(r"^Session::(next_packet_id|track_qos_publish|acknowledge|pending_ack_count|drain_pending)$", ["session", "conn"], ["a client has fewer than 65,535 messages pending (MQTT 5 leaves no identifier beyond that)"] + STEP, SERVE),
    "C17": B(r"route_publish$", ["message", "topic", "session", "broker", "conn"], TOPIC[:2] + STEP, SERVE),
    "C18": B(r"handle_(un)?subscribe$", ["topic", "broker", "conn"], TOPIC[:2] + STEP, SERVE),
    "C19": B(r"handle_connect$|handle_pre_connect$|^BrokerState::new$|^Broker::(new_with_config|set_session_expiration)$", ["session", "topic", "conn"], STEP, SERVE),
    "C20": B(r"publish_will$|initiate_will$|release_session$|taken_over$|will_message$|^WillMessage::", ["message", "session", "broker", "conn"], TOPIC[:1] + STEP, SERVE + "|handle_connect$"),
})
def K(roots, tagged=None): return T("client", ["message", "client", "capp"], "client", ["mqtt", "client"], assumptions=["one call of the client session at a time (it is owned by one task)", "opening the transport (MqttConnection::connect_with_timeout, TLS) and the time limit of try_start are not under contract", "select! takes up any ready branch whose guard holds; a branch that is not taken is dropped without effect", "the contracts of HashMap, Arc, RwLock, Mutex, the packet stream and time in contracts/client.vrs and rt.vrs"], roots=roots, tagged=tagged)
PROPS.update({
    "C21": K(r"write_next$|update_send_remaining$|SessionState::new$", r"handle_packet$|handle_connack$|track_sent_ack$|handle_recv_publish$"),
    "C22": K(r"handle_packet$|handle_recv_publish$|track_sent_ack$|QoSPacketState::", r"write_next$"),
    "C23": K(r"handle_connack$|::keep_alive$|session_expiry$|::connected$|end_session$|ClientSession::connect$", r"MqttClient::start$"),
    "C25": K(r"ClientSession::connect$|^ClientBuilder::|MqttClient::start$|new_from_client$|new_with_connection$|^MqttConnection::|^Connect::set_|set_will_message$"),
    "C26": K(r"forward_pending$|qos_control$|add_filtered_packet_handler$|with_filtered_consumer$|ClientBuilder::build$|MqttClient::(ping|subscribe|stop|start)$|^PacketChannel::|packet_producer$|take_packet_consumer$", r"write_next$|handle_packet$"),
    "C24": T("stream", ["stream"], "stream", ["async"], assumptions=["decode meets its contract in contracts/stream.vrs (the same statement is proved of the real decode by C02, module top)", "a configured maximum is at most usize::MAX / 2", "the contracts of Vec, BytesMut, Bytes and the transport in contracts/stream.vrs"]),
})
