"""The MQTT 5 wire format as this project's packets use it: the one table from which the
contracts of the codec unit and the tables of the native reference codec are generated.
Codes and field kinds come from the MQTT 5 specification, not from the code under test."""

PACKET_TYPES = [("Connect", 0x10), ("ConnAck", 0x20), ("Publish", 0x30), ("PubAck", 0x40), ("PubRec", 0x50),
                ("PubRel", 0x60), ("PubComp", 0x70), ("Subscribe", 0x80), ("SubAck", 0x90), ("Unsubscribe", 0xa0),
                ("UnsubAck", 0xb0), ("PingReq", 0xc0), ("PingResp", 0xd0), ("Disconnect", 0xe0), ("Auth", 0xf0)]
REASONS = [("Success", 0x00), ("GrantedQoS1", 0x01), ("GrantedQoS2", 0x02), ("DisconnectWillMsg", 0x04),
           ("NoSubscribers", 0x10), ("NoSubscriptionExisted", 0x11), ("ContinueAuth", 0x18), ("Reauthenticate", 0x19),
           ("UnspecifiedErr", 0x80), ("MalformedPacket", 0x81), ("ProtocolErr", 0x82), ("ImplementationErr", 0x83),
           ("UnsupportedProtocolVersion", 0x84), ("InvalidClientId", 0x85), ("AuthenticationErr", 0x86),
           ("NotAuthorized", 0x87), ("ServerUnavailable", 0x88), ("ServerBusy", 0x89), ("Banned", 0x8a),
           ("ServerShutdown", 0x8b), ("AuthMethodErr", 0x8c), ("KeepAliveTimeout", 0x8d), ("SessionTakeOver", 0x8e),
           ("InvalidTopicFilter", 0x8f), ("InvalidTopicName", 0x90), ("PacketIdInUse", 0x91), ("PacketIdNotFound", 0x92),
           ("ReceiveMaxExceeded", 0x93), ("InvalidTopicAlias", 0x94), ("PacketTooLarge", 0x95), ("MessageRate", 0x96),
           ("QuotaExceeded", 0x97), ("AdminAction", 0x98), ("PayloadFormatErr", 0x99), ("RetainUnsupported", 0x9a),
           ("QoSUnsupported", 0x9b), ("UseDiffServer", 0x9c), ("ServerMoved", 0x9d), ("SharedSubUnsupported", 0x9e),
           ("ConnRateExceeded", 0x9f), ("MaxConnectTime", 0xa0), ("SubIdUnsupported", 0xa1), ("WildcardSubUnsupported", 0xa2)]
QOS = [("AtMostOnce", 0), ("AtLeastOnce", 1), ("ExactlyOnce", 2)]
PAYLOAD_FORMAT = [("Bin", 0), ("Utf8", 1)]
RETAIN = [("Send", 0), ("SendNew", 1), ("None", 2)]
PROPERTIES = [("PayloadFormat", 0x01), ("MessageExpiry", 0x02), ("ContentType", 0x03), ("ResponseTopic", 0x08),
              ("CorrelationData", 0x09), ("SubscriptionIdentifier", 0x0b), ("SessionExpiryInterval", 0x11),
              ("AssignedClientId", 0x12), ("KeepAlive", 0x13), ("AuthMethod", 0x15), ("AuthData", 0x16),
              ("ReqProblemInfo", 0x17), ("WillDelay", 0x18), ("ReqRespInfo", 0x19), ("RespInfo", 0x1a),
              ("ServerReference", 0x1c), ("ReasonString", 0x1f), ("RecvMax", 0x21), ("TopicAliasMax", 0x22),
              ("TopicAlias", 0x23), ("MaxQoS", 0x24), ("RetainAvail", 0x25), ("UserProperty", 0x26),
              ("MaxPacketSize", 0x27), ("WildcardSubAvail", 0x28), ("SubIdAvail", 0x29), ("ShardSubAvail", 0x2a)]

# name: header fields, properties (struct order), payload
PACKETS = {
    "ConnAck": dict(
        hdr=[("ack_flags", "u8"), ("reason", "reason")],
        props=[("session_expiry_interval", "u32", 0x11), ("receive_maximum", "u16", 0x21), ("maximum_qos", "qos", 0x24),
               ("retain_available", "bool", 0x25), ("maximum_packet_size", "u32", 0x27), ("assigned_client_id", "str", 0x12),
               ("topic_alias_maximum", "u16", 0x22), ("reason_string", "str", 0x1f),
               ("subscription_identifier_available", "bool", 0x29), ("user_properties", "up", 0x26),
               ("wildcard_subscription_available", "bool", 0x28), ("shared_subscription_available", "bool", 0x2a),
               ("server_keep_alive", "u16", 0x13), ("response_information", "str", 0x1a), ("server_reference", "str", 0x1c),
               ("auth_method", "str", 0x15), ("auth_data", "bin", 0x16)],
        payload=None, fixed=True),
    "Connect": dict(
        hdr=[("protocol_name", "str"), ("protocol_version", "u8"), ("connect_flags", "u8"), ("keep_alive", "u16")],
        props=[("session_expiry_interval", "u32", 0x11), ("receive_maximum", "u16", 0x21), ("max_packet_size", "u32", 0x27),
               ("topic_alias_maximum", "u16", 0x22), ("request_response_info", "bool", 0x19),
               ("request_problem_info", "bool", 0x17), ("auth_method", "str", 0x15), ("auth_data", "bin", 0x16),
               ("user_properties", "up", 0x26)],
        payload="connect", fixed=True),
    "WillHeader": dict(
        hdr=[],
        props=[("will_delay", "u32", 0x18), ("payload_format", "pf", 0x01), ("message_expiry", "u32", 0x02),
               ("content_type", "str", 0x03), ("response_topic", "str", 0x08), ("correlation_data", "bin", 0x09),
               ("user_properties", "up", 0x26)],
        payload=None, fixed=False),
    "Publish": dict(
        hdr=[("topic_name", "str"), ("packet_id", "pid")],
        props=[("message_expiry", "u32", 0x02), ("payload_format", "pf", 0x01), ("topic_alias", "u16", 0x23),
               ("response_topic", "str", 0x08), ("correlation_data", "bin", 0x09), ("subscription_identifiers", "vbi", 0x0b),
               ("content_type", "str", 0x03), ("user_properties", "up", 0x26)],
        payload="rest", fixed=True),
    "PubResp": dict(
        hdr=[("packet_id", "u16"), ("reason", "oreason")],
        props=[("reason_desc", "str", 0x1f), ("user_properties", "up", 0x26)],
        payload=None, fixed=True, abbrev=True),
    "Disconnect": dict(
        hdr=[("reason", "reason")],
        props=[("session_expiry_interval", "u32", 0x11), ("reason_string", "str", 0x1f), ("server_reference", "str", 0x1c),
               ("user_properties", "up", 0x26)],
        payload=None, fixed=True, abbrev=True),
    "Subscribe": dict(
        hdr=[("packet_id", "u16")],
        props=[("subscription_id", "vbi", 0x0b), ("user_props", "up", 0x26)],
        payload=("list", "filter", "SubscriptionFilter"), fixed=True),
    "SubAck": dict(
        hdr=[("packet_id", "u16")],
        props=[("reason", "str", 0x1f), ("user_properties", "up", 0x26)],
        payload=("list", "reason_codes", "Reason"), fixed=True),
    "UnsubAck": dict(
        hdr=[("packet_id", "u16")],
        props=[("reason", "str1", 0x1f), ("user_properties", "up", 0x26)],
        payload=("list", "reason_code", "Reason"), fixed=True),
    "Unsubscribe": dict(
        hdr=[("packet_id", "u16")],
        props=[("props", "up", 0x26)],
        payload=("list", "topics", "String"), fixed=True),
}
