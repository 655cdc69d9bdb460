// Generated by tools/gen_table.py from tools/codec_table.py
#![allow(dead_code)]
pub const PACKET_TYPES: &[(&str, u8)] = &[("Connect", 16), ("ConnAck", 32), ("Publish", 48), ("PubAck", 64), ("PubRec", 80), ("PubRel", 96), ("PubComp", 112), ("Subscribe", 128), ("SubAck", 144), ("Unsubscribe", 160), ("UnsubAck", 176), ("PingReq", 192), ("PingResp", 208), ("Disconnect", 224), ("Auth", 240)];
pub const REASONS: &[(&str, u8)] = &[("Success", 0), ("GrantedQoS1", 1), ("GrantedQoS2", 2), ("DisconnectWillMsg", 4), ("NoSubscribers", 16), ("NoSubscriptionExisted", 17), ("ContinueAuth", 24), ("Reauthenticate", 25), ("UnspecifiedErr", 128), ("MalformedPacket", 129), ("ProtocolErr", 130), ("ImplementationErr", 131), ("UnsupportedProtocolVersion", 132), ("InvalidClientId", 133), ("AuthenticationErr", 134), ("NotAuthorized", 135), ("ServerUnavailable", 136), ("ServerBusy", 137), ("Banned", 138), ("ServerShutdown", 139), ("AuthMethodErr", 140), ("KeepAliveTimeout", 141), ("SessionTakeOver", 142), ("InvalidTopicFilter", 143), ("InvalidTopicName", 144), ("PacketIdInUse", 145), ("PacketIdNotFound", 146), ("ReceiveMaxExceeded", 147), ("InvalidTopicAlias", 148), ("PacketTooLarge", 149), ("MessageRate", 150), ("QuotaExceeded", 151), ("AdminAction", 152), ("PayloadFormatErr", 153), ("RetainUnsupported", 154), ("QoSUnsupported", 155), ("UseDiffServer", 156), ("ServerMoved", 157), ("SharedSubUnsupported", 158), ("ConnRateExceeded", 159), ("MaxConnectTime", 160), ("SubIdUnsupported", 161), ("WildcardSubUnsupported", 162)];
pub const QOS: &[(&str, u8)] = &[("AtMostOnce", 0), ("AtLeastOnce", 1), ("ExactlyOnce", 2)];
pub const PAYLOAD_FORMAT: &[(&str, u8)] = &[("Bin", 0), ("Utf8", 1)];
pub const RETAIN: &[(&str, u8)] = &[("Send", 0), ("SendNew", 1), ("None", 2)];
pub const PROPERTIES: &[(&str, u8)] = &[("PayloadFormat", 1), ("MessageExpiry", 2), ("ContentType", 3), ("ResponseTopic", 8), ("CorrelationData", 9), ("SubscriptionIdentifier", 11), ("SessionExpiryInterval", 17), ("AssignedClientId", 18), ("KeepAlive", 19), ("AuthMethod", 21), ("AuthData", 22), ("ReqProblemInfo", 23), ("WillDelay", 24), ("ReqRespInfo", 25), ("RespInfo", 26), ("ServerReference", 28), ("ReasonString", 31), ("RecvMax", 33), ("TopicAliasMax", 34), ("TopicAlias", 35), ("MaxQoS", 36), ("RetainAvail", 37), ("UserProperty", 38), ("MaxPacketSize", 39), ("WildcardSubAvail", 40), ("SubIdAvail", 41), ("ShardSubAvail", 42)];
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K { U16, U32, Bool, Qos, Pf, Str, Str1, Bin, Vbi, Up }
pub const P_CONNACK: &[(&str, K, u8)] = &[("session_expiry_interval", K::U32, 17), ("receive_maximum", K::U16, 33), ("maximum_qos", K::Qos, 36), ("retain_available", K::Bool, 37), ("maximum_packet_size", K::U32, 39), ("assigned_client_id", K::Str, 18), ("topic_alias_maximum", K::U16, 34), ("reason_string", K::Str, 31), ("subscription_identifier_available", K::Bool, 41), ("user_properties", K::Up, 38), ("wildcard_subscription_available", K::Bool, 40), ("shared_subscription_available", K::Bool, 42), ("server_keep_alive", K::U16, 19), ("response_information", K::Str, 26), ("server_reference", K::Str, 28), ("auth_method", K::Str, 21), ("auth_data", K::Bin, 22)];
pub const P_CONNECT: &[(&str, K, u8)] = &[("session_expiry_interval", K::U32, 17), ("receive_maximum", K::U16, 33), ("max_packet_size", K::U32, 39), ("topic_alias_maximum", K::U16, 34), ("request_response_info", K::Bool, 25), ("request_problem_info", K::Bool, 23), ("auth_method", K::Str, 21), ("auth_data", K::Bin, 22), ("user_properties", K::Up, 38)];
pub const P_WILLHEADER: &[(&str, K, u8)] = &[("will_delay", K::U32, 24), ("payload_format", K::Pf, 1), ("message_expiry", K::U32, 2), ("content_type", K::Str, 3), ("response_topic", K::Str, 8), ("correlation_data", K::Bin, 9), ("user_properties", K::Up, 38)];
pub const P_PUBLISH: &[(&str, K, u8)] = &[("message_expiry", K::U32, 2), ("payload_format", K::Pf, 1), ("topic_alias", K::U16, 35), ("response_topic", K::Str, 8), ("correlation_data", K::Bin, 9), ("subscription_identifiers", K::Vbi, 11), ("content_type", K::Str, 3), ("user_properties", K::Up, 38)];
pub const P_PUBRESP: &[(&str, K, u8)] = &[("reason_desc", K::Str, 31), ("user_properties", K::Up, 38)];
pub const P_DISCONNECT: &[(&str, K, u8)] = &[("session_expiry_interval", K::U32, 17), ("reason_string", K::Str, 31), ("server_reference", K::Str, 28), ("user_properties", K::Up, 38)];
pub const P_SUBSCRIBE: &[(&str, K, u8)] = &[("subscription_id", K::Vbi, 11), ("user_props", K::Up, 38)];
pub const P_SUBACK: &[(&str, K, u8)] = &[("reason", K::Str, 31), ("user_properties", K::Up, 38)];
pub const P_UNSUBACK: &[(&str, K, u8)] = &[("reason", K::Str1, 31), ("user_properties", K::Up, 38)];
pub const P_UNSUBSCRIBE: &[(&str, K, u8)] = &[("props", K::Up, 38)];
