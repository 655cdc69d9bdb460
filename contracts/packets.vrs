// ---- the packet types ----
//@item mqtt PingReq
//@item mqtt PingResp
//@item mqtt Connect
//@item mqtt ConnAck
//@item mqtt PubResp
//@item mqtt Disconnect
//@item mqtt SubscriptionFilter
//@item mqtt Subscribe
//@item mqtt SubAck
//@item mqtt Unsubscribe
//@item mqtt UnsubAck
//@item mqtt PubAck
//@item mqtt PubRec
//@item mqtt PubRel
//@item mqtt PubComp
//@item mqtt Packet
