// ---- acknowledgements
pub open spec fn resp(t: PacketType, id: u16) -> PubResp { PubResp { fixed_header: fh_new(t), packet_id: id, ..PubResp::dflt() } }
impl PubResp {
//@fn mqtt PubResp::new_puback_with_packet_id
    ensures r == resp(PacketType::PubAck, packet_id),
//@end
//@fn mqtt PubResp::new_pubrec_with_packet_id
    ensures r == resp(PacketType::PubRec, packet_id),
//@end
//@fn mqtt PubResp::new_pubrel_with_packet_id
    ensures r == resp(PacketType::PubRel, packet_id),
//@end
//@fn mqtt PubResp::new_pubcomp_with_packet_id
    ensures r == resp(PacketType::PubComp, packet_id),
//@end
//@fn mqtt PubResp::reason
    ensures r == self.reason,
//@end
//@fn mqtt PubResp::supported_reason
    ensures allowed_reason(self.fixed_header.packet_type, reason) ==> r,
//@end
//@fn mqtt PubResp::set_reason
    ensures *final(self) == (if r is Ok { PubResp { reason: Some(reason), ..*old(self) } } else { *old(self) }), allowed_reason(old(self).fixed_header.packet_type, reason) ==> r is Ok,
//@end
}
/// MQTT 5, 3.4.2.1, 3.5.2.1, 3.6.2.1, 3.7.2.1
pub open spec fn allowed_reason(t: PacketType, x: Reason) -> bool {
    match t {
        PacketType::PubAck | PacketType::PubRec => { let c = x.code(); c == 0 || c == 0x10 || c == 0x80 || c == 0x83 || c == 0x87 || c == 0x90 || c == 0x91 || c == 0x97 || c == 0x99 },
        PacketType::PubRel | PacketType::PubComp => x.code() == 0 || x.code() == 0x92,
        _ => false,
    }
}

