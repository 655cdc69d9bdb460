// ================================================================ C12: flags and builders
pub fn vx_ok_or<T, E>(o: Result<T, E>, d: T) -> (r: T)
    ensures r == (match o { Ok(v) => v, Err(_) => d })
{ match o { Ok(v) => v, Err(_) => d } }
// ---- CONNECT flags
pub open spec fn cf_clean(f: u8) -> bool { (f / 2) % 2 == 1 }
pub open spec fn cf_wretain(f: u8) -> bool { (f / 32) % 2 == 1 }
pub open spec fn cf_wqos(f: u8) -> u8 { (f / 8) % 4 }
/// the flags of a and b agree, all but the one named
pub enum Cf { Clean, Will, WillQoS, WillRetain, Password, Username }
pub open spec fn cf_same(a: u8, b: u8, but: Cf) -> bool {
    a % 2 == b % 2 && (but is Clean || cf_clean(a) == cf_clean(b)) && (but is Will || cf_will(a) == cf_will(b)) && (but is WillQoS || cf_wqos(a) == cf_wqos(b))
    && (but is WillRetain || cf_wretain(a) == cf_wretain(b)) && (but is Password || cf_pass(a) == cf_pass(b)) && (but is Username || cf_user(a) == cf_user(b))
}
pub open spec fn cf_all(p: u8, u: u8, f: u8, r: u8, q: u8, w: u8, c: u8, z: u8) -> u8 { (u * 128 + p * 64 + r * 32 + q * 8 + w * 4 + c * 2 + z) as u8 }
pub proof fn cf_set(f: u8, d: u8)
    ensures
        d < 2 ==> ({ let g = (f & !2u8) | d << 1u8; (g / 2) % 2 == d && cf_same(g, f, Cf::Clean) }),
        d < 2 ==> ({ let g = (f & !4u8) | d << 2u8; (g / 4) % 2 == d && cf_same(g, f, Cf::Will) }),
        d < 3 ==> ({ let g = (f & !0x18u8) | d << 3u8; cf_wqos(g) == d && cf_same(g, f, Cf::WillQoS) }),
        d < 2 ==> ({ let g = (f & !0x20u8) | d << 5u8; (g / 32) % 2 == d && cf_same(g, f, Cf::WillRetain) }),
        ({ let g = f & !0x80u8; !cf_user(g) && cf_same(g, f, Cf::Username) }), ({ let g = (f & !0x80u8) | 1u8 << 7u8; cf_user(g) && cf_same(g, f, Cf::Username) }),
        ({ let g = f & !0x40u8; !cf_pass(g) && cf_same(g, f, Cf::Password) }), ({ let g = (f & !0x40u8) | 1u8 << 6u8; cf_pass(g) && cf_same(g, f, Cf::Password) }),
{
    assert(d < 2 ==> ({ let g = (f & !2u8) | d << 1u8; (g / 2) % 2 == d && g % 2 == f % 2 && (g / 4) % 2 == (f / 4) % 2 && (g / 8) % 4 == (f / 8) % 4 && (g / 32) % 2 == (f / 32) % 2 && (g / 64) % 2 == (f / 64) % 2 && (g / 128) % 2 == (f / 128) % 2 })) by (bit_vector);
    assert(d < 2 ==> ({ let g = (f & !4u8) | d << 2u8; (g / 4) % 2 == d && g % 2 == f % 2 && (g / 2) % 2 == (f / 2) % 2 && (g / 8) % 4 == (f / 8) % 4 && (g / 32) % 2 == (f / 32) % 2 && (g / 64) % 2 == (f / 64) % 2 && (g / 128) % 2 == (f / 128) % 2 })) by (bit_vector);
    assert(d < 3 ==> ({ let g = (f & !0x18u8) | d << 3u8; (g / 8) % 4 == d && g % 2 == f % 2 && (g / 2) % 2 == (f / 2) % 2 && (g / 4) % 2 == (f / 4) % 2 && (g / 32) % 2 == (f / 32) % 2 && (g / 64) % 2 == (f / 64) % 2 && (g / 128) % 2 == (f / 128) % 2 })) by (bit_vector);
    assert(d < 2 ==> ({ let g = (f & !0x20u8) | d << 5u8; (g / 32) % 2 == d && g % 2 == f % 2 && (g / 2) % 2 == (f / 2) % 2 && (g / 4) % 2 == (f / 4) % 2 && (g / 8) % 4 == (f / 8) % 4 && (g / 64) % 2 == (f / 64) % 2 && (g / 128) % 2 == (f / 128) % 2 })) by (bit_vector);
    assert({ let g = f & !0x80u8; (g / 128) % 2 == 0 && g % 2 == f % 2 && (g / 2) % 2 == (f / 2) % 2 && (g / 4) % 2 == (f / 4) % 2 && (g / 8) % 4 == (f / 8) % 4 && (g / 32) % 2 == (f / 32) % 2 && (g / 64) % 2 == (f / 64) % 2 }) by (bit_vector);
    assert({ let g = (f & !0x80u8) | 1u8 << 7u8; (g / 128) % 2 == 1 && g % 2 == f % 2 && (g / 2) % 2 == (f / 2) % 2 && (g / 4) % 2 == (f / 4) % 2 && (g / 8) % 4 == (f / 8) % 4 && (g / 32) % 2 == (f / 32) % 2 && (g / 64) % 2 == (f / 64) % 2 }) by (bit_vector);
    assert({ let g = f & !0x40u8; (g / 64) % 2 == 0 && g % 2 == f % 2 && (g / 2) % 2 == (f / 2) % 2 && (g / 4) % 2 == (f / 4) % 2 && (g / 8) % 4 == (f / 8) % 4 && (g / 32) % 2 == (f / 32) % 2 && (g / 128) % 2 == (f / 128) % 2 }) by (bit_vector);
    assert({ let g = (f & !0x40u8) | 1u8 << 6u8; (g / 64) % 2 == 1 && g % 2 == f % 2 && (g / 2) % 2 == (f / 2) % 2 && (g / 4) % 2 == (f / 4) % 2 && (g / 8) % 4 == (f / 8) % 4 && (g / 32) % 2 == (f / 32) % 2 && (g / 128) % 2 == (f / 128) % 2 }) by (bit_vector);
}
pub open spec fn will_flags_ok(p: Connect) -> bool {
    (p.will_properties is Some <==> cf_will(p.connect_flags)) && (p.will_topic is Some <==> cf_will(p.connect_flags)) && (p.will_payload is Some <==> cf_will(p.connect_flags))
}
//@item mqtt WillMessage
impl Connect {
//@fn mqtt Connect::clean_start
    ensures r == cf_clean(self.connect_flags),
//@start
    proof { cf_bits(self.connect_flags); }
//@end
//@fn mqtt Connect::set_clean_start
    ensures *final(self) == (Connect { connect_flags: final(self).connect_flags, ..*old(self) }), cf_clean(final(self).connect_flags) == clean_start, cf_same(final(self).connect_flags, old(self).connect_flags, Cf::Clean),
//@start
    proof { cf_set(self.connect_flags, if clean_start { 1 } else { 0 }); }
//@end
//@fn mqtt Connect::will_retain
    ensures r == cf_wretain(self.connect_flags),
//@start
    proof { cf_bits(self.connect_flags); }
//@end
//@fn mqtt Connect::set_will_retain
    ensures *final(self) == (Connect { connect_flags: final(self).connect_flags, ..*old(self) }), cf_wretain(final(self).connect_flags) == will_retain, cf_same(final(self).connect_flags, old(self).connect_flags, Cf::WillRetain),
//@start
    proof { cf_set(self.connect_flags, if will_retain { 1 } else { 0 }); }
//@end
//@fn mqtt Connect::will_qos
    ensures r is Ok <==> cf_wqos(self.connect_flags) < 3, r matches Ok(q) ==> q.code() == cf_wqos(self.connect_flags),
//@start
    proof { cf_bits(self.connect_flags); qoslevel_only(cf_wqos(self.connect_flags)); }
//@end
//@fn mqtt Connect::set_will_qos
    ensures *final(self) == (Connect { connect_flags: final(self).connect_flags, ..*old(self) }), cf_wqos(final(self).connect_flags) == qos.code(), cf_same(final(self).connect_flags, old(self).connect_flags, Cf::WillQoS),
//@start
    proof { qoslevel_code(qos); cf_set(self.connect_flags, qos.code()); }
//@end
//@fn mqtt Connect::set_will
    ensures *final(self) == (Connect { connect_flags: final(self).connect_flags, ..*old(self) }), cf_will(final(self).connect_flags) == will, cf_same(final(self).connect_flags, old(self).connect_flags, Cf::Will),
//@start
    proof { cf_set(self.connect_flags, if will { 1 } else { 0 }); }
//@end
//@fn mqtt Connect::set_username
    ensures *final(self) == (Connect { connect_flags: final(self).connect_flags, username: username, ..*old(self) }), cf_user(final(self).connect_flags) == username is Some,
        cf_same(final(self).connect_flags, old(self).connect_flags, Cf::Username), Connect_flags_ok(*old(self)) ==> Connect_flags_ok(*final(self)),
//@start
    proof { cf_set(self.connect_flags, 0); }
//@end
//@fn mqtt Connect::set_password
    ensures *final(self) == (Connect { connect_flags: final(self).connect_flags, password: password, ..*old(self) }), cf_pass(final(self).connect_flags) == password is Some,
        cf_same(final(self).connect_flags, old(self).connect_flags, Cf::Password), Connect_flags_ok(*old(self)) ==> Connect_flags_ok(*final(self)),
//@start
    proof { cf_set(self.connect_flags, 0); }
//@end
//@fn mqtt Connect::set_session_expiry_interval
    ensures *final(self) == (Connect { session_expiry_interval: if interval == 0 { None } else { Some(interval) }, ..*old(self) }),
//@end
//@fn mqtt Connect::set_will_message
    ensures *final(self) == (Connect { connect_flags: final(self).connect_flags, will_topic: Some(will.topic), will_payload: Some(Vec::of(will.payload@)), will_properties: Some(will.header), ..*old(self) }),
        cf_will(final(self).connect_flags), cf_wqos(final(self).connect_flags) == will.qos.code(), cf_wretain(final(self).connect_flags) == will.retain,
        cf_clean(final(self).connect_flags) == cf_clean(old(self).connect_flags), cf_user(final(self).connect_flags) == cf_user(old(self).connect_flags), cf_pass(final(self).connect_flags) == cf_pass(old(self).connect_flags),
        Connect_flags_ok(*old(self)) ==> Connect_flags_ok(*final(self)),
//@end
}
/// a CONNECT as built has flags that agree with its payload
pub proof fn connect_new_ok(c: String) ensures Connect_flags_ok(connect_new(c)) { }

// ---- CONNACK
impl ConnAck {
//@fn mqtt ConnAck::session_present
    ensures r == (self.ack_flags % 2 == 1),
//@start
    proof { let f = self.ack_flags; assert((f & 1 != 0) == (f % 2 == 1)) by (bit_vector); }
//@end
//@fn mqtt ConnAck::set_session_present
    ensures *final(self) == (ConnAck { ack_flags: final(self).ack_flags, ..*old(self) }), final(self).ack_flags % 2 == (if present { 1u8 } else { 0 }), final(self).ack_flags / 2 == old(self).ack_flags / 2,
//@start
    proof { let f = self.ack_flags; assert((f | 1) % 2 == 1 && (f | 1) / 2 == f / 2) by (bit_vector); assert((f & !1u8) % 2 == 0 && (f & !1u8) / 2 == f / 2) by (bit_vector); }
//@end
//@fn mqtt ConnAck::set_session_expiry
    ensures *final(self) == (ConnAck { session_expiry_interval: if interval == 0 { None } else { Some(interval) }, ..*old(self) }),
//@end
//@fn mqtt ConnAck::set_server_keep_alive
    ensures *final(self) == (ConnAck { server_keep_alive: if keep_alive == 0 { None } else { Some(keep_alive) }, ..*old(self) }),
//@end
//@fn mqtt ConnAck::receive_max
    ensures r == self.receive_maximum,
//@end
//@fn mqtt ConnAck::set_receive_max
    ensures *final(self) == (ConnAck { receive_maximum: if max == 0 { None } else { Some(max) }, ..*old(self) }),
//@end
}

// ---- subscription options
pub open spec fn so_qos(o: u8) -> u8 { o % 4 }
pub open spec fn so_nl(o: u8) -> bool { (o / 4) % 2 == 1 }
pub open spec fn so_rap(o: u8) -> bool { (o / 8) % 2 == 1 }
pub open spec fn so_rh(o: u8) -> u8 { (o / 16) % 4 }
pub enum So { QoS, NoLocal, Rap, Rh }
pub open spec fn so_same(a: u8, b: u8, but: So) -> bool {
    a / 64 == b / 64 && (but is QoS || so_qos(a) == so_qos(b)) && (but is NoLocal || so_nl(a) == so_nl(b)) && (but is Rap || so_rap(a) == so_rap(b)) && (but is Rh || so_rh(a) == so_rh(b))
}
pub proof fn so_bits(o: u8, d: u8)
    ensures o & 3 == o % 4, (o & 4 != 0) == so_nl(o), (o & 8 != 0) == so_rap(o), (o & 0x30) >> 4u8 == so_rh(o),
        d < 3 ==> ({ let g = (o & !3u8) | (d & 3); so_qos(g) == d && so_same(g, o, So::QoS) }),
        d < 2 ==> ({ let g = (o & !4u8) | (d << 2u8); so_nl(g) == (d == 1) && so_same(g, o, So::NoLocal) }),
        d < 2 ==> ({ let g = (o & !8u8) | (d << 3u8); so_rap(g) == (d == 1) && so_same(g, o, So::Rap) }),
        d < 3 ==> ({ let g = (o & !0x30u8) | (d << 4u8); so_rh(g) == d && so_same(g, o, So::Rh) }),
{
    assert(o & 3 == o % 4 && (o & 4 != 0) == ((o / 4) % 2 == 1) && (o & 8 != 0) == ((o / 8) % 2 == 1) && (o & 0x30) >> 4u8 == (o / 16) % 4) by (bit_vector);
    assert(d < 3 ==> ({ let g = (o & !3u8) | (d & 3); g % 4 == d && g / 64 == o / 64 && (g / 4) % 2 == (o / 4) % 2 && (g / 8) % 2 == (o / 8) % 2 && (g / 16) % 4 == (o / 16) % 4 })) by (bit_vector);
    assert(d < 2 ==> ({ let g = (o & !4u8) | (d << 2u8); (g / 4) % 2 == d && g / 64 == o / 64 && g % 4 == o % 4 && (g / 8) % 2 == (o / 8) % 2 && (g / 16) % 4 == (o / 16) % 4 })) by (bit_vector);
    assert(d < 2 ==> ({ let g = (o & !8u8) | (d << 3u8); (g / 8) % 2 == d && g / 64 == o / 64 && g % 4 == o % 4 && (g / 4) % 2 == (o / 4) % 2 && (g / 16) % 4 == (o / 16) % 4 })) by (bit_vector);
    assert(d < 3 ==> ({ let g = (o & !0x30u8) | (d << 4u8); (g / 16) % 4 == d && g / 64 == o / 64 && g % 4 == o % 4 && (g / 4) % 2 == (o / 4) % 2 && (g / 8) % 2 == (o / 8) % 2 })) by (bit_vector);
}
impl SubscriptionFilter {
//@fn mqtt SubscriptionFilter::new
    ensures r == (SubscriptionFilter { filter, options: qos.code() }),
//@start
    proof { qoslevel_code(qos); let d = qos.code(); assert(d < 3 ==> (0u8 & !3u8) | (d & 3) == d) by (bit_vector); }
//@end
//@fn mqtt SubscriptionFilter::qos
    ensures so_qos(self.options) < 3 ==> r.code() == so_qos(self.options), so_qos(self.options) == 3 ==> r == QoSLevel::AtMostOnce,
//@start
    proof { so_bits(self.options, 0); qoslevel_only(so_qos(self.options)); }
//@end
//@fn mqtt SubscriptionFilter::set_qos
    ensures *final(self) == (SubscriptionFilter { options: final(self).options, ..*old(self) }), so_qos(final(self).options) == qos.code(), so_same(final(self).options, old(self).options, So::QoS),
        final(self).options == ((old(self).options & !3u8) | (qos.code() & 3)),
//@start
    proof { qoslevel_code(qos); so_bits(self.options, qos.code()); }
//@end
//@fn mqtt SubscriptionFilter::with_qos
    ensures r == (SubscriptionFilter { options: r.options, ..self }), so_qos(r.options) == qos.code(), so_same(r.options, self.options, So::QoS),
//@end
//@fn mqtt SubscriptionFilter::no_local
    ensures r == so_nl(self.options),
//@start
    proof { so_bits(self.options, 0); }
//@end
//@fn mqtt SubscriptionFilter::set_no_local
    ensures *final(self) == (SubscriptionFilter { options: final(self).options, ..*old(self) }), so_nl(final(self).options) == no_local, so_same(final(self).options, old(self).options, So::NoLocal),
//@start
    proof { so_bits(self.options, if no_local { 1 } else { 0 }); }
//@end
//@fn mqtt SubscriptionFilter::retain_as_published
    ensures r == so_rap(self.options),
//@start
    proof { so_bits(self.options, 0); }
//@end
//@fn mqtt SubscriptionFilter::set_retain_as_published
    ensures *final(self) == (SubscriptionFilter { options: final(self).options, ..*old(self) }), so_rap(final(self).options) == rap, so_same(final(self).options, old(self).options, So::Rap),
//@start
    proof { so_bits(self.options, if rap { 1 } else { 0 }); }
//@end
//@fn mqtt SubscriptionFilter::retain_handling
    ensures so_rh(self.options) < 3 ==> r.code() == so_rh(self.options), so_rh(self.options) == 3 ==> r == RetainHandling::Send,
//@start
    proof { so_bits(self.options, 0); retainhandling_only(so_rh(self.options)); }
//@end
//@fn mqtt SubscriptionFilter::set_retain_handling
    ensures *final(self) == (SubscriptionFilter { options: final(self).options, ..*old(self) }), so_rh(final(self).options) == retain.code(), so_same(final(self).options, old(self).options, So::Rh),
//@start
    proof { retainhandling_code(retain); so_bits(self.options, retain.code()); }
//@end
}

// ---- PUBLISH: QoS 0 has neither a packet identifier nor the duplicate flag
pub open spec fn pub_ok(p: Publish) -> bool { fh_inv(p.fixed_header) && (fh_qos(p.fixed_header) == 0 ==> p.packet_id is None && !fh_dup(p.fixed_header)) }
/// everything but the header flags, the identifier and the payload format
pub open spec fn pub_rest(p: Publish, o: Publish) -> bool {
    p == (Publish { fixed_header: p.fixed_header, packet_id: p.packet_id, ..o }) && p.fixed_header.packet_type == o.fixed_header.packet_type
}
impl Publish {
//@fn mqtt Publish::new_with_payload
    ensures r is Ok <==> (packet_id is Some <==> qos_level != QoSLevel::AtMostOnce),
        r matches Ok(p) ==> pub_ok(p) && p.topic_name == topic && p.packet_id == packet_id && p.payload == Some(Bytes::of(payload@)) && fh_qos(p.fixed_header) == qos_level.code()
            && !fh_dup(p.fixed_header) && !fh_retain(p.fixed_header) && p.fixed_header.packet_type == PacketType::Publish && p.payload_format is None
            && p == (Publish { fixed_header: p.fixed_header, topic_name: topic, packet_id, payload: p.payload, ..Publish::dflt() }),
//@end
//@fn mqtt Publish::new_with_message | mapres
    ensures r is Ok <==> (packet_id is Some <==> qos_level != QoSLevel::AtMostOnce),
        r matches Ok(p) ==> pub_ok(p) && p.topic_name == topic && p.packet_id == packet_id && p.payload == Some(Bytes::of(message@)) && fh_qos(p.fixed_header) == qos_level.code()
            && !fh_dup(p.fixed_header) && !fh_retain(p.fixed_header) && p.payload_format == Some(PayloadFormat::Utf8),
//@end
//@fn mqtt Publish::qos
    requires fh_inv(self.fixed_header)
    ensures r.code() == fh_qos(self.fixed_header), QoSLevel::tf(fh_qos(self.fixed_header)) == Some(r),
//@end
//@fn mqtt Publish::set_qos
    ensures pub_rest(*final(self), *old(self)), fh_qos(final(self).fixed_header) == qos.code(), final(self).packet_id == (if qos == QoSLevel::AtMostOnce { None } else { old(self).packet_id }),
        fh_dup(final(self).fixed_header) == (fh_dup(old(self).fixed_header) && qos != QoSLevel::AtMostOnce), fh_retain(final(self).fixed_header) == fh_retain(old(self).fixed_header), pub_ok(*final(self)),
        final(self).fixed_header.flags / 16 == old(self).fixed_header.flags / 16,
//@start
    proof { qoslevel_code(qos); }
//@end
//@fn mqtt Publish::with_qos
    ensures pub_rest(r, self), fh_qos(r.fixed_header) == qos.code(), r.packet_id == (if qos == QoSLevel::AtMostOnce { None } else { self.packet_id }),
        fh_dup(r.fixed_header) == (fh_dup(self.fixed_header) && qos != QoSLevel::AtMostOnce), fh_retain(r.fixed_header) == fh_retain(self.fixed_header), pub_ok(r),
        r.fixed_header.flags / 16 == self.fixed_header.flags / 16,
//@end
//@fn mqtt Publish::dup
    ensures r == fh_dup(self.fixed_header),
//@end
//@fn mqtt Publish::set_dup
    requires fh_inv(old(self).fixed_header)
    ensures r is Ok <==> !(fh_qos(old(self).fixed_header) == 0 && dup), r is Err ==> *final(self) == *old(self),
        r is Ok ==> fh_dup(final(self).fixed_header) == dup && pub_rest(*final(self), *old(self)) && final(self).packet_id == old(self).packet_id && fh_qos(final(self).fixed_header) == fh_qos(old(self).fixed_header)
            && fh_retain(final(self).fixed_header) == fh_retain(old(self).fixed_header) && final(self).fixed_header.flags / 16 == old(self).fixed_header.flags / 16,
        pub_ok(*old(self)) ==> pub_ok(*final(self)),
//@end
//@fn mqtt Publish::with_dup
    requires fh_inv(self.fixed_header)
    ensures r is Ok <==> !(fh_qos(self.fixed_header) == 0 && dup),
        r matches Ok(p) ==> fh_dup(p.fixed_header) == dup && pub_rest(p, self) && p.packet_id == self.packet_id && fh_qos(p.fixed_header) == fh_qos(self.fixed_header)
            && fh_retain(p.fixed_header) == fh_retain(self.fixed_header) && p.fixed_header.flags / 16 == self.fixed_header.flags / 16 && (pub_ok(self) ==> pub_ok(p)),
//@end
//@fn mqtt Publish::retain
    ensures r == fh_retain(self.fixed_header),
//@end
//@fn mqtt Publish::set_retain
    ensures pub_rest(*final(self), *old(self)), final(self).packet_id == old(self).packet_id, fh_retain(final(self).fixed_header) == retain, fh_dup(final(self).fixed_header) == fh_dup(old(self).fixed_header),
        fh_qos(final(self).fixed_header) == fh_qos(old(self).fixed_header), final(self).fixed_header.flags / 16 == old(self).fixed_header.flags / 16, pub_ok(*old(self)) ==> pub_ok(*final(self)),
//@end
//@fn mqtt Publish::with_retain
    ensures pub_rest(r, self), r.packet_id == self.packet_id, fh_retain(r.fixed_header) == retain, fh_dup(r.fixed_header) == fh_dup(self.fixed_header),
        fh_qos(r.fixed_header) == fh_qos(self.fixed_header), r.fixed_header.flags / 16 == self.fixed_header.flags / 16, pub_ok(self) ==> pub_ok(r),
//@end
//@fn mqtt Publish::packet_id
    ensures r == self.packet_id,
//@end
//@fn mqtt Publish::set_packet_id
    requires fh_inv(old(self).fixed_header)
    ensures r is Ok <==> fh_qos(old(self).fixed_header) != 0, *final(self) == (if r is Ok { Publish { packet_id: id, ..*old(self) } } else { *old(self) }), pub_ok(*old(self)) ==> pub_ok(*final(self)),
//@end
//@fn mqtt Publish::with_packet_id
    requires fh_inv(self.fixed_header)
    ensures r is Ok <==> fh_qos(self.fixed_header) != 0, r matches Ok(p) ==> p == (Publish { packet_id: id, ..self }) && (pub_ok(self) ==> pub_ok(p)),
//@end
//@fn mqtt Publish::with_topic_alias
    ensures r == (Publish { topic_alias: Some(alias), ..self }), pub_ok(self) ==> pub_ok(r),
//@end
//@fn mqtt Publish::set_payload_format
    ensures *final(self) == (Publish { payload_format: if format == PayloadFormat::Bin { None } else { Some(format) }, ..*old(self) }), pub_ok(*old(self)) ==> pub_ok(*final(self)),
//@end
//@fn mqtt Publish::with_payload_format
    ensures r == (Publish { payload_format: if format == PayloadFormat::Bin { None } else { Some(format) }, ..self }), pub_ok(self) ==> pub_ok(r),
//@end
}

