// ---- messages as the broker and the client handle them ----
//@item mqtt FixedHeader | #[derive(Debug)]
//@item mqtt ErrorKind
//@item mqtt MqttCodecError
//@item mqtt UserProperty
//@item mqtt Publish
//@item mqtt WillHeader
//@item mqtt WillMessage
//@consts mqtt
//@assoc mqtt Reason
#[verifier::external]
impl core::fmt::Debug for MqttCodecError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl MqttCodecError {
    #[verifier::external_body]
    pub fn new(reason: &String) -> (r: MqttCodecError) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_with_kind(reason: &String, kind: ErrorKind) -> (r: MqttCodecError) ensures r.kind == kind { unimplemented!() }
}
/// A payload: its bytes.
pub struct Bytes { pub s: Ghost<Seq<u8>> }
impl Bytes { pub open spec fn view(&self) -> Seq<u8> { self.s@ } }
/// clone() of library types and of derived Clone yields an equal value
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> Self { unimplemented!() } }
impl QoSLevel { pub open spec fn code(self) -> u8 { match self { QoSLevel::AtMostOnce => 0, QoSLevel::AtLeastOnce => 1, QoSLevel::ExactlyOnce => 2 } } }
pub proof fn qoslevel_code(q: QoSLevel) ensures q as u8 == q.code(), q.code() < 3 { }
impl TryFrom<u8> for QoSLevel {
    type Error = MqttCodecError;
    open spec fn tf(s: u8) -> Option<QoSLevel> { if s == 0 { Some(QoSLevel::AtMostOnce) } else if s == 1 { Some(QoSLevel::AtLeastOnce) } else if s == 2 { Some(QoSLevel::ExactlyOnce) } else { None } }
//@fn mqtt TryFrom<u8> for QoSLevel::try_from | as=vx_try_from
//@end
}
pub open spec fn fh_new(pt: PacketType) -> FixedHeader {
    FixedHeader { packet_type: pt, flags: match pt { PacketType::PubRel | PacketType::Subscribe | PacketType::Unsubscribe => 2u8, _ => 0u8 } }
}
pub open spec fn fh_qos(h: FixedHeader) -> u8 { (h.flags / 2) % 4 }
pub open spec fn fh_inv(h: FixedHeader) -> bool { fh_qos(h) != 3 }
pub open spec fn fh_dup(h: FixedHeader) -> bool { (h.flags / 8) % 2 == 1 }
pub open spec fn fh_retain(h: FixedHeader) -> bool { h.flags % 2 == 1 }
pub proof fn fh_bits(f: u8)
    ensures f & 0x0f == f % 16, f & 0xf0 == f / 16 * 16, (f & 6) >> 1u8 == (f / 2) % 4, ((f & 6) == 6) == ((f / 2) % 4 == 3), ((f & 8) != 0) == ((f / 8) % 2 == 1), ((f & 1) != 0) == (f % 2 == 1), f % 16 < 16,
        ((f % 16) / 2) % 4 == (f / 2) % 4,
{
    assert(f & 0x0f == f % 16) by (bit_vector);
    assert(f & 0xf0 == f / 16 * 16) by (bit_vector);
    assert((f & 6) >> 1u8 == (f / 2) % 4) by (bit_vector);
    assert(((f & 6) == 6) == ((f / 2) % 4 == 3)) by (bit_vector);
    assert(((f & 8) != 0) == ((f / 8) % 2 == 1)) by (bit_vector);
    assert(((f & 1) != 0) == (f % 2 == 1)) by (bit_vector);
    assert(f % 16 < 16) by (bit_vector);
    assert(((f % 16) / 2) % 4 == (f / 2) % 4) by (bit_vector);
}
impl Default for PacketType { open spec fn dflt(r: PacketType) -> bool { true }
//@fn mqtt Default for PacketType::default | as=vx_default
//@end
}
impl Default for FixedHeader { open spec fn dflt(r: FixedHeader) -> bool { r.flags == 0 }
//@fn mqtt Default for FixedHeader::default | as=vx_default
//@end
}
impl FixedHeader {
//@fn mqtt FixedHeader::new
    ensures r == fh_new(packet_type), fh_inv(r),
//@end
//@fn mqtt FixedHeader::packet_type
    ensures r == self.packet_type,
//@end
//@fn mqtt FixedHeader::dup
    ensures r == fh_dup(*self),
//@start
    proof { fh_bits(self.flags); }
//@end
//@fn mqtt FixedHeader::set_dup
    ensures final(self).packet_type == old(self).packet_type, fh_dup(*final(self)) == dup, fh_retain(*final(self)) == fh_retain(*old(self)),
        fh_qos(*final(self)) == fh_qos(*old(self)), final(self).flags / 16 == old(self).flags / 16,
//@start
    proof { let f = self.flags; let d: u8 = if dup { 1 } else { 0 }; fh_bits(f); fh_bits(f & !8u8 | (d << 3u8));
        assert((d == 0 || d == 1) ==> ({ let g = f & !8u8 | (d << 3u8); (g / 8) % 2 == d && g % 2 == f % 2 && (g / 2) % 4 == (f / 2) % 4 && g / 16 == f / 16 })) by (bit_vector); }
//@end
//@fn mqtt FixedHeader::retain
    ensures r == fh_retain(*self),
//@start
    proof { fh_bits(self.flags); }
//@end
//@fn mqtt FixedHeader::set_retain
    ensures final(self).packet_type == old(self).packet_type, fh_retain(*final(self)) == retain, fh_dup(*final(self)) == fh_dup(*old(self)),
        fh_qos(*final(self)) == fh_qos(*old(self)), final(self).flags / 16 == old(self).flags / 16,
//@start
    proof { let f = self.flags; let d: u8 = if retain { 1 } else { 0 };
        assert((d == 0 || d == 1) ==> ({ let g = f & !1u8 | d; (g / 8) % 2 == (f / 8) % 2 && g % 2 == d && (g / 2) % 4 == (f / 2) % 4 && g / 16 == f / 16 })) by (bit_vector); }
//@end
//@fn mqtt FixedHeader::qos
    requires fh_inv(*self),
    ensures r.code() == fh_qos(*self), QoSLevel::tf(fh_qos(*self)) == Some(r),
//@start
    proof { fh_bits(self.flags); }
//@end
//@fn mqtt FixedHeader::set_qos
    ensures final(self).packet_type == old(self).packet_type, fh_qos(*final(self)) == qos.code(), fh_inv(*final(self)),
        fh_dup(*final(self)) == fh_dup(*old(self)), fh_retain(*final(self)) == fh_retain(*old(self)), final(self).flags / 16 == old(self).flags / 16,
//@start
    proof { qoslevel_code(qos); let f = self.flags; let d = qos.code();
        assert(d < 3 ==> ({ let g = f & !6u8 | (d << 1u8); (g / 8) % 2 == (f / 8) % 2 && g % 2 == f % 2 && (g / 2) % 4 == d && g / 16 == f / 16 })) by (bit_vector); }
//@end
//@fn mqtt FixedHeader::flags
    ensures r == self.flags,
//@end
//@fn mqtt FixedHeader::set_flags
    ensures r is Ok <==> (flags / 2) % 4 != 3, r is Ok ==> *final(self) == (FixedHeader { flags: flags, ..*old(self) }) && fh_inv(*final(self)), r is Err ==> *final(self) == *old(self),
//@start
    proof { fh_bits(flags); }
//@end
//@fn mqtt FixedHeader::clear_flags
    ensures *final(self) == (FixedHeader { flags: 0, ..*old(self) }), fh_inv(*final(self)),
//@end
}

/// a header of the same type with these flags (the upper half of the flag byte is never sent)
pub open spec fn fh_with(h: FixedHeader, q: u8, d: bool, r: bool) -> FixedHeader {
    FixedHeader { packet_type: h.packet_type, flags: ((h.flags / 16) * 16 + (if d { 8int } else { 0 }) + 2 * q + (if r { 1int } else { 0 })) as u8 }
}
pub proof fn fh_parts(h: FixedHeader) ensures h == fh_with(h, fh_qos(h), fh_dup(h), fh_retain(h)) {
    let f = h.flags;
    assert(f == (f / 16) * 16 + (if (f / 8) % 2 == 1 { 8u8 } else { 0u8 }) + 2 * ((f / 2) % 4) + (if f % 2 == 1 { 1u8 } else { 0u8 })) by (bit_vector);
}
/// two headers with the same parts are the same
pub proof fn fh_same(a: FixedHeader, b: FixedHeader)
    requires a.packet_type == b.packet_type, a.flags / 16 == b.flags / 16, fh_qos(a) == fh_qos(b), fh_dup(a) == fh_dup(b), fh_retain(a) == fh_retain(b)
    ensures a == b
{ fh_parts(a); fh_parts(b); }

impl UserProperty {
    pub uninterp spec fn none() -> UserProperty;
    #[verifier::external_body]
    pub fn new() -> (r: UserProperty) ensures r == UserProperty::none() { unimplemented!() }
}
impl Default for UserProperty {
    open spec fn dflt(r: UserProperty) -> bool { r == UserProperty::none() }
    #[verifier::external_body]
    fn vx_default() -> UserProperty { unimplemented!() }
}
pub open spec fn pub_new(h: FixedHeader, p: Publish) -> bool {
    p.fixed_header == h && p.topic_name@ == Seq::<u8>::empty() && p.packet_id is None && p.payload_format is None && p.message_expiry is None && p.topic_alias is None
    && p.response_topic is None && p.correlation_data@ == Seq::<u8>::empty() && p.subscription_identifiers is None && p.content_type is None && p.user_properties == UserProperty::none() && p.payload is None
}
impl Default for Publish {
    open spec fn dflt(r: Publish) -> bool { pub_new(fh_new(PacketType::Publish), r) }
//@fn mqtt Default for Publish::default | as=vx_default
//@end
}
impl Clone for Publish {
//@fn mqtt Clone for Publish::clone | clone
    ensures r == *self,
//@end
}
impl Publish {
    pub open spec fn inv(self) -> bool { fh_inv(self.fixed_header) }
    pub open spec fn q(self) -> u8 { fh_qos(self.fixed_header) }
//@fn mqtt Publish::new_from_header
    requires fh_inv(fixed_header)
    ensures r is Ok <==> fixed_header.packet_type == PacketType::Publish && !(fh_dup(fixed_header) && fh_qos(fixed_header) == 0),
        r matches Ok(p) ==> pub_new(fixed_header, p),
//@end
//@fn mqtt Publish::qos
    requires self.inv()
    ensures r.code() == self.q(),
//@end
//@fn mqtt Publish::set_qos
    ensures
        *final(self) == (Publish { fixed_header: final(self).fixed_header, packet_id: if qos == QoSLevel::AtMostOnce { None } else { old(self).packet_id }, ..*old(self) }),
        final(self).fixed_header == fh_with(old(self).fixed_header, qos.code(), fh_dup(old(self).fixed_header) && qos != QoSLevel::AtMostOnce, fh_retain(old(self).fixed_header)),
        fh_dup(final(self).fixed_header) == (fh_dup(old(self).fixed_header) && qos != QoSLevel::AtMostOnce), fh_retain(final(self).fixed_header) == fh_retain(old(self).fixed_header),
        final(self).q() == qos.code(), final(self).inv(), final(self).fixed_header.flags / 16 == old(self).fixed_header.flags / 16,
//@tail
    proof { fh_parts(self.fixed_header); }
//@end
//@fn mqtt Publish::dup
    ensures r == fh_dup(self.fixed_header),
//@end
//@fn mqtt Publish::set_dup
    requires old(self).inv()
    ensures r is Ok <==> !(old(self).q() == 0 && dup),
        r is Ok ==> *final(self) == (Publish { fixed_header: fh_with(old(self).fixed_header, old(self).q(), dup, fh_retain(old(self).fixed_header)), ..*old(self) }),
        r is Ok ==> fh_dup(final(self).fixed_header) == dup,
        fh_retain(final(self).fixed_header) == fh_retain(old(self).fixed_header), final(self).fixed_header.flags / 16 == old(self).fixed_header.flags / 16,
        final(self).fixed_header.packet_type == old(self).fixed_header.packet_type,
        final(self).q() == old(self).q(), final(self).inv(),
        r is Err ==> *final(self) == *old(self),
//@tail
    proof { fh_parts(self.fixed_header); }
//@end
//@fn mqtt Publish::retain
    ensures r == fh_retain(self.fixed_header),
//@end
//@fn mqtt Publish::set_retain
    ensures *final(self) == (Publish { fixed_header: fh_with(old(self).fixed_header, old(self).q(), fh_dup(old(self).fixed_header), retain), ..*old(self) }),
        fh_retain(final(self).fixed_header) == retain, fh_dup(final(self).fixed_header) == fh_dup(old(self).fixed_header), final(self).q() == old(self).q(),
        final(self).fixed_header.flags / 16 == old(self).fixed_header.flags / 16, final(self).fixed_header.packet_type == old(self).fixed_header.packet_type,
//@tail
    proof { fh_parts(self.fixed_header); }
//@end
//@fn mqtt Publish::packet_id
    ensures r == self.packet_id,
//@end
//@fn mqtt Publish::set_packet_id
    requires old(self).inv()
    ensures r is Ok <==> old(self).q() != 0,
        *final(self) == (if r is Ok { Publish { packet_id: id, ..*old(self) } } else { *old(self) }),
//@end
//@fn mqtt Publish::set_payload_format
    ensures *final(self) == (Publish { payload_format: if format == PayloadFormat::Bin { None } else { Some(format) }, ..*old(self) }),
//@end
}
// ---- the will ----
impl Default for PayloadFormat { open spec fn dflt(r: PayloadFormat) -> bool { r == PayloadFormat::Bin } fn vx_default() -> PayloadFormat { PayloadFormat::Bin } }
pub open spec fn header_none(h: WillHeader) -> bool {
    h.will_delay is None && h.payload_format is None && h.message_expiry is None && h.content_type is None && h.response_topic is None && h.correlation_data@ == Seq::<u8>::empty() && h.user_properties == UserProperty::none()
}
impl Default for WillHeader {
    open spec fn dflt(r: WillHeader) -> bool { header_none(r) }
//@fn mqtt Default for WillHeader::default | as=vx_default
//@end
}
impl Bytes {
    #[verifier::external_body]
    pub fn copy_from_slice(s: &[u8]) -> (r: Bytes) ensures r@ == s@ { unimplemented!() }
}
impl WillMessage {
//@fn mqtt WillMessage::new
    ensures r.topic == topic && r.payload@ == payload@ && r.qos == qos && r.retain == retain && header_none(r.header), // @C20 C25
//@end
//@fn mqtt WillMessage::with_delay
    ensures r == (WillMessage { header: WillHeader { will_delay: Some(delay), ..self.header }, ..self }), // @C25
//@end
//@fn mqtt WillMessage::with_payload_format
    ensures r == (WillMessage { header: WillHeader { payload_format: Some(format), ..self.header }, ..self }), // @C25
//@end
//@fn mqtt WillMessage::with_message_expiry
    ensures r == (WillMessage { header: WillHeader { message_expiry: Some(expiry), ..self.header }, ..self }), // @C25
//@end
//@fn mqtt WillMessage::with_content_type
    ensures r == (WillMessage { header: WillHeader { content_type: Some(content_type), ..self.header }, ..self }), // @C25
//@end
//@fn mqtt WillMessage::with_response_topic
    ensures r == (WillMessage { header: WillHeader { response_topic: Some(response_topic), ..self.header }, ..self }), // @C25
//@end
//@fn mqtt WillMessage::with_correlation_data
    ensures r == (WillMessage { header: WillHeader { correlation_data: correlation_data, ..self.header }, ..self }), // @C25
//@end
//@fn mqtt WillMessage::with_user_properties
    ensures r == (WillMessage { header: WillHeader { user_properties: user_properties, ..self.header }, ..self }), // @C25
//@end
}
