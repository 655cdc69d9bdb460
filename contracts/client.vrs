// ---- C21-C23: the client's session ----
//@include packets.vrs
//@include time.vrs
//@item client ErrorKind
//@item client MqttError
//@item client QoSPacketState
//@item client SessionState
/// out: what was put on the connection, in order
pub struct PacketStream { pub out: Ghost<Seq<Packet>> }
pub struct StreamError { }
pub struct AsyncMqttStream { }
impl PacketStream {
    #[verifier::external_body]
    pub fn write(&mut self, p: &mut Packet) -> (r: Result<(), StreamError>) ensures final(self).out@ == old(self).out@.push(*old(p)) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self) -> (r: Result<Option<Packet>, StreamError>) ensures final(self).out == old(self).out, r matches Ok(Some(p)) ==> sound(p) { unimplemented!() }
    #[verifier::external_body]
    pub fn new(stream: AsyncMqttStream, read: Option<usize>, max: Option<usize>) -> (r: PacketStream) ensures r.out@ == Seq::<Packet>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn shutdown(&mut self) -> (r: Result<(), StreamError>) ensures *final(self) == *old(self) { unimplemented!() }
}
#[verifier::external_body]
pub fn swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
//@item client ClientSession
impl MqttError {
//@fn client MqttError::new
    ensures r.kind == kind,
//@end
}
impl Default for PubResp {
    open spec fn dflt(r: PubResp) -> bool { r.reason is None }
//@fn mqtt Default for PubResp::default | as=vx_default
//@end
}
impl Default for PingReq {
    open spec fn dflt(r: PingReq) -> bool { r.fixed_header == fh_new(PacketType::PingReq) }
//@fn mqtt Default for PingReq::default | as=vx_default
//@end
}
pub open spec fn named(id: Option<String>) -> bool { id matches Some(i) && i@.len() > 0 }
pub open spec fn resp(r: PubResp, t: PacketType, id: u16) -> bool { r.packet_id == id && r.fixed_header == fh_new(t) && r.reason is None }
impl PubResp {
//@fn mqtt PubResp::new_puback_with_packet_id
    ensures resp(r, PacketType::PubAck, packet_id),
//@end
//@fn mqtt PubResp::new_pubrec_with_packet_id
    ensures resp(r, PacketType::PubRec, packet_id),
//@end
//@fn mqtt PubResp::new_pubrel_with_packet_id
    ensures resp(r, PacketType::PubRel, packet_id),
//@end
//@fn mqtt PubResp::new_pubcomp_with_packet_id
    ensures resp(r, PacketType::PubComp, packet_id),
//@end
}
/// what the codec decodes: a PUBLISH above QoS 0 has an identifier (C10)
pub open spec fn sound(p: Packet) -> bool { p matches Packet::Publish(m) ==> m.inv() && (m.q() > 0 ==> m.packet_id is Some) }

// ---- the handshakes ----
/// for each identifier in use the acknowledgement that comes next
pub type Flow = Map<u16, QoSPacket>;
pub open spec fn flow(m: Map<u16, QoSPacketState>) -> Flow { m.map_values(|p: QoSPacketState| p.next) }
pub open spec fn after(n: QoSPacket) -> Option<QoSPacket> { match n { QoSPacket::PubRec => Some(QoSPacket::PubRel), QoSPacket::PubRel => Some(QoSPacket::PubComp), _ => None } }
/// acknowledgement a of the handshake i has passed
pub open spec fn pass(f: Flow, i: u16, a: QoSPacket) -> Flow {
    if f.dom().contains(i) && f[i] == a { match after(a) { Some(n) => f.insert(i, n), None => f.remove(i) } } else { f }
}
pub open spec fn ends(f: Flow, i: u16, a: QoSPacket) -> bool { f.dom().contains(i) && f[i] == a && after(a) is None }
impl QoSPacketState {
//@fn client QoSPacketState::new_qos1
    ensures r.next == QoSPacket::PubAck,
//@end
//@fn client QoSPacketState::new_qos2
    ensures r.next == QoSPacket::PubRec,
//@end
//@fn client QoSPacketState::next
    ensures (match r { Some(p) => after(self.next) == Some(p.next), None => after(self.next) is None }),
//@end
}
pub open spec fn spare(max: int, n: nat) -> int { if max > n { max - n } else { 0 } }
impl SessionState {
    pub open spec fn sends(self) -> Flow { flow(self.pending_qos_send@) }
    pub open spec fn recvs(self) -> Flow { flow(self.pending_qos_recv@) }
    /// places are accounted for: those free and those taken make up what was announced
    pub open spec fn wf(self) -> bool {
        self.sends_ok() && self.qos_recv_remaining + self.pending_qos_recv@.dom().len() <= 0x1_0000_0000
    }
    pub open spec fn sends_ok(self) -> bool { self.qos_send_max <= 65535 && self.qos_send_remaining == spare(self.qos_send_max as int, self.pending_qos_send@.dom().len()) }
}
//@consts client
impl SessionState {
//@fn client SessionState::new
    ensures r.wf(), r.qos_send_max == 65535, r.sends() =~= Flow::empty(), r.recvs() =~= Flow::empty(),
//@end
//@fn client SessionState::update_send_remaining
    ensures *final(self) == (SessionState { qos_send_remaining: spare(old(self).qos_send_max as int, old(self).pending_qos_send@.dom().len()) as usize, ..*old(self) }),
//@end
}
impl ClientSession {
    pub open spec fn wf(self) -> bool { self.state.wf() }
    /// only the connection and the handshakes may differ
    pub open spec fn kept(self, o: ClientSession) -> bool {
        self == ClientSession { packet_stream: self.packet_stream, state: SessionState { pending_qos_send: self.state.pending_qos_send, qos_send_remaining: self.state.qos_send_remaining,
            pending_qos_recv: self.state.pending_qos_recv, qos_recv_remaining: self.state.qos_recv_remaining, last_packet_id: self.state.last_packet_id, ..o.state }, ..o }
    }
    /// the handshakes are these
    pub open spec fn now(self, o: ClientSession, s: Flow, r: Flow) -> bool {
        self.kept(o) && self.state.sends() =~= s && self.state.recvs() =~= r
        && self.state.qos_recv_remaining + r.dom().len() == o.state.qos_recv_remaining + o.state.recvs().dom().len()
    }
    pub open spec fn sends_ok(self) -> bool { self.state.sends_ok() }
    /// the identifier of the PUBLISH that was put on the connection last
    pub open spec fn used(self) -> u16 { self.packet_stream.out@.last()->Publish_0.packet_id->0 }
    /// the messages in flight
    pub open spec fn flying(self) -> Set<u16> { self.state.sends().dom() }
    pub open spec fn same(self, o: ClientSession) -> bool { self.now(o, o.state.sends(), o.state.recvs()) && self.state.last_packet_id == o.state.last_packet_id }
    /// exactly this was put on the connection
    pub open spec fn put(self, o: ClientSession, p: Packet) -> bool { self.packet_stream.out@ == o.packet_stream.out@.push(p) }
    pub open spec fn quiet(self, o: ClientSession) -> bool { self.packet_stream.out@ == o.packet_stream.out@ }
}
/// The CONNECT a session sends: what was configured, and nothing else.
pub open spec fn bit(f: u8, b: u8) -> bool { (f / b) % 2 == 1 }
pub open spec fn asks(st: SessionState, clean: bool, creds: Option<(String, String)>, will: Option<WillMessage>, c: Connect) -> bool {
    &&& (st.client_id matches Some(i) ==> c.client_id == i)
    &&& st.keep_alive.secs <= 65535 ==> c.keep_alive == st.keep_alive.secs
    &&& st.session_expiry.secs <= 0xffff_ffff ==> c.session_expiry_interval == (if st.session_expiry.secs == 0 { None } else { Some(st.session_expiry.secs as u32) })
    &&& bit(c.connect_flags, 2) == clean
    &&& match creds {
        Some(x) => bit(c.connect_flags, 128) && c.username == Some(x.0) && bit(c.connect_flags, 64) && (c.password matches Some(w) && w@ == x.1@),
        None => !bit(c.connect_flags, 128) && c.username is None && !bit(c.connect_flags, 64) && c.password is None }
    &&& match will {
        Some(w) => bit(c.connect_flags, 4) && (c.connect_flags / 8) % 4 == w.qos.code() && bit(c.connect_flags, 32) == w.retain
            && c.will_topic == Some(w.topic) && (c.will_payload matches Some(b) && b@ == w.payload@) && c.will_properties == Some(w.header),
        None => !bit(c.connect_flags, 4) && c.will_topic is None && c.will_payload is None && c.will_properties is None }
    &&& plain(c)
}
/// the other properties of CONNECT are not sent
pub open spec fn plain(c: Connect) -> bool {
    c.receive_maximum is None && c.max_packet_size is None && c.topic_alias_maximum is None && c.request_response_info is None && c.request_problem_info is None
    && c.auth_method is None && c.auth_data@.len() == 0 && c.user_properties == UserProperty::none()
}
pub open spec fn cf_same(a: u8, b: u8, but: int) -> bool {
    (but == 2 || bit(a, 2) == bit(b, 2)) && (but == 4 || bit(a, 4) == bit(b, 4)) && (but == 8 || (a / 8) % 4 == (b / 8) % 4)
    && (but == 32 || bit(a, 32) == bit(b, 32)) && (but == 64 || bit(a, 64) == bit(b, 64)) && (but == 128 || bit(a, 128) == bit(b, 128))
}
pub proof fn cf_set(f: u8, d: u8)
    requires d < 3
    ensures
        d < 2 ==> ({ let g = (f & !2u8) | d << 1u8; bit(g, 2) == (d == 1) && cf_same(g, f, 2) }),
        d < 2 ==> ({ let g = (f & !4u8) | d << 2u8; bit(g, 4) == (d == 1) && cf_same(g, f, 4) }),
        ({ let g = (f & !0x18u8) | d << 3u8; (g / 8) % 4 == d && cf_same(g, f, 8) }),
        d < 2 ==> ({ let g = (f & !0x20u8) | d << 5u8; bit(g, 32) == (d == 1) && cf_same(g, f, 32) }),
        ({ let g = f & !0x80u8; !bit(g, 128) && cf_same(g, f, 128) }), ({ let g = (f & !0x80u8) | 1u8 << 7u8; bit(g, 128) && cf_same(g, f, 128) }),
        ({ let g = f & !0x40u8; !bit(g, 64) && cf_same(g, f, 64) }), ({ let g = (f & !0x40u8) | 1u8 << 6u8; bit(g, 64) && cf_same(g, f, 64) }),
{
    assert(d < 2 ==> ({ let g = (f & !2u8) | d << 1u8; (g / 2) % 2 == d && (g / 4) % 2 == (f / 4) % 2 && (g / 8) % 4 == (f / 8) % 4 && (g / 32) % 2 == (f / 32) % 2 && (g / 64) % 2 == (f / 64) % 2 && (g / 128) % 2 == (f / 128) % 2 })) by (bit_vector);
    assert(d < 2 ==> ({ let g = (f & !4u8) | d << 2u8; (g / 4) % 2 == d && (g / 2) % 2 == (f / 2) % 2 && (g / 8) % 4 == (f / 8) % 4 && (g / 32) % 2 == (f / 32) % 2 && (g / 64) % 2 == (f / 64) % 2 && (g / 128) % 2 == (f / 128) % 2 })) by (bit_vector);
    assert(d < 3 ==> ({ let g = (f & !0x18u8) | d << 3u8; (g / 8) % 4 == d && (g / 2) % 2 == (f / 2) % 2 && (g / 4) % 2 == (f / 4) % 2 && (g / 32) % 2 == (f / 32) % 2 && (g / 64) % 2 == (f / 64) % 2 && (g / 128) % 2 == (f / 128) % 2 })) by (bit_vector);
    assert(d < 2 ==> ({ let g = (f & !0x20u8) | d << 5u8; (g / 32) % 2 == d && (g / 2) % 2 == (f / 2) % 2 && (g / 4) % 2 == (f / 4) % 2 && (g / 8) % 4 == (f / 8) % 4 && (g / 64) % 2 == (f / 64) % 2 && (g / 128) % 2 == (f / 128) % 2 })) by (bit_vector);
    assert({ let g = f & !0x80u8; (g / 128) % 2 == 0 && (g / 2) % 2 == (f / 2) % 2 && (g / 4) % 2 == (f / 4) % 2 && (g / 8) % 4 == (f / 8) % 4 && (g / 32) % 2 == (f / 32) % 2 && (g / 64) % 2 == (f / 64) % 2 }) by (bit_vector);
    assert({ let g = (f & !0x80u8) | 1u8 << 7u8; (g / 128) % 2 == 1 && (g / 2) % 2 == (f / 2) % 2 && (g / 4) % 2 == (f / 4) % 2 && (g / 8) % 4 == (f / 8) % 4 && (g / 32) % 2 == (f / 32) % 2 && (g / 64) % 2 == (f / 64) % 2 }) by (bit_vector);
    assert({ let g = f & !0x40u8; (g / 64) % 2 == 0 && (g / 2) % 2 == (f / 2) % 2 && (g / 4) % 2 == (f / 4) % 2 && (g / 8) % 4 == (f / 8) % 4 && (g / 32) % 2 == (f / 32) % 2 && (g / 128) % 2 == (f / 128) % 2 }) by (bit_vector);
    assert({ let g = (f & !0x40u8) | 1u8 << 6u8; (g / 64) % 2 == 1 && (g / 2) % 2 == (f / 2) % 2 && (g / 4) % 2 == (f / 4) % 2 && (g / 8) % 4 == (f / 8) % 4 && (g / 32) % 2 == (f / 32) % 2 && (g / 128) % 2 == (f / 128) % 2 }) by (bit_vector);
}
pub open spec fn but_flags(a: Connect, b: Connect) -> bool { a == Connect { connect_flags: a.connect_flags, ..b } }
impl Default for Connect {
    open spec fn dflt(r: Connect) -> bool { plain(r) && r.connect_flags == 0 && r.session_expiry_interval is None && r.username is None && r.password is None
        && r.will_properties is None && r.will_topic is None && r.will_payload is None }
//@fn mqtt Default for Connect::default | as=vx_default
//@end
}
impl Connect {
//@fn mqtt Connect::new
    ensures Connect::dflt(r),
//@end
//@fn mqtt Connect::set_clean_start
    ensures but_flags(*final(self), *old(self)), bit(final(self).connect_flags, 2) == clean_start, cf_same(final(self).connect_flags, old(self).connect_flags, 2),
//@start
    proof { cf_set(self.connect_flags, if clean_start { 1 } else { 0 }); }
//@end
//@fn mqtt Connect::set_will_retain
    ensures but_flags(*final(self), *old(self)), bit(final(self).connect_flags, 32) == will_retain, cf_same(final(self).connect_flags, old(self).connect_flags, 32),
//@start
    proof { cf_set(self.connect_flags, if will_retain { 1 } else { 0 }); }
//@end
//@fn mqtt Connect::set_will_qos
    ensures but_flags(*final(self), *old(self)), (final(self).connect_flags / 8) % 4 == qos.code(), cf_same(final(self).connect_flags, old(self).connect_flags, 8),
//@start
    proof { qoslevel_code(qos); cf_set(self.connect_flags, qos.code()); }
//@end
//@fn mqtt Connect::set_will
    ensures but_flags(*final(self), *old(self)), bit(final(self).connect_flags, 4) == will, cf_same(final(self).connect_flags, old(self).connect_flags, 4),
//@start
    proof { cf_set(self.connect_flags, if will { 1 } else { 0 }); }
//@end
//@fn mqtt Connect::set_username
    ensures *final(self) == (Connect { connect_flags: final(self).connect_flags, username: username, ..*old(self) }), bit(final(self).connect_flags, 128) == username is Some, cf_same(final(self).connect_flags, old(self).connect_flags, 128),
//@start
    proof { cf_set(self.connect_flags, 0); }
//@end
//@fn mqtt Connect::set_password
    ensures *final(self) == (Connect { connect_flags: final(self).connect_flags, password: password, ..*old(self) }), bit(final(self).connect_flags, 64) == password is Some, cf_same(final(self).connect_flags, old(self).connect_flags, 64),
//@start
    proof { cf_set(self.connect_flags, 0); }
//@end
//@fn mqtt Connect::set_session_expiry_interval
    ensures *final(self) == (Connect { session_expiry_interval: if interval == 0 { None } else { Some(interval) }, ..*old(self) }),
//@end
//@fn mqtt Connect::set_will_message
    ensures *final(self) == (Connect { connect_flags: final(self).connect_flags, will_topic: Some(will.topic), will_payload: final(self).will_payload, will_properties: Some(will.header), ..*old(self) }),
        final(self).will_payload matches Some(b) && b@ == will.payload@,
        bit(final(self).connect_flags, 4), (final(self).connect_flags / 8) % 4 == will.qos.code(), bit(final(self).connect_flags, 32) == will.retain,
        bit(final(self).connect_flags, 2) == bit(old(self).connect_flags, 2), bit(final(self).connect_flags, 64) == bit(old(self).connect_flags, 64), bit(final(self).connect_flags, 128) == bit(old(self).connect_flags, 128),
//@end
    /// its strings and its will are not above what the format can hold
    pub uninterp spec fn encodes(self) -> bool;
    #[verifier::external_body]
    pub fn codec_size(&self) -> u32 { unimplemented!() }
    #[verifier::external_body]
    pub fn encode(&self, dest: &mut BytesMut) -> (r: Result<(), MqttCodecError>) ensures self.encodes() ==> r is Ok { unimplemented!() }
}
pub trait VxLitStr { fn to_string(&self) -> String; }
impl<const N: usize> VxLitStr for [u8; N] {
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub struct BytesMut { }
pub struct Uuid { }
impl Uuid {
    #[verifier::external_body]
    pub fn new_v4() -> Uuid { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
impl BytesMut { #[verifier::external_body] pub fn with_capacity(n: usize) -> BytesMut { unimplemented!() } }
impl Bytes { #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
impl String { #[verifier::external_body] pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
/// what a CONNACK that accepts leaves
pub open spec fn welcomed(a: ClientSession, k: ConnAck, b: ClientSession) -> bool {
    b == (ClientSession { connected: true, packet_stream: b.packet_stream, state: SessionState {
        client_id: if named(a.state.client_id) { a.state.client_id } else { k.assigned_client_id },
        keep_alive: (match k.server_keep_alive { Some(x) => Duration { secs: x as u64, nanos: 0 }, None => a.state.keep_alive }),
        session_expiry: (match k.session_expiry_interval { Some(x) => Duration { secs: x as u64, nanos: 0 }, None => a.state.session_expiry }),
        qos_send_max: (match k.receive_maximum { Some(m) => m as usize, None => a.state.qos_send_max }),
        qos_send_remaining: (match k.receive_maximum { Some(m) => spare(m as int, a.state.pending_qos_send@.dom().len()) as usize, None => a.state.qos_send_remaining }),
        ..a.state }, ..a })
}
/// the CONNECT that was configured was put on the connection
pub open spec fn opened(a: ClientSession, clean: bool, creds: Option<(String, String)>, will: Option<WillMessage>, b: ClientSession) -> bool {
    b.packet_stream.out@.len() > 0 && b.put(a, b.packet_stream.out@.last()) && (b.packet_stream.out@.last() matches Packet::Connect(c) && asks(a.state, clean, creds, will, *c))
}
/// what of the session connecting may change
pub open spec fn session_of(a: ClientSession, b: ClientSession) -> bool {
    b.state.pending_qos_send == a.state.pending_qos_send && b.state.pending_qos_recv == a.state.pending_qos_recv && b.state.qos_recv_remaining == a.state.qos_recv_remaining
    && b.state.auto_ack == a.state.auto_ack && b.state.auto_packet_id == a.state.auto_packet_id && b.state.pingresp == a.state.pingresp && b.state.keep_alive_enabled == a.state.keep_alive_enabled && b.usable == a.usable
}
pub proof fn flow_dom(m: Map<u16, QoSPacketState>) ensures flow(m).dom() =~= m.dom() { }
/// a PUBLISH was received: r says whether it is to be delivered
pub open spec fn received(a: ClientSession, b: ClientSession, publish: Publish, r: Result<bool, MqttError>) -> bool {
    let s = a.state.sends(); let q = a.state.recvs(); let i = publish.packet_id->0; let auto = a.state.auto_ack;
        if publish.q() == 0 { r == Ok::<bool, MqttError>(true) && b.same(a) && b.quiet(a) }
        else if publish.q() == 1 {
            if a.state.qos_recv_remaining == 0 { r is Err && b.same(a) && b.quiet(a) }
            else if auto { (exists|k: PubResp| #[trigger] resp(k, PacketType::PubAck, i) && b.put(a, Packet::PubAck(k))) && b.now(a, s, q.remove(i)) && (r matches Ok(d) ==> d) }
            else { r == Ok::<bool, MqttError>(true) && b.quiet(a) && b.now(a, s, q.insert(i, QoSPacket::PubAck)) }
        } else {
            let again = q.dom().contains(i);
            if !again && a.state.qos_recv_remaining == 0 { r is Err && b.same(a) && b.quiet(a) }
            else {
                &&& r matches Ok(d) ==> d == !again
                &&& if auto { exists|k: PubResp| #[trigger] resp(k, PacketType::PubRec, i) && b.put(a, Packet::PubRec(k)) } else { r is Ok && b.quiet(a) }
                &&& b.now(a, s, if again || r is Err { q } else if auto { q.insert(i, QoSPacket::PubRel) } else { q.insert(i, QoSPacket::PubRec) })
            }
        }
}
/// the client can send this message now
pub open spec fn takes(o: ClientSession, p: Publish) -> bool {
    o.state.qos_send_remaining > 0 && o.state.sends().dom().len() < 65535 && (match p.packet_id { Some(i) => !o.state.sends().dom().contains(i), None => o.state.auto_packet_id })
}
/// i is the identifier it is sent with: what the application chose, otherwise one that is free
pub open spec fn names(o: ClientSession, p: Publish, i: u16) -> bool { !o.state.sends().dom().contains(i) && (match p.packet_id { Some(j) => i == j, None => i != 0 }) }
pub proof fn keys_below(p: Map<u16, QoSPacketState>, n: nat)
    requires p.dom().finite(), n <= 65535, forall|i: u16| 1 <= i && i <= n ==> p.dom().contains(i)
    ensures p.dom().len() >= n
    decreases n
{ if n > 0 { keys_below(p.remove(n as u16), (n - 1) as nat); } }
pub proof fn free_key(p: Map<u16, QoSPacketState>) -> (f: u16)
    requires p.dom().finite(), p.dom().len() < 65535
    ensures f != 0, !p.dom().contains(f)
{
    if forall|i: u16| 1 <= i && i <= 65535 ==> p.dom().contains(i) { keys_below(p, 65535); }
    choose|i: u16| 1 <= i && i <= 65535 && !p.dom().contains(i)
}
pub open spec fn ahead(f: u16, i: u16) -> int { if f >= i { f - i } else { f - i + 65536 } }
impl ClientSession {
//@fn client ClientSession::send_packet
    ensures *final(self) == (ClientSession { packet_stream: final(self).packet_stream, ..*old(self) }), final(self).put(*old(self), packet),
//@end
//@fn client ClientSession::connected
    ensures r == self.connected,
//@end
//@fn client ClientSession::keep_alive
    ensures r == self.state.keep_alive,
//@end
//@fn client ClientSession::session_expiry
    ensures r == self.state.session_expiry,
//@end
//@fn client ClientSession::auto_ack
    ensures r == self.state.auto_ack,
//@end
//@fn client ClientSession::keep_alive_enabled
    ensures r == self.state.keep_alive_enabled,
//@end
//@fn client ClientSession::read_next
    ensures *final(self) == *old(self), r matches Ok(Some(p)) ==> sound(p),
//@end
//@fn client ClientSession::handle_connack | clone
    requires old(self).wf()
    ensures final(self).sends_ok(), // @C21
        final(self).wf(), final(self).quiet(*old(self)), // @C23
        connack.reason != Reason::Success ==> r is Err && *final(self) == (ClientSession { connected: false, ..*old(self) }) && (r matches Err(e) && e.kind == ErrorKind::Protocol(connack.reason)), // @C23
        r matches Ok(a) ==> a == connack && welcomed(*old(self), a, *final(self)), // @C23
        session_of(*old(self), *final(self)), // @C21
        connack.reason == Reason::Success ==> (r is Ok <==> named(old(self).state.client_id) || connack.assigned_client_id is Some), // @C23
//@end
//@fn client ClientSession::track_sent_ack
    requires old(self).wf()
    ensures final(self).sends_ok() && final(self).flying() =~= old(self).flying(), // @C21
        final(self).quiet(*old(self)), ({ let s = old(self).state.sends(); let q = old(self).state.recvs(); match *packet {
            Packet::PubAck(p) => final(self).now(*old(self), s, pass(q, p.packet_id, QoSPacket::PubAck)),
            Packet::PubRec(p) => final(self).now(*old(self), s, pass(q, p.packet_id, QoSPacket::PubRec)),
            Packet::PubRel(p) => final(self).now(*old(self), pass(s, p.packet_id, QoSPacket::PubRel), q),
            Packet::PubComp(p) => final(self).now(*old(self), s, pass(q, p.packet_id, QoSPacket::PubComp)),
            _ => final(self).same(*old(self)),
        } }), // @C22
//@end
//@fn client ClientSession::handle_recv_publish | clone
    requires old(self).wf(), sound(Packet::Publish(publish))
    ensures final(self).sends_ok() && final(self).flying() =~= old(self).flying(), // @C21
        received(*old(self), *final(self), publish, r), // @C22
//@end
//@fn client ClientSession::handle_keep_alive | as=vx_handle_keep_alive noheap
    ensures *final(self) == (ClientSession { packet_stream: final(self).packet_stream, last_active: final(self).last_active, ..*old(self) }),
        final(self).packet_stream.out@.len() > 0, final(self).put(*old(self), final(self).packet_stream.out@.last()), final(self).packet_stream.out@.last() is PingRequest, // @C23
//@end
//@fn client ClientSession::connect
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires old(self).wf(), forall|c: Connect| asks(old(self).state, clean_start, credentials, will, c) ==> #[trigger] c.encodes()
    ensures final(self).sends_ok(), session_of(*old(self), *final(self)), // @C21
        final(self).wf(), !old(self).usable ==> r is Err && *final(self) == *old(self), // @C23
        old(self).usable ==> opened(*old(self), clean_start, credentials, will, *final(self)), // @C23
        r matches Ok(a) ==> a.reason == Reason::Success && welcomed(*old(self), a, *final(self)), // @C23
        *final(vx_heap) == (Heap { slept: final(vx_heap).slept, ..*old(vx_heap) }),
//@loop 0
    invariant self.wf(), *vx_heap == (Heap { slept: vx_heap.slept, ..*old(vx_heap) }), *self == (ClientSession { packet_stream: self.packet_stream, ..*old(self) }), self.usable,
        opened(*old(self), clean_start, credentials, will, *self),
//@end
//@fn client ClientSession::end_session
    ensures r == old(self).state, *final(self) == (ClientSession { usable: false, state: final(self).state, ..*old(self) }),
//@end
//@fn client ClientSession::write_next | clone as=vx_write_next noheap
    requires old(self).wf(), sound(packet) || packet is Publish && packet->Publish_0.inv()
    ensures final(self).sends_ok(), // @C21
        (packet matches Packet::Publish(p) && p.q() > 0 && !takes(*old(self), p)) ==> r is Err && final(self).same(*old(self)) && final(self).quiet(*old(self)), // @C21
        packet matches Packet::Publish(p) ==> p.q() > 0 && takes(*old(self), p) ==> names(*old(self), p, final(self).used()) && final(self).put(*old(self), Packet::Publish(Publish { packet_id: Some(final(self).used()), ..p }))
            && final(self).flying() =~= old(self).flying().insert(final(self).used()), // @C21
        !(packet matches Packet::Publish(p) && p.q() > 0) ==> final(self).flying() =~= old(self).flying(), // @C21
        ({ let s = old(self).state.sends(); let q = old(self).state.recvs(); match packet {
            Packet::Publish(p) => if p.q() == 0 { final(self).put(*old(self), packet) && final(self).same(*old(self)) }
                else if final(self).quiet(*old(self)) { final(self).same(*old(self)) }
                else { final(self).put(*old(self), Packet::Publish(Publish { packet_id: Some(final(self).used()), ..p }))
                    && final(self).now(*old(self), s.insert(final(self).used(), if p.q() == 1 { QoSPacket::PubAck } else { QoSPacket::PubRec }), q) },
            Packet::Disconnect(d) => final(self).put(*old(self), packet) && (r is Ok ==> !final(self).connected) && (ClientSession { connected: old(self).connected, ..*final(self) }).same(*old(self)),
            Packet::PubAck(p) => final(self).put(*old(self), packet) && final(self).now(*old(self), s, pass(q, p.packet_id, QoSPacket::PubAck)),
            Packet::PubRec(p) => final(self).put(*old(self), packet) && final(self).now(*old(self), s, pass(q, p.packet_id, QoSPacket::PubRec)),
            Packet::PubRel(p) => final(self).put(*old(self), packet) && final(self).now(*old(self), pass(s, p.packet_id, QoSPacket::PubRel), q),
            Packet::PubComp(p) => final(self).put(*old(self), packet) && final(self).now(*old(self), s, pass(q, p.packet_id, QoSPacket::PubComp)),
            _ => final(self).put(*old(self), packet) && final(self).same(*old(self)),
        } }), // @C22
//@start
    let ghost m0 = self.state.pending_qos_send@;
    let ghost f: u16 = 1;
    proof { hm_finite(self.state.pending_qos_send); flow_dom(m0); if m0.dom().len() < 65535 { f = free_key(m0); } }
//@over 0
last_packet_id
//@loop 0
    invariant f != 0, m0 == self.state.pending_qos_send@, !m0.dom().contains(f), *self == (ClientSession { state: SessionState { last_packet_id: self.state.last_packet_id, ..old(self).state }, ..*old(self) })
    decreases ahead(f, self.state.last_packet_id)
//@end
//@fn client ClientSession::handle_packet | as=vx_handle_packet noheap
    requires old(self).wf(), sound(packet)
    ensures final(self).sends_ok(), // @C21
        final(self).flying() =~= (match packet {
            Packet::PubAck(p) => if ends(old(self).state.sends(), p.packet_id, QoSPacket::PubAck) { old(self).flying().remove(p.packet_id) } else { old(self).flying() },
            Packet::PubComp(p) => if ends(old(self).state.sends(), p.packet_id, QoSPacket::PubComp) { old(self).flying().remove(p.packet_id) } else { old(self).flying() },
            _ => old(self).flying(),
        }), // @C21
        r matches Ok(Some(p)) ==> p == packet, // @C22
        ({ let s = old(self).state.sends(); let q = old(self).state.recvs(); let auto = old(self).state.auto_ack; match packet {
        Packet::PubAck(p) => { let i = p.packet_id; final(self).quiet(*old(self))
            && if ends(s, i, QoSPacket::PubAck) { r == Ok::<Option<Packet>, MqttError>(Some(packet)) && final(self).now(*old(self), s.remove(i), q) } else { r is Err && final(self).same(*old(self)) } },
        Packet::PubComp(p) => { let i = p.packet_id; final(self).quiet(*old(self))
            && if ends(s, i, QoSPacket::PubComp) { r == Ok::<Option<Packet>, MqttError>(Some(packet)) && final(self).now(*old(self), s.remove(i), q) } else { r is Err && final(self).same(*old(self)) } },
        Packet::PubRec(p) => { let i = p.packet_id;
            if !(s.dom().contains(i) && s[i] == QoSPacket::PubRec) { r is Err && final(self).same(*old(self)) && final(self).quiet(*old(self)) }
            else if auto { (exists|a: PubResp| #[trigger] resp(a, PacketType::PubRel, i) && final(self).put(*old(self), Packet::PubRel(a)))
                && final(self).now(*old(self), s.insert(i, if r is Ok { QoSPacket::PubComp } else { QoSPacket::PubRel }), q) && (r matches Ok(o) ==> o is Some) }
            else { r == Ok::<Option<Packet>, MqttError>(Some(packet)) && final(self).quiet(*old(self)) && final(self).now(*old(self), s.insert(i, QoSPacket::PubRel), q) } },
        Packet::PubRel(p) => { let i = p.packet_id;
            if !(q.dom().contains(i) && q[i] == QoSPacket::PubRel) { r is Err && final(self).same(*old(self)) && final(self).quiet(*old(self)) }
            else if auto { (exists|a: PubResp| #[trigger] resp(a, PacketType::PubComp, i) && final(self).put(*old(self), Packet::PubComp(a)))
                && final(self).now(*old(self), s, if r is Ok { q.remove(i) } else { q }) && (r matches Ok(o) ==> o is Some) }
            else { r == Ok::<Option<Packet>, MqttError>(Some(packet)) && final(self).quiet(*old(self)) && final(self).now(*old(self), s, q.insert(i, QoSPacket::PubComp)) } },
        Packet::Publish(m) => received(*old(self), *final(self), m, match r { Ok(o) => Ok::<bool, MqttError>(o is Some), Err(e) => Err(e) }),
        Packet::Disconnect(d) => r is Err && final(self).same(*old(self)) && final(self).quiet(*old(self)),
        Packet::PingResponse(_) => final(self).same(*old(self)) && final(self).quiet(*old(self)) && (r matches Ok(o) && (o is Some <==> old(self).state.pingresp)),
        _ => r == Ok::<Option<Packet>, MqttError>(Some(packet)) && final(self).same(*old(self)) && final(self).quiet(*old(self)),
    } }), // @C22
//@end
}
