// ---- C15, C19, C20: connections ----
pub struct StreamError { }
pub struct BrokerError { }
#[verifier::external_body]
pub fn vx_from_err<A, B>(a: A) -> B { unimplemented!() }
impl VxInto<BrokerError> for StreamError {
    open spec fn into_ok(self, r: BrokerError) -> bool { true }
    #[verifier::external_body]
    fn vx_into(self) -> BrokerError { unimplemented!() }
}
impl VxInto<BrokerError> for MqttCodecError {
    open spec fn into_ok(self, r: BrokerError) -> bool { true }
    #[verifier::external_body]
    fn vx_into(self) -> BrokerError { unimplemented!() }
}
/// The connection: what the broker tried to put on it, and whether it was shut down.
/// got: what was read last; mark: the world as it was when the last step of the connection began.
pub struct PacketStream { pub out: Ghost<Seq<Packet>>, pub got: Ghost<Option<Packet>>, pub mark: Ghost<(BrokerState, Heap)> }
impl PacketStream {
    #[verifier::external_body]
    pub fn write(&mut self, p: &mut Packet) -> (r: Result<usize, StreamError>) ensures final(self).out@ == old(self).out@.push(*old(p)), final(self).got == old(self).got, final(self).mark == old(self).mark { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self) -> (r: Result<Option<Packet>, StreamError>)
        ensures final(self).out == old(self).out, final(self).mark == old(self).mark, final(self).got@ == (match r { Ok(Some(p)) => Some(p), _ => None }),
            r matches Ok(Some(p)) ==> fit(p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shutdown(&mut self) -> (r: Result<(), StreamError>) ensures *final(self) == *old(self) { unimplemented!() }
}
#[verifier::external_body]
pub fn sleep(d: Duration) { unimplemented!() }
#[verifier::external_body]
pub fn yield_now() { unimplemented!() }
#[verifier::external_body]
pub fn vx_later() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_choose(n: usize) -> (r: usize) ensures r < n { unimplemented!() }
impl CancellationToken {
    #[verifier::external_body]
    pub fn new() -> CancellationToken { unimplemented!() }
    #[verifier::external_body]
    pub fn child_token(&self) -> CancellationToken { unimplemented!() }
    #[verifier::external_body]
    pub fn cancelled(&self) { unimplemented!() }
}
impl<T> Receiver<T> {
    pub uninterp spec fn closed(&self) -> bool;
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == self.closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: Option<T>) { unimplemented!() }
}
/// one and a half times, in floating point
pub uninterp spec fn scaled(s: u16) -> u64;
#[verifier::external_body]
pub fn vx_scale(s: u16) -> (r: u64) ensures r == scaled(s) { unimplemented!() }
pub struct Uuid { }
impl Uuid {
    #[verifier::external_body]
    pub fn new_v4() -> Uuid { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@.len() > 0 { unimplemented!() }
}

// ---- C20 ----
pub open spec fn is_topic(s: String) -> bool { topic_name(path(s)) }
pub open spec fn will_ok(w: Option<WillMessage>) -> bool { w matches Some(w) ==> is_topic(w.topic) }
pub open spec fn wills(h: Heap) -> bool { forall|i: int| 0 <= i < h.v@.len() ==> will_ok((#[trigger] h.v@[i]).will_message) }
pub open spec fn inv(st: BrokerState, h: Heap) -> bool { st.session_pool.wf(h) && st.topic_tree.wf() && oks(h) && wills(h) }
pub open spec fn format_of(f: Option<PayloadFormat>) -> PayloadFormat { match f { Some(x) => x, None => PayloadFormat::Bin } }
/// the message a will is published as
pub open spec fn is_will(p: Publish, w: WillMessage) -> bool {
    &&& p.inv() && p.topic_name == w.topic && p.payload == Some(w.payload) && p.q() == w.qos.code() && fh_retain(p.fixed_header) == w.retain && !fh_dup(p.fixed_header)
    &&& p.message_expiry == w.header.message_expiry && p.content_type == w.header.content_type && p.response_topic == w.header.response_topic
    &&& p.correlation_data == w.header.correlation_data && p.user_properties == w.header.user_properties && format_of(p.payload_format) == format_of(w.header.payload_format)
    &&& p.packet_id is None && p.topic_alias is None && p.subscription_identifiers is None
}
/// sessions keep everything but what deliveries change
pub open spec fn kept(a: Session, b: Session) -> bool { b == (Session { next_packet_id: b.next_packet_id, pending_ack: b.pending_ack, control: b.control, ..a }) && b.control.1 == a.control.1 }
pub open spec fn calm(h0: Heap, h1: Heap) -> bool {
    h1.v@.len() == h0.v@.len() && forall|i: int| #![trigger h0.v@[i]] #![trigger h1.v@[i]] 0 <= i < h0.v@.len() ==> kept(h0.v@[i], h1.v@[i])
}
/// as calm, but the session r refers to has lost its will and may have one pending
pub open spec fn unwilled(h0: Heap, h1: Heap, r: Ref) -> bool {
    h1.v@.len() == h0.v@.len() && forall|i: int| #![trigger h0.v@[i]] #![trigger h1.v@[i]] 0 <= i < h0.v@.len() ==> (if i == r.ix {
        kept(Session { will_message: None, pending_will: h1.v@[i].pending_will, ..h0.v@[i] }, h1.v@[i]) } else { kept(h0.v@[i], h1.v@[i]) })
}
pub open spec fn published(h0: Heap, h1: Heap, w: WillMessage) -> bool { h1.log@.len() == h0.log@.len() + 1 && h1.log@.drop_last() == h0.log@ && is_will(h1.log@.last(), w) }
/// the will of the session r refers to has been taken: published once, at once or, when a delay was asked for, unless cancelled before
pub open spec fn will_taken(h0: Heap, h1: Heap, r: Ref) -> bool {
    let w = h0.at(r).will_message;
    &&& h1.at(r).will_message is None
    &&& w is None ==> h1.log == h0.log && h1.at(r).pending_will == h0.at(r).pending_will
    &&& w matches Some(m) ==> if m.header.will_delay is None || m.header.will_delay == Some(0u32) { published(h0, h1, m) && h1.at(r).pending_will == h0.at(r).pending_will }
        else { (published(h0, h1, m) || h1.log == h0.log) && h1.at(r).pending_will is Some }
}
pub open spec fn gone(c: Option<Receiver<SessionControl>>) -> bool { c matches Some(r) && r.closed() }
pub proof fn routed_calm(st: BrokerState, h0: Heap, h1: Heap, p: Publish)
    requires exists|s: Seq<u8>| routed(st, h0, h1, p, s)
    ensures calm(h0, h1)
{
    let sender = choose|s: Seq<u8>| routed(st, h0, h1, p, s);
    let subs = choose|subs: Seq<Subscriber>| #[trigger] exactly_matching(&st.topic_tree, split_at(p.topic_name@, slash()), subs) && h1.v@.len() == h0.v@.len()
        && forall|i: int| 0 <= i < h0.v@.len() ==> served(#[trigger] h0.v@[i], h1.v@[i], copies(st.session_pool, p, sender, subs, i));
    assert forall|i: int| 0 <= i < h0.v@.len() implies kept(#[trigger] h0.v@[i], h1.v@[i]) by { assert(served(h0.v@[i], h1.v@[i], copies(st.session_pool, p, sender, subs, i))); }
}
pub proof fn calm_wills(h0: Heap, h1: Heap) requires calm(h0, h1), wills(h0) ensures wills(h1)
{ assert forall|i: int| 0 <= i < h1.v@.len() implies will_ok((#[trigger] h1.v@[i]).will_message) by { assert(kept(h0.v@[i], h1.v@[i])); } }
pub proof fn unwilled_inv(st: BrokerState, h0: Heap, h1: Heap, r: Ref)
    requires inv(st, h0), unwilled(h0, h1, r), oks(h1)
    ensures inv(st, h1)
{
    assert forall|i: int| 0 <= i < h1.v@.len() implies will_ok((#[trigger] h1.v@[i]).will_message) by { assert(h0.v@[i] == h0.v@[i]); assert(will_ok(h0.v@[i].will_message)); }
    assert forall|k: Seq<u8>| #[trigger] st.session_pool.act().dom().contains(k) implies h1.has(st.session_pool.act()[k]) && h1.at(st.session_pool.act()[k]).id@ == k && h1.at(st.session_pool.act()[k]).connected by { let x = h0.v@[st.session_pool.act()[k].ix as int]; assert(x == x); }
    assert forall|k: Seq<u8>| #[trigger] st.session_pool.ina().dom().contains(k) implies h1.has(st.session_pool.ina()[k]) && h1.at(st.session_pool.ina()[k]).id@ == k && !h1.at(st.session_pool.ina()[k]).connected by { let x = h0.v@[st.session_pool.ina()[k].ix as int]; assert(x == x); }
}
impl Broker {
//@fn broker Broker::publish_will | clone
    requires inv(*old(state), *old(vx_heap)), is_topic(will.topic)
    ensures *final(state) == *old(state), inv(*final(state), *final(vx_heap)), calm(*old(vx_heap), *final(vx_heap)),
        published(*old(vx_heap), *final(vx_heap), *will),
//@start
    let ghost h0 = *vx_heap;
    let ghost st = *state;
//@tail
    proof {
        routed_calm(st, h0, *vx_heap, publish);
        calm_wills(h0, *vx_heap);
        assert(h0.log@.push(publish).drop_last() =~= h0.log@);
    }
//@end
//@fn broker Broker::initiate_will
    requires inv(*old(state), *old(vx_heap)), old(vx_heap).has(*session)
    ensures *final(state) == *old(state), inv(*final(state), *final(vx_heap)), unwilled(*old(vx_heap), *final(vx_heap), *session),
        will_taken(*old(vx_heap), *final(vx_heap), *session),
//@start
    let ghost h0 = *vx_heap;
//@tail
    proof {
        assert forall|i: int| 0 <= i < h0.v@.len() implies (if i == session.ix {
            kept(Session { will_message: None, pending_will: vx_heap.v@[i].pending_will, ..#[trigger] h0.v@[i] }, vx_heap.v@[i]) } else { kept(h0.v@[i], vx_heap.v@[i]) }) by { assert(h0.v@[i] == h0.v@[i]); }
        unwilled_inv(*state, h0, *vx_heap, *session);
    }
//@end
//@fn broker Broker::taken_over
    ensures r == gone(*control),
//@end
//@fn broker Broker::deactivate_session
    requires inv(*old(state), *old(vx_heap)), old(vx_heap).has(*session), old(state).session_pool.room()
    ensures inv(*final(state), *final(vx_heap)), final(vx_heap).log == old(vx_heap).log,
        final(state).session_pool.active_sessions <= old(state).session_pool.active_sessions, final(state).session_pool.inactive_sessions <= old(state).session_pool.inactive_sessions + 1, final(state).topic_tree == old(state).topic_tree, final(state).config == old(state).config, final(state).accept_connections == old(state).accept_connections,
        final(vx_heap).same_but(*old(vx_heap), *session),
        final(vx_heap).at(*session) == (Session { connected: final(vx_heap).at(*session).connected, ..old(vx_heap).at(*session) }),
        ({ let id = old(vx_heap).at(*session).id@; let p = old(state).session_pool;
            if p.act().dom().contains(id) && p.act()[id].ix == session.ix && !gone(*control) {
                final(state).session_pool.act() == p.act().remove(id) && final(state).session_pool.ina() == p.ina().insert(id, *session)
            } else { *final(vx_heap) == *old(vx_heap) && *final(state) == *old(state) } }),
//@start
    let ghost h0 = *vx_heap;
//@tail
    proof {
        assert forall|i: int| 0 <= i < vx_heap.v@.len() implies (#[trigger] vx_heap.v@[i]).ok() && will_ok(vx_heap.v@[i].will_message) by { assert(h0.v@[i].ok() && will_ok(h0.v@[i].will_message)); }
    }
//@end
//@fn broker Broker::release_session
    requires inv(*old(state), *old(vx_heap)), old(vx_heap).has(*session), old(state).session_pool.room()
    ensures inv(*final(state), *final(vx_heap)), final(vx_heap).v@.len() == old(vx_heap).v@.len(),
        final(state).session_pool.active_sessions <= old(state).session_pool.active_sessions, final(state).session_pool.inactive_sessions <= old(state).session_pool.inactive_sessions + 1, gone(*control) ==> *final(vx_heap) == *old(vx_heap) && *final(state) == *old(state),
        !gone(*control) ==> will_taken(*old(vx_heap), *final(vx_heap), *session),
        final(state).topic_tree == old(state).topic_tree, final(state).config == old(state).config, final(state).accept_connections == old(state).accept_connections,
        ({ let id = old(vx_heap).at(*session).id@; let p = old(state).session_pool;
            if p.act().dom().contains(id) && p.act()[id].ix == session.ix && !gone(*control) {
                final(state).session_pool.act() == p.act().remove(id) && final(state).session_pool.ina() == p.ina().insert(id, *session)
            } else { *final(state) == *old(state) } }),
//@end
}

// ---- packets ----
pub proof fn flag_bits(f: u8)
    ensures ((f & 0x80) != 0) == ((f / 128) % 2 == 1), ((f & 0x40) != 0) == ((f / 64) % 2 == 1), ((f & 0x20) != 0) == ((f / 32) % 2 == 1), (f & 0x18) >> 3u8 == (f / 8) % 4,
        ((f & 4) != 0) == ((f / 4) % 2 == 1), ((f & 2) != 0) == ((f / 2) % 2 == 1), ((f & 1) != 0) == (f % 2 == 1), (f | 1) == f / 2 * 2 + 1, (f & !1u8) == f / 2 * 2,
{
    assert(((f & 0x80) != 0) == ((f / 128) % 2 == 1) && ((f & 0x40) != 0) == ((f / 64) % 2 == 1) && ((f & 0x20) != 0) == ((f / 32) % 2 == 1)) by (bit_vector);
    assert((f & 0x18) >> 3u8 == (f / 8) % 4 && ((f & 4) != 0) == ((f / 4) % 2 == 1) && ((f & 2) != 0) == ((f / 2) % 2 == 1) && ((f & 1) != 0) == (f % 2 == 1)) by (bit_vector);
    assert((f | 1) == f / 2 * 2 + 1 && (f & !1u8) == f / 2 * 2) by (bit_vector);
}
impl Default for Reason { open spec fn dflt(r: Reason) -> bool { r == Reason::Success } fn vx_default() -> Reason { Reason::Success } }
pub open spec fn ack_new(r: ConnAck) -> bool {
    r.ack_flags == 0 && r.reason == Reason::Success && r.session_expiry_interval is None && r.receive_maximum is None && r.assigned_client_id is None && r.server_keep_alive is None
}
impl Default for ConnAck {
    open spec fn dflt(r: ConnAck) -> bool { ack_new(r) }
//@fn mqtt Default for ConnAck::default | as=vx_default
//@end
}
impl ConnAck {
    pub open spec fn present(self) -> bool { self.ack_flags % 2 == 1 }
//@fn mqtt ConnAck::session_present
    ensures r == self.present(),
//@start
    proof { flag_bits(self.ack_flags); }
//@end
//@fn mqtt ConnAck::set_session_present
    ensures *final(self) == (ConnAck { ack_flags: final(self).ack_flags, ..*old(self) }), final(self).present() == present,
//@start
    proof { flag_bits(self.ack_flags); }
//@end
//@fn mqtt ConnAck::set_server_keep_alive
    ensures *final(self) == (ConnAck { server_keep_alive: if keep_alive == 0 { None } else { Some(keep_alive) }, ..*old(self) }),
//@end
//@fn mqtt ConnAck::set_session_expiry
    ensures *final(self) == (ConnAck { session_expiry_interval: if interval == 0 { None } else { Some(interval) }, ..*old(self) }),
//@end
//@fn mqtt ConnAck::receive_max
    ensures r == self.receive_maximum,
//@end
//@fn mqtt ConnAck::set_receive_max
    ensures *final(self) == (ConnAck { receive_maximum: if max == 0 { None } else { Some(max) }, ..*old(self) }),
//@end
}
impl VxInto<Bytes> for Vec<u8> {
    open spec fn into_ok(self, r: Bytes) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vx_into(self) -> Bytes { unimplemented!() }
}
impl Bytes {
    #[verifier::external_body]
    pub fn from(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
/// the will a CONNECT asks for, with all its fields
pub open spec fn will_of(c: Connect, w: Option<WillMessage>) -> bool {
    &&& w is Some <==> (c.connect_flags / 4) % 2 == 1
    &&& w matches Some(m) ==> (c.will_topic matches Some(t) ==> m.topic == t) && (c.will_topic is None ==> m.topic@.len() == 0)
        && (c.will_payload matches Some(p) ==> m.payload@ == p@) && (c.will_payload is None ==> m.payload@.len() == 0)
        && m.qos == opt_qos((c.connect_flags / 8) % 4) && m.retain == ((c.connect_flags / 32) % 2 == 1)
        && (c.will_properties matches Some(h) ==> m.header == h) && (c.will_properties is None ==> header_none(m.header))
}
impl Connect {
//@fn mqtt Connect::clean_start
    ensures r == ((self.connect_flags / 2) % 2 == 1),
//@start
    proof { flag_bits(self.connect_flags); }
//@end
//@fn mqtt Connect::will_retain
    ensures r == ((self.connect_flags / 32) % 2 == 1),
//@start
    proof { flag_bits(self.connect_flags); }
//@end
//@fn mqtt Connect::will_qos
    ensures r matches Ok(q) ==> q == opt_qos((self.connect_flags / 8) % 4), r is Err ==> (self.connect_flags / 8) % 4 == 3,
//@start
    proof { flag_bits(self.connect_flags); }
//@end
//@fn mqtt Connect::will
    ensures r == ((self.connect_flags / 4) % 2 == 1),
//@start
    proof { flag_bits(self.connect_flags); }
//@end
//@fn mqtt Connect::will_message | clone
    ensures will_of(*self, r),
//@end
}

// ---- C15, C19: CONNECT ----
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
impl AtomicBool {
    #[verifier::external_body] pub fn new(b: bool) -> (r: AtomicBool) { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: Ordering) -> bool { unimplemented!() } }
impl BrokerState {
//@fn broker BrokerState::accepting_connections
//@end
//@fn broker BrokerState::new | noheap
    ensures r.config == config, r.session_pool.session_expiry == config.session_expiry, r.session_pool.default_keep_alive == config.default_keep_alive, r.session_pool.max_keep_alive == config.max_keep_alive, // @C15 C19
        forall|h: Heap| oks(h) && wills(h) ==> #[trigger] inv(r, h), r.session_pool.room(), // @C15
        forall|f: Segs, x: Subscriber| !(#[trigger] r.topic_tree.has(f, x)), // @C15 C19
//@end
}
impl Broker {
//@fn broker Broker::new_with_config
    requires config.session_channel_size > 0
    ensures r.state.config == config, r.state.session_pool.session_expiry == config.session_expiry, r.state.session_pool.default_keep_alive == config.default_keep_alive, r.state.session_pool.max_keep_alive == config.max_keep_alive, // @C15 C19
        forall|h: Heap| oks(h) && wills(h) ==> #[trigger] inv(r.state, h), // @C15
        forall|f: Segs, x: Subscriber| !(#[trigger] r.state.topic_tree.has(f, x)), // @C15 C19
//@end
//@fn broker Broker::set_session_expiration
    ensures *final(self) == (Broker { state: BrokerState { session_pool: SessionPool { session_expiry: expiration, ..old(self).state.session_pool }, ..old(self).state }, ..*old(self) }), // @C19
//@end
}
pub open spec fn clean(c: Connect) -> bool { (c.connect_flags / 2) % 2 == 1 }
pub open spec fn into_range(req: u16, lo: u16, hi: u16) -> u16 { if req < lo { lo } else if req > hi { hi } else { req } }
pub open spec fn secs(s: u64) -> Duration { Duration { secs: s, nanos: 0 } }
pub open spec fn stored(p: SessionPool, id: Seq<u8>) -> Ref { if p.ina().dom().contains(id) { p.ina()[id] } else { p.act()[id] } }
pub open spec fn full_house(st: BrokerState) -> bool { st.config.max_active_sessions matches Some(m) && st.session_pool.active_sessions >= m }
pub open spec fn asks_none(c: Connect) -> bool { c.session_expiry_interval is None || c.session_expiry_interval == Some(0u32) }
/// what the CONNACK says
pub open spec fn told(c: Connect, st: BrokerState, id: Seq<u8>, a: ConnAck) -> bool {
    let g = into_range(c.keep_alive, sat16(st.session_pool.default_keep_alive.secs), sat16(st.session_pool.max_keep_alive.secs));
    let max = sat32(st.session_pool.session_expiry.secs);
    &&& a.reason == Reason::Success && a.present() == (!clean(c) && st.session_pool.holds(id))
    &&& c.client_id@.len() > 0 ==> id == c.client_id@ && a.assigned_client_id is None
    &&& c.client_id@.len() == 0 ==> id.len() > 0 && (a.assigned_client_id matches Some(x) && x@ == id)
    &&& g > 0 || c.keep_alive == 0 ==> a.server_keep_alive == (if g != c.keep_alive { Some(g) } else { None })
    &&& a.session_expiry_interval == (if !asks_none(c) && c.session_expiry_interval->0 > max { Some(max) } else { None })
}
/// what the session holds
pub open spec fn opened(c: Connect, st0: BrokerState, h0: Heap, s1: Session, s: Ref) -> bool {
    let p = st0.session_pool;
    let id = s1.id@;
    let g = into_range(c.keep_alive, sat16(p.default_keep_alive.secs), sat16(p.max_keep_alive.secs));
    let max = sat32(p.session_expiry.secs);
    let resumed = !clean(c) && p.holds(id);
    &&& s1.connected && s1.keep_alive == secs(scaled(g)) && s1.control.1 is Some
    &&& !asks_none(c) ==> s1.session_expiry == Some(secs((if c.session_expiry_interval->0 > max { max } else { c.session_expiry_interval->0 }) as u64))
    &&& asks_none(c) ==> s1.session_expiry == (if resumed { h0.at(stored(p, id)).session_expiry } else { None })
    &&& resumed ==> s.ix == stored(p, id).ix && s1.pending_ack == h0.at(s).pending_ack && s1.next_packet_id == h0.at(s).next_packet_id
    &&& !resumed ==> s1.pending_ack@ == Pending::empty() && s.ix == h0.v@.len()
}
pub open spec fn roomy(st: BrokerState) -> bool { st.session_pool.active_sessions < u32::MAX - 1 && st.session_pool.inactive_sessions < u32::MAX - 1 }
impl Broker {
//@fn broker Broker::handle_takeover | readmut
    requires old(vx_heap).has(session)
    ensures final(vx_heap).same_but(*old(vx_heap), session), kept(old(vx_heap).at(session), final(vx_heap).at(session)),
        final(vx_heap).at(session).pending_ack == old(vx_heap).at(session).pending_ack, final(vx_heap).at(session).next_packet_id == old(vx_heap).at(session).next_packet_id,
        final(vx_heap).at(session).sent() == old(vx_heap).at(session).sent().push(SessionControl::Disconnect(Reason::SessionTakeOver)),
//@end
//@fn broker Broker::handle_connect | try clone
    requires inv(*old(state), *old(vx_heap)), roomy(*old(state)), old(state).config.session_channel_size > 0, forall|w: Option<WillMessage>| #[trigger] will_of(connect, w) ==> will_ok(w)
    ensures inv(*final(state), *final(vx_heap)), final(state).config == old(state).config, final(stream).got == old(stream).got, final(stream).mark == old(stream).mark,
        final(vx_heap).v@.len() >= old(vx_heap).v@.len(), final(state).session_pool.room(),
        final(state).session_pool.active_sessions <= old(state).session_pool.active_sessions || !(final(state).config.max_active_sessions matches Some(m) && final(state).session_pool.active_sessions > m), // @C15
        r matches Ok(Some(s)) ==> final(vx_heap).has(s) && final(stream).out@.len() == old(stream).out@.len() + 1
            && (final(stream).out@.last() matches Packet::ConnAck(a) && told(connect, *old(state), final(vx_heap).at(s).id@, a)), // @C19
        r matches Ok(Some(s)) ==> opened(connect, *old(state), *old(vx_heap), final(vx_heap).at(s), s), // @C19
        r matches Ok(Some(s)) ==> will_of(connect, final(vx_heap).at(s).will_message) && final(vx_heap).at(s).pending_will is None, // @C20
        r matches Ok(Some(s)) ==> ({ let id = final(vx_heap).at(s).id@;
            got(final(state).session_pool.act(), id) == Some(s) && !(full_house(*old(state)) && !old(state).session_pool.act().dom().contains(id)) }), // @C15
        r matches Ok(Some(s)) ==> ({ let id = final(vx_heap).at(s).id@; let p = old(state).session_pool; let q = final(state).session_pool;
            q.act().remove(id) =~= p.act().remove(id) && q.ina() =~= p.ina().remove(id) }), // @C15
        r matches Ok(Some(s)) ==> forall|f: Segs, x: Subscriber| #[trigger] final(state).topic_tree.has(f, x) <==> old(state).topic_tree.has(f, x) && !(clean(connect) && x.session_id@ == final(vx_heap).at(s).id@), // @C19
        r matches Ok(None) ==> *final(state) == *old(state) && *final(vx_heap) == *old(vx_heap) && full_house(*old(state)) && final(stream).out@.len() == old(stream).out@.len() + 1
            && (final(stream).out@.last() matches Packet::ConnAck(a) && a.reason == Reason::QuotaExceeded && !a.present()), // @C15
//@end
}

// ---- C16, C18, C20: a connection's life ----
impl Default for PubResp {
    open spec fn dflt(r: PubResp) -> bool { true }
//@fn mqtt Default for PubResp::default | as=vx_default
//@end
}
impl PubResp {
//@fn mqtt PubResp::new_puback_with_packet_id
    ensures r.packet_id == packet_id, r.fixed_header == fh_new(PacketType::PubAck),
//@end
}
impl Default for PingResp {
    open spec fn dflt(r: PingResp) -> bool { r.fixed_header == fh_new(PacketType::PingResp) }
//@fn mqtt Default for PingResp::default | as=vx_default
//@end
}
impl Default for Disconnect {
    open spec fn dflt(r: Disconnect) -> bool { r.fixed_header == fh_new(PacketType::Disconnect) }
//@fn mqtt Default for Disconnect::default | as=vx_default
//@end
}
impl Disconnect {
//@fn mqtt Disconnect::new
    ensures r.reason == reason, r.fixed_header == fh_new(PacketType::Disconnect),
//@end
}
pub use Packet::PingResponse;
/// what MQTT forbids a client to send and the broker does not look for: wildcards in the topic of a message or a will
pub open spec fn fit(p: Packet) -> bool {
    match p {
        Packet::Publish(m) => m.inv() && is_topic(m.topic_name),
        Packet::Connect(c) => forall|w: Option<WillMessage>| #[trigger] will_of(*c, w) ==> will_ok(w),
        Packet::Subscribe(s) => levels_of(s.filter@, s.filter@.len() as int) <= 0x7fff_ffff,
        _ => true,
    }
}
pub open spec fn tree_room(st: BrokerState, p: Packet) -> bool { p matches Packet::Subscribe(s) ==> st.topic_tree.n() + levels_of(s.filter@, s.filter@.len() as int) <= u32::MAX }
pub open spec fn normal_end(p: Packet) -> bool { p matches Packet::Disconnect(d) && d.reason == Reason::Success }
impl Broker {
//@fn broker Broker::handle_pre_connect | try
    requires inv(*old(state), *old(vx_heap)), roomy(*old(state)), old(state).config.session_channel_size > 0, fit(packet)
    ensures inv(*final(state), *final(vx_heap)), final(state).config == old(state).config, r matches Ok(Some(s)) ==> final(vx_heap).has(s),
        final(vx_heap).v@.len() >= old(vx_heap).v@.len(), final(state).session_pool.room(),
        final(stream).got == old(stream).got, final(stream).mark == old(stream).mark,
//@end
//@fn broker Broker::handle_packet | try
    requires inv(*old(state), *old(vx_heap)), fit(packet), tree_room(*old(state), packet), old(vx_heap).has(session)
    ensures inv(*final(state), *final(vx_heap)), final(state).config == old(state).config, final(state).session_pool == old(state).session_pool, final(vx_heap).v@.len() == old(vx_heap).v@.len(),
        final(stream).got == old(stream).got, final(stream).mark == old(stream).mark,
        packet matches Packet::Disconnect(d) ==> if d.reason == Reason::Success { final(vx_heap).log == old(vx_heap).log && final(vx_heap).same_but(*old(vx_heap), session)
            && final(vx_heap).at(session) == (Session { will_message: None, ..old(vx_heap).at(session) }) }
            else { will_taken(*old(vx_heap), *final(vx_heap), session) }, // @C20
        !(packet is Disconnect) ==> final(vx_heap).at(session).will_message == old(vx_heap).at(session).will_message, // @C20
        packet matches Packet::PubAck(a) ==> final(vx_heap).same_but(*old(vx_heap), session)
            && final(vx_heap).at(session) == (Session { pending_ack: final(vx_heap).at(session).pending_ack, ..old(vx_heap).at(session) })
            && final(vx_heap).at(session).pending_ack@ == old(vx_heap).at(session).pending_ack@.remove(a.packet_id), // @C16
        packet matches Packet::Publish(p) ==> r is Ok ==> exists|h: Seq<u8>| routed(*old(state), *old(vx_heap), *final(vx_heap), p, h) && h == old(vx_heap).at(session).id@, // @C17
        packet matches Packet::Publish(p) ==> r is Ok && p.q() == 1 ==> final(stream).out@.len() == old(stream).out@.len() + 1
            && (final(stream).out@.last() matches Packet::PubAck(a) && p.packet_id == Some(a.packet_id)), // @C17
        packet matches Packet::Subscribe(q) ==> *final(vx_heap) == *old(vx_heap) && recorded(&old(state).topic_tree, &final(state).topic_tree, q.filter@, q.filter@.len() as int, old(vx_heap).at(session).id@)
            && final(stream).out@.len() == old(stream).out@.len() + 1 && (final(stream).out@.last() matches Packet::SubAck(a) && a.packet_id == q.packet_id && a.reason_codes@.len() == q.filter@.len()), // @C18
        packet matches Packet::Unsubscribe(q) ==> *final(vx_heap) == *old(vx_heap) && dropped(&old(state).topic_tree, &final(state).topic_tree, q.topics@, q.topics@.len() as int, old(vx_heap).at(session).id@)
            && final(stream).out@.len() == old(stream).out@.len() + 1 && (final(stream).out@.last() matches Packet::UnsubAck(a) && a.packet_id == q.packet_id && a.reason_code@.len() == q.topics@.len()), // @C18
        !(packet is Subscribe) && !(packet is Unsubscribe) ==> *final(state) == *old(state),
//@start
    let ghost h0 = *vx_heap;
    let ghost st = *state;
    let ghost pk = packet;
//@tail
    proof {
        if pk is Publish { routed_calm(st, h0, *vx_heap, pk->Publish_0); calm_wills(h0, *vx_heap); }
        if pk is PubAck || normal_end(pk) {
            assert forall|i: int| 0 <= i < vx_heap.v@.len() implies (#[trigger] vx_heap.v@[i]).ok() && will_ok(vx_heap.v@[i].will_message) by { assert(h0.v@[i].ok() && will_ok(h0.v@[i].will_message)); }
        }
    }
//@end
}
pub const DEFAULT_KEEP_ALIVE: Duration = Duration { secs: 45, nanos: 0 };
/// Between two steps of a connection the others run: anything may have changed, within the invariants.
#[verifier::external_body]
pub fn vx_others(state: &mut BrokerState, vx_heap: &mut Heap)
    requires inv(*old(state), *old(vx_heap))
    ensures inv(*final(state), *final(vx_heap)), final(state).config == old(state).config, roomy(*final(state)), final(state).topic_tree.n() <= 0x7fff_ffff,
        final(vx_heap).v@.len() >= old(vx_heap).v@.len(), forall|i: int| 0 <= i < old(vx_heap).v@.len() ==> (#[trigger] final(vx_heap).v@[i]).id == old(vx_heap).v@[i].id,
{ unimplemented!() }
/// how the step that ended the connection dealt with the session and its will
pub open spec fn ended(m: (BrokerState, Heap), st: BrokerState, h: Heap, s: Ref, got: Option<Packet>, gone: bool) -> bool {
    &&& gone ==> h == m.1
    &&& !gone && (got matches Some(p) && normal_end(p)) ==> h.log == m.1.log && h.at(s).will_message is None
    &&& !gone && !(got matches Some(p) && normal_end(p)) ==> will_taken(m.1, h, s)
}
pub proof fn dup_parts(h: FixedHeader) requires fh_inv(h) ensures fh_qos(fh_with(h, fh_qos(h), true, fh_retain(h))) == fh_qos(h) {
    let f = h.flags;
    assert((f / 2) % 4 < 3 ==> ((((f / 16) * 16 + 8 + 2 * ((f / 2) % 4) + (if f % 2 == 1 { 1u8 } else { 0u8 })) as u8) / 2) % 4 == (f / 2) % 4) by (bit_vector);
}
pub open spec fn redelivered(a: Publish, b: Publish) -> bool { b == (Publish { fixed_header: fh_with(a.fixed_header, a.q(), true, fh_retain(a.fixed_header)), ..a }) }
/// a list with as many distinct keys as the map has names them all
pub proof fn all_listed(l: Seq<(u16, Publish)>, m: Pending)
    requires entries_of(l, m), m.dom().finite()
    ensures forall|k: u16| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k
{
    let ks = l.map_values(|e: (u16, Publish)| e.0);
    assert(ks.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < ks.len() && 0 <= j < ks.len() && i != j implies ks[i] != ks[j] by {
            if i < j { assert(l[i].0.k() != l[j].0.k()); } else { assert(l[j].0.k() != l[i].0.k()); }
        }
    }
    ks.unique_seq_to_set();
    assert(ks.to_set().subset_of(m.dom())) by { assert forall|k: u16| ks.to_set().contains(k) implies m.dom().contains(k) by { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(m.dom().contains(l[i].0.k())); } }
    vstd::set_lib::lemma_subset_equality(ks.to_set(), m.dom());
    assert forall|k: u16| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k by {
        assert(ks.to_set().contains(k));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
        assert(l[i].0 == k);
    }
}
impl Broker {
//@fn broker Broker::handle_control
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@loop 0
    invariant true
//@end
//@fn broker Broker::keep_alive_timer
//@end
//@fn broker Broker::serve_client | try
    requires inv(*old(state), *old(vx_heap)), old(state).config.session_channel_size > 0, *old(client_session) is None, roomy(*old(state))
    ensures inv(*final(state), *final(vx_heap)), *final(client_session) matches Some(s) ==> final(vx_heap).has(s), final(state).session_pool.room(),
        r is Ok ==> (*final(client_session) matches Some(s) ==> ended(final(stream).mark@, *final(state), *final(vx_heap), s, final(stream).got@, gone(*final(session_control)))), // @C20
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@loop 0
    invariant inv(*state, *vx_heap), state.config.session_channel_size > 0, *client_session matches Some(s) ==> vx_heap.has(s), connected ==> *client_session is Some
//@top 0
    vx_others(state, vx_heap);
    stream.mark = Ghost((*state, *vx_heap));
    stream.got = Ghost(None);
//@aftercall take_control_receiver
    let ghost pend0 = session.pending_ack@;
    proof { assert(session.ok()); hm_finite(session.pending_ack); }
//@aftercall drain_pending
    let ghost se0 = *session;
    let ghost p0 = pending@;
//@loop 1
    invariant vx_k2 <= pending@.len(), pending@.len() == p0.len(), entries_of(p0, pend0), pend_ok(pend0),
        forall|j: int| vx_k2 <= j < p0.len() ==> pending@[j] == #[trigger] p0[j],
        forall|j: int| 0 <= j < vx_k2 ==> pending@[j].0 == (#[trigger] p0[j]).0 && redelivered(p0[j].1, pending@[j].1), // @C16
        *session == (Session { pending_ack: session.pending_ack, ..se0 }), se0.next_packet_id != 0,
        forall|k: u16| #[trigger] session.pending_ack@.dom().contains(k) ==> exists|j: int| 0 <= j < vx_k2 && (#[trigger] p0[j]).0 == k, // @C16
        forall|j: int| 0 <= j < vx_k2 ==> session.pending_ack@.dom().contains((#[trigger] p0[j]).0) && session.pending_ack@[p0[j].0] == pending@[j].1, // @C16
    decreases pending@.len() - vx_k2
//@top 1
    let ghost i = vx_k2 as int;
    let ghost before = session.pending_ack@;
    proof { assert(p0[i] == pending@[i]); assert(pend0.dom().contains(p0[i].0.k())); }
//@bot 1
    proof {
        assert(session.pending_ack@ == before.insert(p0[i].0, pending@[i].1)); // @C16
        assert forall|k: u16| #[trigger] session.pending_ack@.dom().contains(k) implies exists|j: int| 0 <= j < i + 1 && (#[trigger] p0[j]).0 == k by {
            if k == p0[i].0 { assert(p0[i].0 == k); } else { let j = choose|j: int| 0 <= j < i && (#[trigger] p0[j]).0 == k; assert(p0[j].0 == k); }
        }
        assert forall|j: int| 0 <= j < i + 1 implies session.pending_ack@.dom().contains((#[trigger] p0[j]).0) && session.pending_ack@[p0[j].0] == pending@[j].1 by {
            if j < i { assert(p0[j].0.k() != p0[i].0.k()); }
        }
    }
//@after 1
    proof {
        all_listed(p0, pend0);
        // everything that was pending still is, as a duplicate
        assert forall|k: u16| #[trigger] session.pending_ack@.dom().contains(k) <==> pend0.dom().contains(k) by { // @C16
            if pend0.dom().contains(k) { let j = choose|j: int| 0 <= j < p0.len() && (#[trigger] p0[j]).0 == k; assert(p0[j].0 == k); }
            if session.pending_ack@.dom().contains(k) { let j = choose|j: int| 0 <= j < p0.len() && (#[trigger] p0[j]).0 == k; assert(pend0.dom().contains(p0[j].0.k())); }
        }
        assert forall|k: u16| #[trigger] session.pending_ack@.dom().contains(k) implies redelivered(pend0[k], session.pending_ack@[k]) by { // @C16
            let j = choose|j: int| 0 <= j < p0.len() && (#[trigger] p0[j]).0 == k; assert(p0[j].0.k() == k); assert(pend0[p0[j].0.k()] == p0[j].1);
        }
        assert forall|k: u16| #[trigger] session.pending_ack@.dom().contains(k) implies session.pending_ack@[k].inv() && session.pending_ack@[k].q() > 0 && session.pending_ack@[k].packet_id == Some(k) by {
            assert(pend0.dom().contains(k)); dup_parts(pend0[k].fixed_header);
        }
    }
//@loop 2
    invariant inv(*state, *vx_heap), state.config.session_channel_size > 0, state.session_pool.room(), *client_session matches Some(s) && vx_heap.has(s)
    decreases vx_it3@.len() - vx_i4
//@end
//@fn broker Broker::handle_client
    requires inv(*old(state), *old(vx_heap)), old(state).config.session_channel_size > 0, roomy(*old(state))
    ensures inv(*final(state), *final(vx_heap)),
//@tail
    proof {
        // however serving it failed, a connection that still has its session leaves no will behind
        assert(result is Err ==> (client_session matches Some(s) ==> !gone(session_control) ==> vx_heap.at(s).will_message is None)); // @C20
    }
//@end
}
