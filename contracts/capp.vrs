// ---- C25, C26: the client around its session: what it is configured with, and the task that runs it ----
use super::client::ErrorKind;
//@item client PacketChannel
//@item client FilteredChannel
//@item client ClientError
//@item client MqttConnection
//@item client MqttClient
pub struct RootCertStore { }
/// a channel: senders and receiver of one channel have its number
pub struct Sender<T> { pub ch: Ghost<int>, pub p: core::marker::PhantomData<T> }
pub struct Receiver<T> { pub ch: Ghost<int>, pub p: core::marker::PhantomData<T> }
pub enum TrySendError<T> { Full(T), Closed(T) }
pub struct SendError<T>(pub T);
impl<T> Clone for Sender<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// The record of a run of the client's task.
/// due: the packets meant for the application, as they were taken off the connection
/// got: what was put into which channel
/// sub: what the application submitted; wrote: what the session was given to send
/// slept: the last wait
pub struct Heap { pub due: Ghost<Seq<Packet>>, pub got: Ghost<Seq<(int, Packet)>>, pub sub: Ghost<Seq<Packet>>, pub wrote: Ghost<Seq<Packet>>, pub slept: Ghost<Option<Duration>> }
impl Heap {
    pub open spec fn got_too(self, o: Heap, c: int, p: Packet) -> bool { self == Heap { got: Ghost(o.got@.push((c, p))), ..o } }
}
impl Sender<Packet> {
    #[verifier::external_body]
    pub fn try_send(&self, p: Packet, vx_heap: &mut Heap) -> (r: Result<(), TrySendError<Packet>>)
        ensures match r { Ok(_) => final(vx_heap).got_too(*old(vx_heap), self.ch@, p), Err(TrySendError::Full(q)) => q == p && *final(vx_heap) == *old(vx_heap), Err(TrySendError::Closed(q)) => q == p && *final(vx_heap) == *old(vx_heap) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn send(&self, p: Packet, vx_heap: &mut Heap) -> (r: Result<(), SendError<Packet>>)
        ensures match r { Ok(_) => final(vx_heap).got_too(*old(vx_heap), self.ch@, p), Err(e) => e.0 == p && *final(vx_heap) == *old(vx_heap) }
    { unimplemented!() }
}
impl Receiver<Packet> {
    /// what applications can build: a PUBLISH whose header says a quality of service that exists
    #[verifier::external_body]
    pub fn recv(&mut self, vx_heap: &mut Heap) -> (r: Option<Packet>)
        ensures match r { Some(p) => *final(vx_heap) == (Heap { sub: Ghost(old(vx_heap).sub@.push(p)), ..*old(vx_heap) }) && (p matches Packet::Publish(m) ==> m.inv()), None => *final(vx_heap) == *old(vx_heap) }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn sleep(d: Duration, vx_heap: &mut Heap) ensures *final(vx_heap) == (Heap { slept: Ghost(Some(d)), ..*old(vx_heap) }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_choose(n: usize) -> (r: usize) ensures r < n { unimplemented!() }
pub open spec fn kind(p: Packet) -> PacketType {
    match p {
        Packet::PingRequest(_) => PacketType::PingReq, Packet::PingResponse(_) => PacketType::PingResp, Packet::Connect(_) => PacketType::Connect, Packet::ConnAck(_) => PacketType::ConnAck,
        Packet::Publish(_) => PacketType::Publish, Packet::PubAck(_) => PacketType::PubAck, Packet::PubComp(_) => PacketType::PubComp, Packet::PubRec(_) => PacketType::PubRec, Packet::PubRel(_) => PacketType::PubRel,
        Packet::Disconnect(_) => PacketType::Disconnect, Packet::Subscribe(_) => PacketType::Subscribe, Packet::SubAck(_) => PacketType::SubAck, Packet::Unsubscribe(_) => PacketType::Unsubscribe, Packet::UnsubAck(_) => PacketType::UnsubAck,
    }
}
impl PacketType {
//@fn mqtt From<&Packet> for PacketType::from | free
    ensures r == kind(*p),
//@end
}
impl VxKey for PacketType { type S = PacketType; open spec fn k(&self) -> PacketType { *self } }
/// the consumer of a packet: the one registered for its kind, else the default one
pub open spec fn consumer(f: Map<PacketType, Sender<Packet>>, d: Sender<Packet>, p: Packet) -> int { if f.dom().contains(kind(p)) { f[kind(p)].ch@ } else { d.ch@ } }
pub open spec fn to_consumers(f: Map<PacketType, Sender<Packet>>, d: Sender<Packet>, s: Seq<Packet>) -> Seq<(int, Packet)> { s.map_values(|p: Packet| (consumer(f, d, p), p)) }
pub broadcast proof fn one_more(f: Map<PacketType, Sender<Packet>>, d: Sender<Packet>, s: Seq<Packet>, p: Packet)
    ensures #[trigger] to_consumers(f, d, s.push(p)) =~= to_consumers(f, d, s).push((consumer(f, d, p), p))
{ }
/// acknowledgements are the client's own business when it sends them itself
pub open spec fn control(p: Packet) -> bool { p is PubAck || p is PubRec || p is PubRel || p is PubComp }
pub open spec fn sendable(s: Seq<Packet>, auto: bool) -> Seq<Packet> decreases s.len() {
    if s.len() == 0 { s } else if auto && control(s.last()) { sendable(s.drop_last(), auto) } else { sendable(s.drop_last(), auto).push(s.last()) }
}
pub broadcast proof fn one_more_sent(s: Seq<Packet>, p: Packet, auto: bool)
    ensures #[trigger] sendable(s.push(p), auto) == (if auto && control(p) { sendable(s, auto) } else { sendable(s, auto).push(p) })
{ assert(s.push(p).drop_last() =~= s); }
pub open spec fn on_top(a: Seq<Packet>, b: Seq<Packet>) -> bool { b.len() >= a.len() && forall|i: int| 0 <= i < a.len() ==> b[i] == a[i] }
/// the first packet that the task puts on the connection is the CONNECT that was configured
pub open spec fn opens_with(a: ClientSession, clean: bool, creds: Option<(String, String)>, will: Option<WillMessage>, out: Seq<Packet>) -> bool {
    on_top(a.packet_stream.out@, out) && out.len() > a.packet_stream.out@.len() && (out[a.packet_stream.out@.len() as int] matches Packet::Connect(c) && asks(a.state, clean, creds, will, *c))
}
// what the session does, recorded
impl ClientSession {
    pub fn handle_packet(&mut self, packet: Packet, vx_heap: &mut Heap) -> (r: Result<Option<Packet>, MqttError>)
        requires old(self).wf(), sound(packet)
        ensures final(self).wf(), final(self).kept(*old(self)), r matches Ok(Some(p)) ==> p == packet, on_top(old(self).packet_stream.out@, final(self).packet_stream.out@),
            *final(vx_heap) == (match r { Ok(Some(p)) => Heap { due: Ghost(old(vx_heap).due@.push(p)), ..*old(vx_heap) }, _ => *old(vx_heap) }),
    {
        let r = self.vx_handle_packet(packet);
        if let Ok(Some(p)) = &r { vx_heap.due = Ghost(vx_heap.due@.push(*p)); }
        r
    }
    pub fn write_next(&mut self, packet: Packet, vx_heap: &mut Heap) -> (r: Result<(), MqttError>)
        requires old(self).wf(), sound(packet) || packet is Publish && packet->Publish_0.inv()
        ensures final(self).wf(), ({ let s = ClientSession { connected: old(self).connected, ..*final(self) }; s.kept(*old(self)) }), packet is Disconnect || final(self).connected == old(self).connected, on_top(old(self).packet_stream.out@, final(self).packet_stream.out@),
            *final(vx_heap) == (Heap { wrote: Ghost(old(vx_heap).wrote@.push(packet)), ..*old(vx_heap) }),
    {
        vx_heap.wrote = Ghost(vx_heap.wrote@.push(packet));
        self.vx_write_next(packet)
    }
    /// a ping is due when the client has waited, for no longer than the keep alive in use
    pub fn handle_keep_alive(&mut self, vx_heap: &mut Heap) -> (r: Result<(), MqttError>)
        requires old(self).wf(), old(self).state.keep_alive_enabled, !(old(self).state.keep_alive.secs == 0 && old(self).state.keep_alive.nanos == 0),
            old(vx_heap).slept@ matches Some(d) && (d == old(self).state.keep_alive || shorter(d, old(self).state.keep_alive)),
        ensures *final(self) == (ClientSession { packet_stream: final(self).packet_stream, last_active: final(self).last_active, ..*old(self) }), on_top(old(self).packet_stream.out@, final(self).packet_stream.out@), *final(vx_heap) == *old(vx_heap),
    { self.vx_handle_keep_alive() }
}
impl ClientError {
//@fn client ClientError::new
    ensures r.mqtt_error == mqtt_error, r.state == state,
//@end
}
impl MqttClient {
//@fn client MqttClient::keep_alive_timer
    ensures final(vx_heap).slept@ == Some(keep_alive), *final(vx_heap) == (Heap { slept: final(vx_heap).slept, ..*old(vx_heap) }), // @C23
//@end
//@fn client MqttClient::forward_pending
    ensures packet is None <==> r is None,
        packet is None ==> *final(vx_heap) == *old(vx_heap),
        packet matches Some(p) ==> match r { Some(Ok(_)) => final(vx_heap).got_too(*old(vx_heap), consumer(filter_channel@, *packet_out, p), p), _ => *final(vx_heap) == *old(vx_heap) }, // @C26
//@end
//@fn client MqttClient::qos_control
    ensures r == control(*packet),
//@end
}
/// all that was due is where it belongs, but for what is still to be handed on
pub open spec fn handed_on(f: Map<PacketType, Sender<Packet>>, d: Sender<Packet>, h: Heap, rest: Option<Packet>) -> bool {
    to_consumers(f, d, h.due@) =~= (match rest { Some(p) => h.got@.push((consumer(f, d, p), p)), None => h.got@ })
}
pub open spec fn handed_on_but_last(f: Map<PacketType, Sender<Packet>>, d: Sender<Packet>, h: Heap) -> bool {
    handed_on(f, d, h, None) || h.due@.len() > 0 && handed_on(f, d, h, Some(h.due@.last()))
}
pub open spec fn fresh(h: Heap) -> bool { h.due@.len() == 0 && h.got@.len() == 0 && h.sub@.len() == 0 && h.wrote@.len() == 0 }
//@fn client MqttClient::start | task clone free
//@sig
fn vx_start_task(session: &mut ClientSession, max_connect_wait: Duration, credentials: Option<(String, String)>, clean_start: bool, will_message: Option<WillMessage>, connected: &mut bool, _keep_alive: &mut Duration, _session_expiry: &mut Duration, filter_channel: FilteredChannel, packet_out: Sender<Packet>, packet_in_receiver: &mut Receiver<Packet>) -> Result<SessionState, ClientError>
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires old(session).wf(), old(session).usable, fresh(*old(vx_heap)),
        forall|c: Connect| asks(old(session).state, clean_start, credentials, will_message, c) ==> #[trigger] c.encodes(),
    ensures !*final(connected), // @C23
        opens_with(*old(session), clean_start, credentials, will_message, final(session).packet_stream.out@), // @C25
        r matches Ok(s) ==> *final(_keep_alive) == s.keep_alive && *final(_session_expiry) == s.session_expiry, // @C23
        (match r { Ok(s) => s.wf(), Err(e) => e.state.wf() }), // @C21
        handed_on_but_last(filter_channel@, packet_out, *final(vx_heap)), // @C26
        final(vx_heap).wrote@ =~= sendable(final(vx_heap).sub@, old(session).state.auto_ack), // @C26
//@start
    broadcast use {one_more, one_more_sent};
//@loop 0
    invariant session.wf(), session.usable, session.connected, *connected, session.state.auto_ack == old(session).state.auto_ack,
        keep_alive == session.state.keep_alive, *_keep_alive == keep_alive, *_session_expiry == session.state.session_expiry, // @C23
        keep_alive_enabled ==> session.state.keep_alive_enabled && !(keep_alive.secs == 0 && keep_alive.nanos == 0), // @C23
        opens_with(*old(session), clean_start, credentials, will_message, session.packet_stream.out@), // @C25
        handed_on(filter_channel@, packet_out, *vx_heap, pending_forward), // @C26
        pending_forward matches Some(p) ==> vx_heap.due@.len() > 0 && p == vx_heap.due@.last(), // @C26
        vx_heap.wrote@ =~= sendable(vx_heap.sub@, session.state.auto_ack), // @C26
//@top 0
    broadcast use {one_more, one_more_sent};
//@end

// ---- building it ----
//@item client BuilderError
//@item client ClientBuilder
pub broadcast axiom fn hm_handed_out<K: VxKey, V>(m: HashMap<K, V>) ensures entries_of(#[trigger] m.items(), m@);
impl<K: VxKey, V> VxIter for HashMap<K, V> { type T = (K, V); uninterp spec fn items(&self) -> Seq<(K, V)>; }
#[verifier::external_body]
pub fn channel<T>(n: usize) -> (r: (Sender<T>, Receiver<T>)) ensures r.0.ch == r.1.ch { unimplemented!() }
/// a second handle to a value that is not changed while both are in use is its copy
pub struct Arc { }
impl Arc { pub fn clone<T>(x: &T) -> (r: T) ensures r == *x { x.vx_clone() } }
pub proof fn few(s: Set<u16>, n: nat)
    requires s.finite(), forall|k: u16| s.contains(k) ==> k < n
    ensures s.len() <= n
    decreases n
{
    if n > 0 { if n <= 65536 { let t = s.remove((n - 1) as u16); few(t, (n - 1) as nat); } else { few(s, (n - 1) as nat); } }
    else if s.len() > 0 { let x = s.choose(); assert(s.contains(x)); }
}
/// the map with the first n entries of a list
pub open spec fn of_first(l: Seq<(PacketType, Sender<Packet>)>, n: int) -> Map<PacketType, Sender<Packet>> decreases n { if n <= 0 { Map::empty() } else { of_first(l, n - 1).insert(l[n - 1].0, l[n - 1].1) } }
pub proof fn of_first_is(l: Seq<(PacketType, Sender<Packet>)>, m: Map<PacketType, Sender<Packet>>, n: int)
    requires entries_of(l, m), 0 <= n <= l.len()
    ensures forall|j: int| 0 <= j < n ==> of_first(l, n).dom().contains((#[trigger] l[j]).0) && of_first(l, n)[l[j].0] == l[j].1,
        forall|k: PacketType| #[trigger] of_first(l, n).dom().contains(k) ==> m.dom().contains(k) && m[k] == of_first(l, n)[k],
        of_first(l, n).dom().finite(), of_first(l, n).dom().len() == n
    decreases n
{
    if n > 0 {
        of_first_is(l, m, n - 1);
        assert(m.dom().contains(l[n - 1].0.k()));
        assert forall|j: int| 0 <= j < n - 1 implies (#[trigger] l[j]).0 != l[n - 1].0 by { assert(l[j].0.k() != l[n - 1].0.k()); }
        assert(!of_first(l, n - 1).dom().contains(l[n - 1].0)) by { if of_first(l, n - 1).dom().contains(l[n - 1].0) { first_has(l, n - 1, l[n - 1].0); } }
    }
}
pub proof fn first_has(l: Seq<(PacketType, Sender<Packet>)>, n: int, k: PacketType)
    requires of_first(l, n).dom().contains(k), n <= l.len()
    ensures exists|j: int| 0 <= j < n && (#[trigger] l[j]).0 == k
    decreases n
{ if n > 0 { if l[n - 1].0 != k { first_has(l, n - 1, k); let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] l[j]).0 == k; assert(l[j].0 == k); } else { assert(l[n - 1].0 == k); } } }
pub proof fn of_all(l: Seq<(PacketType, Sender<Packet>)>, m: Map<PacketType, Sender<Packet>>)
    requires entries_of(l, m), m.dom().finite()
    ensures of_first(l, l.len() as int) =~= m
{
    of_first_is(l, m, l.len() as int);
    let f = of_first(l, l.len() as int);
    assert(f.dom().subset_of(m.dom()));
    vstd::set_lib::lemma_subset_equality(f.dom(), m.dom());
}
impl PacketChannel {
    /// what is put in can be taken out
    pub open spec fn open(self) -> bool { self.1 matches Some(r) && r.ch == self.0.ch }
//@fn client PacketChannel::new_with_size
    ensures r.open(),
//@end
//@fn client PacketChannel::new
    ensures r.open(),
//@end
//@fn client PacketChannel::sender
    ensures r == self.0,
//@end
//@fn client PacketChannel::take_receiver
    ensures r == old(self).1, *final(self) == (PacketChannel(old(self).0, None)),
//@end
}
impl MqttClient {
    /// as built: this session, nothing else set, not connected
    pub open spec fn new_for(self, st: SessionState) -> bool {
        self.session_state == Some(st) && !self.connected && self.keep_alive == st.keep_alive && self.session_expiry == st.session_expiry
        && self.packet_in.open() && self.packet_out.open()
    }
//@fn client MqttClient::new
    ensures r.new_for(state), r.connection is None, r.will_message is None, r.err_chan is None, r.filter_channel@ == Map::<PacketType, Sender<Packet>>::empty(), r.max_connect_wait == (Duration { secs: 5, nanos: 0 }), // @C25
//@end
//@fn client MqttClient::new_with_connection
    ensures r.new_for(state), r.connection == Some(connection), r.will_message is None, r.err_chan is None, r.filter_channel@ == Map::<PacketType, Sender<Packet>>::empty(), // @C25
//@end
//@fn client MqttClient::add_filtered_packet_handler
    ensures *final(self) == (MqttClient { filter_channel: final(self).filter_channel, ..*old(self) }), final(self).filter_channel@ == old(self).filter_channel@.insert(packet_type, sender), // @C26
//@end
//@fn client MqttClient::set_error_out
    ensures *final(self) == (MqttClient { err_chan: Some(error_out), ..*old(self) }),
//@end
//@fn client MqttClient::set_max_connect_wait
    ensures *final(self) == (MqttClient { max_connect_wait: max_connect_wait, ..*old(self) }), // @C25
//@end
//@fn client MqttClient::set_will_message
    ensures *final(self) == (MqttClient { will_message: will_message, ..*old(self) }), // @C25
//@end
//@fn client MqttClient::max_connect_wait
    ensures r == self.max_connect_wait,
//@end
//@fn client MqttClient::connected
    ensures r == self.connected, // @C23
//@end
//@fn client MqttClient::keep_alive
    ensures r == self.keep_alive, // @C23
//@end
//@fn client MqttClient::session_expiry
    ensures r == self.session_expiry, // @C23
//@end
//@fn client MqttClient::packet_producer
    ensures r == old(self).packet_in.0, *final(self) == *old(self), // @C26
//@end
//@fn client MqttClient::take_packet_consumer
    ensures r == old(self).packet_out.1, // @C26
//@end
}
impl MqttConnection {
//@fn client MqttConnection::new
    ensures r.creds() is None, r.stream is None,
//@end
//@fn client MqttConnection::with_credentials
    ensures r.creds() matches Some(c) && c.0 == *username && c.1 == *password, r == (MqttConnection { username: r.username, password: r.password, ..self }), // @C25
//@end
//@fn client MqttConnection::with_host
    ensures r == (MqttConnection { host: *host, ..self }),
//@end
//@fn client MqttConnection::with_port
    ensures r == (MqttConnection { port: Some(port), ..self }),
//@end
//@fn client MqttConnection::with_tls
    ensures r == (MqttConnection { tls: true, port: if self.port is None { Some(8883) } else { self.port }, ..self }),
//@end
}
impl Default for SessionState {
    open spec fn dflt(r: SessionState) -> bool { r.wf() }
//@fn client Default for SessionState::default | as=vx_default
//@end
}
impl Default for ClientBuilder {
    open spec fn dflt(r: ClientBuilder) -> bool { r.state.wf() && r.filtered_consumer is None && r.error_out is None && r.will_message is None && r.channel_size is None }
//@fn client Default for ClientBuilder::default | as=vx_default
//@end
}
impl ClientBuilder {
    /// its state is a session's state
    pub open spec fn wf(self) -> bool { self.state.wf() }
    pub open spec fn consumers(self) -> Map<PacketType, Sender<Packet>> { match self.filtered_consumer { Some(f) => f@, None => Map::empty() } }
//@fn client ClientBuilder::new
    ensures r.wf(), r.connection == connection, r.will_message is None, r.error_out is None, r.consumers() == Map::<PacketType, Sender<Packet>>::empty(), // @C25
//@end
//@fn client ClientBuilder::with_state
    ensures r == (ClientBuilder { connection: connection, state: state, ..self }), // @C25
//@end
//@fn client ClientBuilder::with_auto_ack
    ensures r == (ClientBuilder { state: SessionState { auto_ack: auto_ack, ..self.state }, ..self }), self.wf() ==> r.wf(), // @C25
//@end
//@fn client ClientBuilder::with_auto_packet_id
    ensures r == (ClientBuilder { state: SessionState { auto_packet_id: auto_packet_id, ..self.state }, ..self }), self.wf() ==> r.wf(), // @C25
//@end
//@fn client ClientBuilder::with_receive_max
    ensures r == (ClientBuilder { state: SessionState { qos_recv_remaining: receive_max as usize, ..self.state }, ..self }), self.wf() ==> r.wf(), // @C25
//@tail
    proof { hm_finite(self.state.pending_qos_recv); few(self.state.pending_qos_recv@.dom(), 65536); }
//@end
//@fn client ClientBuilder::with_session_expiry
    ensures r == (ClientBuilder { state: SessionState { session_expiry: session_expiry, ..self.state }, ..self }), self.wf() ==> r.wf(), // @C25
//@end
//@fn client ClientBuilder::with_client_id
    ensures r == (ClientBuilder { state: SessionState { client_id: Some(*client_id), ..self.state }, ..self }), self.wf() ==> r.wf(), // @C25
//@end
//@fn client ClientBuilder::with_max_packet_size
    ensures r == (ClientBuilder { state: SessionState { max_packet_size: max_packet_size, ..self.state }, ..self }), self.wf() ==> r.wf(), // @C25
//@end
//@fn client ClientBuilder::with_keep_alive
    ensures r == (ClientBuilder { state: SessionState { keep_alive: keep_alive, ..self.state }, ..self }), self.wf() ==> r.wf(), // @C25
//@end
//@fn client ClientBuilder::with_max_connect_wait
    ensures r == (ClientBuilder { max_connect_wait: max_connect_wait, ..self }), // @C25
//@end
//@fn client ClientBuilder::with_filtered_consumer
    ensures r == (ClientBuilder { filtered_consumer: r.filtered_consumer, ..self }), r.filtered_consumer is Some && r.consumers() == self.consumers().insert(packet_type, sender), // @C26
//@end
//@fn client ClientBuilder::with_error_handler
    ensures r == (ClientBuilder { error_out: Some(error_out), ..self }),
//@end
//@fn client ClientBuilder::with_will_message
    ensures r == (ClientBuilder { will_message: Some(will_message), ..self }), // @C25
//@end
//@fn client ClientBuilder::with_channel_size
    ensures r == (ClientBuilder { channel_size: Some(channel_size), ..self }),
//@end
//@fn client ClientBuilder::with_keep_alive_enabled
    ensures r == (ClientBuilder { state: SessionState { keep_alive_enabled: enabled, ..self.state }, ..self }), self.wf() ==> r.wf(), // @C25
//@end
//@fn client ClientBuilder::with_pingresp
    ensures r == (ClientBuilder { state: SessionState { pingresp: pingresp, ..self.state }, ..self }), self.wf() ==> r.wf(), // @C25
//@end
//@fn client ClientBuilder::build
    ensures r is Err <==> shorter(self.state.keep_alive, Duration { secs: 30, nanos: 0 }), // @C25
        r matches Ok(c) ==> c.new_for(self.state) && c.connection == Some(self.connection) && c.will_message == self.will_message && c.err_chan == self.error_out && c.max_connect_wait == self.max_connect_wait, // @C25
        r matches Ok(c) ==> c.filter_channel@ =~= self.consumers(), // @C26
//@before 0
    let ghost c0 = client;
    let ghost l = vx_it1@;
    let ghost m = self.consumers();
    proof { hm_handed_out(filtered_consumer); hm_finite(filtered_consumer); }
//@loop 0
    invariant vx_i2 <= l.len(), vx_it1@ == l, entries_of(l, m), client == (MqttClient { filter_channel: client.filter_channel, ..c0 }), client.filter_channel@ =~= of_first(l, vx_i2 as int),
    decreases l.len() - vx_i2
//@after 0
    proof { of_all(l, m); }
//@end
}

// ---- starting it ----
pub struct JoinHandle<T> { pub out: Ghost<Seq<Packet>>, pub p: core::marker::PhantomData<T> }
#[verifier::external_body]
pub fn vx_done<T>(r: T, s: &ClientSession) -> (h: JoinHandle<T>) ensures h.out == s.packet_stream.out { unimplemented!() }
pub fn vx_cell<T>(x: T) -> (r: T) ensures r == x { x }
impl MqttConnection {
    pub open spec fn creds(self) -> Option<(String, String)> { if self.username is Some && self.password is Some { Some((self.username->0, self.password->0)) } else { None } }
//@fn client MqttConnection::credentials
    ensures r == self.creds(),
//@end
//@fn client MqttConnection::take_stream
    ensures r == old(self).stream, *final(self) == (MqttConnection { stream: None, ..*old(self) }),
//@end
    /// the network: resolves the host and opens the transport
    #[verifier::external_body]
    pub fn connect_with_timeout(&mut self, t: Duration) -> (r: Result<(), MqttError>)
        ensures *final(self) == (MqttConnection { stream: final(self).stream, port: final(self).port, ..*old(self) }), r is Ok ==> final(self).stream is Some
    { unimplemented!() }
//@fn client MqttConnection::connect
    ensures *final(self) == (MqttConnection { stream: final(self).stream, port: final(self).port, ..*old(self) }), r is Ok ==> final(self).stream is Some, *final(vx_heap) == *old(vx_heap),
//@end
}
impl SessionState { pub fn default() -> (r: SessionState) ensures r.wf() { SessionState::vx_default() } }
#[verifier::external]
impl core::fmt::Debug for SessionState { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl ClientSession {
//@fn client ClientSession::new_from_client
    requires old(client).session_state matches Some(s) && s.wf(), old(client).connection matches Some(c) && c.stream is Some
    ensures r matches Ok(s) && s.wf() && s.usable && !s.connected && s.state == old(client).session_state->0 && s.packet_stream.out@ == Seq::<Packet>::empty(),
        final(client).session_state is None,
        *final(client) == (MqttClient { session_state: None, connection: None, ..*old(client) }),
//@end
}
impl MqttClient {
//@fn client MqttClient::start | clone
//@spawn
{ let vx_r = vx_start_task(&mut session, max_connect_wait, credentials, clean_start, will_message, &mut vx_cell(connected), &mut vx_cell(_keep_alive), &mut vx_cell(_session_expiry), filter_channel, packet_out, &mut packet_in_receiver); vx_done(vx_r, &session) }
//@spec
    requires old(self).session_state matches Some(s) && s.wf(), fresh(*old(vx_heap)),
        forall|c: Connect| asks(old(self).session_state->0, clean_start, old(self).connection->0.creds(), old(self).will_message, c) ==> #[trigger] c.encodes(),
    ensures r matches Ok(h) ==> h.out@.len() > 0 && (h.out@[0] matches Packet::Connect(c) && asks(old(self).session_state->0, clean_start, old(self).connection->0.creds(), old(self).will_message, *c)), // @C25
        handed_on_but_last(old(self).filter_channel@, old(self).packet_out.0, *final(vx_heap)), // @C26
        r is Err ==> fresh(*final(vx_heap)), // @C26
        r is Ok ==> old(self).connection is Some && old(self).packet_in.1 is Some, // @C25
//@end
}

// ---- C26: what the helpers submit ----
impl Default for Disconnect {
    open spec fn dflt(r: Disconnect) -> bool { r.reason == Reason::Success && r.session_expiry_interval is None }
//@fn mqtt Default for Disconnect::default | as=vx_default
//@end
}
impl Disconnect {
//@fn mqtt Disconnect::new
    ensures r.reason == reason, r.session_expiry_interval is None,
//@end
}
impl Default for Subscribe {
    open spec fn dflt(r: Subscribe) -> bool { r.packet_id == 0 && r.subscription_id is None && r.filter@.len() == 0 }
//@fn mqtt Default for Subscribe::default | as=vx_default
//@end
}
impl Subscribe {
//@fn mqtt Subscribe::add_filter
    ensures *final(self) == (Subscribe { filter: final(self).filter, ..*old(self) }), final(self).filter@ == old(self).filter@.push(filter),
//@end
}
impl SubscriptionFilter {
//@fn mqtt SubscriptionFilter::set_qos
    ensures *final(self) == (SubscriptionFilter { options: final(self).options, ..*old(self) }), final(self).options == ((old(self).options & !3u8) | (qos.code() & 3)),
//@start
    proof { qoslevel_code(qos); }
//@end
//@fn mqtt SubscriptionFilter::new
    ensures r == (SubscriptionFilter { filter, options: qos.code() }),
//@start
    proof { qoslevel_code(qos); let d = qos.code(); assert(d < 3 ==> (0u8 & !3u8) | (d & 3) == d) by (bit_vector); }
//@end
}
/// each filter with the quality of service asked for, in order
pub open spec fn filters(t: Seq<&String>, q: QoSLevel) -> Seq<SubscriptionFilter> { Seq::new(t.len(), |i: int| SubscriptionFilter { filter: *t[i], options: q.code() }) }
impl MqttClient {
//@fn client MqttClient::stop
    ensures *final(self) == *old(self), r is Ok ==> final(vx_heap).got@.len() > 0 && final(vx_heap).got_too(*old(vx_heap), old(self).packet_in.0.ch@, final(vx_heap).got@.last().1) && final(vx_heap).got@.last().1 is Disconnect, // @C26
        r is Err ==> *final(vx_heap) == *old(vx_heap), // @C26
//@end
//@fn client MqttClient::ping
    ensures *final(self) == *old(self), r is Ok ==> final(vx_heap).got@.len() > 0 && final(vx_heap).got_too(*old(vx_heap), old(self).packet_in.0.ch@, final(vx_heap).got@.last().1) && final(vx_heap).got@.last().1 is PingRequest, // @C26
        r is Err ==> *final(vx_heap) == *old(vx_heap), // @C26
//@end
//@fn client MqttClient::subscribe
    ensures *final(self) == *old(self), r is Ok ==> final(vx_heap).got@.len() > 0 && final(vx_heap).got_too(*old(vx_heap), old(self).packet_in.0.ch@, final(vx_heap).got@.last().1)
            && (final(vx_heap).got@.last().1 matches Packet::Subscribe(s) && s.packet_id == packet_id && s.subscription_id is None && s.filter@ =~= filters(topic_filter@, qos)), // @C26
        r is Err ==> *final(vx_heap) == *old(vx_heap), // @C26
//@before 0
    let ghost s0 = subscribe;
    let ghost l = vx_it1@;
//@loop 0
    invariant vx_i2 <= l.len(), vx_it1@ == l, l.len() == topic_filter@.len(), forall|i: int| 0 <= i < l.len() ==> *(#[trigger] l[i]) == topic_filter@[i], subscribe == (Subscribe { filter: subscribe.filter, ..s0 }), subscribe.filter@ =~= filters(topic_filter@, qos).take(vx_i2 as int),
    decreases l.len() - vx_i2
//@end
}
