// ---- C15, C16: sessions and the session pool ----
// Shared objects: a handle (Arc<RwLock<Session>>) is an index into the heap; a lock guard is a borrow of what it guards.
#[derive(Copy, Clone)]
pub struct Ref { pub ix: usize }
/// log: the messages handed to routing, in order (ghost)
pub struct Heap { pub v: Vec<Session>, pub log: Ghost<Seq<Publish>> }
pub struct Arc { }
impl Arc {
    #[verifier::external_body]
    pub fn clone(r: &Ref) -> (c: Ref) ensures c == *r { unimplemented!() }
    /// two handles are the same object when they are the same index
    #[verifier::external_body]
    pub fn ptr_eq(a: &Ref, b: &Ref) -> (r: bool) ensures r == (a.ix == b.ix) { unimplemented!() }
}
pub fn vx_map_ref(o: Option<&Ref>) -> (r: Option<Ref>) ensures r == (match o { Some(x) => Some(*x), None => None }) {
    match o { Some(x) => Some(*x), None => None }
}
impl Heap {
    pub open spec fn has(self, r: Ref) -> bool { r.ix < self.v@.len() }
    pub open spec fn at(self, r: Ref) -> Session { self.v@[r.ix as int] }
    /// everything but what one handle refers to is as before
    pub open spec fn same_but(self, o: Heap, r: Ref) -> bool {
        self.log == o.log && self.v@.len() == o.v@.len() && forall|i: int| #![trigger self.v@[i]] #![trigger o.v@[i]] 0 <= i < o.v@.len() && i != r.ix ==> self.v@[i] == o.v@[i]
    }
    #[verifier::external_body]
    pub fn vx_alloc(&mut self, s: Session) -> (r: Ref)
        ensures final(self).log == old(self).log, final(self).v@ == old(self).v@.push(s), r.ix == old(self).v@.len()
    { unimplemented!() }
}
//@include time.vrs
#[verifier::external_body]
pub struct CancellationToken { }
impl CancellationToken { #[verifier::external_body] pub fn cancel(&self) { unimplemented!() } }
/// A channel's sending end remembers, for the contracts, what was handed to it.
pub struct Sender<T> { pub tried: Ghost<Seq<T>> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { p: core::marker::PhantomData<T> }
pub struct TrySendError<T> { pub v: T }
pub struct SendError<T> { pub v: T }
impl<T> Sender<T> {
    pub open spec fn view(&self) -> Seq<T> { self.tried@ }
    #[verifier::external_body]
    pub fn try_send(&mut self, m: T) -> (r: Result<(), TrySendError<T>>) ensures final(self)@ == old(self)@.push(m) { unimplemented!() }
    #[verifier::external_body]
    pub fn send(&mut self, m: T) -> (r: Result<(), SendError<T>>) ensures final(self)@ == old(self)@.push(m) { unimplemented!() }
}
/// tokio panics on a channel of size 0
#[verifier::external_body]
pub fn channel<T>(n: usize) -> (r: (Sender<T>, Receiver<T>)) requires n > 0 ensures r.0@ == Seq::<T>::empty() { unimplemented!() }

#[verifier::external_body]
pub struct SocketAddr { }
#[verifier::external_body]
pub struct TlsAcceptor { }
//@item broker SessionControl
//@item broker Session
//@item broker SessionPool
//@item broker Config
pub type Pending = Map<u16, Publish>;
/// what is pending is above QoS 0 and carries the identifier it is pending under
pub open spec fn pend_ok(p: Pending) -> bool { forall|k: u16| #[trigger] p.dom().contains(k) ==> p[k].inv() && p[k].q() > 0 && p[k].packet_id == Some(k) }
impl Session {
    /// every identifier is in use (the server may not send more, MQTT 5 2.2.1)
    pub open spec fn full(self) -> bool { self.pending_ack@.dom().len() >= 65535 }
    pub open spec fn ok(self) -> bool { self.next_packet_id != 0 && pend_ok(self.pending_ack@) }
    pub open spec fn fresh(self, id: String, will: Option<WillMessage>, ka: Duration) -> bool {
        self.id == id && !self.connected && self.keep_alive == ka && self.session_expiry is None && self.will_message == will && self.pending_will is None
        && self.pending_ack@ == Pending::empty() && self.ok() && self.control.0@ == Seq::<SessionControl>::empty() && self.control.1 is Some
    }
    /// what was handed to the connection through try_send
    pub open spec fn sent(self) -> Seq<SessionControl> { self.control.0@ }
}
pub proof fn ids_below(p: Pending, n: nat)
    requires p.dom().finite(), n <= 65535, forall|i: u16| 1 <= i && i <= n ==> p.dom().contains(i)
    ensures p.dom().len() >= n
    decreases n
{
    if n > 0 {
        let q = p.remove(n as u16);
        ids_below(q, (n - 1) as nat);
    }
}
/// while identifiers are left there is one that is free
pub proof fn free_id(p: Pending) -> (f: u16)
    requires p.dom().finite(), p.dom().len() < 65535
    ensures f != 0, !p.dom().contains(f)
{
    if forall|i: u16| 1 <= i && i <= 65535 ==> p.dom().contains(i) { ids_below(p, 65535); }
    choose|i: u16| 1 <= i && i <= 65535 && !p.dom().contains(i)
}
pub open spec fn ahead(f: u16, id: u16) -> int { if f >= id { f - id } else { 65535 - id + f } }
impl Session {
//@fn broker Session::new
    requires channel_size > 0
    ensures r.fresh(id, will_message, keep_alive),
//@end
//@fn broker Session::reset_control
    requires channel_size > 0
    ensures *final(self) == (Session { control: final(self).control, ..*old(self) }), final(self).control.1 is Some, final(self).sent() == Seq::<SessionControl>::empty(),
//@end
//@fn broker Session::take_control_receiver
    ensures *final(self) == (Session { control: final(self).control, ..*old(self) }), final(self).control.0 == old(self).control.0,
        final(self).control.1 is None, r == old(self).control.1,
//@end
//@fn broker Session::disconnect | mutself
    ensures *final(self) == (Session { control: final(self).control, ..*old(self) }), final(self).control.1 == old(self).control.1,
        final(self).sent() == old(self).sent().push(SessionControl::Disconnect(reason)),
//@end
//@fn broker Session::send_control | mutself
    ensures *final(self) == (Session { control: final(self).control, ..*old(self) }), final(self).control.1 == old(self).control.1,
        final(self).sent() == old(self).sent().push(msg),
//@end
//@fn broker Session::try_send_control | mutself
    ensures *final(self) == (Session { control: final(self).control, ..*old(self) }), final(self).control.1 == old(self).control.1,
        final(self).sent() == old(self).sent().push(msg),
//@end
//@fn broker Session::clear_will
    ensures *final(self) == (Session { will_message: None, ..*old(self) }),
//@end
//@fn broker Session::set_will
    ensures *final(self) == (Session { will_message: will, ..*old(self) }),
//@end
//@fn broker Session::take_will
    ensures *final(self) == (Session { will_message: None, ..*old(self) }), r == old(self).will_message,
//@end
//@fn broker Session::set_pending_will
    ensures *final(self) == (Session { pending_will: Some(token), ..*old(self) }),
//@end
//@fn broker Session::cancel_pending_will
    ensures *final(self) == (Session { pending_will: None, ..*old(self) }),
//@end
//@fn broker Session::next_packet_id
    requires old(self).ok()
    ensures *final(self) == (Session { next_packet_id: final(self).next_packet_id, ..*old(self) }), final(self).ok(),
        r != 0, !old(self).full() ==> !old(self).pending_ack@.dom().contains(r),
//@start
    let ghost p = self.pending_ack@;
    let ghost f: u16 = 1;
    proof { hm_finite(self.pending_ack); if !self.full() { f = free_id(p); } }
//@over 0
len()
//@loop 0
    invariant id != 0, f != 0, p == self.pending_ack@, *self == *old(self), !self.full() ==> !p.dom().contains(f)
    decreases ahead(f, id)
//@end
//@fn broker Session::track_qos_publish
    ensures *final(self) == (Session { pending_ack: final(self).pending_ack, ..*old(self) }), final(self).pending_ack@ == old(self).pending_ack@.insert(packet_id, publish),
//@end
//@fn broker Session::acknowledge
    ensures *final(self) == (Session { pending_ack: final(self).pending_ack, ..*old(self) }), final(self).pending_ack@ == old(self).pending_ack@.remove(packet_id),
        r == old(self).pending_ack@.dom().contains(packet_id),
//@end
//@fn broker Session::pending_ack_count
    ensures r == self.pending_ack@.dom().len(),
//@end
//@fn broker Session::drain_pending
    ensures *final(self) == (Session { pending_ack: final(self).pending_ack, ..*old(self) }), final(self).pending_ack@ == Pending::empty(),
        entries_of(r@, old(self).pending_ack@),
//@end
//@fn broker Session::id
    ensures *r == self.id,
//@end
//@fn broker Session::connected
    ensures r == self.connected,
//@end
//@fn broker Session::set_connected
    ensures *final(self) == (Session { connected: connected, ..*old(self) }),
//@end
//@fn broker Session::set_last_active
    ensures *final(self) == (Session { last_active: final(self).last_active, ..*old(self) }),
//@end
//@fn broker Session::keep_alive
    ensures r == self.keep_alive,
//@end
//@fn broker Session::set_keep_alive
    ensures *final(self) == (Session { keep_alive: keep_alive, ..*old(self) }),
//@end
//@fn broker Session::session_expiry
    ensures r == self.session_expiry,
//@end
//@fn broker Session::set_session_expiry
    ensures *final(self) == (Session { session_expiry: Some(session_expiry), ..*old(self) }),
//@end
}

pub open spec fn sat16(s: u64) -> u16 { if s > 65535 { 65535u16 } else { s as u16 } }
pub open spec fn sat32(s: u64) -> u32 { if s > u32::MAX { u32::MAX } else { s as u32 } }
// ---- the pool ----
pub type Table = Map<Seq<u8>, Ref>;
/// every entry is held under its session's own identifier, and is connected exactly when `on`
pub open spec fn entries(t: Table, h: Heap, on: bool) -> bool {
    forall|k: Seq<u8>| #[trigger] t.dom().contains(k) ==> h.has(t[k]) && h.at(t[k]).id@ == k && h.at(t[k]).connected == on
}
impl SessionPool {
    pub open spec fn act(self) -> Table { self.active@ }
    pub open spec fn ina(self) -> Table { self.inactive@ }
    pub open spec fn counts(self) -> bool {
        self.active@.dom().finite() && self.inactive@.dom().finite()
        && self.active_sessions == self.active@.dom().len() && self.inactive_sessions == self.inactive@.dom().len()
        && self.active@.dom().disjoint(self.inactive@.dom())
    }
    pub open spec fn wf(self, h: Heap) -> bool { self.counts() && entries(self.act(), h, true) && entries(self.ina(), h, false) }
    pub open spec fn holds(self, k: Seq<u8>) -> bool { self.act().dom().contains(k) || self.ina().dom().contains(k) }
    /// configuration is untouched
    pub open spec fn cfg(self, o: SessionPool) -> bool { self.session_expiry == o.session_expiry && self.default_keep_alive == o.default_keep_alive && self.max_keep_alive == o.max_keep_alive }
    pub open spec fn room(self) -> bool { self.active_sessions < u32::MAX && self.inactive_sessions < u32::MAX }
}
pub open spec fn got(t: Table, k: Seq<u8>) -> Option<Ref> { if t.dom().contains(k) { Some(t[k]) } else { None } }
impl Default for SessionPool {
    open spec fn dflt(r: SessionPool) -> bool {
        r.session_expiry == (Duration { secs: 0, nanos: 0 }) && r.default_keep_alive == (Duration { secs: 0, nanos: 0 }) && r.max_keep_alive == (Duration { secs: 0, nanos: 0 })
        && r.act() == Table::empty() && r.ina() == Table::empty() && r.active_sessions == 0 && r.inactive_sessions == 0
    }
//@fn broker Default for SessionPool::default | as=vx_default
//@end
}
impl SessionPool {
//@fn broker SessionPool::new_with_expiry
    ensures r.session_expiry == expiry, r.act() == Table::empty(), r.ina() == Table::empty(), forall|h: Heap| #[trigger] r.wf(h),
//@end
//@fn broker SessionPool::new_with_config
    ensures r.session_expiry == config.session_expiry, r.default_keep_alive == config.default_keep_alive, r.max_keep_alive == config.max_keep_alive,
        r.act() == Table::empty(), r.ina() == Table::empty(), forall|h: Heap| #[trigger] r.wf(h), r.room(),
//@end
//@fn broker SessionPool::default_keep_alive_secs
    ensures r == sat16(self.default_keep_alive.secs),
//@end
//@fn broker SessionPool::max_keep_alive_secs
    ensures r == sat16(self.max_keep_alive.secs),
//@end
//@fn broker SessionPool::session_expiry
    ensures r == self.session_expiry,
//@end
//@fn broker SessionPool::set_session_expiry
    ensures *final(self) == (SessionPool { session_expiry: expiry, ..*old(self) }),
//@end
//@fn broker SessionPool::active_sessions
    ensures r == self.active_sessions,
//@end
//@fn broker SessionPool::inactive_sessions
    ensures r == self.inactive_sessions,
//@end
//@fn broker SessionPool::at_capacity
    ensures r == (max matches Some(limit) && self.active_sessions >= limit),
//@end
//@fn broker SessionPool::add
    requires old(self).wf(*old(vx_heap)), old(self).room(), old(vx_heap).has(session), !old(self).holds(old(vx_heap).at(session).id@)
    ensures *final(vx_heap) == *old(vx_heap), final(self).wf(*final(vx_heap)), final(self).cfg(*old(self)),
        old(vx_heap).at(session).connected ==> final(self).act() == old(self).act().insert(old(vx_heap).at(session).id@, session) && final(self).ina() == old(self).ina(),
        !old(vx_heap).at(session).connected ==> final(self).ina() == old(self).ina().insert(old(vx_heap).at(session).id@, session) && final(self).act() == old(self).act(),
//@end
//@fn broker SessionPool::remove
    requires old(self).counts()
    ensures final(self).counts(), final(self).cfg(*old(self)), forall|h: Heap| #[trigger] old(self).wf(h) ==> final(self).wf(h),
        final(self).act() == old(self).act().remove(session_id@), final(self).ina() == old(self).ina().remove(session_id@),
        r == (if old(self).act().dom().contains(session_id@) { Some(old(self).act()[session_id@]) } else { got(old(self).ina(), session_id@) }),
//@tail
    proof {
        if old(self).act().dom().contains(session_id@) { assert(old(self).ina().remove(session_id@) =~= old(self).ina()); }
        else { assert(old(self).act().remove(session_id@) =~= old(self).act()); }
        assert(old(self).ina().dom().contains(session_id@) || old(self).ina().remove(session_id@) =~= old(self).ina());
    }
//@end
//@fn broker SessionPool::get_active
    ensures r == got(self.act(), session_id@),
//@end
//@fn broker SessionPool::remove_active
    requires old(self).counts()
    ensures final(self).counts(), final(self).cfg(*old(self)), forall|h: Heap| #[trigger] old(self).wf(h) ==> final(self).wf(h),
        final(self).act() == old(self).act().remove(session_id@), final(self).ina() == old(self).ina(),
        r == got(old(self).act(), session_id@),
//@tail
    proof { assert(old(self).act().dom().contains(session_id@) || old(self).act().remove(session_id@) =~= old(self).act()); }
//@end
//@fn broker SessionPool::activate
    requires old(self).wf(*old(vx_heap)), old(self).room()
    ensures final(self).wf(*final(vx_heap)), final(self).cfg(*old(self)), r == got(old(self).ina(), session_id@),
        r is None ==> *final(vx_heap) == *old(vx_heap) && final(self).act() == old(self).act() && final(self).ina() == old(self).ina(),
        r matches Some(x) ==> final(vx_heap).same_but(*old(vx_heap), x)
            && final(vx_heap).at(x) == (Session { connected: true, last_active: final(vx_heap).at(x).last_active, ..old(vx_heap).at(x) })
            && final(self).ina() == old(self).ina().remove(session_id@) && final(self).act() == old(self).act().insert(session_id@, x),
//@end
//@fn broker SessionPool::deactivate
    requires old(self).wf(*old(vx_heap)), old(self).room()
    ensures final(self).wf(*final(vx_heap)), final(self).cfg(*old(self)), r == got(old(self).act(), session_id@),
        r is None ==> *final(vx_heap) == *old(vx_heap) && final(self).act() == old(self).act() && final(self).ina() == old(self).ina(),
        r matches Some(x) ==> final(vx_heap).same_but(*old(vx_heap), x)
            && final(vx_heap).at(x) == (Session { connected: false, ..old(vx_heap).at(x) })
            && final(self).act() == old(self).act().remove(session_id@) && final(self).ina() == old(self).ina().insert(session_id@, x),
//@end
}
