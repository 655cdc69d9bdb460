// ---- C17, C18, C20: what the broker does with messages, subscriptions and wills ----
//@include packets.vrs
//@item broker BrokerState
//@item broker BrokerCommand
//@item broker Broker
#[verifier::external_body]
pub struct AtomicBool { }
pub fn min(a: u8, b: u8) -> (r: u8) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

// ---- packets the handlers read and build ----
impl Default for SubAck {
    open spec fn dflt(r: SubAck) -> bool { r.packet_id == 0 && r.reason_codes@ == Seq::<Reason>::empty() && r.reason is None && r.user_properties == UserProperty::none() && r.fixed_header == fh_new(PacketType::SubAck) }
//@fn mqtt Default for SubAck::default | as=vx_default
//@end
}
impl SubAck {
//@fn mqtt SubAck::new_with_packet_id
    ensures r is Ok <==> packet_id != 0, r matches Ok(a) ==> a.packet_id == packet_id && a.reason_codes@ == Seq::<Reason>::empty() && a.reason is None && a.user_properties == UserProperty::none() && a.fixed_header == fh_new(PacketType::SubAck),
//@end
}
impl Default for UnsubAck {
    open spec fn dflt(r: UnsubAck) -> bool { r.packet_id == 0 && r.reason_code@ == Seq::<Reason>::empty() && r.user_properties == UserProperty::none() && r.fixed_header == fh_new(PacketType::UnsubAck) }
//@fn mqtt Default for UnsubAck::default | as=vx_default
//@end
}
pub open spec fn opt_qos(o: u8) -> QoSLevel { if o % 4 == 0 { QoSLevel::AtMostOnce } else if o % 4 == 1 { QoSLevel::AtLeastOnce } else if o % 4 == 2 { QoSLevel::ExactlyOnce } else { QoSLevel::AtMostOnce } }
impl SubscriptionFilter {
//@fn mqtt SubscriptionFilter::qos
    ensures r == opt_qos(self.options),
//@start
    proof { let o = self.options; assert(o & 3 == o % 4) by (bit_vector); }
//@end
//@fn mqtt SubscriptionFilter::no_local
    ensures r == ((self.options / 4) % 2 == 1),
//@start
    proof { let o = self.options; assert((o & 4 != 0) == ((o / 4) % 2 == 1)) by (bit_vector); }
//@end
}

// ---- C18 ----
pub open spec fn path(s: String) -> Segs { split_at(s@, slash()) }
pub open spec fn asked(fs: Seq<SubscriptionFilter>, k: int, f: Segs) -> bool { exists|i: int| 0 <= i < k && path((#[trigger] fs[i]).filter) == f }
/// the last of the first k filters that names f
pub open spec fn last_of(fs: Seq<SubscriptionFilter>, k: int, f: Segs) -> int
    decreases k
{ if k <= 0 { -1 } else if path(fs[k - 1].filter) == f { k - 1 } else { last_of(fs, k - 1, f) } }
pub open spec fn granted(q: QoSLevel) -> Reason { match q { QoSLevel::AtMostOnce => Reason::Success, QoSLevel::AtLeastOnce => Reason::GrantedQoS1, QoSLevel::ExactlyOnce => Reason::GrantedQoS2 } }
/// after the first k filters: what they asked for is recorded, everything else is as before
pub open spec fn recorded(t0: &TopicTree, t: &TopicTree, fs: Seq<SubscriptionFilter>, k: int, id: Seq<u8>) -> bool {
    forall|f: Segs, s: Subscriber| #[trigger] t.has(f, s) <==> (if last_of(fs, k, f) >= 0 && s.session_id@ == id {
        s.qos == opt_qos(fs[last_of(fs, k, f)].options) && s.no_local == ((fs[last_of(fs, k, f)].options / 4) % 2 == 1)
    } else { t0.has(f, s) })
}
pub open spec fn levels_of(fs: Seq<SubscriptionFilter>, k: int) -> int decreases k { if k <= 0 { 0 } else { levels_of(fs, k - 1) + path(fs[k - 1].filter).len() } }
pub proof fn levels_mono(fs: Seq<SubscriptionFilter>, a: int, b: int) requires 0 <= a <= b ensures levels_of(fs, a) <= levels_of(fs, b) decreases b { if a < b { levels_mono(fs, a, b - 1); } }
pub proof fn last_of_range(fs: Seq<SubscriptionFilter>, k: int, f: Segs) requires k >= 0 ensures -1 <= last_of(fs, k, f) < k || k == 0 && last_of(fs, k, f) == -1 decreases k { if k > 0 { last_of_range(fs, k - 1, f); } }
/// the first k topics name f
pub open spec fn named(ts: Seq<String>, k: int, f: Segs) -> bool { exists|i: int| 0 <= i < k && path(#[trigger] ts[i]) == f }
pub open spec fn dropped(t0: &TopicTree, t: &TopicTree, ts: Seq<String>, k: int, id: Seq<u8>) -> bool {
    forall|f: Segs, s: Subscriber| #[trigger] t.has(f, s) <==> t0.has(f, s) && !(s.session_id@ == id && named(ts, k, f))
}
impl Broker {
//@fn broker Broker::handle_subscribe
    requires old(state).topic_tree.wf(), old(state).topic_tree.n() + levels_of(subscribe.filter@, subscribe.filter@.len() as int) <= u32::MAX
    ensures r.packet_id == subscribe.packet_id, r.reason_codes@.len() == subscribe.filter@.len(),
        forall|i: int| 0 <= i < subscribe.filter@.len() ==> #[trigger] r.reason_codes@[i] == granted(opt_qos(subscribe.filter@[i].options)),
        final(state).topic_tree.wf(), recorded(&old(state).topic_tree, &final(state).topic_tree, subscribe.filter@, subscribe.filter@.len() as int, session_id@),
        *final(state) == (BrokerState { topic_tree: final(state).topic_tree, ..*old(state) }),
//@start
    let ghost fs = subscribe.filter@;
    let ghost t0 = state.topic_tree;
    let ghost sp = state.session_pool;
//@loop 0
    invariant
        vx_it1@.len() == fs.len(), forall|i: int| 0 <= i < fs.len() ==> #[trigger] vx_it1@[i] == &fs[i],
        vx_i2 <= fs.len(), suback.packet_id == subscribe.packet_id, suback.reason_codes@.len() == vx_i2,
        forall|i: int| 0 <= i < vx_i2 ==> #[trigger] suback.reason_codes@[i] == granted(opt_qos(fs[i].options)),
        tree.wf(), tree.n() <= t0.n() + levels_of(fs, vx_i2 as int), t0.n() + levels_of(fs, fs.len() as int) <= u32::MAX,
        recorded(&t0, tree, fs, vx_i2 as int, session_id@),
    decreases fs.len() - vx_i2
//@top 0
    let ghost t1 = *tree;
    proof { levels_mono(fs, vx_i2 as int + 1, fs.len() as int); }
//@bot 0
    proof {
        assert forall|f: Segs, s: Subscriber| #[trigger] tree.has(f, s) <==> (if last_of(fs, vx_i2 as int, f) >= 0 && s.session_id@ == session_id@ {
            s.qos == opt_qos(fs[last_of(fs, vx_i2 as int, f)].options) && s.no_local == ((fs[last_of(fs, vx_i2 as int, f)].options / 4) % 2 == 1)
        } else { t0.has(f, s) }) by {
            assert(t1.has(f, s) == t1.has(f, s));
            string_ext(s.session_id); string_ext(*session_id);
        }
    }
//@end
//@fn broker Broker::handle_unsubscribe
    requires old(state).topic_tree.wf()
    ensures r.packet_id == unsubscribe.packet_id, r.reason_code@.len() == unsubscribe.topics@.len(),
        forall|i: int| 0 <= i < unsubscribe.topics@.len() ==> #[trigger] r.reason_code@[i] ==
            (if old(state).topic_tree.held(path(unsubscribe.topics@[i]), session_id@) && !named(unsubscribe.topics@, i, path(unsubscribe.topics@[i])) { Reason::Success } else { Reason::NoSubscriptionExisted }),
        final(state).topic_tree.wf(), dropped(&old(state).topic_tree, &final(state).topic_tree, unsubscribe.topics@, unsubscribe.topics@.len() as int, session_id@),
        *final(state) == (BrokerState { topic_tree: final(state).topic_tree, ..*old(state) }),
//@start
    let ghost ts = unsubscribe.topics@;
    let ghost t0 = state.topic_tree;
//@loop 0
    invariant
        vx_it1@.len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> #[trigger] vx_it1@[i] == &ts[i],
        vx_i2 <= ts.len(), unsuback.packet_id == unsubscribe.packet_id, unsuback.reason_code@.len() == vx_i2,
        forall|i: int| 0 <= i < vx_i2 ==> #[trigger] unsuback.reason_code@[i] ==
            (if t0.held(path(ts[i]), session_id@) && !named(ts, i, path(ts[i])) { Reason::Success } else { Reason::NoSubscriptionExisted }),
        tree.wf(), dropped(&t0, tree, ts, vx_i2 as int, session_id@),
    decreases ts.len() - vx_i2
//@top 0
    let ghost t1 = *tree;
    proof {
        let f = path(ts[vx_i2 as int]);
        assert(t1.held(f, session_id@) == (t0.held(f, session_id@) && !named(ts, vx_i2 as int, f))) by {
            if t1.held(f, session_id@) { let s = choose|s: Subscriber| #[trigger] t1.has(f, s) && s.session_id@ == session_id@; assert(t0.has(f, s)); }
            if t0.held(f, session_id@) && !named(ts, vx_i2 as int, f) { let s = choose|s: Subscriber| #[trigger] t0.has(f, s) && s.session_id@ == session_id@; assert(t1.has(f, s)); }
        }
    }
//@bot 0
    proof {
        assert forall|f: Segs| named(ts, vx_i2 as int, f) == (named(ts, vx_i2 - 1, f) || f == path(ts[vx_i2 - 1])) by {
            if named(ts, vx_i2 - 1, f) { let i = choose|i: int| 0 <= i < vx_i2 - 1 && path(#[trigger] ts[i]) == f; assert(path(ts[i]) == f); }
            if named(ts, vx_i2 as int, f) { let i = choose|i: int| 0 <= i < vx_i2 && path(#[trigger] ts[i]) == f; assert(path(ts[i]) == f); }
            if f == path(ts[vx_i2 - 1]) { assert(path(ts[vx_i2 - 1]) == f); }
        }
    }
//@end
}

// ---- C17 ----
/// the copy a subscriber granted QoS g gets of p (its packet identifier aside)
pub open spec fn low(a: u8, b: u8) -> u8 { if a <= b { a } else { b } }
pub open spec fn copy_of(p: Publish, g: QoSLevel) -> Publish {
    Publish { fixed_header: fh_with(p.fixed_header, low(fh_qos(p.fixed_header), g.code()), false, fh_retain(p.fixed_header)), packet_id: None, topic_alias: None, ..p }
}
pub open spec fn unnumbered(p: Publish) -> Publish { Publish { packet_id: None, ..p } }
pub open spec fn unnumbered_all(s: Seq<Publish>) -> Seq<Publish> { Seq::new(s.len(), |i: int| unnumbered(s[i])) }
pub open spec fn delivered(s: Seq<SessionControl>) -> Seq<Publish>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        match s.last() { SessionControl::Deliver(p) => delivered(s.drop_last()).push(*p), _ => delivered(s.drop_last()) }
    }
}
pub broadcast proof fn delivered_push(s: Seq<SessionControl>, c: SessionControl)
    ensures #[trigger] delivered(s.push(c)) == (match c { SessionControl::Deliver(p) => delivered(s).push(*p), _ => delivered(s) })
{ assert(s.push(c).drop_last() =~= s); }
/// subscription s reaches the session with handle ix
pub open spec fn goes(pool: SessionPool, s: Subscriber, sender: Seq<u8>, ix: int) -> bool {
    !(s.no_local && s.session_id@ == sender) && pool.act().dom().contains(s.session_id@) && pool.act()[s.session_id@].ix == ix
}
pub open spec fn copies(pool: SessionPool, p: Publish, sender: Seq<u8>, subs: Seq<Subscriber>, ix: int) -> Seq<Publish>
    decreases subs.len()
{
    if subs.len() == 0 { Seq::empty() } else {
        let r = copies(pool, p, sender, subs.drop_last(), ix);
        if goes(pool, subs.last(), sender, ix) { r.push(copy_of(p, subs.last().qos)) } else { r }
    }
}
pub proof fn copies_step(pool: SessionPool, p: Publish, sender: Seq<u8>, subs: Seq<Subscriber>, k: int, ix: int)
    requires 0 <= k < subs.len()
    ensures copies(pool, p, sender, subs.take(k + 1), ix) == (if goes(pool, subs[k], sender, ix) { copies(pool, p, sender, subs.take(k), ix).push(copy_of(p, subs[k].qos)) } else { copies(pool, p, sender, subs.take(k), ix) })
{ assert(subs.take(k + 1).drop_last() =~= subs.take(k)); }
pub proof fn copies_len(pool: SessionPool, p: Publish, sender: Seq<u8>, subs: Seq<Subscriber>, ix: int)
    ensures copies(pool, p, sender, subs, ix).len() <= subs.len() decreases subs.len()
{ if subs.len() > 0 { copies_len(pool, p, sender, subs.drop_last(), ix); } }
pub open spec fn news(a: Session, b: Session) -> Seq<Publish> { delivered(b.sent()).skip(delivered(a.sent()).len() as int) }
/// messages above QoS 0 carry an identifier of their own and are pending under it; nothing else changes in the pending table
pub open spec fn tracked(a: Pending, b: Pending, n: Seq<Publish>) -> bool {
    &&& forall|i: int| 0 <= i < n.len() && (#[trigger] n[i]).q() > 0 ==> n[i].packet_id is Some && !a.dom().contains(n[i].packet_id->0) && b.dom().contains(n[i].packet_id->0) && b[n[i].packet_id->0] == n[i]
    &&& forall|i: int, j: int| 0 <= i < j < n.len() && (#[trigger] n[i]).q() > 0 && (#[trigger] n[j]).q() > 0 ==> n[i].packet_id != n[j].packet_id
    &&& forall|k: u16| #[trigger] a.dom().contains(k) ==> b.dom().contains(k) && b[k] == a[k]
    &&& forall|k: u16| #[trigger] b.dom().contains(k) ==> a.dom().contains(k) || exists|i: int| 0 <= i < n.len() && (#[trigger] n[i]).q() > 0 && n[i].packet_id == Some(k)
}
/// what routing does to one session that is due the copies cs
pub open spec fn served(a: Session, b: Session, cs: Seq<Publish>) -> bool {
    &&& b == (Session { next_packet_id: b.next_packet_id, pending_ack: b.pending_ack, control: b.control, ..a })
    &&& b.control.1 == a.control.1 && b.ok()
    &&& delivered(a.sent()).is_prefix_of(delivered(b.sent()))
    &&& unnumbered_all(news(a, b)) == cs
    &&& forall|i: int| 0 <= i < news(a, b).len() ==> ((#[trigger] news(a, b)[i]).q() > 0 <==> news(a, b)[i].packet_id is Some) && news(a, b)[i].packet_id != Some(0u16)
    &&& a.pending_ack@.dom().len() + cs.len() < 65535 ==> tracked(a.pending_ack@, b.pending_ack@, news(a, b))
    &&& b.pending_ack@.dom().len() <= a.pending_ack@.dom().len() + cs.len()
}
pub open spec fn oks(h: Heap) -> bool { forall|i: int| 0 <= i < h.v@.len() ==> (#[trigger] h.v@[i]).ok() }
/// C17: every subscription in force that matches is served once
pub open spec fn routed(st: BrokerState, h0: Heap, h1: Heap, p: Publish, sender: Seq<u8>) -> bool {
    exists|subs: Seq<Subscriber>| #[trigger] exactly_matching(&st.topic_tree, split_at(p.topic_name@, slash()), subs) && h1.v@.len() == h0.v@.len()
        && forall|i: int| 0 <= i < h0.v@.len() ==> served(#[trigger] h0.v@[i], h1.v@[i], copies(st.session_pool, p, sender, subs, i))
}
pub proof fn fh_with_parts(h: FixedHeader, q: u8, d: bool, r: bool)
    requires q < 4
    ensures ({ let g = fh_with(h, q, d, r); fh_qos(g) == q && fh_dup(g) == d && fh_retain(g) == r && g.flags / 16 == h.flags / 16 && g.packet_type == h.packet_type })
{
    let f = h.flags;
    let e: u8 = if d { 8 } else { 0 };
    let t: u8 = if r { 1 } else { 0 };
    assert(f / 16 < 16) by (bit_vector);
    let hi = (f / 16) * 16;
    assert((f / 16) * 16 + e + 2 * q + t == ((f / 16) * 16 + e + 2 * q + t) as u8);
    assert(forall|a: u8, b: u8| a < 16 && b < 16 ==> #[trigger] ((a * 16 + b) as u8) / 16 == a && ((a * 16 + b) as u8) % 16 == b);
    let b = (e + 2 * q + t) as u8;
    let x = fh_with(h, q, d, r).flags;
    assert(x == ((f / 16) * 16 + b) as u8);
    assert(x % 16 == b && x / 16 == f / 16);
    assert((x / 8) % 2 == ((x % 16) / 8) % 2 && (x / 2) % 4 == ((x % 16) / 2) % 4 && x % 2 == (x % 16) % 2) by (bit_vector);
}
/// a copy as the code builds it is the one the contract names
pub proof fn copy_is(p: Publish, g: QoSLevel, o: Publish)
    requires o.fixed_header.packet_type == p.fixed_header.packet_type, o.fixed_header.flags / 16 == p.fixed_header.flags / 16, o.q() == low(p.q(), g.code()),
        !fh_dup(o.fixed_header), fh_retain(o.fixed_header) == fh_retain(p.fixed_header), o == (Publish { fixed_header: o.fixed_header, packet_id: o.packet_id, topic_alias: None, ..p })
    ensures unnumbered(o) == copy_of(p, g)
{
    let c = copy_of(p, g).fixed_header;
    qoslevel_code(g);
    fh_with_parts(p.fixed_header, low(p.q(), g.code()), false, fh_retain(p.fixed_header));
    fh_same(o.fixed_header, c);
}
/// one more copy for one session
pub proof fn serve_step(a: Session, b: Session, c: Session, cs: Seq<Publish>, o: Publish)
    requires served(a, b, cs), c == (Session { next_packet_id: c.next_packet_id, pending_ack: c.pending_ack, control: c.control, ..b }), c.control.1 == b.control.1, c.ok(),
        delivered(c.sent()) == delivered(b.sent()).push(o), o.q() > 0 <==> o.packet_id is Some, o.packet_id != Some(0u16),
        o.q() > 0 ==> c.pending_ack@ == b.pending_ack@.insert(o.packet_id->0, o) && (!b.full() ==> !b.pending_ack@.dom().contains(o.packet_id->0)),
        o.q() == 0 ==> c.pending_ack == b.pending_ack,
    ensures served(a, c, cs.push(unnumbered(o)))
{
    hm_finite(a.pending_ack); hm_finite(b.pending_ack);
    let n = news(a, b); let m = news(a, c);
    assert(m =~= n.push(o));
    assert(unnumbered_all(m) =~= cs.push(unnumbered(o)));
    assert(n.len() == cs.len()) by { assert(unnumbered_all(n).len() == n.len()); }
    if a.pending_ack@.dom().len() + cs.len() + 1 < 65535 {
        assert(tracked(a.pending_ack@, b.pending_ack@, n));
        assert(!b.full());
        let p2 = c.pending_ack@;
        assert forall|i: int| 0 <= i < m.len() && (#[trigger] m[i]).q() > 0 implies m[i].packet_id is Some && !a.pending_ack@.dom().contains(m[i].packet_id->0) && p2.dom().contains(m[i].packet_id->0) && p2[m[i].packet_id->0] == m[i] by {
            if i < n.len() { assert(m[i] == n[i]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < m.len() && (#[trigger] m[i]).q() > 0 && (#[trigger] m[j]).q() > 0 implies m[i].packet_id != m[j].packet_id by {
            assert(m[i] == n[i]);
            if j < n.len() { assert(m[j] == n[j]); }
        }
        assert forall|k: u16| #[trigger] p2.dom().contains(k) implies a.pending_ack@.dom().contains(k) || exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).q() > 0 && m[i].packet_id == Some(k) by {
            if b.pending_ack@.dom().contains(k) {
                if !a.pending_ack@.dom().contains(k) { let i = choose|i: int| 0 <= i < n.len() && (#[trigger] n[i]).q() > 0 && n[i].packet_id == Some(k); assert(m[i] == n[i]); }
            } else { assert(m[n.len() as int] == o); }
        }
        assert(tracked(a.pending_ack@, p2, m));
    }
    assert forall|i: int| 0 <= i < m.len() implies ((#[trigger] m[i]).q() > 0 <==> m[i].packet_id is Some) && m[i].packet_id != Some(0u16) by { if i < n.len() { assert(m[i] == n[i]); } }
}
pub proof fn serve_none(a: Session) requires a.ok() ensures served(a, a, Seq::empty()) {
    assert(news(a, a) =~= Seq::<Publish>::empty());
    assert(unnumbered_all(news(a, a)) =~= Seq::<Publish>::empty());
}
#[verifier::external_body]
pub fn vx_spawn() { unimplemented!() }
impl Broker {
//@fn broker Broker::route_publish | texteq readmut
    requires publish.inv(), old(state).session_pool.wf(*old(vx_heap)), old(state).topic_tree.wf(), oks(*old(vx_heap)), topic_name(split_at(publish.topic_name@, slash()))
    ensures *final(state) == *old(state), routed(*old(state), *old(vx_heap), *final(vx_heap), *publish, sender_session_id@), oks(*final(vx_heap)),
        final(state).session_pool.wf(*final(vx_heap)), final(vx_heap).log@ == old(vx_heap).log@.push(*publish),
//@start
    vx_heap.log = Ghost(vx_heap.log@.push(*publish));
    let ghost h0 = *vx_heap;
    let ghost st = *state;
    let ghost p = *publish;
    broadcast use delivered_push;
//@before 0
    let ghost subs = subscribers@;
    proof { assert forall|i: int| 0 <= i < h0.v@.len() implies served(#[trigger] h0.v@[i], vx_heap.v@[i], copies(st.session_pool, p, sender_session_id@, subs.take(0), i)) by { serve_none(h0.v@[i]); assert(subs.take(0).len() == 0); } }
//@loop 0
    invariant
        vx_it1@.len() == subs.len(), forall|i: int| 0 <= i < subs.len() ==> #[trigger] vx_it1@[i] == &subs[i], vx_i2 <= subs.len(),
        *state == st, *session_pool == st.session_pool, p == *publish, p.inv(), st.session_pool.wf(h0),
        vx_heap.v@.len() == h0.v@.len(), vx_heap.log == h0.log,
        forall|i: int| 0 <= i < h0.v@.len() ==> served(#[trigger] h0.v@[i], vx_heap.v@[i], copies(st.session_pool, p, sender_session_id@, subs.take(vx_i2 as int), i)),
    decreases subs.len() - vx_i2
//@top 0
    let ghost h1 = *vx_heap;
    proof {
        assert forall|i: int| 0 <= i < h0.v@.len() implies #[trigger] copies(st.session_pool, p, sender_session_id@, subs.take(vx_i2 as int + 1), i) == (if goes(st.session_pool, subs[vx_i2 as int], sender_session_id@, i) { copies(st.session_pool, p, sender_session_id@, subs.take(vx_i2 as int), i).push(copy_of(p, subs[vx_i2 as int].qos)) } else { copies(st.session_pool, p, sender_session_id@, subs.take(vx_i2 as int), i) }) by { copies_step(st.session_pool, p, sender_session_id@, subs, vx_i2 as int, i); }
    }
//@bot 0
    proof {
        let s = subs[vx_i2 - 1];
        if st.session_pool.act().dom().contains(s.session_id@) {
            let x = st.session_pool.act()[s.session_id@].ix as int;
            let a = h0.v@[x]; let b = h1.v@[x]; let c = vx_heap.v@[x];
            let cs = copies(st.session_pool, p, sender_session_id@, subs.take(vx_i2 - 1), x);
            assert(served(a, b, cs));
            let sb = b.sent(); let sc = c.sent(); let n = sb.len() as int;
            let o = *(sc[n]->Deliver_0);
            assert(sc.take(n) =~= sb);
            assert(sc.len() == n + 1 || (sc.len() == n + 2 && sc[n + 1] is Disconnect));
            assert(sc.take(n + 1) =~= sb.push(sc[n]));
            delivered_push(sb, sc[n]);
            if sc.len() == n + 2 { assert(sc =~= sb.push(sc[n]).push(sc[n + 1])); delivered_push(sb.push(sc[n]), sc[n + 1]); } else { assert(sc =~= sb.push(sc[n])); }
            assert(o.fixed_header.packet_type == p.fixed_header.packet_type);
            assert(o.fixed_header.flags / 16 == p.fixed_header.flags / 16);
            copy_is(p, s.qos, o);
            serve_step(a, b, c, cs, o);
        }
    }
//@after 0
    proof {
        assert(subs.take(subs.len() as int) =~= subs);
        assert(exactly_matching(&st.topic_tree, split_at(p.topic_name@, slash()), subs));
        assert forall|i: int| 0 <= i < vx_heap.v@.len() implies (#[trigger] vx_heap.v@[i]).ok() by { assert(served(h0.v@[i], vx_heap.v@[i], copies(st.session_pool, p, sender_session_id@, subs.take(subs.len() as int), i))); }
    }
//@end
}
