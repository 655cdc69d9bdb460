// Compiled into the broker crate (child of its root) under --cfg vaux_verif.
// Cases on the topic tree, the session pool and the packet identifiers against plain models.
use crate::session::{Session, SessionPool};
use crate::topic::TopicTree;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::RwLock;
use vaux_mqtt::{Publish, QoSLevel};

pub type Finds = Vec<(&'static str, String)>;
#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn new(s: u64) -> Rng { let mut r = Rng(s ^ 0x9e3779b97f4a7c15); for _ in 0..4 { r.next(); } r }
    fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    fn chance(&mut self, pc: usize) -> bool { self.below(100) < pc }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}
/// MQTT 5 section 4.7
fn matches(filter: &str, topic: &str) -> bool {
    if topic.starts_with('$') && (filter.starts_with('+') || filter.starts_with('#')) { return false }
    fn m(f: &[&str], t: &[&str]) -> bool {
        match f.first() {
            None => t.is_empty(),
            Some(&"#") => true,
            Some(&"+") => !t.is_empty() && m(&f[1..], &t[1..]),
            Some(x) => !t.is_empty() && *x == t[0] && m(&f[1..], &t[1..]),
        }
    }
    m(&filter.split('/').collect::<Vec<_>>(), &topic.split('/').collect::<Vec<_>>())
}
const CL: [&str; 4] = ["a", "b", "client-3", ""];
fn q(n: u8) -> QoSLevel { match n { 0 => QoSLevel::AtMostOnce, 1 => QoSLevel::AtLeastOnce, _ => QoSLevel::ExactlyOnce } }
type Subs = BTreeMap<(String, String), (u8, bool)>;
fn found(tree: &TopicTree, topic: &str) -> Vec<(String, u8, bool)> {
    let mut v: Vec<_> = tree.matching_subscribers(topic).iter().map(|s| (s.session_id.to_string(), s.qos as u8, s.no_local)).collect();
    v.sort(); v
}
fn wanted(subs: &Subs, topic: &str) -> Vec<(String, u8, bool)> {
    let mut v: Vec<_> = subs.iter().filter(|((f, _), _)| matches(f, topic)).map(|((_, c), (q, n))| (c.clone(), *q, *n)).collect();
    v.sort(); v
}
fn levels(r: &mut Rng, wild: bool) -> String {
    let n = 1 + r.below(4);
    let names = ["a", "b", "", "$x", "aa", "é", "a b", "abc", "$"];
    let mut v: Vec<String> = vec![];
    for i in 0..n {
        if wild && r.chance(22) { v.push("+".into()); continue }
        if wild && i + 1 == n && r.chance(25) { v.push("#".into()); continue }
        let k = if r.chance(80) { r.below(4) } else { r.below(names.len()) };
        v.push(names[k].into());
    }
    v.join("/")
}
fn op_name(o: &Op) -> String { match o { Op::Sub(c, f, q, n) => format!("subscribe({f:?}, {c:?}, {q}, {n})"), Op::Un(c, f) => format!("unsubscribe({f:?}, {c:?})"), Op::All(c) => format!("unsubscribe_all({c:?})") } }
#[derive(Clone)]
enum Op { Sub(&'static str, String, u8, bool), Un(&'static str, String), All(&'static str) }
fn history(ops: &[Op], topics: &[String], each: bool) -> Finds {
    let mut tree = TopicTree::new();
    let mut subs = Subs::new();
    let mut log = vec![];
    let mut f: Finds = vec![];
    for (i, o) in ops.iter().enumerate() {
        log.push(op_name(o));
        match o {
            Op::Sub(c, x, qq, n) => { tree.subscribe(x, c, q(*qq), *n); subs.insert((x.clone(), c.to_string()), (*qq, *n)); }
            Op::Un(c, x) => {
                let had = subs.remove(&(x.clone(), c.to_string())).is_some();
                let said = tree.unsubscribe(x, c);
                if had != said { f.push(("C14", format!("after {}: the subscription {} but unsubscribing reports {said}", log.join(", "), if had { "existed" } else { "did not exist" }))); return f }
            }
            Op::All(c) => { tree.unsubscribe_all(c); subs.retain(|(_, x), _| x != c); }
        }
        if !each && i + 1 != ops.len() { continue }
        for t in topics {
            let (got, want) = (found(&tree, t), wanted(&subs, t));
            if got != want {
                let m = format!("after {}: topic {t:?} finds {got:?}, its subscriptions are {want:?}", log.join(", "));
                // a single subscription set up by subscribing alone is a matter of matching
                let g: BTreeSet<_> = got.iter().map(|x| &x.0).collect(); let w: BTreeSet<_> = want.iter().map(|x| &x.0).collect();
                let only_sub = ops[..=i].iter().all(|o| matches!(o, Op::Sub(..)));
                let _ = (g, w, only_sub);
                f.push(("C13", m.clone())); f.push(("C14", m)); return f;
            }
        }
    }
    f
}
fn topic_case(seed: u64) -> Finds {
    let mut r = Rng::new(seed);
    let n = 1 + r.below(if seed % 4 == 0 { 30 } else { 7 });
    let pool: Vec<String> = (0..1 + r.below(6)).map(|_| levels(&mut r, true)).collect();
    let mut ops = vec![];
    for _ in 0..n {
        let c = *r.pick(&CL[..]);
        let f = if r.chance(85) { r.pick(&pool).clone() } else { levels(&mut r, true) };
        ops.push(match r.below(10) { 0..=5 => Op::Sub(c, f, r.below(3) as u8, r.chance(30)), 6..=8 => Op::Un(c, f), _ => Op::All(c) });
    }
    let mut topics: Vec<String> = (0..12).map(|_| levels(&mut r, false)).collect();
    // topics made from the filters
    for p in &pool {
        let mut t: Vec<String> = p.split('/').map(|s| match s { "+" => r.pick(&["a", "", "b", "$x"]).to_string(), "#" => "a/b".split('/').take(1 + r.below(2)).collect::<Vec<_>>().join("/"), s => s.to_string() }).collect();
        topics.push(t.join("/"));
        if p.ends_with('#') && t.len() > 1 { t.pop(); topics.push(t.join("/")) }
    }
    history(&ops, &topics, true)
}
/// every filter of up to `depth` levels against every topic of up to `depth`+1 levels
fn single(i: usize) -> Finds {
    let fl = ["a", "b", "", "+", "$x", "#"]; let tl = ["a", "b", "", "$x"];
    let mut x = i; let n = 1 + x % 4; x /= 4;
    let mut f = vec![];
    for k in 0..n { let l = fl[x % 6]; x /= 6; if l == "#" && k + 1 != n { return vec![] } f.push(l) }
    if x > 0 { return vec![] }
    let filter = f.join("/");
    let mut topics = vec![];
    for m in 1..=5usize { for mut y in 0..tl.len().pow(m as u32) { let mut t = vec![]; for _ in 0..m { t.push(tl[y % 4]); y /= 4 } topics.push(t.join("/")) } }
    history(&[Op::Sub("a", filter, 1, false)], &topics, true)
}

// ---------------------------------------------------------------- sessions
fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() }
fn pool_case(seed: u64) -> Finds {
    rt().block_on(async move {
        let mut r = Rng::new(seed);
        let ids = ["a", "b", "c", "d", ""];
        let k = 1 + r.below(ids.len());
        let mut pool = SessionPool::new_with_expiry(Duration::from_secs(30));
        let mut m: BTreeMap<&str, (Arc<RwLock<Session>>, bool)> = BTreeMap::new();
        let mut log: Vec<String> = vec![];
        macro_rules! bad { ($($a:tt)*) => { return vec![("C15", format!("after {}: {}", log.join(", "), format!($($a)*)))] } }
        for _ in 0..2 + r.below(if seed % 4 == 0 { 40 } else { 8 }) {
            let id = ids[r.below(k)];
            let was = m.get(id).cloned();
            match r.below(7) {
                0 | 1 => {
                    if was.is_some() { continue }
                    let on = r.chance(50);
                    let mut s = Session::new(id.to_string(), None, Duration::from_secs(9), 4);
                    s.set_connected(on);
                    let s = Arc::new(RwLock::new(s));
                    log.push(format!("add({id:?}, connected {on})"));
                    pool.add(Arc::clone(&s)).await;
                    m.insert(id, (s, on));
                }
                2 => { log.push(format!("activate({id:?})")); let o = pool.activate(id).await; let want = was.clone().filter(|w| !w.1);
                    if o.is_some() != want.is_some() || o.zip(want).map_or(false, |(a, b)| !Arc::ptr_eq(&a, &b.0)) { bad!("activate reports the wrong session") }
                    if let Some(x) = m.get_mut(id) { x.1 = true } }
                3 => { log.push(format!("deactivate({id:?})")); let o = pool.deactivate(id).await; let want = was.clone().filter(|w| w.1);
                    if o.is_some() != want.is_some() || o.zip(want).map_or(false, |(a, b)| !Arc::ptr_eq(&a, &b.0)) { bad!("deactivate reports the wrong session") }
                    if let Some(x) = m.get_mut(id) { x.1 = false } }
                4 => { log.push(format!("remove({id:?})")); let o = pool.remove(id);
                    if o.is_some() != was.is_some() || o.zip(was).map_or(false, |(a, b)| !Arc::ptr_eq(&a, &b.0)) { bad!("remove reports the wrong session") }
                    m.remove(id); }
                5 => { log.push(format!("remove_active({id:?})")); let o = pool.remove_active(id); let want = was.clone().filter(|w| w.1);
                    if o.is_some() != want.is_some() || o.zip(want).map_or(false, |(a, b)| !Arc::ptr_eq(&a, &b.0)) { bad!("remove_active reports the wrong session") }
                    if m.get(id).map_or(false, |x| x.1) { m.remove(id); } }
                _ => {}
            }
            let (a, i) = (m.values().filter(|x| x.1).count() as u32, m.values().filter(|x| !x.1).count() as u32);
            if pool.active_sessions() != a || pool.inactive_sessions() != i { bad!("counts {} active and {} inactive, there are {a} and {i}", pool.active_sessions(), pool.inactive_sessions()) }
            for id in ids {
                let g = pool.get_active(id); let w = m.get(id).filter(|x| x.1);
                if g.is_some() != w.is_some() || g.zip(w).map_or(false, |(a, b)| !Arc::ptr_eq(&a, &b.0)) { bad!("looking up {id:?} among the active sessions gives the wrong one") }
            }
            for (id, (s, on)) in &m { let s = s.read().await; if s.connected() != *on { bad!("session {id:?} is connected: {}, held as active: {on}", s.connected()) } if s.id() != *id { bad!("session {id:?} changed its identifier") } }
            for limit in [None, Some(0), Some(a), Some(a + 1), Some(a.saturating_sub(1))] { let want = limit.map_or(false, |l| a >= l); if pool.at_capacity(limit) != want { bad!("{a} active sessions at capacity {limit:?}: {}", !want) } }
        }
        // what is held is found again
        for id in ids { let o = pool.remove(id); let w = m.remove(id); if o.is_some() != w.is_some() || o.zip(w).map_or(false, |(a, b)| !Arc::ptr_eq(&a, &b.0)) { bad!("the session {id:?} is not the one held") } }
        if pool.active_sessions() != 0 || pool.inactive_sessions() != 0 { bad!("{} active and {} inactive sessions are counted in an empty pool", pool.active_sessions(), pool.inactive_sessions()) }
        vec![]
    })
}
fn ids_case(seed: u64) -> Finds {
    let mut r = Rng::new(seed);
    let mut s = Session::new("x".into(), None, Duration::from_secs(9), 4);
    let mut pend: BTreeMap<u16, String> = BTreeMap::new();
    let mut log = vec![];
    macro_rules! bad { ($($a:tt)*) => { return vec![("C16", format!("seed {seed}, after {}: {}", log.iter().rev().take(12).rev().cloned().collect::<Vec<String>>().join(", "), format!($($a)*)))] } }
    let publish = |t: &str, id: u16| { let mut p = Publish::default(); p.topic_name = t.to_string(); p.set_qos(QoSLevel::AtLeastOnce); p.set_packet_id(Some(id)).ok(); p };
    // start near the end of the identifiers in half of the cases
    if seed % 2 == 0 {
        let keep = r.below(400);
        let until = 65535 - r.below(30);
        for k in 0..until { let id = s.next_packet_id(); if k < keep || k % 9000 == 0 || (seed % 4 == 0 && k > 65200) { if id == 0 || pend.contains_key(&id) { bad!("identifier {id} is assigned while {} are pending", pend.len()) } s.track_qos_publish(id, publish("t", id)); pend.insert(id, "t".into()); } }
        log.push(format!("{until} assigned, {} pending", pend.len()));
    }
    for k in 0..60 + r.below(300) {
        match r.below(6) {
            0..=2 => {
                let id = s.next_packet_id();
                log.push(format!("next_packet_id() = {id}"));
                if id == 0 { bad!("the identifier 0 is assigned") }
                if pend.contains_key(&id) { bad!("the pending identifier {id} is assigned again") }
                if r.chance(85) { let t = format!("t{k}"); s.track_qos_publish(id, publish(&t, id)); pend.insert(id, t); }
            }
            3 | 4 => {
                let id = if r.chance(75) && !pend.is_empty() { *pend.keys().nth(r.below(pend.len())).unwrap() } else { *r.pick(&[0u16, 1, 65535, 7, 300]) };
                log.push(format!("acknowledge({id})"));
                let said = s.acknowledge(id); let had = pend.remove(&id).is_some();
                if said != had { bad!("acknowledging {id} reports {said}, it was {}pending", if had { "" } else { "not " }) }
            }
            _ => {}
        }
        if s.pending_ack_count() != pend.len() { bad!("{} messages are pending instead of {}", s.pending_ack_count(), pend.len()) }
    }
    let mut got: Vec<(u16, String)> = s.drain_pending().into_iter().map(|(i, p)| (i, p.topic_name)).collect(); got.sort();
    let want: Vec<(u16, String)> = pend.into_iter().collect();
    if got != want { bad!("pending are {:?}.., expected {:?}..", got.iter().take(8).collect::<Vec<_>>(), want.iter().take(8).collect::<Vec<_>>()) }
    vec![]
}

// ---------------------------------------------------------------- the broker's state
/// the numbers of active and inactive sessions
pub async fn counts(b: &crate::Broker) -> (u32, u32) { let p = b.state.session_pool.read().await; (p.active_sessions(), p.inactive_sessions()) }

#[cfg(not(vaux_min))]
mod handlers {
    use super::*;
    use crate::session::SessionControl;
    use crate::{Broker, BrokerState};
    use vaux_mqtt::subscribe::SubscriptionFilter;
    use vaux_mqtt::unsubscribe::Unsubscribe;
    use vaux_mqtt::{PayloadFormat, Reason, Subscribe, WillMessage};
    const ID: [&str; 5] = ["a", "b", "c", "d", "e"];
    fn filter_name(r: &mut Rng) -> String {
        if r.chance(12) { return r.pick(&["#", "+", "$x/#", "/", "a/#", "$x"]).to_string() }
        let n = 1 + r.below(3);
        (0..n).map(|i| if r.chance(22) { "+" } else if i + 1 == n && r.chance(22) { "#" } else { *r.pick(&["a", "b", "", "$x"]) }).collect::<Vec<_>>().join("/")
    }
    fn topic_name(r: &mut Rng) -> String { let n = 1 + r.below(3); (0..n).map(|_| *r.pick(&["a", "b", "", "$x"])).collect::<Vec<_>>().join("/") }
    fn users(p: &vaux_mqtt::property::UserProperty) -> Vec<(String, String)> { let mut v = vec![]; for (k, x) in p.iter() { for y in x { v.push((k.to_string(), y.to_string())) } } v.sort(); v }
    type Copy = (u8, bool, bool, String, Option<Vec<u8>>, Option<u32>, Option<u8>, Option<u16>, Option<String>, Vec<u8>, Option<String>, Vec<(String, String)>);
    fn copy(p: &Publish, q: u8) -> Copy { (q, p.retain(), false, p.topic_name.clone(), p.payload.as_ref().map(|b| b.to_vec()), p.message_expiry, p.payload_format.map(|f| f as u8), None, p.response_topic.clone(), p.correlation_data.clone(), p.content_type.clone(), users(&p.user_properties)) }
    fn seen(p: &Publish) -> Copy { let mut c = copy(p, p.qos() as u8); c.2 = p.dup(); c.7 = p.topic_alias; c }
    fn fill(r: &mut Rng, p: &mut Publish, k: usize) {
        p.payload = if r.chance(12) { None } else if r.chance(12) { Some(bytes::Bytes::new()) } else { Some(bytes::Bytes::from(format!("m{k}").into_bytes())) };
        p.set_retain(r.chance(30));
        if r.chance(40) { p.message_expiry = Some(*r.pick(&[0, 1, u32::MAX, 77])) }
        if r.chance(40) { p.set_payload_format(PayloadFormat::Utf8) }
        if r.chance(40) { p.response_topic = Some(r.pick(&["", "r/é"]).to_string()) }
        if r.chance(40) { p.correlation_data = vec![0, 1, 255] }
        if r.chance(40) { p.content_type = Some(r.pick(&["", "text"]).to_string()) }
        if r.chance(40) { for _ in 0..1 + r.below(3) { let k = r.below(2); let v = r.below(3); p.user_properties.add(format!("k{k}"), format!("v{v}")) } }
        if r.chance(30) { p.topic_alias = Some(5) }
    }
    pub fn case(seed: u64) -> Finds {
        rt().block_on(async move {
            let mut r = Rng::new(seed);
            let small = seed % 5 == 0;
            let cap = if small { 1 + r.below(3) } else { 1000 };
            let state = BrokerState::new(crate::Config { session_channel_size: cap, ..Default::default() });
            // a second tree, changed as the answers say the broker's was
            let mut shadow = TopicTree::new();
            let mut log: Vec<String> = vec![];
            macro_rules! bad { ($p:expr, $($a:tt)*) => { return vec![($p, format!("{} [after {}]", format!($($a)*), log.iter().rev().take(12).rev().cloned().collect::<Vec<String>>().join("; ")))] } }
            let mut ses = vec![];
            for id in ID.iter() {
                let on = r.chance(75);
                let mut s = Session::new(id.to_string(), None, Duration::from_secs(9), cap);
                s.set_connected(on);
                let rx = s.take_control_receiver().unwrap();
                let s = Arc::new(RwLock::new(s));
                state.session_pool.write().await.add(Arc::clone(&s)).await;
                if !on { log.push(format!("{id} is not connected")) }
                ses.push((*id, s, rx, on, BTreeMap::<u16, Copy>::new()));
            }
            let mut known: Vec<String> = vec![];
            for k in 0..3 + r.below(if seed % 4 == 0 { 30 } else { 10 }) {
                let who = r.below(ses.len());
                let id = ses[who].0;
                let op = r.below(10);
                if op < 4 {
                    let fs: Vec<SubscriptionFilter> = (0..r.below(5)).map(|_| { let name = if !known.is_empty() && r.chance(40) { r.pick(&known).clone() } else { filter_name(&mut r) }; let mut f = SubscriptionFilter::new(name, q(r.below(3) as u8)); f.set_no_local(r.chance(35)); f.set_retain_as_published(r.chance(50)); f }).collect();
                    let pid = *r.pick(&[1u16, 65535, 300, 7]);
                    log.push(format!("{id} subscribes {:?}", fs.iter().map(|f| (f.filter.as_str(), f.qos() as u8, f.no_local())).collect::<Vec<_>>()));
                    let a = Broker::handle_subscribe(&Subscribe::new_with_filter(pid, fs.clone()), id, &state).await;
                    if a.packet_id() != pid { bad!("C18", "the SUBACK has the packet identifier {} instead of {pid}", a.packet_id()) }
                    if a.reason_codes.len() != fs.len() { bad!("C18", "{} reasons for {} filters", a.reason_codes.len(), fs.len()) }
                    for (f, x) in fs.iter().zip(&a.reason_codes) {
                        let g = match x { Reason::Success => 0u8, Reason::GrantedQoS1 => 1, Reason::GrantedQoS2 => 2, x => { if (*x as u8) < 0x80 { bad!("C18", "{:?} gets the reason {x:?}", f.filter) } continue } };
                        if g > f.qos() as u8 { bad!("C18", "{:?} with QoS {} is granted QoS {g}", f.filter, f.qos() as u8) }
                        shadow.subscribe(&f.filter, id, q(g), f.no_local());
                        known.push(f.filter.clone());
                    }
                } else if op < 6 {
                    let ts: Vec<String> = (0..r.below(5)).map(|_| if !known.is_empty() && r.chance(75) { r.pick(&known).clone() } else { filter_name(&mut r) }).collect();
                    let pid = *r.pick(&[1u16, 65535, 300, 7]);
                    log.push(format!("{id} unsubscribes {ts:?}"));
                    let a = Broker::handle_unsubscribe(&Unsubscribe::new(pid, ts.clone()), id, &state).await;
                    if a.packet_id != pid { bad!("C18", "the UNSUBACK has the packet identifier {} instead of {pid}", a.packet_id) }
                    let want: Vec<Reason> = ts.iter().map(|t| if shadow.unsubscribe(t, id) { Reason::Success } else { Reason::NoSubscriptionExisted }).collect();
                    if a.reason_code != want { bad!("C18", "unsubscribing {ts:?} is answered {:?}, true is {want:?}", a.reason_code) }
                }
                // what is recorded is what was answered
                let mut topics: Vec<String> = (0..3).map(|_| topic_name(&mut r)).collect();
                for f in &known { topics.push(f.replace('+', "a").replace('#', "b")) }
                if op < 6 {
                    let tree = state.topic_tree.read().await;
                    for t in &topics { let (g, w) = (found(&tree, t), found(&shadow, t)); if g != w { bad!("C18", "for the topic {t:?} the subscriptions {g:?} are recorded, answered were {w:?}") } }
                    continue;
                }
                if op == 6 { let (_, s, _, _, pend) = &mut ses[who]; if let Some(k) = pend.keys().next().copied() { log.push(format!("{id} acknowledges {k}")); s.write().await.acknowledge(k); pend.remove(&k); } continue }
                // a message or a will
                let mut p = Publish::default();
                let tpick = r.pick(&topics).clone(); p.topic_name = tpick;
                fill(&mut r, &mut p, k);
                let qq = r.below(3) as u8; p.set_qos(q(qq));
                let prop; let from;
                if op < 9 {
                    prop = "C17"; from = id;
                    if qq > 0 { p.set_packet_id(Some(9)).ok(); p.set_dup(r.chance(30)).ok(); }
                    log.push(format!("{id} publishes {:?} QoS {qq}", p.topic_name));
                    Broker::route_publish(&p, from, &state).await;
                } else {
                    prop = "C20"; from = "";
                    let mut w = WillMessage::new(p.topic_name.clone(), p.payload.as_deref().unwrap_or(&[]), q(qq), p.retain());
                    p.payload = Some(w.payload.clone());
                    w.header.payload_format = p.payload_format; w.header.message_expiry = p.message_expiry; w.header.content_type = p.content_type.clone(); w.header.response_topic = p.response_topic.clone(); w.header.correlation_data = p.correlation_data.clone(); w.header.user_properties = p.user_properties.clone();
                    log.push(format!("the will of {id} is due: {:?} QoS {qq}", p.topic_name));
                    ses[who].1.write().await.set_will(Some(w));
                    let s = Arc::clone(&ses[who].1);
                    Broker::initiate_will(&s, &state).await;
                    Broker::initiate_will(&s, &state).await;
                }
                let subs = found(&*state.topic_tree.read().await, &p.topic_name);
                for (id, s, rx, on, pend) in ses.iter_mut() {
                    let mut want: Vec<Copy> = subs.iter().filter(|(c, _, nl)| c == id && *on && !(*nl && *id == from)).map(|(_, g, _)| copy(&p, qq.min(*g))).collect();
                    let mut got: Vec<Copy> = vec![];
                    let mut full = false;
                    while let Ok(c) = rx.try_recv() { match c {
                        SessionControl::Deliver(x) => {
                            if (x.qos() as u8 > 0) != x.packet_id().is_some() { bad!("C17", "a copy for {id} of QoS {} has the packet identifier {:?}", x.qos() as u8, x.packet_id()) }
                            if let Some(k) = x.packet_id() {
                                if k == 0 || pend.contains_key(&k) { bad!("C16", "{id} gets a message with the packet identifier {k}, pending are {:?}", pend.keys()) }
                                pend.insert(k, seen(&x));
                            }
                            got.push(seen(&x));
                        }
                        SessionControl::Disconnect(_) => full = true,
                    } }
                    want.sort(); got.sort();
                    let over = want.len() >= cap;
                    if full && !over { bad!(prop, "{id} is disconnected") }
                    if !over && got != want { bad!(prop, "{id} gets {got:?}, due are {want:?}") }
                    // a copy of QoS 1 or 2 stays pending, delivered or not
                    let due = pend.len() - got.iter().filter(|c| c.0 > 0).count() + want.iter().filter(|c| c.0 > 0).count();
                    let mut s = s.write().await;
                    if s.pending_ack_count() != due { bad!(prop, "{} messages for {id} are pending instead of {due}", s.pending_ack_count()) }
                    if over || r.chance(5) {
                        let all = s.drain_pending();
                        pend.clear();
                        for (k, x) in all { if x.packet_id() != Some(k) { bad!("C16", "the pending message {k} for {id} has the packet identifier {:?}", x.packet_id()) } pend.insert(k, seen(&x)); s.track_qos_publish(k, x); }
                        if pend.len() != due { bad!("C16", "{} messages for {id} are pending instead of {due}", pend.len()) }
                    }
                }
            }
            vec![]
        })
    }
}
pub fn one(kind: &str, input: &str) -> Finds {
    let n: u64 = input.parse().unwrap_or(0);
    #[cfg(not(vaux_min))]
    if kind == "handlers" { return handlers::case(n) }
    match kind { "topic" => topic_case(n), "single" => single(n as usize), "pool" => pool_case(n), "ids" => ids_case(n), _ => vec![] }
}
