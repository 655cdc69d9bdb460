//! A broker on a loopback address of its own, its clients, and what the protocol says they see.
use crate::run::{Finds, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;
use tokio::time::timeout;
use vaux_async::stream::{AsyncMqttStream, MqttStream, PacketStream};
use vaux_mqtt::subscribe::SubscriptionFilter;
use vaux_mqtt::unsubscribe::Unsubscribe;
use vaux_mqtt::{Connect, Disconnect, Packet, PayloadFormat, PubAck, Publish, QoSLevel, Reason, Subscribe, WillMessage};

/// a finding, or a trouble of the harness itself that decides nothing
pub enum Stop { Bad(&'static str, String), Infra(String) }
type R<T> = Result<T, Stop>;
fn infra<E: std::fmt::Debug>(w: &str) -> impl Fn(E) -> Stop + '_ { move |e| Stop::Infra(format!("{w}: {e:?}")) }
const PATIENCE: Duration = Duration::from_secs(25);

fn matches(filter: &str, topic: &str) -> bool {
    if topic.starts_with('$') && (filter.starts_with('+') || filter.starts_with('#')) { return false }
    fn m(f: &[&str], t: &[&str]) -> bool {
        match f.first() { None => t.is_empty(), Some(&"#") => true, Some(&"+") => !t.is_empty() && m(&f[1..], &t[1..]), Some(x) => !t.is_empty() && *x == t[0] && m(&f[1..], &t[1..]) }
    }
    m(&filter.split('/').collect::<Vec<_>>(), &topic.split('/').collect::<Vec<_>>())
}
fn q(n: u8) -> QoSLevel { match n { 0 => QoSLevel::AtMostOnce, 1 => QoSLevel::AtLeastOnce, _ => QoSLevel::ExactlyOnce } }

/// what a subscriber is to see of a message
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Seen { topic: String, qos: u8, retain: bool, dup: bool, payload: Vec<u8>, expiry: Option<u32>, format: Option<u8>, alias: Option<u16>, response: Option<String>, corr: Vec<u8>, ctype: Option<String>, user: Vec<(String, String)> }
fn user_list(p: &vaux_mqtt::property::UserProperty) -> Vec<(String, String)> { let mut v: Vec<(String, String)> = vec![]; for (k, x) in p.iter() { for y in x { v.push((k.to_string(), y.to_string())) } } v.sort(); v }
fn seen(p: &Publish) -> Seen {
    Seen { topic: p.topic_name.clone(), qos: p.qos() as u8, retain: p.retain(), dup: p.dup(), payload: p.payload.as_ref().map(|b| b.to_vec()).unwrap_or_default(), expiry: p.message_expiry, format: p.payload_format.map(|f| f as u8), alias: p.topic_alias, response: p.response_topic.clone(), corr: p.correlation_data.clone(), ctype: p.content_type.clone(), user: user_list(&p.user_properties) }
}

struct Conn { ps: PacketStream, raw: std::net::TcpStream, stash: Vec<Publish>, done: bool }
#[derive(Default, Clone)]
struct Sess { subs: BTreeMap<String, (u8, bool)>, pending: BTreeMap<u16, Seen>, will: Option<Seen>, /* copies of its own will, taken up or not */ maybe: Vec<Seen> }
struct World { r: Rng, addr: std::net::SocketAddr, conns: BTreeMap<String, Conn>, sess: BTreeMap<String, Sess>, log: Vec<String>, n: u32, pid: u16, dmin: u16, dmax: u16, expiry: u32, limit: Option<u32>, fresh: BTreeSet<String>, #[allow(dead_code)] b: std::sync::Arc<vaux_broker::Broker> }

const OBS: &str = "observer";
const PROBE: &str = "probe";
const IDS: [&str; 4] = ["c0", "c1", "c2", "c3"];

impl World {
    fn bad<T>(&self, p: &'static str, m: String) -> R<T> { Err(Stop::Bad(p, format!("{m} [after {}]", self.log.iter().rev().take(14).rev().cloned().collect::<Vec<_>>().join("; ")))) }
    async fn open(&self) -> R<Conn> {
        let s = tokio::net::TcpStream::connect(self.addr).await.map_err(infra("connecting"))?;
        s.set_nodelay(true).ok();
        let s = s.into_std().map_err(infra("socket"))?;
        let raw = s.try_clone().map_err(infra("socket"))?;
        let s = tokio::net::TcpStream::from_std(s).map_err(infra("socket"))?;
        Ok(Conn { ps: PacketStream::new(AsyncMqttStream(MqttStream::TcpStream(s)), None, None), raw, stash: vec![], done: false })
    }
    /// sends without minding the outcome: what matters is what comes back
    async fn send(&mut self, id: &str, mut p: Packet) -> R<()> {
        let c = self.conns.get_mut(id).unwrap();
        c.ps.write(&mut p).await.map_err(|e| Stop::Infra(format!("writing: {e}")))
    }
    /// the next packet that is not a PUBLISH; None when the connection ended
    async fn reply(&mut self, id: &str, p: &'static str, what: &str) -> R<Option<Packet>> {
        loop {
            let c = self.conns.get_mut(id).unwrap();
            match timeout(PATIENCE, c.ps.read()).await {
                Err(_) => return self.bad(p, format!("{id} gets no {what}")),
                Ok(Err(_)) | Ok(Ok(None)) => { c.done = true; return Ok(None) }
                Ok(Ok(Some(Packet::Publish(p)))) => c.stash.push(p),
                Ok(Ok(Some(x))) => return Ok(Some(x)),
            }
        }
    }
    /// waits until everything sent by this client has been handled
    async fn settle(&mut self, id: &str, p: &'static str) -> R<()> {
        self.send(id, Packet::PingRequest(Default::default())).await?;
        match self.reply(id, p, "PINGRESP").await? {
            Some(Packet::PingResponse(_)) => Ok(()),
            Some(Packet::Disconnect(d)) => self.bad(p, format!("{id} is disconnected: {:?}", d.reason)),
            Some(x) => self.bad(p, format!("{id} gets an answer nobody asked for: {x:?}")),
            None => self.bad(p, format!("the connection of {id} is closed")),
        }
    }
    /// all copies delivered up to now, by client
    async fn collect(&mut self, p: &'static str) -> R<BTreeMap<String, Vec<Publish>>> {
        self.n += 1;
        let mark = format!("mark {}", self.n);
        let mut m = Publish::default();
        m.topic_name = "$vx/s".into(); m.payload = Some(bytes::Bytes::from(mark.clone().into_bytes()));
        self.send(PROBE, Packet::Publish(m)).await?;
        let mut out = BTreeMap::new();
        let ids: Vec<String> = self.conns.keys().filter(|k| *k != PROBE).cloned().collect();
        for id in ids {
            let c = self.conns.get_mut(&id).unwrap();
            let mut v: Vec<Publish> = std::mem::take(&mut c.stash);
            let mut over = v.iter().any(|x| x.payload.as_deref() == Some(mark.as_bytes()));
            while !over {
                match timeout(PATIENCE, c.ps.read()).await {
                    Err(_) => return self.bad(p, format!("{id} does not get the message that marks the end of its deliveries")),
                    Ok(Ok(Some(Packet::Publish(x)))) => { if x.payload.as_deref() == Some(mark.as_bytes()) { over = true } v.push(x) }
                    Ok(Ok(Some(Packet::Disconnect(d)))) => return self.bad(p, format!("{id} is disconnected: {:?}", d.reason)),
                    Ok(Ok(Some(x))) => return self.bad(p, format!("{id} gets a packet nobody asked for: {x:?}")),
                    Ok(Ok(None)) | Ok(Err(_)) => return self.bad(p, format!("the connection of {id} ends")),
                }
            }
            v.retain(|x| x.topic_name != "$vx/s");
            out.insert(id, v);
        }
        Ok(out)
    }
    /// compares the copies with those expected; records what is pending from now on
    fn compare(&mut self, got: BTreeMap<String, Vec<Publish>>, mut want: BTreeMap<String, Vec<Seen>>, p: &'static str) -> R<()> {
        for (id, v) in got {
            let mut g: Vec<Seen> = v.iter().map(seen).collect(); g.sort();
            let mut w = want.remove(&id).unwrap_or_default(); w.sort();
            if g != w { return self.bad(p, format!("{id} gets {g:?}, due are {w:?}")) }
            for x in &v {
                if (x.qos() as u8 > 0) != x.packet_id().is_some() { return self.bad("C17", format!("a copy for {id} of QoS {} has the packet identifier {:?}", x.qos() as u8, x.packet_id())) }
                if let Some(k) = x.packet_id() {
                    if k == 0 { return self.bad("C16", format!("{id} gets a message with the packet identifier 0")) }
                    let s = self.sess.get_mut(&id).unwrap();
                    if s.pending.contains_key(&k) { return self.bad("C16", format!("{id} gets a message with the packet identifier {k}, which is pending")) }
                    let mut y = seen(x); y.dup = true;
                    s.pending.insert(k, y);
                }
            }
        }
        for (id, w) in want { if !w.is_empty() && self.conns.contains_key(&id) { return self.bad(p, format!("{id} gets none of {w:?}")) } }
        Ok(())
    }
    fn route(&self, from: &str, m: &Seen) -> BTreeMap<String, Vec<Seen>> {
        let mut w: BTreeMap<String, Vec<Seen>> = BTreeMap::new();
        for id in self.conns.keys() {
            if id == PROBE { continue }
            for (f, (qq, nl)) in &self.sess[id].subs {
                if !matches(f, &m.topic) || (*nl && id == from) { continue }
                let mut c = m.clone(); c.qos = c.qos.min(*qq); c.dup = false; c.alias = None;
                w.entry(id.clone()).or_default().push(c);
            }
        }
        w
    }
    fn level_list(&mut self, wild: bool) -> String {
        let n = 1 + self.r.below(3); let mut v = vec![];
        for i in 0..n { v.push(if wild && self.r.chance(25) { "+" } else if wild && i + 1 == n && self.r.chance(25) { "#" } else { *self.r.pick(&["a", "b", "", "a", "$q"]) }) }
        let s = v.join("/");
        if s.is_empty() { "a".into() } else { s }
    }
    fn message(&mut self) -> Publish {
        let mut p = Publish::default();
        p.topic_name = self.level_list(false);
        let n = self.r.below(30); self.n += 1;
        p.payload = Some(bytes::Bytes::from(if self.r.chance(15) { vec![] } else { format!("m{}{}", self.n, "x".repeat(n)).into_bytes() }));
        p.set_retain(self.r.chance(30));
        if self.r.chance(40) { p.message_expiry = Some(self.r.next() as u32) }
        if self.r.chance(40) { p.set_payload_format(if self.r.chance(50) { PayloadFormat::Utf8 } else { PayloadFormat::Bin }) }
        if self.r.chance(40) { p.response_topic = Some("r/é".into()) }
        if self.r.chance(40) { p.correlation_data = vec![0, 1, 255] }
        if self.r.chance(40) { p.content_type = Some("text".into()) }
        if self.r.chance(40) { for _ in 0..1 + self.r.below(3) { let k = self.r.below(2); let v = self.r.below(3); p.user_properties.add(format!("k{k}"), format!("v{v}")) } }
        p
    }
    fn will(&mut self) -> WillMessage {
        let m = self.message();
        let mut w = WillMessage::new(m.topic_name.clone(), m.payload.as_deref().unwrap_or(&[]), q(self.r.below(3) as u8), m.retain());
        w.header.payload_format = m.payload_format; w.header.message_expiry = m.message_expiry; w.header.content_type = m.content_type.clone(); w.header.response_topic = m.response_topic.clone(); w.header.correlation_data = m.correlation_data.clone(); w.header.user_properties = m.user_properties.clone();
        w
    }
    fn will_seen(w: &WillMessage) -> Seen {
        Seen { topic: w.topic.clone(), qos: w.qos as u8, retain: w.retain, dup: false, payload: w.payload.to_vec(), expiry: w.header.message_expiry, format: w.header.payload_format.map(|f| f as u8), alias: None, response: w.header.response_topic.clone(), corr: w.header.correlation_data.clone(), ctype: w.header.content_type.clone(), user: user_list(&w.header.user_properties) }
    }
    fn active(&self) -> u32 { self.conns.len() as u32 }
    /// connects; the name of the session, none when refused
    async fn connect(&mut self, id: &str, clean: bool, will: Option<WillMessage>, ka: u16, exp: Option<u32>) -> R<Option<String>> {
        let mut cn = Connect::default();
        cn.client_id = id.to_string(); cn.set_clean_start(clean); cn.keep_alive = ka; cn.session_expiry_interval = exp;
        if let Some(w) = &will { cn.set_will_message(w.clone()) }
        self.log.push(format!("connect({id:?}, clean {clean}, will {:?}, keep alive {ka}, expiry {exp:?})", will.as_ref().map(|w| &w.topic)));
        let takeover = self.conns.contains_key(id) && !id.is_empty();
        let mut c = self.open().await?;
        if c.ps.write(&mut Packet::Connect(Box::new(cn))).await.is_err() { return Err(Stop::Infra("writing CONNECT".into())) }
        let slot = format!("new {}", self.n); self.n += 1;
        let old = if takeover { self.conns.remove(id) } else { None };
        let refused = old.is_none() && self.limit.map_or(false, |l| self.active() >= l);
        self.conns.insert(slot.clone(), c);
        let r = self.reply(&slot, "C19", "CONNACK").await;
        let mut c = self.conns.remove(&slot).unwrap();
        let ack = match r? { Some(Packet::ConnAck(a)) => a, x => return self.bad("C19", format!("{id:?} gets {x:?} instead of a CONNACK")) };
        if refused {
            if ack.reason == Reason::Success { return self.bad("C15", format!("{id:?} is accepted as active session number {} of {:?}", self.active() + 1, self.limit)) }
            return Ok(None)
        }
        if ack.reason != Reason::Success { return self.bad(if self.limit.is_some() { "C15" } else { "C19" }, format!("{id:?} is refused with {:?}, {} of {:?} sessions are active", ack.reason, self.active(), self.limit)) }
        let name = if id.is_empty() { match &ack.assigned_client_id { Some(a) if !a.is_empty() && !self.sess.contains_key(a) && self.fresh.insert(a.clone()) => a.clone(), x => return self.bad("C19", format!("an empty client identifier gets the assigned identifier {x:?}")) } } else { if ack.assigned_client_id.is_some() { return self.bad("C19", format!("{id:?} gets the assigned identifier {:?}", ack.assigned_client_id)) } id.to_string() };
        let resumed = !clean && self.sess.contains_key(&name);
        if ack.session_present() != resumed { return self.bad("C19", format!("session present is {} for {id:?}, a stored session is {}resumed", ack.session_present(), if resumed { "" } else { "not " })) }
        let granted = ka.max(self.dmin).min(self.dmax);
        let said = ack.server_keep_alive.unwrap_or(ka);
        if said != granted || (granted != ka) != ack.server_keep_alive.is_some() { return self.bad("C19", format!("keep alive {ka} within {}..{} is answered with {:?}", self.dmin, self.dmax, ack.server_keep_alive)) }
        if let Some(e) = exp {
            let g = e.min(self.expiry);
            if ack.session_expiry_interval.unwrap_or(e) != g || (g != e && ack.session_expiry_interval.is_none()) { return self.bad("C19", format!("session expiry {e} of at most {} is answered with {:?}", self.expiry, ack.session_expiry_interval)) }
        }
        if let Some(mut o) = old {
            // the earlier connection is told and closed, its will is due
            let mut told = false;
            loop { match timeout(PATIENCE, o.ps.read()).await {
                Ok(Ok(Some(Packet::Disconnect(d)))) => { told = true; if d.reason != Reason::SessionTakeOver { return self.bad("C20", format!("the earlier connection of {id} is told {:?}", d.reason)) } }
                Ok(Ok(Some(_))) => {}
                Ok(_) => break,
                Err(_) => return self.bad("C20", format!("the earlier connection of {id} stays open after a takeover")),
            } }
            let _ = told;
        }
        let due = if takeover { self.sess.get(&name).and_then(|s| s.will.clone()) } else { None };
        // the will may still find the subscriptions of the discarded session
        let stale: Vec<Seen> = match (&due, resumed) { (Some(w), false) => self.sess[&name].subs.iter().filter(|(f, _)| matches(f, &w.topic)).map(|(_, (qq, _))| { let mut c = w.clone(); c.qos = c.qos.min(*qq); c }).collect(), _ => vec![] };
        let mut s = if resumed { self.sess[&name].clone() } else { Sess::default() };
        let pend = std::mem::take(&mut s.pending);
        s.will = will.as_ref().map(World::will_seen);
        self.sess.insert(name.clone(), s);
        let mut redo: Vec<(u16, Seen)> = vec![];
        // a new connection subscribes to the marks; messages still pending come before the answer, in any order
        let f = SubscriptionFilter::new("$vx/s".into(), QoSLevel::AtMostOnce);
        if c.ps.write(&mut Packet::Subscribe(Subscribe::new_with_filter(65000, vec![f]))).await.is_err() { return Err(Stop::Infra("writing".into())) }
        self.sess.get_mut(&name).unwrap().pending = pend.clone();
        self.conns.insert(name.clone(), c);
        match self.reply(&name, "C18", "SUBACK").await? { Some(Packet::SubAck(a)) if a.packet_id() == 65000 && a.reason_codes == vec![Reason::Success] => {} x => return self.bad("C18", format!("a subscription of {name} is answered with {x:?}")) }
        let c = self.conns.get_mut(&name).unwrap();
        let (again, rest): (Vec<Publish>, Vec<Publish>) = std::mem::take(&mut c.stash).into_iter().partition(|p| p.dup());
        c.stash = rest;
        redo.extend(again.iter().map(|p| (p.packet_id().unwrap_or(0), seen(p))));
        redo.sort();
        let maybe = std::mem::take(&mut self.sess.get_mut(&name).unwrap().maybe);
        let want: Vec<(u16, Seen)> = pend.clone().into_iter().collect();
        let extra: Vec<(u16, Seen)> = redo.iter().filter(|x| !want.contains(x)).cloned().collect();
        if want.iter().any(|x| redo.iter().filter(|y| *y == x).count() != 1) || extra.iter().any(|(_, x)| !maybe.contains(x)) { return self.bad("C16", format!("{name} resumes with the messages {redo:?}, pending are {want:?}")) }
        for (k, x) in extra { if k == 0 || self.sess.get_mut(&name).unwrap().pending.insert(k, x).is_some() { return self.bad("C16", format!("{name} resumes with two messages {k}")) } }
        if let Some(w) = due { self.expect_will(&name, w, &name, stale).await? }
        Ok(Some(name))
    }
    /// the will of `from` is published: waits for it
    async fn expect_will(&mut self, from: &str, w: Seen, except: &str, stale: Vec<Seen>) -> R<()> {
        let mut want = self.route("", &w);
        if !stale.is_empty() { want.entry(except.to_string()).or_default().extend(stale) }
        if !want.contains_key(OBS) { for _ in 0..3 { tokio::time::sleep(Duration::from_millis(2)).await; let g = self.collect("C20").await?; self.absorb(g, &mut want)?; } }
        else {
            let t0 = std::time::Instant::now();
            loop {
                let g = self.collect("C20").await?;
                self.absorb(g, &mut want)?;
                if !want.contains_key(OBS) { break }
                if t0.elapsed() > PATIENCE { return self.bad("C20", format!("the will of {from} is not published: {w:?}")) }
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
        }
        let g = self.collect("C20").await?;
        self.absorb(g, &mut want)?;
        // a client that connected while the will was on its way may have missed it
        want.retain(|k, _| k != except);
        if !want.is_empty() { return self.bad("C20", format!("of the will of {from}, {want:?} is missing")) }
        Ok(())
    }
    fn absorb(&mut self, got: BTreeMap<String, Vec<Publish>>, want: &mut BTreeMap<String, Vec<Seen>>) -> R<()> {
        for (id, v) in got {
            for p in v {
                let s = seen(&p);
                let w = want.entry(id.clone()).or_default();
                match w.iter().position(|x| *x == s) {
                    Some(i) => { w.remove(i); self.compare_id(&id, &p)?; }
                    None => return self.bad("C20", format!("{id} gets {s:?}, due as a will is {w:?}")),
                }
            }
            if want.get(&id).map_or(false, |w| w.is_empty()) { want.remove(&id); }
        }
        Ok(())
    }
    fn compare_id(&mut self, id: &str, p: &Publish) -> R<()> {
        if let Some(k) = p.packet_id() {
            if k == 0 { return self.bad("C16", format!("{id} gets a message with the packet identifier 0")) }
            let s = self.sess.get_mut(id).unwrap();
            if s.pending.contains_key(&k) { return self.bad("C16", format!("{id} gets a message with the packet identifier {k}, which is pending")) }
            let mut y = seen(p); y.dup = true;
            s.pending.insert(k, y);
        } else if p.qos() as u8 > 0 { return self.bad("C17", format!("a copy for {id} of QoS {} has no packet identifier", p.qos() as u8)) }
        Ok(())
    }
    async fn subscribe(&mut self, id: &str) -> R<()> {
        let n = 1 + self.r.below(4);
        let fs: Vec<SubscriptionFilter> = (0..n).map(|_| { let l = self.level_list(true); let mut f = SubscriptionFilter::new(l, q(self.r.below(3) as u8)); f.set_no_local(self.r.chance(40)); f }).collect();
        self.subscribe_to(id, fs).await
    }
    async fn subscribe_to(&mut self, id: &str, fs: Vec<SubscriptionFilter>) -> R<()> {
        self.pid = self.pid % 60000 + 1;
        let pid = self.pid;
        self.log.push(format!("{id} subscribes [{}]", fs.iter().map(|f| format!("{:?} QoS {}{}", f.filter, f.qos() as u8, if f.no_local() { " no local" } else { "" })).collect::<Vec<_>>().join(", ")));
        let mut sub = Subscribe::new_with_filter(pid, fs.clone());
        if self.r.chance(30) { sub.set_subscription_id(7).ok(); }
        self.send(id, Packet::Subscribe(sub)).await?;
        let a = match self.reply(id, "C18", "SUBACK").await? { Some(Packet::SubAck(a)) => a, x => return self.bad("C18", format!("{id} gets {x:?} instead of a SUBACK")) };
        if a.packet_id() != pid { return self.bad("C18", format!("the SUBACK of {id} has the packet identifier {} instead of {pid}", a.packet_id())) }
        if a.reason_codes.len() != fs.len() { return self.bad("C18", format!("{id} asks for {} filters and gets {} reasons", fs.len(), a.reason_codes.len())) }
        for (f, r) in fs.iter().zip(&a.reason_codes) {
            let g = match r { Reason::Success => 0u8, Reason::GrantedQoS1 => 1, Reason::GrantedQoS2 => 2, _ => return self.bad("C18", format!("the filter {:?} gets the reason {r:?}", f.filter)) };
            if g > f.qos() as u8 { return self.bad("C18", format!("the filter {:?} with QoS {} is granted QoS {g}", f.filter, f.qos() as u8)) }
            self.sess.get_mut(id).unwrap().subs.insert(f.filter.clone(), (g, f.no_local()));
        }
        Ok(())
    }
    async fn unsubscribe(&mut self, id: &str) -> R<()> {
        self.pid = self.pid % 60000 + 1;
        let pid = self.pid;
        let n = 1 + self.r.below(4);
        let have: Vec<String> = self.sess[id].subs.keys().cloned().collect();
        let all: Vec<String> = self.sess.values().flat_map(|s| s.subs.keys().cloned()).filter(|f| f != "#").collect();
        let ts: Vec<String> = (0..n).map(|_| if !have.is_empty() && self.r.chance(55) { self.r.pick(&have).clone() } else if !all.is_empty() && self.r.chance(60) { self.r.pick(&all).clone() } else { self.level_list(true) }).collect();
        self.log.push(format!("{id} unsubscribes {ts:?}"));
        self.send(id, Packet::Unsubscribe(Unsubscribe::new(pid, ts.clone()))).await?;
        let a = match self.reply(id, "C18", "UNSUBACK").await? { Some(Packet::UnsubAck(a)) => a, x => return self.bad("C18", format!("{id} gets {x:?} instead of an UNSUBACK")) };
        if a.packet_id != pid { return self.bad("C18", format!("the UNSUBACK of {id} has the packet identifier {} instead of {pid}", a.packet_id)) }
        let want: Vec<Reason> = ts.iter().map(|t| if self.sess.get_mut(id).unwrap().subs.remove(t).is_some() { Reason::Success } else { Reason::NoSubscriptionExisted }).collect();
        if a.reason_code != want { return self.bad("C18", format!("unsubscribing {ts:?} of {id} is answered {:?}, true is {want:?}", a.reason_code)) }
        Ok(())
    }
    async fn publish(&mut self, id: &str) -> R<()> {
        let mut p = self.message();
        let qq = self.r.below(3) as u8;
        p.set_qos(q(qq));
        if qq > 0 { self.pid = self.pid % 60000 + 1; p.set_packet_id(Some(self.pid)).ok(); if self.r.chance(30) { p.set_dup(true).ok(); } }
        if self.r.chance(30) { p.topic_alias = Some(3) }
        self.log.push(format!("{id} publishes {:?} QoS {qq}", p.topic_name));
        let mut m = seen(&p); m.dup = false; m.alias = None;
        let pid = p.packet_id();
        let want = self.route(id, &m);
        self.send(id, Packet::Publish(p)).await?;
        if qq == 1 {
            match self.reply(id, "C17", "PUBACK").await? { Some(Packet::PubAck(a)) if Some(a.packet_id) == pid => {} x => return self.bad("C17", format!("a QoS 1 message {pid:?} of {id} is answered {x:?}")) }
        }
        self.settle(id, "C17").await?;
        let got = self.collect("C17").await?;
        self.compare(got, want, "C17")
    }
    async fn ack(&mut self, id: &str) -> R<()> {
        let ks: Vec<u16> = self.sess[id].pending.keys().cloned().collect();
        let k = if !ks.is_empty() && self.r.chance(85) { *self.r.pick(&ks) } else { *self.r.pick(&[9u16, 1, 65535]) };
        self.log.push(format!("{id} acknowledges {k}"));
        self.send(id, Packet::PubAck(PubAck::new_puback_with_packet_id(k))).await?;
        self.sess.get_mut(id).unwrap().pending.remove(&k);
        self.settle(id, "C16").await
    }
    /// a normal disconnect: the will is gone
    async fn disconnect(&mut self, id: &str) -> R<()> {
        self.log.push(format!("{id} disconnects"));
        self.send(id, Packet::Disconnect(Disconnect::default())).await?;
        if let Some(x) = self.reply(id, "C20", "end of its connection after DISCONNECT").await? { return self.bad("C20", format!("{id} gets {x:?} after its DISCONNECT")) }
        self.conns.remove(id);
        self.sess.get_mut(id).unwrap().will = None;
        let got = self.collect("C20").await?;
        for (k, v) in &got { if !v.is_empty() { return self.bad("C20", format!("after the normal disconnect of {id}, {k} gets {:?}", v.iter().map(seen).collect::<Vec<_>>())) } }
        Ok(())
    }
    /// an end that is not a normal disconnect
    async fn die(&mut self, id: &str) -> R<()> {
        let how = self.r.below(5);
        let w = self.sess[id].will.clone();
        match how {
            0 | 1 => { self.log.push(format!("{id} closes its connection without DISCONNECT")); self.conns.remove(id); }
            2 => {
                self.log.push(format!("{id} disconnects with a reason other than success"));
                let rs = *self.r.pick(&[Reason::DisconnectWillMsg, Reason::UnspecifiedErr, Reason::ImplementationErr]);
                self.send(id, Packet::Disconnect(Disconnect::new(rs))).await?;
                let _ = self.reply(id, "C20", "end of its connection after DISCONNECT").await?;
                self.conns.remove(id);
            }
            3 => {
                self.log.push(format!("{id} sends a malformed packet"));
                let raw = *self.r.pick(&[&[0xf1u8, 0x00][..], &[0x36, 0x03, 0, 1, 97][..], &[0x30, 0xff, 0xff, 0xff, 0xff][..], &[0x82, 0x02, 0, 1][..]]);
                self.raw_end(id, raw).await?;
            }
            _ => { self.log.push(format!("the connection of {id} ends inside a packet")); self.raw_end(id, &[0x30, 0x0a, 0x00]).await?; }
        }
        let ss = self.sess.get_mut(id).unwrap();
        ss.will = None;
        if let Some(w) = &w { for (f, (qq, _)) in &ss.subs { if matches(f, &w.topic) { let mut c = w.clone(); c.qos = c.qos.min(*qq); c.dup = true; if c.qos > 0 { ss.maybe.push(c) } } } }
        for _ in 0..2 { tokio::time::sleep(Duration::from_millis(1)).await; }
        match w {
            Some(w) => self.expect_will(id, w, "", vec![]).await,
            None => { for _ in 0..2 { let g = self.collect("C20").await?; self.absorb(g, &mut BTreeMap::new())?; tokio::time::sleep(Duration::from_millis(1)).await; } Ok(()) }
        }
    }
    async fn raw_end(&mut self, id: &str, raw: &[u8]) -> R<()> {
        use std::io::Write;
        let mut c = self.conns.remove(id).unwrap();
        c.raw.write_all(raw).map_err(infra("writing"))?;
        drop(c);
        Ok(())
    }
}
async fn scenario(pid: &str, seed: u64, server: std::net::SocketAddr, b: std::sync::Arc<vaux_broker::Broker>, cfg: (u16, u16, u32, Option<u32>)) -> R<()> {
    let mut w = World { r: Rng::new(seed), addr: server, conns: BTreeMap::new(), sess: BTreeMap::new(), log: vec![], n: 0, pid: 0, dmin: cfg.0, dmax: cfg.1, expiry: cfg.2, limit: None, fresh: BTreeSet::new(), b };
    let ka = cfg.0;
    w.connect(PROBE, true, None, ka, None).await?;
    w.connect(OBS, true, None, ka, None).await?;
    w.limit = cfg.3;
    let mut f = SubscriptionFilter::new("#".into(), QoSLevel::ExactlyOnce); f.set_no_local(false);
    w.subscribe_to(OBS, vec![f]).await?;
    w.log.clear();
    let steps = 3 + w.r.below(if seed % 3 == 0 { 40 } else { 14 });
    // weights: connect, takeover, subscribe, unsubscribe, publish, acknowledge, disconnect, die
    let wt: [usize; 8] = match pid { "C15" => [40, 4, 2, 0, 2, 0, 20, 4], "C16" => [15, 1, 10, 0, 30, 25, 8, 6], "C17" | "C13" => [12, 0, 25, 6, 45, 8, 4, 2], "C18" | "C14" => [12, 1, 35, 30, 10, 1, 6, 2], "C19" => [40, 2, 8, 2, 6, 2, 20, 10], _ => [25, 2, 8, 1, 4, 1, 14, 20] };
    for _ in 0..steps {
        let mut x = w.r.below(wt.iter().sum()); let mut op = 0; while x >= wt[op] { x -= wt[op]; op += 1 }
        let on: Vec<String> = w.conns.keys().filter(|k| *k != OBS && *k != PROBE).cloned().collect();
        if op == 0 || on.is_empty() {
            let off: Vec<&str> = IDS.iter().copied().filter(|i| !w.conns.contains_key(*i)).collect();
            if off.is_empty() { continue }
            let id = if w.r.chance(8) { "" } else { *w.r.pick(&off) };
            let clean = w.r.chance(35);
            let will = if w.r.chance(if pid == "C20" { 80 } else { 35 }) { Some(w.will()) } else { None };
            let ka = *w.r.pick(&[0, 1, w.dmin.saturating_sub(1), w.dmin, w.dmin + 1, w.dmax - 1, w.dmax, w.dmax.saturating_add(1), 65535, 700]);
            let e = match w.r.below(6) { 0 | 1 => None, 2 => Some(0), 3 => Some(w.expiry), 4 => Some(w.expiry + 1), _ => Some(*[1, w.expiry - 1, u32::MAX, 5000].get(w.r.below(4)).unwrap()) };
            let had = w.conns.len();
            if w.connect(id, clean, will, ka, e).await?.is_some() && had == 0 { }
            continue;
        }
        let id = w.r.pick(&on).clone();
        match op {
            1 => { let will = if w.r.chance(50) { Some(w.will()) } else { None }; let clean = w.r.chance(40); w.connect(&id, clean, will, 60, None).await?; }
            2 => w.subscribe(&id).await?,
            3 => w.unsubscribe(&id).await?,
            4 => w.publish(&id).await?,
            5 => w.ack(&id).await?,
            6 => w.disconnect(&id).await?,
            _ => w.die(&id).await?,
        }
        if pid == "C15" { w.counted().await? }
    }
    // nothing is on its way any more
    let got = w.collect("C20").await?;
    w.compare(got, BTreeMap::new(), "C17")
}
/// situations that a random history does not meet
async fn special(k: usize, seed: u64, server: std::net::SocketAddr, b: std::sync::Arc<vaux_broker::Broker>, cfg: (u16, u16, u32, Option<u32>)) -> R<()> {
    let mut w = World { r: Rng::new(seed), addr: server, conns: BTreeMap::new(), sess: BTreeMap::new(), log: vec![], n: 0, pid: 0, dmin: cfg.0, dmax: cfg.1, expiry: cfg.2, limit: None, fresh: BTreeSet::new(), b };
    w.connect(PROBE, true, None, 30000, None).await?;
    w.connect(OBS, true, None, 30000, None).await?;
    w.subscribe_to(OBS, vec![SubscriptionFilter::new("w/#".into(), QoSLevel::ExactlyOnce)]).await?;
    let mut will = w.will(); will.topic = "w/x".into();
    let f = |t: &str| vec![SubscriptionFilter::new(t.into(), QoSLevel::AtMostOnce)];
    match k {
        // a connection fails while messages are being written to it
        0 => {
            w.limit = cfg.3;
            w.connect("c1", true, None, 30000, None).await?;
            w.connect("c0", false, Some(will.clone()), 30000, None).await?;
            w.subscribe_to("c0", f("v/#")).await?;
            let mut m = Publish::default(); m.topic_name = "v/x".into(); m.payload = Some(bytes::Bytes::from_static(&[1; 50]));
            w.send("c1", Packet::Publish(m.clone())).await?;
            w.settle("c1", "C17").await?;
            tokio::time::sleep(Duration::from_millis(3)).await;
            // c0 has not read its message: its end resets the connection while more are on the way
            let mut all = bytes::BytesMut::new();
            for _ in 0..40 { vaux_mqtt::codec::Encode::encode(&m, &mut all).map_err(|_| Stop::Infra("encoding".into()))?; }
            use std::io::Write;
            w.log.push("c1 publishes 40 messages while the connection of c0 breaks".into());
            w.conns.get_mut("c1").unwrap().raw.write_all(&all).map_err(infra("writing"))?;
            w.conns.remove("c0");
            w.settle("c1", "C17").await?;
            w.expect_will("c0", World::will_seen(&will), "", vec![]).await?;
            w.free("c2").await
        }
        // a connection ends just when another one takes its session over
        1 => {
            w.limit = cfg.3;
            w.connect("c0", false, Some(will.clone()), 30000, None).await?;
            w.subscribe_to("c0", f("v/#")).await?;
            w.connect("c1", true, None, 30000, None).await?;
            // the CONNECT and the end of the earlier connection reach the broker together
            let old = w.conns.remove("c0").unwrap();
            let mut c = w.open().await?;
            let mut cn = Connect::default(); cn.client_id = "c0".into(); cn.keep_alive = 30000; cn.set_clean_start(seed % 2 == 0);
            let clean = seed % 2 == 0;
            w.log.push(format!("c0 connects (clean {clean}) while its earlier connection closes"));
            c.ps.write(&mut Packet::Connect(Box::new(cn))).await.map_err(|_| Stop::Infra("writing".into()))?;
            drop(old);
            match timeout(PATIENCE, c.ps.read()).await { Ok(Ok(Some(Packet::ConnAck(a)))) if a.reason == Reason::Success => {} x => return w.bad("C19", format!("instead of a CONNACK c0 gets {:?}", x.map(|x| x.map_err(|e| e.to_string())))) }
            w.conns.insert("c0".into(), c);
            let s = w.sess.get_mut("c0").unwrap(); s.will = None; if clean { s.subs.clear() }
            w.subscribe_to("c0", f("$vx/s")).await?;
            w.expect_will("c0", World::will_seen(&will), "", vec![]).await?;
            tokio::time::sleep(Duration::from_millis(20)).await;
            w.subscribe_to("c0", f("v/#")).await?;
            // c0 is connected: it gets messages and counts as active
            let mut m = Publish::default(); m.topic_name = "v/x".into();
            let want = w.route("c1", &seen(&m));
            w.send("c1", Packet::Publish(m)).await?;
            w.settle("c1", "C17").await?;
            w.settle("c0", "C17").await?;
            let s = w.conns.get_mut("c0").unwrap();
            let mut got = std::mem::take(&mut s.stash);
            if got.is_empty() { if let Ok(Ok(Some(Packet::Publish(p)))) = timeout(Duration::from_secs(8), s.ps.read()).await { got.push(p) } }
            if got.iter().map(seen).collect::<Vec<_>>() != want["c0"] { return w.bad(if seed % 4 < 2 { "C15" } else { "C17" }, format!("c0, connected, gets {got:?} of {want:?}")) }
            Ok(())
        }
        // keep alive: an idle connection ends and its will is published; a resumed session uses the new keep alive
        2 => {
            // c0 is silent and gets nothing: it does not take part in the marks
            w.connect("c0", false, Some(will.clone()), 1, None).await?;
            let mute = w.mute("c0").await?;
            w.log.push("c0 falls silent".into());
            w.expect_will("c0", World::will_seen(&will), "", vec![]).await?;
            drop(mute);
            w.connect("c0", false, None, 30, None).await?;
            let mute = w.mute("c0").await?;
            tokio::time::sleep(Duration::from_millis(2500)).await;
            w.conns.insert("c0".into(), mute);
            w.settle("c0", "C19").await?;
            w.disconnect("c0").await?;
            w.connect("c0", false, Some(will.clone()), 1, None).await?;
            let mute = w.mute("c0").await?;
            w.log.push("c0 falls silent".into());
            w.expect_will("c0", World::will_seen(&will), "", vec![]).await?;
            drop(mute);
            Ok(())
        }
        // a delayed will comes later, and only when the connection was not ended normally
        3 => {
            w.connect("c0", false, Some(will.clone().with_delay(1)), 30, None).await?;
            w.disconnect("c0").await?;
            w.connect("c1", false, Some(will.clone().with_delay(1)), 30, None).await?;
            w.log.push("c1 closes its connection, its will is delayed".into());
            w.conns.remove("c1");
            let g = w.collect("C20").await?; w.absorb(g, &mut BTreeMap::new())?;
            w.expect_will("c1", World::will_seen(&will), "", vec![]).await?;
            tokio::time::sleep(Duration::from_millis(1200)).await;
            let g = w.collect("C20").await?; w.absorb(g, &mut BTreeMap::new())
        }
        // redelivery that is cut short leaves the messages pending
        _ => {
            w.connect("c0", false, None, 30000, None).await?;
            w.connect("c1", true, None, 30000, None).await?;
            w.subscribe_to("c0", vec![SubscriptionFilter::new("v/#".into(), QoSLevel::AtLeastOnce)]).await?;
            let n = 16;
            for i in 0..n {
                let mut m = Publish::default(); m.topic_name = format!("v/{i}"); m.set_qos(QoSLevel::AtLeastOnce); m.set_packet_id(Some(i + 1)).ok(); m.payload = Some(bytes::Bytes::from(vec![7; 1_000_000]));
                let want = w.route("c1", &seen(&m));
                w.send("c1", Packet::Publish(m)).await?;
                match w.reply("c1", "C17", "PUBACK").await? { Some(Packet::PubAck(_)) => {} x => return w.bad("C17", format!("{x:?} instead of PUBACK")) }
                w.settle("c1", "C17").await?;
                let g = w.collect("C17").await?; w.compare(g, want, "C17")?;
            }
            w.disconnect("c0").await?;
            for _ in 0..2 {
                let mut c = w.open().await?;
                let mut cn = Connect::default(); cn.client_id = "c0".into(); cn.keep_alive = 30000;
                c.ps.write(&mut Packet::Connect(Box::new(cn))).await.map_err(|_| Stop::Infra("writing".into()))?;
                match timeout(PATIENCE, c.ps.read()).await { Ok(Ok(Some(Packet::ConnAck(_)))) => {} _ => return Err(Stop::Infra("no CONNACK".into())) }
                drop(c);
                w.log.push("c0 resumes and its connection breaks during the redelivery".into());
                for _ in 0..4 { w.collect("C16").await?; tokio::time::sleep(Duration::from_millis(3)).await; }
            }
            w.connect("c0", false, None, 30000, None).await?;
            Ok(())
        }
    }
}
impl World {
    /// the broker counts the sessions there are
    async fn counted(&mut self) -> R<()> {
        #[cfg(vaux_verif)]
        {
            let want = (self.active(), self.sess.len() as u32 - self.active());
            let t0 = std::time::Instant::now();
            loop {
                let got = vaux_broker::verif::counts(&self.b).await;
                if got == want { return Ok(()) }
                if t0.elapsed() > Duration::from_secs(10) { return self.bad("C15", format!("the broker counts {} active and {} inactive sessions, there are {} and {}", got.0, got.1, want.0, want.1)) }
                tokio::time::sleep(Duration::from_millis(2)).await;
            }
        }
        #[cfg(not(vaux_verif))]
        Ok(())
    }
    /// takes the client out of the deliveries
    async fn mute(&mut self, id: &str) -> R<Conn> {
        self.send(id, Packet::Unsubscribe(Unsubscribe::new(9, vec!["$vx/s".into()]))).await?;
        match self.reply(id, "C18", "UNSUBACK").await? { Some(Packet::UnsubAck(_)) => {} x => return self.bad("C18", format!("{id} gets {x:?} instead of an UNSUBACK")) }
        Ok(self.conns.remove(id).unwrap())
    }
    /// one place of the limited number of active sessions is free
    async fn free(&mut self, id: &str) -> R<()> {
        let t0 = std::time::Instant::now();
        loop {
            match self.connect(id, true, None, 30000, None).await {
                Ok(_) => return Ok(()),
                Err(Stop::Bad("C15", m)) => { if t0.elapsed() > Duration::from_secs(8) { return Err(Stop::Bad("C15", m)) } tokio::time::sleep(Duration::from_millis(50)).await }
                Err(e) => return Err(e),
            }
        }
    }
}
pub fn case(input: &str) -> Finds {
    let (pid, s) = input.split_once(':').unwrap();
    let seed: u64 = s.parse().unwrap();
    // sK=PID: situation K on behalf of PID
    let (spec, pid): (Option<usize>, &str) = match pid.split_once('=') { Some((k, p)) => (k[1..].parse().ok(), p), None => (None, pid) };
    let pid: &'static str = ["C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"].into_iter().find(|x| *x == pid).unwrap_or("C17");
    let mut r = Rng::new(seed ^ 0x5555);
    let dmin = *r.pick(&[20u16, 45, 60]); let dmax = dmin + *r.pick(&[1u16, 60, 600]);
    let expiry = *r.pick(&[600u32, 10, 100000]);
    let later = spec.is_none() && seed % 4 == 1;
    let limit = if pid == "C15" || r.chance(10) { Some(2 + r.below(4) as u32) } else { None };
    let (dmin, dmax, limit) = match spec { Some(0) => (20, 60000, Some(4)), Some(2) => (1, 60000, None), Some(_) => (20, 60000, None), None => (dmin, dmax, limit) };
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build();
    let rt = match rt { Ok(r) => r, Err(_) => return vec![] };
    let out = rt.block_on(async {
        let mut up = None;
        for _ in 0..20 {
            let ip = format!("127.{}.{}.{}", 1 + r.below(250), r.below(250), 1 + r.below(250)).parse::<std::net::IpAddr>().unwrap();
            let port = match std::net::TcpListener::bind((ip, 0)).and_then(|l| l.local_addr()) { Ok(a) => a.port(), Err(_) => continue };
            let addr = std::net::SocketAddr::from((ip, port));
            let config = vaux_broker::Config { listen_addr: addr, default_keep_alive: Duration::from_secs(dmin as u64), max_keep_alive: Duration::from_secs(dmax as u64), session_expiry: Duration::from_secs(if later { 7 } else { expiry as u64 }), session_channel_size: 1000, max_active_sessions: limit, ..Default::default() };
            let mut b = vaux_broker::Broker::new_with_config(config);
            if b.run().await.is_ok() { if later { b.set_session_expiration(Duration::from_secs(expiry as u64)).await } up = Some((b, addr)); break }
        }
        let Some((b, addr)) = up else { return Err(Stop::Infra("no address".into())) };
        if let Some(k) = spec { return special(k, seed, addr, b.into(), (dmin, dmax, expiry, limit)).await }
        scenario(pid, seed, addr, b.into(), (dmin, dmax, expiry, limit)).await
    });
    rt.shutdown_background();
    match out { Ok(()) => vec![], Err(Stop::Bad(p, m)) => vec![(if spec.is_some() { pid } else { p }, m)], Err(Stop::Infra(m)) => { if std::env::var("VX_TRACE").is_ok() { eprintln!("infra {m}") } vec![] } }
}
