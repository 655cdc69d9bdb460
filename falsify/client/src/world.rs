//! A scripted server on a loopback address, a real client, and what the protocol says each sees of the other.
use crate::run::{Finds, Rng};
use std::collections::BTreeMap;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::mpsc::{Receiver, Sender};
use tokio::time::timeout;
use vaux_client::session::SessionState;
use vaux_client::{ClientBuilder, ErrorKind, MqttClient, MqttConnection};
use vaux_mqtt::pubresp::PubResp;
use vaux_mqtt::{Packet, Publish, QoSLevel, Reason};

/// a finding, or a trouble of the harness itself that decides nothing
pub enum Stop { Bad(&'static str, String), Infra(String) }
pub type R<T> = Result<T, Stop>;
pub fn infra<E: std::fmt::Debug>(w: &str) -> impl Fn(E) -> Stop + '_ { move |e| Stop::Infra(format!("{w}: {e:?}")) }
pub const PATIENCE: Duration = Duration::from_secs(25);

/// a control packet as the server sees it: type and flags, body
#[derive(Clone, Debug, PartialEq)]
pub struct Raw { pub t: u8, pub f: u8, pub b: Vec<u8> }
pub fn str_at(b: &[u8], i: &mut usize) -> Option<String> { let n = u16::from_be_bytes([*b.get(*i)?, *b.get(*i + 1)?]) as usize; let s = b.get(*i + 2..*i + 2 + n)?; *i += 2 + n; String::from_utf8(s.to_vec()).ok() }
pub fn vbi_at(b: &[u8], i: &mut usize) -> Option<usize> { let (mut v, mut k) = (0usize, 0); loop { let x = *b.get(*i)?; *i += 1; v |= ((x & 127) as usize) << (7 * k); k += 1; if x < 128 { return Some(v) } if k == 4 { return None } } }
/// the client's second small write waits for the acknowledgement of its first: give it at once
fn quick(s: &TcpStream) {
    use std::os::fd::{AsRawFd, FromRawFd};
    use std::os::linux::net::TcpStreamExt;
    let t = std::mem::ManuallyDrop::new(unsafe { std::net::TcpStream::from_raw_fd(s.as_raw_fd()) });
    let _ = t.set_quickack(true);
}
pub async fn take(s: &mut TcpStream) -> Option<Raw> {
    quick(s);
    let h = s.read_u8().await.ok()?;
    let (mut n, mut k) = (0usize, 0);
    loop { let x = s.read_u8().await.ok()?; n |= ((x & 127) as usize) << (7 * k); k += 1; if x < 128 { break } if k == 4 { return None } }
    let mut b = vec![0; n];
    s.read_exact(&mut b).await.ok()?;
    Some(Raw { t: h >> 4, f: h & 15, b })
}
pub fn packet(t: u8, f: u8, b: &[u8]) -> Vec<u8> { let mut v = vec![t << 4 | f]; let mut n = b.len(); loop { let d = (n & 127) as u8; n >>= 7; v.push(if n > 0 { d | 128 } else { d }); if n == 0 { break } } v.extend_from_slice(b); v }
pub fn publish(q: u8, dup: bool, id: u16, topic: &str, body: &[u8]) -> Vec<u8> {
    let mut b = (topic.len() as u16).to_be_bytes().to_vec(); b.extend_from_slice(topic.as_bytes());
    if q > 0 { b.extend_from_slice(&id.to_be_bytes()) }
    b.push(0); b.extend_from_slice(body);
    packet(3, (dup as u8) << 3 | q << 1, &b)
}
pub fn ack(t: u8, id: u16) -> Vec<u8> { packet(t, if t == 6 { 2 } else { 0 }, &id.to_be_bytes()) }

/// what is sent to the server, as the model describes it
#[derive(Clone, Debug, PartialEq)]
enum Sent { Pub(u8, u16, Vec<u8>), Ack(u8, u16), Other(u8) }
fn sent(r: &Raw) -> Option<Sent> {
    let id = |b: &[u8]| -> Option<u16> { Some(u16::from_be_bytes([*b.first()?, *b.get(1)?])) };
    Some(match r.t {
        3 => { let mut i = 0; str_at(&r.b, &mut i)?; let q = r.f >> 1 & 3; let p = if q > 0 { let p = id(&r.b[i..])?; i += 2; p } else { 0 }; let n = vbi_at(&r.b, &mut i)?; Sent::Pub(q, p, r.b.get(i + n..)?.to_vec()) }
        4 | 5 | 6 | 7 => { if r.b.get(2).map(|x| *x != 0).unwrap_or(false) { return None } Sent::Ack(r.t, id(&r.b)?) }
        t => Sent::Other(t),
    })
}
/// what the application is handed
#[derive(Clone, Debug, PartialEq)]
enum Got { Pub(u8, u16, Vec<u8>), Ack(u8, u16), Other(u8) }
fn got(p: &Packet) -> Got {
    match p {
        Packet::Publish(m) => Got::Pub(m.qos() as u8, m.packet_id().unwrap_or(0), m.payload.as_ref().map(|b| b.to_vec()).unwrap_or_default()),
        Packet::PubAck(a) => Got::Ack(4, a.packet_id), Packet::PubRec(a) => Got::Ack(5, a.packet_id), Packet::PubRel(a) => Got::Ack(6, a.packet_id), Packet::PubComp(a) => Got::Ack(7, a.packet_id),
        Packet::PingResponse(_) => Got::Other(13),
        _ => Got::Other(0),
    }
}

#[derive(Clone, Debug)]
struct Model { auto_ack: bool, auto_id: bool, pingresp: bool, max: usize, sends: BTreeMap<u16, u8>, places: usize, recvs: BTreeMap<u16, u8>, keep: u64, expiry: u64, client: String }
fn next(a: u8) -> Option<u8> { match a { 5 => Some(6), 6 => Some(7), _ => None } }
/// what one event leads to: packets at the server, packets at the application, whether the session ends
#[derive(Default, Debug)]
struct Out { sent: Vec<Sent>, got: Vec<Got>, end: bool }
#[derive(Clone, Debug)]
enum Ev { AppPub(u8, Option<u16>), AppAck(u8, u16), SrvAck(u8, u16), SrvPub(u8, bool, u16), Pong }

impl Model {
    fn step(&mut self, e: &Ev, body: &[u8]) -> Out {
        let mut o = Out::default();
        match *e {
            Ev::AppPub(0, _) => o.sent.push(Sent::Pub(0, 0, body.to_vec())),
            Ev::AppPub(q, id) => {
                if self.sends.len() >= self.max || id.map(|i| self.sends.contains_key(&i)).unwrap_or(!self.auto_id) { o.end = true; return o }
                // an assigned identifier is read off the wire (0 here stands for it)
                o.sent.push(Sent::Pub(q, id.unwrap_or(0), body.to_vec()));
                if let Some(i) = id { self.sends.insert(i, if q == 1 { 4 } else { 5 }); }
            }
            Ev::AppAck(t, i) => if !self.auto_ack {
                o.sent.push(Sent::Ack(t, i));
                let f = if t == 6 { &mut self.sends } else { &mut self.recvs };
                if f.get(&i) == Some(&t) { match next(t) { Some(n) => { f.insert(i, n); } None => { f.remove(&i); if t != 6 { self.places += 1 } } } }
            },
            Ev::SrvAck(t, i) => {
                let f = if t == 6 { &mut self.recvs } else { &mut self.sends };
                if f.get(&i) != Some(&t) { o.end = true; return o }
                o.got.push(Got::Ack(t, i));
                match t {
                    5 => { if self.auto_ack { o.sent.push(Sent::Ack(6, i)); f.insert(i, 7); } else { f.insert(i, 6); } }
                    6 => { if self.auto_ack { o.sent.push(Sent::Ack(7, i)); f.remove(&i); self.places += 1; } else { f.insert(i, 7); } }
                    _ => { f.remove(&i); }
                }
            }
            Ev::SrvPub(0, _, _) => o.got.push(Got::Pub(0, 0, body.to_vec())),
            Ev::SrvPub(q, _, i) => {
                let again = self.recvs.contains_key(&i);
                if self.places == 0 && !(q == 2 && again) { o.end = true; return o }
                if q == 1 {
                    o.got.push(Got::Pub(1, i, body.to_vec()));
                    if self.auto_ack { o.sent.push(Sent::Ack(4, i)); if again { self.recvs.remove(&i); self.places += 1; } }
                    else { self.recvs.insert(i, 4); if !again { self.places -= 1 } }
                } else {
                    if !again { o.got.push(Got::Pub(2, i, body.to_vec())); self.places -= 1; self.recvs.insert(i, if self.auto_ack { 6 } else { 5 }); }
                    if self.auto_ack { o.sent.push(Sent::Ack(5, i)) }
                }
            }
            Ev::Pong => if self.pingresp { o.got.push(Got::Other(13)) },
        }
        o
    }
}

type Join = tokio::task::JoinHandle<Result<SessionState, vaux_client::client::ClientError>>;
struct World { r: Rng, lst: TcpListener, addr: std::net::SocketAddr, m: Model, log: Vec<String>, n: u32 }
struct Live { client: MqttClient, join: Join, srv: TcpStream, out: Sender<Packet>, inn: Receiver<Packet> }
struct Hello { keep: u16, expiry: Option<u32>, id: String, clean: bool }
fn hello(r: &Raw) -> Option<Hello> {
    if r.t != 1 { return None }
    let b = &r.b; let mut i = 0;
    if str_at(b, &mut i)? != "MQTT" || *b.get(i)? != 5 { return None }
    let fl = *b.get(i + 1)?; let keep = u16::from_be_bytes([*b.get(i + 2)?, *b.get(i + 3)?]); i += 4;
    let n = vbi_at(b, &mut i)?; let e = i + n; let mut expiry = None;
    while i < e { let p = *b.get(i)?; i += 1; match p { 0x11 => { expiry = Some(u32::from_be_bytes(b.get(i..i + 4)?.try_into().ok()?)); i += 4 } 0x21 | 0x22 => i += 2, 0x27 => i += 4, 0x17 | 0x19 => i += 1, _ => return None } }
    let id = str_at(b, &mut i)?;
    Some(Hello { keep, expiry, id, clean: fl & 2 != 0 })
}
#[derive(Clone, Debug, Default)]
pub struct Announce { reason: u8, keep: Option<u16>, expiry: Option<u32>, max: Option<u16>, id: Option<String>, present: bool }
pub fn connack(a: &Announce) -> Vec<u8> {
    let mut p = vec![];
    if let Some(x) = a.expiry { p.push(0x11); p.extend_from_slice(&x.to_be_bytes()) }
    if let Some(x) = a.max { p.push(0x21); p.extend_from_slice(&x.to_be_bytes()) }
    if let Some(x) = &a.id { p.push(0x12); p.extend_from_slice(&(x.len() as u16).to_be_bytes()); p.extend_from_slice(x.as_bytes()) }
    if let Some(x) = a.keep { p.push(0x13); p.extend_from_slice(&x.to_be_bytes()) }
    let mut b = vec![a.present as u8, a.reason, p.len() as u8]; b.extend(p);
    packet(2, 0, &b)
}

impl World {
    fn bad<T>(&self, p: &'static str, m: String) -> R<T> { Err(Stop::Bad(p, format!("{m} [client {:?}; after {}]", self.m, self.log.iter().rev().take(14).rev().cloned().collect::<Vec<_>>().join("; ")))) }
    fn conn(&self) -> MqttConnection { MqttConnection::new().with_host(&self.addr.ip().to_string()).with_port(self.addr.port()) }
    /// starts a client and answers its CONNECT; checks what the CONNECT says
    async fn connect(&mut self, b: ClientBuilder, chan: u16, a: &Announce, pid: &'static str) -> R<Result<Live, (Join, MqttClient)>> {
        let mut client = b.with_channel_size(chan).build().await.map_err(infra("building"))?;
        let out = client.packet_producer();
        let inn = client.take_packet_consumer().ok_or(Stop::Infra("consumer".into()))?;
        let clean = self.r.chance(30);
        let lst = &self.lst;
        let (join, srv) = tokio::join!(client.start(clean), timeout(PATIENCE, lst.accept()));
        let join = join.map_err(infra("starting"))?;
        let mut srv = srv.map_err(infra("accepting"))?.map_err(infra("accepting"))?.0;
        srv.set_nodelay(true).ok();
        let c = timeout(PATIENCE, take(&mut srv)).await.map_err(infra("CONNECT"))?;
        let Some(h) = c.as_ref().and_then(hello) else { return self.bad("C23", format!("not a CONNECT as expected: {c:?}")) };
        if h.id != self.m.client && !self.m.client.is_empty() { return self.bad("C23", format!("CONNECT carries the identifier {:?}, not {:?}", h.id, self.m.client)) }
        if self.m.client.is_empty() { self.m.client = h.id.clone() }
        if h.keep as u64 != self.m.keep.min(65535) && self.m.keep < 65536 { return self.bad("C23", format!("CONNECT asks for a keep-alive of {} s, the client uses {} s", h.keep, self.m.keep)) }
        if self.m.expiry <= u32::MAX as u64 && h.expiry.unwrap_or(0) as u64 != self.m.expiry { return self.bad("C23", format!("CONNECT asks for a session expiry of {:?}, the client uses {} s", h.expiry, self.m.expiry)) }
        if h.clean != clean { return self.bad("C23", "clean start is not as asked".into()) }
        self.log.push(format!("CONNACK {a:?}"));
        srv.write_all(&connack(a)).await.map_err(infra("writing CONNACK"))?;
        let _ = pid;
        if a.reason != 0 { return Ok(Err((join, client))) }
        if let Some(k) = a.keep { self.m.keep = k as u64 }
        if let Some(k) = a.expiry { self.m.expiry = k as u64 }
        if let Some(k) = a.max { self.m.max = k as usize }
        if self.m.client.is_empty() { if let Some(i) = &a.id { self.m.client = i.clone() } }
        Ok(Ok(Live { client, join, srv, out, inn }))
    }
    /// everything the client sends and delivers up to a point where it has worked through all that was given to it
    async fn settle(&mut self, l: &mut Live) -> R<(Vec<Sent>, Vec<Got>, bool)> {
        let (mut s, mut g) = (vec![], vec![]);
        self.n += 1;
        let mark = format!("mark{}", self.n).into_bytes();
        let _ = l.srv.write_all(&publish(0, false, 0, "m", &mark)).await;
        let mut end = false;
        let t = std::time::Instant::now();
        loop {
            // the client keeps a sending end of the channel: its end shows in the task alone
            match timeout(Duration::from_millis(10), l.inn.recv()).await {
                Err(_) => { if l.join.is_finished() && l.inn.is_empty() { end = true; break } if t.elapsed() > PATIENCE { return self.bad("C22", "a QoS 0 message is not delivered".into()) } }
                Ok(None) => { end = true; break }
                Ok(Some(p)) => { let x = got(&p); if x == Got::Pub(0, 0, mark.clone()) { break } g.push(x) }
            }
        }
        if !end && l.out.send(Packet::PingRequest(Default::default())).await.is_err() { end = true }
        loop {
            match timeout(PATIENCE, take(&mut l.srv)).await {
                Err(_) => return Err(Stop::Infra("no PINGREQ".into())),
                Ok(None) => { end = true; break }
                Ok(Some(r)) => match sent(&r) { Some(Sent::Other(12)) => break, Some(x) => s.push(x), None => return self.bad("C22", format!("the client sends something malformed or refusing: {r:?}")) },
            }
        }
        Ok((s, g, end))
    }
    async fn finish(&mut self, l: Live) -> R<(SessionState, Option<ErrorKind>)> { self.ended(l.join).await }
    async fn ended(&mut self, j: Join) -> R<(SessionState, Option<ErrorKind>)> {
        match timeout(PATIENCE, j).await {
            Err(_) => self.bad("C22", "the client does not end".into()),
            Ok(Err(e)) => self.bad("C22", format!("the client panics: {e}")),
            Ok(Ok(Ok(s))) => Ok((s, None)),
            Ok(Ok(Err(e))) => { let k = e.kind(); Ok((e.state, Some(k))) }
        }
    }
    fn body(&mut self) -> Vec<u8> { self.n += 1; format!("b{}", self.n).into_bytes() }
    /// runs one event; true when the session ended as it should
    async fn event(&mut self, l: &mut Live, e: Ev) -> R<bool> {
        let body = self.body();
        self.log.push(format!("{e:?}"));
        let before = self.m.clone();
        let o = self.m.step(&e, &body);
        let send = |p: Packet| { let out = l.out.clone(); async move { out.send(p).await } };
        match &e {
            Ev::AppPub(q, id) => {
                let mut p = Publish::default(); p.topic_name = "t".into(); p.payload = Some(body.clone().into());
                p.set_qos(match q { 0 => QoSLevel::AtMostOnce, 1 => QoSLevel::AtLeastOnce, _ => QoSLevel::ExactlyOnce });
                if *q > 0 { let _ = p.set_packet_id(*id); }
                let _ = send(Packet::Publish(p)).await;
            }
            Ev::AppAck(t, i) => { let _ = send(match t { 4 => Packet::PubAck(PubResp::new_puback_with_packet_id(*i)), 5 => Packet::PubRec(PubResp::new_pubrec_with_packet_id(*i)), 6 => Packet::PubRel(PubResp::new_pubrel_with_packet_id(*i)), _ => Packet::PubComp(PubResp::new_pubcomp_with_packet_id(*i)) }).await; }
            Ev::SrvAck(t, i) => { let _ = l.srv.write_all(&ack(*t, *i)).await; }
            Ev::SrvPub(q, d, i) => { let _ = l.srv.write_all(&publish(*q, *d, *i, "s", &body)).await; }
            Ev::Pong => { let _ = l.srv.write_all(&packet(13, 0, &[])).await; }
        }
        // what the application gives and what the server sends are taken up in any order: wait for the former first
        if matches!(e, Ev::AppPub(..) | Ev::AppAck(..)) { let (s, g, end) = self.drain_app(l).await?; return self.judge(&before, &e, o, s, g, end) }
        let (s, g, end) = self.settle(l).await?;
        self.judge(&before, &e, o, s, g, end)
    }
    async fn drain_app(&mut self, l: &mut Live) -> R<(Vec<Sent>, Vec<Got>, bool)> {
        let mut s = vec![];
        let mut end = l.out.send(Packet::PingRequest(Default::default())).await.is_err();
        loop {
            match timeout(PATIENCE, take(&mut l.srv)).await {
                Err(_) => return Err(Stop::Infra("no PINGREQ".into())),
                Ok(None) => { end = true; break }
                Ok(Some(r)) => match sent(&r) { Some(Sent::Other(12)) => break, Some(x) => s.push(x), None => return self.bad("C22", format!("the client sends something malformed or refusing: {r:?}")) },
            }
        }
        let mut g = vec![];
        while let Ok(p) = l.inn.try_recv() { g.push(got(&p)) }
        Ok((s, g, end))
    }
    fn judge(&mut self, before: &Model, e: &Ev, mut o: Out, s: Vec<Sent>, g: Vec<Got>, end: bool) -> R<bool> {
        let app = matches!(e, Ev::AppPub(..));
        let pid = if app { "C21" } else { "C22" };
        if let (Ev::AppPub(q, None), Some(Sent::Pub(_, i, _)), 1.., false) = (e, s.first(), e_q(e), o.end) {
            if *i == 0 { return self.bad("C21", "the client assigns the identifier 0".into()) }
            if before.sends.contains_key(i) { return self.bad("C21", format!("the client assigns the identifier {i}, which is of a message in flight")) }
            self.m.sends.insert(*i, if *q == 1 { 4 } else { 5 });
            if let Some(Sent::Pub(_, j, _)) = o.sent.first_mut() { *j = *i }
        }
        if s != o.sent { return self.bad(pid, format!("on {e:?} the client sends {s:?}, not {:?}", o.sent)) }
        if g != o.got { return self.bad("C22", format!("on {e:?} the application is handed {g:?}, not {:?}", o.got)) }
        if end != o.end { return self.bad(pid, format!("on {e:?} the client {}", if end { "ends" } else { "goes on" })) }
        Ok(end)
    }
    fn choose(&mut self, pid: &str) -> Ev {
        let any = |r: &mut Rng, f: &BTreeMap<u16, u8>| -> u16 { if !f.is_empty() && r.chance(80) { *f.keys().nth(r.below(f.len())).unwrap() } else { 1 + r.below(6) as u16 } };
        let x = self.r.below(100);
        let pubs = if pid == "C21" { 45 } else { 25 };
        if x < pubs { let q = self.r.below(3) as u8; let id = if !self.m.auto_id { if self.r.chance(92) { Some(1 + self.r.below(40) as u16) } else { None } } else if self.r.chance(15) { Some(1 + self.r.below(12) as u16) } else { None }; let id = if id.map(|i| self.m.sends.contains_key(&i)).unwrap_or(false) && self.r.chance(85) { None } else { id };
            let full = self.m.sends.len() >= self.m.max;
            if q > 0 && (full || id.is_none() && !self.m.auto_id) && self.r.chance(80) { return Ev::AppPub(0, None) }
            Ev::AppPub(q, id) }
        else if x < 75 {
            // an acknowledgement, most of the time one that is awaited
            let recv = self.r.chance(if pid == "C21" { 20 } else { 45 });
            let f = if recv { self.m.recvs.clone() } else { self.m.sends.clone() };
            let due: Vec<(u16, u8)> = f.into_iter().filter(|(_, t)| recv == (*t == 6)).collect();
            if !due.is_empty() && self.r.chance(93) { let (i, t) = *self.r.pick(&due); return Ev::SrvAck(t, i) }
            if self.r.chance(88) { return Ev::SrvPub(self.r.below(3) as u8, false, 1 + self.r.below(6) as u16).tidy(&self.m) }
            let t = *self.r.pick(&[4u8, 5, 6, 7]); let f = if t == 6 { self.m.recvs.clone() } else { self.m.sends.clone() };
            let i = any(&mut self.r, &f); Ev::SrvAck(t, i)
        } else if x < 80 && !self.m.auto_ack || x < 77 {
            let t = *self.r.pick(&[4u8, 5, 6, 7]); let f = if t == 6 { self.m.sends.clone() } else { self.m.recvs.clone() };
            let due: Vec<u16> = f.iter().filter(|(_, n)| **n == t).map(|(i, _)| *i).collect();
            let i = if !due.is_empty() && self.r.chance(85) { *self.r.pick(&due) } else { any(&mut self.r, &f) };
            Ev::AppAck(t, i)
        } else if x < 82 { Ev::Pong }
        else {
            let q = self.r.below(3) as u8; let rep = self.r.chance(40) && !self.m.recvs.is_empty();
            let i = if rep { any(&mut self.r, &self.m.recvs.clone()) } else { 1 + self.r.below(6) as u16 };
            Ev::SrvPub(q, rep, i).tidy(&self.m)
        }
    }
}
fn e_q(e: &Ev) -> u8 { if let Ev::AppPub(q, _) = e { *q } else { 0 } }
impl Ev {
    /// a server does not send QoS 1 under the identifier of a QoS 2 message, nor beyond the places it has
    fn tidy(self, m: &Model) -> Ev {
        match self {
            Ev::SrvPub(0, _, i) => Ev::SrvPub(0, false, i),
            Ev::SrvPub(1, d, i) if matches!(m.recvs.get(&i), Some(5 | 6 | 7)) => Ev::SrvPub(2, d, i),
            Ev::SrvPub(2, d, i) if m.recvs.get(&i) == Some(&4) => Ev::SrvPub(1, d, i),
            o => o,
        }
    }
}
async fn scenario(pid: &'static str, mut r: Rng) -> R<()> {
    let lst = { let mut l = None; for _ in 0..20 { let ip = format!("127.{}.{}.{}", 1 + r.below(250), r.below(250), 1 + r.below(250)); if let Ok(x) = TcpListener::bind((ip.as_str(), 0)).await { l = Some(x); break } } l.ok_or(Stop::Infra("no address".into()))? };
    let addr = lst.local_addr().map_err(infra("address"))?;
    let auto_ack = r.chance(60);
    let places = if r.chance(50) { 65535 } else { 1 + r.below(4) };
    let m = Model { auto_ack, auto_id: r.chance(75), pingresp: r.chance(30), max: 65535, sends: BTreeMap::new(), places, recvs: BTreeMap::new(), keep: *r.pick(&[60u64, 30, 3600]), expiry: *r.pick(&[600u64, 0, 86400]), client: if r.chance(70) { "cl-7".into() } else { String::new() } };
    let mut w = World { r, lst, addr, m, log: vec![], n: 0 };
    let mut b = ClientBuilder::new(w.conn()).with_auto_ack(w.m.auto_ack).with_auto_packet_id(w.m.auto_id).with_pingresp(w.m.pingresp).with_keep_alive(Duration::from_secs(w.m.keep)).with_session_expiry(Duration::from_secs(w.m.expiry));
    if w.m.places != 65535 { b = b.with_receive_max(w.m.places as u16) }
    let unnamed = !w.m.client.is_empty() && w.r.chance(25);
    if unnamed { w.m.client.clear(); b = b.with_client_id("") } else if !w.m.client.is_empty() { b = b.with_client_id("cl-7") }
    let mut unnamed = unnamed;
    for _round in 0..(2 + w.r.below(3)) {
        let mut a = Announce { present: false, ..Default::default() };
        if w.r.chance(if pid == "C23" { 25 } else { 6 }) { a.reason = *w.r.pick(&[0x80u8, 0x87, 0x88, 0x8a, 0x97]) }
        if w.r.chance(45) { a.keep = Some(*w.r.pick(&[30u16, 45, 60, 120, 65535])) }
        if w.r.chance(45) { a.expiry = Some(*w.r.pick(&[1u32, 60, 600, 4294967295])) }
        if w.r.chance(if pid == "C21" { 75 } else { 45 }) { a.max = Some(*w.r.pick(&[1u16, 2, 3, 5, 65535])) }
        if unnamed || w.r.chance(15) { a.id = Some("assigned-9".into()) }
        let named = w.m.client.clone();
        let chan = if w.r.chance(30) { 1 + w.r.below(3) as u16 } else { 128 };
        let old = w.m.clone();
        let state = match w.connect(b, chan, &a, pid).await? {
            Err((j, client)) => {
                w.m.client = if unnamed { String::new() } else { w.m.client };
                let (s, k) = w.ended(j).await?;
                match k { Some(ErrorKind::Protocol(x)) if x as u8 == a.reason => {} o => return w.bad("C23", format!("a CONNACK refusing with {:#x} is reported as {o:?}", a.reason)) }
                if client.connected().await { return w.bad("C23", "connected after a refusing CONNACK".into()) }
                s
            }
            Ok(mut l) => {
                if unnamed { w.m.client = a.id.clone().unwrap(); unnamed = false; } else { let _ = (&named, &old); }
                let (s, g, end) = w.settle(&mut l).await?;
                if end || !s.is_empty() || !g.is_empty() { return w.bad("C23", format!("after CONNACK the client sends {s:?}, delivers {g:?}{}", if end { " and ends" } else { "" })) }
                if !l.client.connected().await { return w.bad("C23", "not connected after CONNACK".into()) }
                if l.client.keep_alive().await != Duration::from_secs(w.m.keep) { return w.bad("C23", format!("keep-alive is {:?}, not {} s", l.client.keep_alive().await, w.m.keep)) }
                if l.client.session_expiry().await != Duration::from_secs(w.m.expiry) { return w.bad("C23", format!("session expiry is {:?}, not {} s", l.client.session_expiry().await, w.m.expiry)) }
                if pid == "C22" && chan < 10 && w.r.chance(60) { burst(&mut w, &mut l).await? }
                if pid == "C23" { fill(&mut w, &mut l).await? }
                let steps = if pid == "C23" { w.r.below(6) } else { 6 + w.r.below(30) };
                let mut over = false;
                for _ in 0..steps { let e = w.choose(pid); if w.event(&mut l, e).await? { over = true; break } }
                if !over {
                    match w.r.below(3) {
                        0 => { let _ = l.out.send(Packet::Disconnect(Default::default())).await; w.log.push("app disconnects".into());
                            match timeout(PATIENCE, take(&mut l.srv)).await { Ok(Some(x)) if x.t == 14 => {} o => return w.bad("C22", format!("not a DISCONNECT: {o:?}")) } }
                        1 => { let _ = l.srv.shutdown().await; w.log.push("server closes".into()); }
                        _ => { let _ = l.srv.write_all(&packet(14, 0, &[0x8b, 0])).await; w.log.push("server disconnects".into()); }
                    }
                    let what = w.log.last().unwrap().clone();
                    let (s, k) = w.finish(l).await?;
                    if what.starts_with("app") && k.is_some() { return w.bad("C22", format!("after DISCONNECT the client ends with {k:?}")) }
                    s
                } else { w.finish(l).await?.0 }
            }
        };
        w.log.push("ended".into());
        let conn = w.conn();
        b = ClientBuilder::new(w.conn()).with_state(conn, state);
    }
    Ok(())
}
/// as many messages as the server allows and one more
async fn fill(w: &mut World, l: &mut Live) -> R<()> {
    if w.m.max > 10 || !w.m.auto_id { return Ok(()) }
    while w.m.sends.len() < w.m.max { if w.event(l, Ev::AppPub(1, None)).await.map_err(|e| match e { Stop::Bad("C21", m) => Stop::Bad("C23", m), o => o })? { return Ok(()) } }
    Ok(())
}
/// more messages than the application's channel holds, read late
async fn burst(w: &mut World, l: &mut Live) -> R<()> {
    let mut want = vec![]; let mut acks = vec![];
    for k in 0..(3 + w.r.below(6)) {
        let q = w.r.below(3) as u8; let i = 100 + k as u16;
        if q > 0 && w.m.places == 0 { continue }
        let body = w.body();
        let e = Ev::SrvPub(q, false, i);
        w.log.push(format!("burst {e:?}"));
        let o = w.m.step(&e, &body);
        if l.srv.write_all(&publish(q, false, i, "s", &body)).await.is_err() { return Err(Stop::Infra("burst".into())) }
        want.extend(o.got); acks.extend(o.sent);
    }
    if w.r.chance(50) { tokio::time::sleep(Duration::from_millis(3)).await }
    let (s, g, end) = w.settle(l).await?;
    if end { return w.bad("C22", "the client ends in a burst of messages".into()) }
    if g != want { return w.bad("C22", format!("of a burst the application is handed {g:?}, not {want:?}")) }
    if s != acks { return w.bad("C22", format!("a burst is acknowledged with {s:?}, not {acks:?}")) }
    Ok(())
}
/// all identifiers in turn while some stay in flight
async fn wrap(mut r: Rng) -> R<()> {
    let lst = TcpListener::bind(("127.9.9.9", 0)).await.map_err(infra("binding"))?;
    let addr = lst.local_addr().map_err(infra("address"))?;
    let m = Model { auto_ack: true, auto_id: true, pingresp: false, max: 65535, sends: BTreeMap::new(), places: 65535, recvs: BTreeMap::new(), keep: 3600, expiry: 600, client: "wrap".into() };
    r.next();
    let mut w = World { r, lst, addr, m, log: vec![], n: 0 };
    let b = ClientBuilder::new(w.conn()).with_keep_alive(Duration::from_secs(3600)).with_client_id("wrap");
    let Ok(mut l) = w.connect(b, 256, &Announce::default(), "C21").await? else { return Ok(()) };
    let mut held = 0;
    for round in 0..460u32 {
        let mut ids = vec![];
        for _ in 0..150 {
            let mut p = Publish::default(); p.topic_name = "t".into();
            p.set_qos(QoSLevel::AtLeastOnce);
            if l.out.send(Packet::Publish(p)).await.is_err() { return w.bad("C21", format!("the client ends in round {round} with {} messages in flight", w.m.sends.len())) }
        }
        let (s, _, end) = w.drain_app(&mut l).await?;
        for x in &s { if let Sent::Pub(1, i, _) = x {
            if *i == 0 { return w.bad("C21", "the client assigns the identifier 0".into()) }
            if w.m.sends.insert(*i, 4).is_some() { return w.bad("C21", format!("the client assigns the identifier {i}, which is of a message in flight")) }
            ids.push(*i);
        } }
        if end || ids.len() != 150 { return w.bad("C21", format!("the client sends {} of 150 messages with {} in flight of 65535", ids.len(), w.m.sends.len())) }
        let mut out = vec![];
        for (k, i) in ids.iter().enumerate() { if (k + round as usize) % 37 == 0 && held < 1500 { held += 1; continue } w.m.sends.remove(i); out.extend(ack(4, *i)) }
        if l.srv.write_all(&out).await.is_err() { return Err(Stop::Infra("acks".into())) }
        let (_, g, end) = w.settle_many(&mut l).await?;
        if end { return w.bad("C21", "the client ends on an acknowledgement it awaits".into()) }
        let _ = g;
    }
    Ok(())
}
impl World {
    async fn settle_many(&mut self, l: &mut Live) -> R<(Vec<Sent>, Vec<Got>, bool)> { self.settle(l).await }
}
/// the keep-alive in use is the announced one
async fn timer(k: usize) -> R<()> {
    let lst = TcpListener::bind((format!("127.9.8.{}", k + 1).as_str(), 0)).await.map_err(infra("binding"))?;
    let addr = lst.local_addr().map_err(infra("address"))?;
    let m = Model { auto_ack: true, auto_id: true, pingresp: false, max: 65535, sends: BTreeMap::new(), places: 65535, recvs: BTreeMap::new(), keep: 60, expiry: 600, client: "timer".into() };
    let mut w = World { r: Rng::new(k as u64), lst, addr, m, log: vec![], n: 0 };
    let b = ClientBuilder::new(w.conn()).with_keep_alive(Duration::from_secs(60)).with_client_id("timer");
    let a = Announce { keep: match k { 0 => Some(1), 1 => Some(0), _ => None }, ..Default::default() };
    let Ok(mut l) = w.connect(b, 128, &a, "C23").await? else { return Ok(()) };
    let t = std::time::Instant::now();
    let wait = if k == 0 { 20_000 } else { 1_500 };
    match timeout(Duration::from_millis(wait), take(&mut l.srv)).await {
        Err(_) => if k == 0 { w.bad("C23", "no PINGREQ within 20 s though a keep-alive of 1 s was announced".into()) } else { Ok(()) },
        Ok(Some(p)) if p.t == 12 => if k == 0 { if t.elapsed() < Duration::from_millis(900) { w.bad("C23", format!("PINGREQ after {:?} though a keep-alive of 1 s was announced", t.elapsed())) } else { Ok(()) } } else { w.bad("C23", format!("PINGREQ after {:?} though the keep-alive is {}", t.elapsed(), if k == 1 { "off" } else { "60 s" })) },
        Ok(o) => w.bad("C23", format!("the client sends {o:?} of its own")),
    }
}
pub fn case(kind: &str, input: &str) -> Finds {
    let (p, s) = input.split_once(':').unwrap();
    let seed: u64 = s.parse().unwrap();
    let pid: &'static str = ["C21", "C22", "C23", "C25", "C26"].into_iter().find(|x| *x == p).unwrap_or("C22");
    let Ok(rt) = tokio::runtime::Builder::new_current_thread().enable_all().build() else { return vec![] };
    let out = rt.block_on(async { match kind { "wrap" => wrap(Rng::new(seed)).await, "timer" => timer(seed as usize).await, "conf" => crate::app::configured(Rng::new(seed ^ 0x25)).await, "chan" => crate::app::channels(Rng::new(seed ^ 0x26)).await, _ => scenario(pid, Rng::new(seed ^ 0x77)).await } });
    rt.shutdown_background();
    let _ = Reason::Success;
    match out { Ok(()) => vec![], Err(Stop::Bad(p, m)) => vec![(p, m)], Err(Stop::Infra(m)) => { if std::env::var("VX_TRACE").is_ok() { eprintln!("infra {m}") } vec![] } }
}
