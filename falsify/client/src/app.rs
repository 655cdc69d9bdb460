//! What the client is configured with against its CONNECT (C25), and the channels between it and the application (C26).
use super::world::*;
use crate::run::Rng;
use std::collections::BTreeMap;
use std::time::Duration;
use tokio::io::AsyncWriteExt;
use tokio::net::TcpListener;
use tokio::sync::mpsc::{channel, Receiver};
use tokio::time::timeout;
use vaux_client::{ClientBuilder, MqttConnection};
use vaux_mqtt::pubresp::PubResp;
use vaux_mqtt::will::WillMessage;
use vaux_mqtt::{Packet, PacketType, Publish, QoSLevel};

type Users = BTreeMap<String, Vec<String>>;
#[derive(Clone, Debug, Default, PartialEq)]
struct Will { qos: u8, retain: bool, topic: String, payload: Vec<u8>, delay: Option<u32>, format: u8, expiry: Option<u32>, content: Option<String>, response: Option<String>, corr: Vec<u8>, users: Users }
#[derive(Clone, Debug, Default, PartialEq)]
struct Asked { id: Option<String>, clean: bool, keep: u16, expiry: u32, creds: Option<(String, String)>, will: Option<Will> }
fn take_n<'a>(b: &'a [u8], i: &mut usize, n: usize) -> Option<&'a [u8]> { let s = b.get(*i..*i + n)?; *i += n; Some(s) }
fn bin_at(b: &[u8], i: &mut usize) -> Option<Vec<u8>> { let n = take_n(b, i, 2)?; let n = u16::from_be_bytes([n[0], n[1]]) as usize; Some(take_n(b, i, n)?.to_vec()) }
fn u32_at(b: &[u8], i: &mut usize) -> Option<u32> { Some(u32::from_be_bytes(take_n(b, i, 4)?.try_into().ok()?)) }
/// what a CONNECT says, by the text of the protocol alone
fn asked(r: &Raw) -> Result<Asked, &'static str> {
    if r.t != 1 || r.f != 0 { return Err("is not a CONNECT") }
    let (b, mut i) = (&r.b, 0);
    (|| -> Option<Result<Asked, &'static str>> {
        if str_at(b, &mut i)? != "MQTT" || take_n(b, &mut i, 1)?[0] != 5 { return Some(Err("is not of MQTT 5")) }
        let fl = take_n(b, &mut i, 1)?[0];
        let k = take_n(b, &mut i, 2)?;
        let mut a = Asked { clean: fl & 2 != 0, keep: u16::from_be_bytes([k[0], k[1]]), ..Default::default() };
        if fl & 1 != 0 { return Some(Err("sets the reserved flag")) }
        let e = vbi_at(b, &mut i)? + i;
        while i < e { match take_n(b, &mut i, 1)?[0] { 0x11 => a.expiry = u32_at(b, &mut i)?, _ => return Some(Err("has a property nobody asked for")) } }
        if i != e { return Some(Err("has properties of another length")) }
        a.id = Some(str_at(b, &mut i)?);
        if fl & 4 != 0 {
            let mut w = Will { qos: fl >> 3 & 3, retain: fl & 32 != 0, ..Default::default() };
            let e = vbi_at(b, &mut i)? + i;
            while i < e { match take_n(b, &mut i, 1)?[0] {
                0x18 => w.delay = Some(u32_at(b, &mut i)?), 0x01 => w.format = take_n(b, &mut i, 1)?[0], 0x02 => w.expiry = Some(u32_at(b, &mut i)?),
                0x03 => w.content = Some(str_at(b, &mut i)?), 0x08 => w.response = Some(str_at(b, &mut i)?), 0x09 => w.corr = bin_at(b, &mut i)?,
                0x26 => { let k = str_at(b, &mut i)?; let v = str_at(b, &mut i)?; w.users.entry(k).or_default().push(v) }
                _ => return Some(Err("has an unknown will property")),
            } }
            if i != e { return Some(Err("has will properties of another length")) }
            w.topic = str_at(b, &mut i)?; w.payload = bin_at(b, &mut i)?;
            a.will = Some(w);
        } else if fl & 0x38 != 0 { return Some(Err("has will flags without a will")) }
        let u = if fl & 128 != 0 { Some(str_at(b, &mut i)?) } else { None };
        let p = if fl & 64 != 0 { Some(String::from_utf8(bin_at(b, &mut i)?).ok()?) } else { None };
        a.creds = match (u, p) { (None, None) => None, (Some(u), Some(p)) => Some((u, p)), _ => return Some(Err("has one of user name and password")) };
        if i != b.len() { return Some(Err("goes on after its last field")) }
        Some(Ok(a))
    })().unwrap_or(Err("ends within a field"))
}
async fn listen(r: &mut Rng) -> R<(TcpListener, std::net::SocketAddr)> {
    let mut l = None;
    for _ in 0..20 { let ip = format!("127.{}.{}.{}", 1 + r.below(250), r.below(250), 1 + r.below(250)); if let Ok(x) = TcpListener::bind((ip.as_str(), 0)).await { l = Some(x); break } }
    let l = l.ok_or(Stop::Infra("no address".into()))?;
    let a = l.local_addr().map_err(infra("address"))?;
    Ok((l, a))
}
fn word(r: &mut Rng) -> String { let n = 1 + r.below(9); (0..n).map(|_| *r.pick(&['a', 'b', 'z', '7', '-', 'é', '雨'])).collect() }

pub async fn configured(mut r: Rng) -> R<()> {
    let (lst, addr) = listen(&mut r).await?;
    let mut want = Asked::default();
    let mut conn = MqttConnection::new().with_host(&addr.ip().to_string()).with_port(addr.port());
    if r.chance(50) { let (u, p) = (word(&mut r), if r.chance(15) { String::new() } else { word(&mut r) }); conn = conn.with_credentials(&u, &p); want.creds = Some((u, p)) }
    let other = MqttConnection::new().with_host("127.0.0.1").with_port(1).with_credentials("no", "no");
    let again = r.chance(25);
    let mut b = if again { ClientBuilder::new(other).with_state(conn, Default::default()) } else { ClientBuilder::new(conn) };
    let keep = *r.pick(&[30u64, 31, 60, 3600, 65535, 29, 1, 0]);
    let (mut keep_set, mut expiry_set) = (false, false);
    let mut todo: Vec<u8> = (0..12).filter(|_| r.chance(55)).collect();
    for i in (1..todo.len()).rev() { let j = r.below(i + 1); todo.swap(i, j) }
    for t in &todo { b = match t {
        0 => { let id = if r.chance(20) { String::new() } else { word(&mut r) }; want.id = Some(id.clone()); b.with_client_id(&id) }
        1 => { keep_set = true; let k = Duration::from_secs(keep) + if r.chance(20) && keep > 29 { Duration::from_millis(500) } else { Duration::ZERO }; want.keep = keep as u16; b.with_keep_alive(k) }
        2 => { expiry_set = true; want.expiry = *r.pick(&[0u32, 1, 600, 65536, u32::MAX - 1, u32::MAX]); b.with_session_expiry(Duration::from_secs(want.expiry as u64)) }
        3 | 4 => {
            let mut w = Will { qos: r.below(3) as u8, retain: r.chance(50), topic: word(&mut r), payload: if r.chance(15) { vec![] } else { (0..r.below(40)).map(|_| r.below(256) as u8).collect() }, ..Default::default() };
            let mut m = WillMessage::new(w.topic.clone(), &w.payload, [QoSLevel::AtMostOnce, QoSLevel::AtLeastOnce, QoSLevel::ExactlyOnce][w.qos as usize], w.retain);
            if r.chance(40) { let d = *r.pick(&[0u32, 1, 70000, u32::MAX]); w.delay = Some(d); m = m.with_delay(d) }
            if r.chance(40) { w.format = 1; m = m.with_payload_format(vaux_mqtt::publish::PayloadFormat::Utf8) }
            if r.chance(40) { let d = *r.pick(&[0u32, 1, 70000, u32::MAX]); w.expiry = Some(d); m = m.with_message_expiry(d) }
            if r.chance(40) { let s = word(&mut r); w.content = Some(s.clone()); m = m.with_content_type(s) }
            if r.chance(40) { let s = word(&mut r); w.response = Some(s.clone()); m = m.with_response_topic(s) }
            if r.chance(40) { w.corr = word(&mut r).into_bytes(); m = m.with_correlation_data(w.corr.clone()) }
            if r.chance(40) { let mut u = vaux_mqtt::property::UserProperty::default(); for _ in 0..1 + r.below(4) { let (k, v) = (r.pick(&["k", "l"]).to_string(), word(&mut r)); w.users.entry(k.clone()).or_default().push(v.clone()); u.add(k, v) } m = m.with_user_properties(u) }
            want.will = Some(w);
            b.with_will_message(m)
        }
        5 => b.with_receive_max(1 + r.below(9) as u16), 6 => b.with_max_packet_size(100_000), 7 => b.with_auto_ack(r.chance(50)), 8 => b.with_channel_size(1 + r.below(9) as u16),
        9 => b.with_auto_packet_id(r.chance(50)), 10 => b.with_pingresp(r.chance(50)), _ => b.with_max_connect_wait(Duration::from_secs(60)),
    } }
    let what = format!("{want:?}{}", if again { ", on a second connection" } else { "" });
    let bad = |m: String| -> R<()> { Err(Stop::Bad("C25", format!("{m} [configured {what}]"))) };
    want.clean = r.chance(50);
    let mut client = match b.build().await {
        Err(e) => { if keep_set && keep < 30 { return Ok(()) } return bad(format!("building a client of keep-alive {keep} s gives {e:?}")) }
        Ok(c) => { if keep_set && keep < 30 { return bad(format!("a client of keep-alive {keep} s is built")) } c }
    };
    let _consumer = client.take_packet_consumer();
    let (join, srv) = tokio::join!(client.start(want.clean), timeout(PATIENCE, lst.accept()));
    let _join = join.map_err(infra("starting"))?;
    let mut srv = srv.map_err(infra("accepting"))?.map_err(infra("accepting"))?.0;
    let Some(c) = timeout(PATIENCE, take(&mut srv)).await.map_err(infra("CONNECT"))? else { return bad("the client sends no CONNECT".into()) };
    let got = match asked(&c) { Ok(a) => a, Err(m) => return bad(format!("the first packet {m}: {c:?}")) };
    if want.id.is_none() { want.id = got.id.clone() }
    if !keep_set { want.keep = got.keep }
    if !expiry_set { want.expiry = got.expiry }
    if got != want { return bad(format!("CONNECT says {got:?}, not {want:?}")) }
    Ok(())
}

/// what the server sends and where it is to arrive
#[derive(Clone, Debug, PartialEq)]
enum Item { Pub(u8, Vec<u8>), Ack(u8, u16), Pong }
fn kind(x: &Item) -> PacketType { match x { Item::Pub(..) => PacketType::Publish, Item::Ack(9, _) => PacketType::SubAck, Item::Ack(11, _) => PacketType::UnsubAck, Item::Ack(..) => PacketType::PubAck, Item::Pong => PacketType::PingResp } }
fn item(p: &Packet) -> Option<Item> { Some(match p {
    Packet::Publish(m) => Item::Pub(m.qos() as u8, m.payload.as_ref().map(|b| b.to_vec()).unwrap_or_default()),
    Packet::SubAck(a) => Item::Ack(9, a.packet_id()), Packet::UnsubAck(a) => Item::Ack(11, a.packet_id), Packet::PubAck(a) => Item::Ack(4, a.packet_id),
    Packet::PingResponse(_) => Item::Pong, _ => return None,
}) }
pub async fn channels(mut r: Rng) -> R<()> {
    let (lst, addr) = listen(&mut r).await?;
    let pong = r.chance(60);
    let auto_ack = r.chance(70);
    let mut b = ClientBuilder::new(MqttConnection::new().with_host(&addr.ip().to_string()).with_port(addr.port())).with_client_id("ch").with_pingresp(pong).with_auto_ack(auto_ack).with_channel_size(1 + r.below(4) as u16);
    let mut inns: Vec<(Option<PacketType>, Receiver<Packet>)> = vec![];
    let mut log = vec![];
    for k in [PacketType::Publish, PacketType::SubAck, PacketType::UnsubAck, PacketType::PubAck, PacketType::PingResp] {
        if r.chance(40) { let n = 1 + r.below(3); let (s, v) = channel(n); b = b.with_filtered_consumer(k, s); inns.push((Some(k), v)); log.push(format!("{k:?} has its own channel of {n}")) }
    }
    let mut client = b.build().await.map_err(infra("building"))?;
    inns.push((None, client.take_packet_consumer().ok_or(Stop::Infra("consumer".into()))?));
    let prod = client.packet_producer();
    let (join, srv) = tokio::join!(client.start(true), timeout(PATIENCE, lst.accept()));
    let join = join.map_err(infra("starting"))?;
    let mut srv = srv.map_err(infra("accepting"))?.map_err(infra("accepting"))?.0;
    srv.set_nodelay(true).ok();
    timeout(PATIENCE, take(&mut srv)).await.map_err(infra("CONNECT"))?;
    srv.write_all(&connack(&Announce::default())).await.map_err(infra("CONNACK"))?;
    // messages of QoS 1 of the application that the server acknowledges later
    let mut due = vec![];
    for i in 0..r.below(4) { let mut p = Publish::default(); p.topic_name = "t".into(); p.set_qos(QoSLevel::AtLeastOnce); let _ = p.set_packet_id(Some(500 + i as u16)); if prod.send(Packet::Publish(p)).await.is_err() { return Err(Stop::Infra("sending".into())) } due.push(500 + i as u16) }
    for _ in &due { if timeout(PATIENCE, take(&mut srv)).await.map_err(infra("PUBLISH"))?.is_none() { return Err(Stop::Bad("C26", "a message of the application is not sent".into())) } }
    for round in 0..1 + r.below(4) {
        let mut want: Vec<Item> = vec![]; let mut bytes = vec![]; let mut acks = 0;
        for i in 0..1 + r.below(14) {
            let id = (round * 20 + i + 1) as u16;
            let x = match r.below(10) { 0..=3 => Item::Pub(r.below(2) as u8, format!("b{id}").into_bytes()), 4 | 5 => Item::Ack(9, id), 6 => Item::Ack(11, id), 7 | 8 => match due.pop() { Some(d) => Item::Ack(4, d), None => Item::Ack(9, id) }, _ => Item::Pong };
            match &x {
                Item::Pub(q, body) => { bytes.extend(publish(*q, false, id, "s", body)); if *q == 1 && auto_ack { acks += 1 } }
                Item::Ack(4, d) => bytes.extend(ack(4, *d)),
                Item::Ack(t, d) => bytes.extend(packet(*t, 0, &[(*d >> 8) as u8, *d as u8, 0, 0])),
                Item::Pong => bytes.extend(packet(13, 0, &[])),
            }
            if x != Item::Pong || pong { want.push(x) }
        }
        log.push(format!("server sends {want:?}"));
        let bad = |m: String| -> R<()> { Err(Stop::Bad("C26", format!("{m} [pong {pong}, auto_ack {auto_ack}; {}]", log.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join("; ")))) };
        if srv.write_all(&bytes).await.is_err() { return bad("the client closes".into()) }
        if r.chance(50) { tokio::time::sleep(Duration::from_millis(r.below(4) as u64)).await }
        // what the application submits meanwhile
        let mut subm: Vec<Raw> = vec![];
        for i in 0..r.below(7) {
            let id = (3000 + round * 20 + i) as u16;
            let raw = |t, f, b: Vec<u8>| Raw { t, f, b };
            let text = |s: &str| { let mut v = (s.len() as u16).to_be_bytes().to_vec(); v.extend_from_slice(s.as_bytes()); v };
            let ok = match r.below(6) {
                0 => { subm.push(raw(12, 0, vec![])); timeout(PATIENCE, client.ping()).await.map(|x| x.is_ok()) }
                1 | 2 => {
                    let fs: Vec<String> = (0..1 + r.below(3)).map(|k| format!("f/{}", (k * 7 + i) % 10)).collect(); let q = r.below(3) as u8;
                    let mut v = id.to_be_bytes().to_vec(); v.push(0); for f in &fs { v.extend(text(f)); v.push(q) }
                    subm.push(raw(8, 2, v));
                    let fs: Vec<&str> = fs.iter().map(|s| s.as_str()).collect();
                    timeout(PATIENCE, client.subscribe(id, &fs, [QoSLevel::AtMostOnce, QoSLevel::AtLeastOnce, QoSLevel::ExactlyOnce][q as usize])).await.map(|x| x.is_ok())
                }
                3 if auto_ack => timeout(PATIENCE, prod.send(Packet::PubAck(PubResp::new_puback_with_packet_id(id)))).await.map(|x| x.is_ok()),
                _ => { let mut p = Publish::default(); p.topic_name = "t".into(); let body = format!("a{id}").into_bytes(); p.payload = Some(body.clone().into()); let mut v = text("t"); v.push(0); v.extend(body); subm.push(raw(3, 0, v)); timeout(PATIENCE, prod.send(Packet::Publish(p))).await.map(|x| x.is_ok()) }
            };
            match ok { Ok(true) => {} Ok(false) => return bad("the client ends while the application submits".into()), Err(_) => return bad("what the application submits is not taken up".into()) }
        }
        let mut got: Vec<Vec<Item>> = inns.iter().map(|_| vec![]).collect();
        let t = std::time::Instant::now();
        while got.iter().map(|g| g.len()).sum::<usize>() < want.len() {
            let k = r.below(inns.len());
            match timeout(Duration::from_millis(2), inns[k].1.recv()).await { Ok(Some(p)) => match item(&p) { Some(x) => got[k].push(x), None => return bad(format!("the application is handed {p:?}")) }, Ok(None) => return bad("a channel to the application is closed".into()), Err(_) => {} }
            if join.is_finished() { return bad("the client ends".into()) }
            if t.elapsed() > PATIENCE { return bad(format!("the application is handed only {got:?}")) }
        }
        for (k, (of, _)) in inns.iter().enumerate() {
            let mine: Vec<&Item> = want.iter().filter(|x| match of { Some(t) => kind(x) == *t, None => !inns.iter().any(|(o, _)| *o == Some(kind(x))) }).collect();
            if got[k].iter().collect::<Vec<_>>() != mine { return bad(format!("the consumer of {} is handed {:?}, not {mine:?}", of.map(|t| format!("{t:?}")).unwrap_or("the rest".into()), got[k])) }
        }
        let (mut sent, mut ack_seen) = (vec![], 0);
        while sent.len() < subm.len() || ack_seen < acks {
            match timeout(PATIENCE, take(&mut srv)).await { Err(_) => return bad(format!("of {subm:?} only {sent:?} is sent, and {ack_seen} of {acks} acknowledgements")), Ok(None) => return bad("the client ends".into()), Ok(Some(x)) => if x.t == 4 { ack_seen += 1 } else { sent.push(x) } }
        }
        if sent != subm { return bad(format!("the application submits {subm:?}, the client sends {sent:?}")) }
    }
    // nothing more, and the end of it
    if client.stop().await.is_err() { return Err(Stop::Bad("C26", "the client is gone before it is stopped".into())) }
    match timeout(PATIENCE, take(&mut srv)).await { Ok(Some(x)) if x.t == 14 && x.b.iter().all(|c| *c == 0) => {} o => return Err(Stop::Bad("C26", format!("after stop the client sends {o:?} [{}]", log.join("; ")))) }
    for (_, i) in inns.iter_mut() { if let Ok(p) = i.try_recv() { return Err(Stop::Bad("C26", format!("the application is handed {p:?} once more [{}]", log.join("; ")))) } }
    Ok(())
}
