//! Bounded search for byte sequences and segmentations on which the packet stream of the
//! current tree breaks C24.
#[path = "../../codec/src/gen.rs"] #[allow(dead_code)] mod gen;
#[path = "../../codec/src/refc.rs"] #[allow(dead_code)] mod refc;
#[path = "../../codec/src/table.rs"] mod table;
#[path = "../../common/run.rs"] mod run;
use bytes::BytesMut;
use run::*;
use std::future::Future;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use vaux_async::stream::{AsyncMqttStream, MqttStream, PacketStream};
use vaux_mqtt::codec::{decode, Encode, ErrorKind, Packet};

/// what reading the bytes s must give: packets with their bytes, then the end or an error
#[derive(Debug)]
enum Want { Packet(Packet, Vec<u8>), End, Fail }
fn wanted(s: &[u8], max: usize) -> Vec<Want> {
    let mut at = 0;
    let mut out = vec![];
    loop {
        if at == s.len() { out.push(Want::End); return out }
        match decode(&mut BytesMut::from(&s[at..])) {
            Ok(Some((p, n))) if n > 0 && n <= max && at + n <= s.len() => { out.push(Want::Packet(p, s[at..at + n].to_vec())); at += n }
            _ => { out.push(Want::Fail); return out }
        }
    }
}
struct Case { bytes: Vec<u8>, cuts: Vec<usize>, init: Option<usize>, max: Option<usize>, raw: usize, drops: usize }
const PTS: [u8; 14] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
fn make(seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let mut g = gen::Rng(seed ^ 0x5555);
    let mut bytes = vec![];
    let mut ends = vec![];
    for _ in 0..1 + r.below(6) {
        if r.chance(30) {
            // a PUBLISH of a chosen size, many near the sizes of the buffer
            let n = match r.below(6) { 0 => r.below(140), 1 => 4090 + r.below(12), 2 => 8186 + r.below(12), 3 => r.below(20000), 4 => 120 + r.below(20), _ => r.below(600) };
            let mut body = vec![0, 1, b'a', 0];
            body.extend((0..n).map(|i| (i * 7 + seed as usize) as u8));
            bytes.extend(refc::frame(3, 0, &body));
        } else {
            let pt = *r.pick(&PTS);
            let (i, form) = (r.below(500), if r.chance(80) { 0 } else { r.below(3) as u8 });
            let q = gen::nth(pt, i, &mut g);
            bytes.extend(refc::enc(&q, form));
        }
        ends.push(bytes.len());
    }
    match r.below(10) {
        0 | 1 => { let n = r.below(bytes.len()); bytes.truncate(n) }
        2 => { let i = r.below(bytes.len()); bytes[i] ^= 1 << r.below(8) }
        3 => { for _ in 0..1 + r.below(6) { bytes.push(r.next() as u8) } }
        4 => { bytes.push(*r.pick(&[0x10, 0x20, 0x30, 0x32, 0x41, 0x60, 0x62, 0x82, 0xc0, 0xd0, 0xe0])); for _ in 0..r.below(6) { bytes.push(0xff) } }
        _ => {}
    }
    let n = bytes.len();
    let mut cuts: Vec<usize> = match r.below(6) {
        0 => vec![],
        1 if n <= 400 => (1..n).collect(),
        1 | 2 => ends.iter().flat_map(|e| [e.saturating_sub(1), e + 1]).collect(),
        3 => ends.clone(),
        _ => (0..1 + r.below(12)).map(|_| r.below(n.max(1))).collect(),
    };
    cuts.retain(|c| *c > 0 && *c < n);
    cuts.sort();
    cuts.dedup();
    let biggest = ends.iter().scan(0, |p, e| { let d = e - *p; *p = *e; Some(d) }).max().unwrap_or(1);
    let init = match r.below(6) { 0 => Some(1 + r.below(8)), 1 => Some(1 + r.below(200)), 2 => Some(0), 3 => Some(4096), _ => None };
    let max = match r.below(6) { 0 => Some(biggest), 1 => Some(biggest - 1), 2 => Some(biggest + 1), 3 => Some(1 + r.below(2 * biggest)), 4 => Some(65536), _ => None };
    Case { bytes, cuts, init, max, raw: r.below(3), drops: if r.chance(30) { 1 + r.below(3) } else { 0 } }
}
#[allow(deprecated)]
async fn pair(small: bool) -> (TcpStream, TcpStream) {
    let l = if small {
        let s = tokio::net::TcpSocket::new_v4().unwrap();
        let _ = s.set_send_buffer_size(4096);
        let _ = s.set_recv_buffer_size(4096);
        s.bind("127.0.0.1:0".parse().unwrap()).unwrap();
        s.listen(4).unwrap()
    } else { TcpListener::bind("127.0.0.1:0").await.unwrap() };
    let a = l.local_addr().unwrap();
    let (c, s) = tokio::join!(TcpStream::connect(a), l.accept());
    let (c, s) = (c.unwrap(), s.unwrap().0);
    let _ = c.set_nodelay(true);
    // closing resets the connection, so that no port stays occupied
    for x in [&c, &s] { let _ = x.set_linger(Some(std::time::Duration::ZERO)); }
    (c, s)
}
fn stream(s: TcpStream, c: &Case) -> PacketStream { PacketStream::new(AsyncMqttStream(MqttStream::TcpStream(s)), c.init, c.max) }
fn brief(b: &[u8]) -> String { let h: String = b.iter().take(60).map(|x| format!("{x:02x}")).collect(); if b.len() > 60 { format!("{h}.. ({} bytes)", b.len()) } else { h } }

async fn reading(c: Case) -> Finds {
    let max = match c.max { Some(0) => 1, Some(m) => m, None => 4 << 20 };
    let want = wanted(&c.bytes, max);
    let (mut peer, mine) = pair(false).await;
    let mut ps = stream(mine, &c);
    let mut chunks: Vec<Vec<u8>> = vec![];
    let mut at = 0;
    for x in c.cuts.iter().copied().chain([c.bytes.len()]) { chunks.push(c.bytes[at..x].to_vec()); at = x }
    let (tick_out, mut tick) = tokio::sync::mpsc::unbounded_channel::<()>();
    let writer = tokio::spawn(async move {
        for ch in chunks { if peer.write_all(&ch).await.is_err() { break } for _ in 0..4 { tokio::task::yield_now().await } let _ = tick_out.send(()); }
        let _ = peer.shutdown().await;
        // the other direction stays open until the reader is done
        let mut b = [0u8; 64];
        let _ = peer.read(&mut b).await;
    });
    let setup = || format!("reading {} with initial buffer {:?}, maximum {:?}, cuts {:?}", brief(&c.bytes), c.init, c.max, &c.cuts[..c.cuts.len().min(20)]);
    let mut f: Finds = vec![];
    for (i, w) in want.iter().enumerate() {
        let raw = match c.raw { 0 => false, 1 => true, _ => i % 2 == 0 };
        let mut drops = c.drops;
        let got = loop {
            let fut: std::pin::Pin<Box<dyn Future<Output = Result<Option<(Packet, Option<Vec<u8>>)>, String>> + '_>> = if raw { Box::pin(async { ps.read_raw().await.map(|o| o.map(|(p, b)| (p, Some(b.to_vec())))).map_err(|e| format!("{e:?}")) }) }
                else { Box::pin(async { ps.read().await.map(|o| o.map(|p| (p, None))).map_err(|e| format!("{e:?}")) }) };
            if drops > 0 {
                // give the read up after the next chunk has been received
                drops -= 1;
                tokio::select! { biased; r = fut => break Some(r), x = tick.recv() => { if x.is_none() { drops = 0 } } }
            } else {
                break tokio::time::timeout(std::time::Duration::from_secs(20), fut).await.ok();
            }
        };
        let err = match (w, got) {
            (_, None) => Some("does not come to an end".to_string()),
            (Want::Packet(p, b), Some(Ok(Some((q, raw_b))))) => {
                if *p != q { Some(format!("gives {q:?} for packet {i} instead of {p:?}")) }
                else if raw && raw_b.as_ref() != Some(b) { Some(format!("gives the raw bytes {} for packet {i} instead of {}", brief(&raw_b.unwrap_or_default()), brief(b))) } else { None }
            }
            (Want::End, Some(Ok(None))) | (Want::Fail, Some(Err(_))) => None,
            (w, Some(g)) => Some(format!("gives {:?} as result {i} instead of {w:?}", g.map(|o| o.map(|x| x.0)))),
        };
        if let Some(e) = err { f.push(("C24", format!("{} {e}", setup()).chars().take(1500).collect())); break }
    }
    drop(ps);
    let _ = tokio::time::timeout(std::time::Duration::from_secs(5), writer).await;
    f
}
async fn writing(seed: u64, big: bool) -> Finds {
    let mut r = Rng::new(seed);
    let mut c = make(seed);
    if big {
        let mut body = vec![0, 1, b'a', 0];
        body.extend((0..200_000 + r.below(200_000)).map(|i| (i * 7 + i / 256) as u8));
        let mut v = refc::frame(3, 0, &body);
        v.extend(&c.bytes);
        c.bytes = v;
    }
    let (mut peer, mine) = pair(big).await;
    let mut ps = stream(mine, &c);
    let reader = tokio::spawn(async move { let mut v = vec![]; let _ = peer.read_to_end(&mut v).await; v });
    let mut want = vec![];
    let mut f: Finds = vec![];
    for (k, b) in wanted(&c.bytes, usize::MAX).into_iter().filter_map(|w| if let Want::Packet(p, _) = w { Some(p) } else { None }).enumerate() {
        let mut p = b;
        let mut dest = BytesMut::new();
        let enc = p.clone().encode(&mut dest);
        let res = ps.write(&mut p).await;
        match (&enc, &res) {
            (Ok(_), Ok(())) => want.extend_from_slice(&dest),
            (Err(_), Err(_)) => {}
            _ => f.push(("C24", format!("writing packet {k} gives {:?} although encoding it gives {:?}", res.is_ok(), enc.is_ok()))),
        }
        if r.chance(20) { tokio::task::yield_now().await }
    }
    let _ = ps.shutdown().await;
    let got = tokio::time::timeout(std::time::Duration::from_secs(20), reader).await;
    match got {
        Ok(Ok(g)) => if g != want { f.push(("C24", format!("writing puts {} on the stream instead of {}", brief(&g), brief(&want)))) },
        _ => f.push(("C24", "the written stream does not end".into())),
    }
    f
}
fn one(kind: &str, input: &str) -> Finds {
    let seed: u64 = input.parse().unwrap();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let _ = ErrorKind::MalformedPacket;
    rt.block_on(async { if kind == "write" { writing(seed, false).await } else if kind == "bigwrite" { writing(seed, true).await } else { reading(make(seed)).await } })
}
fn worker(run: &Run, t: usize) {
    let base = run.seed.wrapping_mul(1_000_003);
    let k = if run.thorough { 40 } else { 1 };
    for j in 0..4 * k { if run.over() || run.case(t, "bigwrite", &base.wrapping_add(j * run.nt as u64 + t as u64).to_string()) { return } }
    let mut i = t as u64;
    while i < 40_000 * k && !run.over() {
        if run.case(t, if i % 10 == 9 { "write" } else { "read" }, &base.wrapping_add(i).to_string()) { return }
        i += run.nt as u64;
    }
}
fn main() { run::main(one, worker, 40, 400, 8, 60) }
