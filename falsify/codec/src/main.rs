//! Bounded search for inputs on which the codec of the current tree breaks a property.
mod gen; mod real; mod refc; mod table;
use bytes::BytesMut;
use gen::*;
use refc::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use vaux_mqtt::codec::{decode, Encode, ErrorKind, MqttCodecError, Packet};
use vaux_mqtt::*;

pub type Finds = Vec<(&'static str, String)>;
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn rt_prop(pt: u8) -> &'static str { match pt { 3 => "C05", 1 => "C06", 4..=7 => "C07", 8..=11 => "C08", _ => "C09" } }
fn short(e: &MqttCodecError) -> bool { matches!(e.kind, ErrorKind::InsufficientData(..)) }
fn brief(b: &[u8]) -> String { if b.len() > 80 { format!("{}.. ({} bytes)", hex(&b[..80]), b.len()) } else { hex(b) } }

enum D { Ok(Packet, usize), NoPacket, Err(MqttCodecError), Panic }
fn dec(b: &[u8]) -> D {
    let mut m = BytesMut::from(b);
    match catch_unwind(AssertUnwindSafe(|| decode(&mut m))) { Err(_) => D::Panic, Ok(Ok(Some((p, n)))) => D::Ok(p, n), Ok(Ok(None)) => D::NoPacket, Ok(Err(e)) => D::Err(e) }
}
/// compares the outcome of decoding b with the reference
fn judge(b: &[u8]) -> Finds {
    let mut f: Finds = vec![];
    let d = dec(b);
    let r = refc::decode(b);
    match (&d, &r) {
        (D::Panic, _) => f.push(("C02", format!("decoding {} panics", brief(b)))),
        (D::NoPacket, _) => f.push(("C02", format!("decoding {} yields neither a packet nor an error", brief(b)))),
        (D::Ok(_, n), _) if *n > b.len() => f.push(("C03", format!("decoding {} reports {n} bytes taken of {}", brief(b), b.len()))),
        (D::Ok(p, _), Out::Incomplete | Out::IncompleteBad) => f.push(("C03", format!("decoding {}, a proper prefix of a packet, yields {p:?}", brief(b)))),
        (D::Err(e), Out::Incomplete) if !short(e) => f.push(("C03", format!("decoding {}, a proper prefix of a packet, gives the error {:?} instead of insufficient data", brief(b), e.reason))),
        (D::Err(e), Out::Good(p, _)) => {
            if short(e) { f.push(("C03", format!("decoding the complete packet {} reports insufficient data", brief(b)))) }
            f.push((rt_prop(p.pt), format!("decoding the well-formed packet {} is refused: {:?}", brief(b), e.reason)));
        }
        (D::Ok(p, n), Out::Good(q, m)) => {
            if n != m { f.push(("C03", format!("decoding {} takes {n} bytes, the packet has {m}", brief(b)))) }
            if let Err(e) = real::observe(p, q) { f.push((rt_prop(q.pt), format!("decoding {}: {e}", brief(b)))) }
        }
        (D::Ok(p, _), Out::Bad(m)) => f.push(("C10", format!("decoding the malformed packet {} ({m}) yields {p:?}", brief(b)))),
        (D::Err(e), Out::Bad(_)) if short(e) => f.push(("C03", format!("decoding {}, whose announced bytes are all there, reports insufficient data", brief(b)))),
        _ => {}
    }
    f
}
/// bytes behind a packet do not matter
fn judge_tail(b: &[u8], tail: &[u8]) -> Finds {
    let mut f: Finds = vec![];
    if matches!(refc::decode(b), Out::Incomplete | Out::IncompleteBad) { return f }
    let mut c = b.to_vec(); c.extend(tail);
    let same = match (dec(b), dec(&c)) {
        (D::Ok(Packet::Connect(_), n), D::Ok(Packet::Connect(_), m)) => n == m,
        (D::Ok(p, n), D::Ok(q, m)) => n == m && p == q,
        (D::Err(x), D::Err(y)) => short(&x) == short(&y),
        (D::Panic, D::Panic) | (D::NoPacket, D::NoPacket) => true,
        _ => false,
    };
    if !same { f.push(("C03", format!("the outcome of decoding {} changes when {} follows it", brief(b), brief(tail)))) }
    f.extend(judge(&c));
    f
}
fn equal(a: &Packet, b: &Packet) -> bool {
    match (a, b) {
        (Packet::PubAck(x), Packet::PubAck(y)) | (Packet::PubRec(x), Packet::PubRec(y)) | (Packet::PubRel(x), Packet::PubRel(y)) | (Packet::PubComp(x), Packet::PubComp(y)) =>
            x == y || (x.reason().unwrap_or_default() == y.reason().unwrap_or_default() && format!("{x:?}").replace("Some(Success)", "None") == format!("{y:?}").replace("Some(Success)", "None")),
        (Packet::Publish(x), Packet::Publish(y)) => x == y || { let (mut x, mut y) = (x.clone(), y.clone()); x.payload.get_or_insert_default(); y.payload.get_or_insert_default(); x == y },
        _ => a == b,
    }
}
/// encodes p, which stands for q, behind `prior`; checks frame, size, content and the way back
fn encodes(p: &Packet, q: &Rp, prior: &[u8], how: &str) -> Finds {
    let mut f: Finds = vec![];
    let rt = rt_prop(q.pt);
    let mut m = BytesMut::from(prior);
    match catch_unwind(AssertUnwindSafe(|| p.encode(&mut m))) {
        Err(_) => { f.push(("C04", format!("encoding {how} panics: {p:?}"))); return f }
        Ok(Err(e)) => { f.push((rt, format!("encoding {how} is refused ({}): {p:?}", e.reason))); return f }
        Ok(Ok(())) => {}
    }
    if m.len() < prior.len() || &m[..prior.len()] != prior { f.push(("C04", format!("encoding {how} changes what was in the buffer before"))); return f }
    let e = &m[prior.len()..];
    if e.is_empty() || e[0] != (q.pt << 4 | q.flags) { f.push(("C04", format!("the header byte of {how} is {:02x?}, expected {:02x}: {}", e.first(), q.pt << 4 | q.flags, brief(e)))); }
    let sz = catch_unwind(AssertUnwindSafe(|| real::size(p))).unwrap_or(u32::MAX);
    let (mut rl, mut i, mut sh) = (0u64, 1, 0);
    while i < e.len() && i < 5 { rl |= (e[i] as u64 & 127) << sh; sh += 7; i += 1; if e[i - 1] < 128 { break } }
    if rl != (e.len() - i) as u64 { f.push(("C04", format!("{how} announces {rl} bytes and has {}: {}", e.len() - i, brief(e)))) }
    if sz as u64 != (e.len() - i) as u64 { f.push(("C04", format!("{how} reports the size {sz}, its encoding has {} bytes: {}", e.len() - i, brief(e)))) }
    match refc::decode(e) {
        Out::Good(x, n) => { if n != e.len() { f.push(("C04", format!("{how} ends after {n} of {} bytes: {}", e.len(), brief(e)))) } if !same(&x, q) { f.push((rt, format!("{how} is encoded as {}, which reads as {x:?} instead of {q:?}", brief(e)))) } }
        Out::Bad(m) if m.contains("run past") || m.contains("cut short") || m.contains("left over") || m.contains("unknown property") => { f.push(("C04", format!("{how} is encoded as {}: {m}", brief(e)))); f.push((rt, format!("{how} is encoded as the malformed {}: {m}", brief(e)))); f.push(("C10", format!("{how} is encoded as the malformed {}: {m}", brief(e)))) }
        o => f.push((rt, format!("{how} is encoded as {}: {o:?}", brief(e)))),
    }
    let full = q.pt >= 4 && q.pt <= 7 || q.pt == 14;
    if full {
        let want = if q.hdr.last() == Some(&V::U8(0)) && q.props.is_empty() { body(q, 0).len() } else { body(q, 2).len() };
        let plain = q.hdr.last() == Some(&V::U8(0)) && q.props.is_empty();
        if plain != (e.len() - i == if q.pt == 14 { 0 } else { 2 }) { f.push((rt, format!("{how}: the short form must be used exactly for success without properties, got {} (full length {want})", brief(e)))) }
    }
    match dec(e) {
        D::Ok(x, n) => { if n != e.len() { f.push((rt, format!("{how}: decoding its encoding {} takes {n} bytes", brief(e)))) } if !equal(&x, p) { f.push((rt, format!("{how} {p:?} is encoded as {} and decoded as {x:?}", brief(e)))) } }
        D::Err(x) => f.push((rt, format!("{how}: decoding its own encoding {} fails: {:?}", brief(e), x.reason))),
        _ => f.push(("C02", format!("{how}: decoding its own encoding {} panics", brief(e)))),
    }
    f
}
/// everything about one abstract packet
fn round(q: &Rp, form: u8, prior: &[u8]) -> Finds {
    let b = refc::enc(q, form);
    let mut f = judge(&b);
    match refc::decode(&b) { Out::Good(x, n) if n == b.len() && same(&x, q) => {}, o => panic!("reference disagrees with itself on {q:?}: {o:?}") }
    if let D::Ok(p, _) = dec(&b) { f.extend(encodes(&p, q, prior, "the packet decoded from its reference encoding")) }
    match catch_unwind(AssertUnwindSafe(|| real::build(q))) {
        Ok(Some(Ok(p))) => { if let Err(e) = real::observe(&p, q) { f.push((if q.pt == 1 || q.pt == 3 { "C12" } else { rt_prop(q.pt) }, format!("a packet built through the constructors: {e}"))) } f.extend(encodes(&p, q, prior, "the packet built through the constructors")) }
        Ok(Some(Err(e))) => { f.push((rt_prop(q.pt), format!("cannot build {q:?}: {e}"))); if q.pt == 3 { f.push(("C12", format!("cannot build {q:?}: {e}"))) } }
        Ok(None) => {}
        Err(_) => f.push((rt_prop(q.pt), format!("building {q:?} panics"))),
    }
    f
}
/// malformed and truncated variants of a valid encoding
fn mutate(b: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut m = b.to_vec();
    let hl = { let mut i = 1; while i < m.len() && m[i] >= 128 { i += 1 } i + 1 };
    let fix = |m: &Vec<u8>| -> Vec<u8> { if m.len() < hl { return m.clone() } let body = &m[hl..]; frame(m[0] >> 4, m[0] & 15, body) };
    for _ in 0..1 + r.below(2) {
        let n = m.len();
        match r.below(13) {
            0 => { m.truncate(r.below(n + 1)); }
            1 => { m[0] = m[0] & 0xf0 | r.below(16) as u8 }
            2 => { m[0] = r.next() as u8 }
            3 | 4 => { let i = r.below(n); m[i] = *r.pick(&[0, 1, 2, 3, 4, 5, 0x0b, 0x16, 0x1f, 0x26, 0x7f, 0x80, 0xc0, 0xff, 0x28, 0x2a]) }
            5 => { let i = r.below(n); m[i] = m[i].wrapping_add(1) }
            6 => { let i = r.below(n); m[i] = m[i].wrapping_sub(1) }
            7 => { if n > hl { let i = hl + r.below(n - hl); m.remove(i); m = fix(&m) } }
            8 => { if n >= hl { let i = hl + r.below(n - hl + 1); m.insert(i, r.next() as u8); m = fix(&m) } }
            9 => { if n > hl { m.truncate(hl + r.below(n - hl)); m = fix(&m) } }
            10 => { if n > 1 { m[1] = m[1].wrapping_add(*r.pick(&[1, 255, 2, 127])) } }
            11 => { let i = r.below(n); m[i] = r.next() as u8 }
            _ => { for _ in 0..1 + r.below(4) { m.push(r.next() as u8) } if r.chance(60) { m = fix(&m) } }
        }
        if m.is_empty() { break }
    }
    m
}

// ------------------------------------------------------------------ single-property parts
fn c01_value(v: u32) -> Finds {
    use vaux_mqtt::codec::*;
    let mut f: Finds = vec![];
    let mut m = BytesMut::from(&[9u8][..]);
    let r = encode_variable_byte_int(v, &mut m);
    if v > 268_435_455 {
        if r.is_ok() || m.len() != 1 { f.push(("C01", format!("encoding {v} is not refused: {}", hex(&m)))) }
        return f;
    }
    let want = vbi(v);
    if r.is_err() || &m[1..] != &want[..] { f.push(("C01", format!("{v} is encoded as {} instead of {}", hex(&m[1..]), hex(&want)))) }
    if variable_byte_int_size(v) as usize != want.len() || variable_byte_int_size_ref(&v) as usize != want.len() { f.push(("C01", format!("the size reported for {v} is {}, its form has {} bytes", variable_byte_int_size(v), want.len()))) }
    let mut w = BytesMut::from(&want[..]); w.extend_from_slice(&[0x80, 0x01, 0xff]);
    match decode_variable_byte_int(&mut w) { Ok((x, n)) if x == v && n == want.len() && &w[..] == &[0x80, 0x01, 0xff] => {}, r => f.push(("C01", format!("decoding {} (the form of {v}) gives {r:?} and leaves {}", hex(&want), hex(&w)))) }
    f
}
fn c01_bytes(b: &[u8]) -> Finds {
    let mut m = BytesMut::from(b);
    let r = catch_unwind(AssertUnwindSafe(|| vaux_mqtt::codec::decode_variable_byte_int(&mut m)));
    let cont = b.iter().take(4).take_while(|x| **x >= 128).count();
    match r {
        Err(_) => vec![("C01", format!("decoding {} panics", hex(b)))],
        Ok(Ok((v, n))) => {
            if cont == 4 || cont >= b.len() { return vec![("C01", format!("decoding {} yields {v}", hex(b)))] }
            let mut x = 0u32; for i in 0..=cont { x |= (b[i] as u32 & 127) << (7 * i) }
            if x != v || n != cont + 1 || m.len() + n != b.len() { return vec![("C01", format!("decoding {} yields {v} from {n} bytes, expected {x} from {}", hex(b), cont + 1))] }
            vec![]
        }
        Ok(Err(e)) => {
            if cont == 4 { if short(&e) { return vec![("C01", format!("decoding {} reports insufficient data", hex(b)))] } return vec![] }
            if cont >= b.len() { if !short(&e) { return vec![("C01", format!("decoding {}, which ends early, gives {:?} instead of insufficient data", hex(b), e.reason))] } return vec![] }
            if cont > 0 && b[cont] == 0 { return vec![] } // over-long form
            vec![("C01", format!("decoding {} is refused: {:?}", hex(b), e.reason))]
        }
    }
}
fn c11() -> Finds {
    use table::*;
    let mut f: Finds = vec![];
    macro_rules! tf { ($T:ty, $tab:expr, $what:expr) => { for b in 0..=255u8 {
        let want = $tab.iter().find(|x| x.1 == b);
        match (<$T>::try_from(b), want) {
            (Ok(v), Some((n, _))) => { if format!("{v:?}") != *n { f.push(("C11", format!("{} byte {b:#04x} reads as {v:?}, expected {n}", $what))) } if v as u8 != b { f.push(("C11", format!("{} {v:?} has the code {:#04x}, expected {b:#04x}", $what, v as u8))) } }
            (Err(_), None) => {}
            (Ok(v), None) => f.push(("C11", format!("{} byte {b:#04x}, which is not assigned, reads as {v:?}", $what))),
            (Err(_), Some((n, _))) => f.push(("C11", format!("{} byte {b:#04x} ({n}) is refused", $what))),
        } } } }
    tf!(Reason, REASONS, "reason"); tf!(QoSLevel, QOS, "QoS"); tf!(PayloadFormat, PAYLOAD_FORMAT, "payload format"); tf!(PropertyType, PROPERTIES, "property"); tf!(vaux_mqtt::subscribe::RetainHandling, RETAIN, "retain handling");
    let mut r = Rng(5);
    // written and read in packets
    for (n, c) in PACKET_TYPES {
        let pt = c >> 4;
        if pt == 15 { continue }
        let q = nth(pt, 3, &mut r);
        match real::build(&q) {
            Some(Ok(p)) => { let mut m = BytesMut::new(); if p.encode(&mut m).is_err() || m.first().map(|b| b >> 4) != Some(pt) { f.push(("C11", format!("a packet of type {n} is written with the header {:02x?}", m.first()))) } }
            _ => {}
        }
        match dec(&refc::enc(&q, 2)) { D::Ok(p, _) if PacketType::from(&p) as u8 == *c || format!("{:?}", PacketType::from(&p)) == *n => {}, D::Ok(p, _) => f.push(("C11", format!("a packet of type {n} reads as {:?}", PacketType::from(&p)))), _ => f.push(("C11", format!("a packet of type {n} is refused: {}", hex(&refc::enc(&q, 2))))) }
    }
    match dec(&[0x00, 0x00]) { D::Ok(p, _) => f.push(("C11", format!("the unassigned packet type 0 reads as {p:?}"))), _ => {} }
    for c in 0..=255u8 {
        let k = refc::reason_known(c);
        for (what, b) in [("CONNACK", vec![0x20, 3, 0, c, 0]), ("SUBACK", vec![0x90, 4, 0, 1, 0, c]), ("UNSUBACK", vec![0xb0, 4, 0, 1, 0, c]), ("DISCONNECT", vec![0xe0, 1, c]), ("PUBACK", vec![0x40, 4, 0, 1, c, 0])] {
            match dec(&b) {
                D::Ok(p, _) => {
                    if !k { f.push(("C11", format!("{what} with the unassigned reason {c:#04x} is accepted"))); continue }
                    let got = match &p { Packet::ConnAck(x) => x.reason as u8, Packet::SubAck(x) => x.reason_codes[0] as u8, Packet::UnsubAck(x) => x.reason_code[0] as u8, Packet::Disconnect(x) => x.reason as u8, Packet::PubAck(x) => x.reason().unwrap_or_default() as u8, _ => 255 };
                    if got != c { f.push(("C11", format!("{what} with reason {c:#04x} reads as {got:#04x}"))) }
                    let mut m = BytesMut::new();
                    if p.encode(&mut m).is_ok() && c != 0 && !m.contains(&c) { f.push(("C11", format!("{what} with reason {c:#04x} is written as {}", hex(&m)))) }
                }
                _ => if k && !(what == "PUBACK" && !refc::reason_allowed(4, c)) { f.push(("C11", format!("{what} with reason {c:#04x} is refused"))) }
            }
        }
        match dec(&[0x20, 5, 0, 0, 2, 0x24, c]) { D::Ok(Packet::ConnAck(x), _) => { if x.maximum_qos.map(|q| q as u8) != Some(c) { f.push(("C11", format!("maximum QoS {c} reads as {:?}", x.maximum_qos))) } }, _ => if c < 3 { f.push(("C11", format!("maximum QoS {c} is refused"))) } }
        if c < 3 { let mut x = ConnAck::default(); x.maximum_qos = Some(real::qos(c)); let mut m = BytesMut::new(); let _ = x.encode(&mut m); if m.last() != Some(&c) { f.push(("C11", format!("maximum QoS {c} is written as {}", hex(&m)))) } }
    }
    // every property in every packet that has it, on its own
    for pt in ALL { for (i, (name, _, id)) in table(pt).iter().enumerate() {
        let q = packet(pt, props(table(pt), 1 << i, &mut r, 0), 0, &mut r, 2);
        for (_, m) in round(&q, 2, &[]) { f.push(("C11", format!("property {name} ({id:#04x}): {m}"))) }
    } }
    for (i, (name, _, id)) in P_WILLHEADER.iter().enumerate() {
        let q = packet(1, vec![], 1 << i, &mut r, 1);
        for (_, m) in round(&q, 2, &[]) { f.push(("C11", format!("will property {name} ({id:#04x}): {m}"))) }
    }
    f
}
fn c12_flags() -> Finds {
    use vaux_mqtt::subscribe::RetainHandling;
    let mut f: Finds = vec![];
    macro_rules! ck { ($c:expr, $($a:tt)*) => { if !$c { f.push(("C12", format!($($a)*))) } } }
    let st = |h: &FixedHeader| (h.packet_type() as u8, h.dup(), h.retain(), h.qos() as u8, h.flags() & 0xf0);
    for b in 0..=255u8 {
        let mut h = FixedHeader::new(PacketType::Publish);
        let r = h.set_flags(b);
        ck!(r.is_ok() == (b & 6 != 6), "set_flags({b:#04x}) returns {r:?}");
        if r.is_err() { ck!(h.flags() == 0, "the refused set_flags({b:#04x}) changes the flags to {:#04x}", h.flags()); continue }
        ck!(h.flags() == b, "set_flags({b:#04x}) leaves {:#04x}", h.flags());
        ck!(st(&h) == (PacketType::Publish as u8, b & 8 != 0, b & 1 != 0, (b >> 1) & 3, b & 0xf0), "flags {b:#04x} read as {:?}", st(&h));
        for v in [false, true] {
            let mut g = h.clone(); let mut w = st(&h); g.set_dup(v); w.1 = v; ck!(st(&g) == w, "set_dup({v}) on flags {b:#04x} gives {:?}, expected {w:?}", st(&g));
            let mut g = h.clone(); let mut w = st(&h); g.set_retain(v); w.2 = v; ck!(st(&g) == w, "set_retain({v}) on flags {b:#04x} gives {:?}, expected {w:?}", st(&g));
        }
        for q in 0..3u8 { let mut g = h.clone(); let mut w = st(&h); g.set_qos(real::qos(q)); w.3 = q; ck!(st(&g) == w, "set_qos({q}) on flags {b:#04x} gives {:?}, expected {w:?}", st(&g)); }
        let mut g = h.clone(); g.clear_flags(); ck!(g.flags() == 0 && g.packet_type() == PacketType::Publish, "clear_flags on {b:#04x} leaves {:#04x}", g.flags());
    }
    // CONNECT
    let cst = |c: &Connect| (c.clean_start(), c.will(), c.will_qos().ok().map(|q| q as u8), c.will_retain(), c.username(), c.password());
    for b in (0..=255u8).filter(|b| b & 1 == 0 && (b >> 3) & 3 != 3) {
        let mut body = b"\x00\x04MQTT\x05".to_vec(); body.extend([b, 0, 10, 0, 0, 1, b'c']);
        if b & 4 != 0 { body.extend([0, 0, 1, b't', 0, 1, b'p']) } if b & 128 != 0 { body.extend([0, 1, b'u']) } if b & 64 != 0 { body.extend([0, 1, b'w']) }
        let D::Ok(Packet::Connect(c), _) = dec(&frame(1, 0, &body)) else { if b & 4 != 0 || b & 0x38 == 0 { f.push(("C12", format!("CONNECT with flags {b:#04x} is refused"))) } continue };
        let s0 = (b & 2 != 0, b & 4 != 0, Some((b >> 3) & 3), b & 0x20 != 0, b & 0x80 != 0, b & 0x40 != 0);
        ck!(cst(&c) == s0, "CONNECT flags {b:#04x} read as {:?}", cst(&c));
        let fb = |c: &Connect| { let mut m = BytesMut::new(); let _ = c.encode(&mut m); let i = m.windows(5).position(|w| w == b"MQTT\x05"); i.and_then(|i| m.get(i + 5).copied()) };
        for v in [false, true] {
            let mut d = (*c).clone(); d.set_clean_start(v); let mut w = s0; w.0 = v; ck!(cst(&d) == w && fb(&d) == Some(b & !2 | (v as u8) << 1), "set_clean_start({v}) on CONNECT flags {b:#04x} gives {:?} {:02x?}", cst(&d), fb(&d));
            let mut d = (*c).clone(); d.set_username(if v { Some("x".into()) } else { None }); let mut w = s0; w.4 = v; ck!(cst(&d) == w && fb(&d) == Some(b & !0x80 | (v as u8) << 7), "set_username({v}) on CONNECT flags {b:#04x} gives {:?} {:02x?}", cst(&d), fb(&d));
            let mut d = (*c).clone(); d.set_password(if v { Some(vec![1]) } else { None }); let mut w = s0; w.5 = v; ck!(cst(&d) == w && fb(&d) == Some(b & !0x40 | (v as u8) << 6), "set_password({v}) on CONNECT flags {b:#04x} gives {:?} {:02x?}", cst(&d), fb(&d));
            for q in 0..3u8 { let mut d = (*c).clone(); let m = WillMessage::new("t".into(), b"x", real::qos(q), v); d.set_will_message(m.clone()); let w = (s0.0, true, Some(q), v, s0.4, s0.5);
                ck!(cst(&d) == w && d.will_message() == Some(m), "set_will_message(qos {q}, retain {v}) on CONNECT flags {b:#04x} gives {:?} {:?}", cst(&d), d.will_message()); }
        }
    }
    // subscription options
    let sst = |s: &SubscriptionFilter| (s.qos() as u8, s.no_local(), s.retain_as_published(), s.retain_handling() as u8);
    for b in 0..=255u8 {
        let D::Ok(Packet::Subscribe(x), _) = dec(&[0x82, 7, 0, 1, 0, 0, 1, b'a', b]) else { if b & 0xc0 == 0 && b & 3 != 3 && b & 0x30 != 0x30 { f.push(("C12", format!("subscription options {b:#04x} are refused"))) } continue };
        let Some(s) = x.filter.first() else { f.push(("C12", "no filter".into())); continue };
        let s0 = (if b & 3 == 3 { 0 } else { b & 3 }, b & 4 != 0, b & 8 != 0, if (b >> 4) & 3 == 3 { 0 } else { (b >> 4) & 3 });
        ck!(sst(s) == s0, "subscription options {b:#04x} read as {:?}", sst(s));
        for v in [false, true] {
            let mut t = s.clone(); t.set_no_local(v); let mut w = s0; w.1 = v; ck!(sst(&t) == w, "set_no_local({v}) on {b:#04x} gives {:?}", sst(&t));
            let mut t = s.clone(); t.set_retain_as_published(v); let mut w = s0; w.2 = v; ck!(sst(&t) == w, "set_retain_as_published({v}) on {b:#04x} gives {:?}", sst(&t));
        }
        for q in 0..3u8 {
            let mut t = s.clone(); t.set_qos(real::qos(q)); let mut w = s0; w.0 = q; ck!(sst(&t) == w, "set_qos({q}) on subscription options {b:#04x} gives {:?}", sst(&t));
            let t = s.clone().with_qos(real::qos(q)); ck!(sst(&t) == w, "with_qos({q}) on subscription options {b:#04x} gives {:?}", sst(&t));
            let mut t = s.clone(); t.set_retain_handling([RetainHandling::Send, RetainHandling::SendNew, RetainHandling::None][q as usize]); let mut w = s0; w.3 = q; ck!(sst(&t) == w, "set_retain_handling({q}) on {b:#04x} gives {:?}", sst(&t));
        }
    }
    for b in 0..=255u8 {
        let D::Ok(Packet::ConnAck(c), _) = dec(&[0x20, 3, b, 0, 0]) else { if b < 2 { f.push(("C12", format!("CONNACK flags {b:#04x} are refused"))) } continue };
        ck!(c.session_present() == (b & 1 == 1), "CONNACK flags {b:#04x}: session present {}", c.session_present());
        for v in [false, true] { let mut d = c.clone(); d.set_session_present(v); let mut m = BytesMut::new(); let _ = d.encode(&mut m); ck!(d.session_present() == v && m.get(2) == Some(&(b & !1 | v as u8)), "set_session_present({v}) on {b:#04x} gives {:02x?}", m.get(2)); }
    }
    f
}
#[derive(Clone, Copy, Debug)]
enum Op { Qos(u8), WQos(u8), Dup(bool), WDup(bool), Ret(bool), WRet(bool), Pid(Option<u16>), WPid(Option<u16>) }
const OPS: [Op; 17] = [Op::Qos(0), Op::Qos(1), Op::Qos(2), Op::WQos(0), Op::WQos(2), Op::Dup(false), Op::Dup(true), Op::WDup(true), Op::WDup(false), Op::Ret(true), Op::Ret(false), Op::WRet(true), Op::Pid(None), Op::Pid(Some(7)), Op::Pid(Some(9)), Op::WPid(Some(8)), Op::WPid(None)];
fn pst(p: &Publish) -> (u8, bool, bool, Option<u16>) { (p.qos() as u8, p.dup(), p.retain(), p.packet_id()) }
fn c12_history(start: usize, ops: &[Op]) -> Finds {
    let q = (start / 2) % 3;
    let mut p = match start {
        0..=5 => { let pid = if start % 2 == 0 { None } else { Some(5) }; let r = if q == 2 { Publish::new_with_message(pid, "t".into(), real::qos(q as u8), "m") } else { Publish::new_with_payload(pid, "t".into(), real::qos(q as u8), vec![1]) };
            let ok = (q == 0) == pid.is_none();
            match r { Ok(p) => { if !ok { return vec![("C12", format!("constructing with QoS {q} and packet id {pid:?} is not refused"))] } if pst(&p) != (q as u8, false, false, pid) { return vec![("C12", format!("constructed with QoS {q} and {pid:?}, reads as {:?}", pst(&p)))] } p }, Err(_) => return if ok { vec![("C12", format!("constructing with QoS {q} and packet id {pid:?} is refused"))] } else { vec![] } } }
        6 => Publish::default(),
        _ => { let fl = (start - 7) as u8; let mut h = FixedHeader::new(PacketType::Publish); if h.set_flags(fl).is_err() { return vec![] } match Publish::new_from_header(h) { Ok(p) => p, Err(_) => return if fl & 6 != 0 || fl & 8 == 0 { vec![("C12", format!("a PUBLISH cannot be built from a header with flags {fl:#x}"))] } else { vec![] } } }
    };
    for (i, op) in ops.iter().enumerate() {
        let s0 = pst(&p);
        let before = p.clone();
        let mut w = s0;
        let mut refuse = false;
        let r: Result<(), MqttCodecError> = match *op {
            Op::Qos(q) => { p.set_qos(real::qos(q)); w.0 = q; if q == 0 { w.1 = false; w.3 = None } Ok(()) }
            Op::WQos(q) => { p = p.with_qos(real::qos(q)); w.0 = q; if q == 0 { w.1 = false; w.3 = None } Ok(()) }
            Op::Dup(d) => { refuse = d && s0.0 == 0; w.1 = d; p.set_dup(d) }
            Op::WDup(d) => { refuse = d && s0.0 == 0; w.1 = d; p.clone().with_dup(d).map(|x| p = x) }
            Op::Ret(d) => { w.2 = d; p.set_retain(d); Ok(()) }
            Op::WRet(d) => { w.2 = d; p = p.with_retain(d); Ok(()) }
            Op::Pid(d) => { refuse = s0.0 == 0; w.3 = d; p.set_packet_id(d) }
            Op::WPid(d) => { refuse = s0.0 == 0; w.3 = d; p.clone().with_packet_id(d).map(|x| p = x) }
        };
        let open = matches!(op, Op::Pid(None) | Op::WPid(None)) && s0.0 == 0;
        if !open && r.is_err() != refuse { return vec![("C12", format!("{op:?} on a PUBLISH with (QoS, dup, retain, id) {s0:?} is {}", if refuse { "not refused" } else { "refused" }))] }
        if r.is_err() && p != before { return vec![("C12", format!("the refused {op:?} changes a PUBLISH {s0:?} to {:?}", pst(&p)))] }
        if r.is_ok() && pst(&p) != w { return vec![("C12", format!("{op:?} on a PUBLISH with (QoS, dup, retain, id) {s0:?} gives {:?}, expected {w:?}", pst(&p)))] }
        let s = pst(&p);
        if s.0 == 0 && (s.1 || s.3.is_some()) { return vec![("C12", format!("after {:?} from start {start} a PUBLISH has (QoS, dup, retain, id) {s:?}", &ops[..=i]))] }
    }
    vec![]
}
/// fields over 65,535 bytes and packets around the length boundaries
fn c04_limits(i: usize) -> Finds {
    let mut f: Finds = vec![];
    let big = |n: usize| "x".repeat(n);
    let refused = |p: Packet, what: &str, f: &mut Finds| { let mut m = BytesMut::new(); match catch_unwind(AssertUnwindSafe(|| p.encode(&mut m))) { Ok(Err(_)) => {}, Ok(Ok(())) => f.push(("C04", format!("{what} of more than 65535 bytes is not refused"))), Err(_) => f.push(("C04", format!("{what} of more than 65535 bytes panics"))) } };
    let n = [65536, 65537, 131072][i % 3];
    match i / 3 {
        0 => { let mut p = Publish::default(); p.topic_name = big(n); refused(Packet::Publish(p), "topic", &mut f) }
        1 => { let mut p = Publish::default(); p.response_topic = Some(big(n)); refused(Packet::Publish(p), "response topic", &mut f) }
        2 => { let mut p = Publish::default(); p.correlation_data = vec![1; n]; refused(Packet::Publish(p), "correlation data", &mut f) }
        3 => { let mut p = Publish::default(); p.user_properties.add("k".into(), big(n)); refused(Packet::Publish(p), "user property", &mut f) }
        4 => { let mut p = Publish::default(); p.user_properties.add(big(n), "v".into()); refused(Packet::Publish(p), "user property name", &mut f) }
        5 => { let mut c = Connect::new(); c.client_id = big(n); refused(Packet::Connect(Box::new(c)), "client id", &mut f) }
        6 => { let mut c = Connect::new(); c.set_username(Some(big(n))); refused(Packet::Connect(Box::new(c)), "user name", &mut f) }
        7 => { let mut c = Connect::new(); c.set_password(Some(vec![0; n])); refused(Packet::Connect(Box::new(c)), "password", &mut f) }
        8 => { let mut c = Connect::new(); c.set_will_message(WillMessage::new("t".into(), &vec![0; n], QoSLevel::AtMostOnce, false)); refused(Packet::Connect(Box::new(c)), "will payload", &mut f) }
        9 => { let mut c = Connect::new(); c.set_will_message(WillMessage::new(big(n), &[0], QoSLevel::AtMostOnce, false)); refused(Packet::Connect(Box::new(c)), "will topic", &mut f) }
        10 => { refused(Packet::Subscribe(Subscribe::new_with_filter(1, vec![SubscriptionFilter::new("a".into(), QoSLevel::AtMostOnce), SubscriptionFilter::new(big(n), QoSLevel::AtMostOnce)])), "filter", &mut f) }
        11 => { refused(Packet::Unsubscribe(vaux_mqtt::unsubscribe::Unsubscribe::new(1, vec![big(n)])), "topic filter", &mut f) }
        12 => { let mut c = ConnAck::default(); c.auth_data = vec![1; n]; refused(Packet::ConnAck(c), "authentication data", &mut f) }
        13 => { let mut d = Disconnect::new(Reason::Success); d.reason_string = Some(big(n)); refused(Packet::Disconnect(d), "reason string", &mut f) }
        _ => {
            let k = i - 42;
            let (a, b) = ([126usize, 127, 128, 16382, 16383, 16384, 2097151, 2097152][k % 8], k / 8);
            let q = match b {
                0 => Rp { pt: 3, flags: 0, hdr: vec![V::S(vec![])], props: vec![], pay: Pay::Rest(vec![7; a - 3]) }, // remaining length a
                1 => { let mut props = vec![]; let mut left = a; while left > 65535 + 5 { props.push((0x26, V::Pair(vec![], vec![b'x'; 60000]))); left -= 60005 } props.push((0x26, V::Pair(vec![], vec![b'x'; left - 5]))); Rp { pt: 3, flags: 0, hdr: vec![V::S(vec![])], props, pay: Pay::Rest(vec![7; 3]) } } // property length a
                2 => Rp { pt: 9, flags: 0, hdr: vec![V::U16(1)], props: vec![], pay: Pay::Reasons(vec![1; a - 3]) },
                _ => Rp { pt: 8, flags: 2, hdr: vec![V::U16(1)], props: vec![], pay: Pay::Filters((0..a / 10).map(|j| (format!("a{j}").into_bytes(), 1)).collect()) },
            };
            f = round(&q, 2, &[1, 2]);
        }
    }
    f
}

// ------------------------------------------------------------------ the search
struct Run { pid: String, dir: String, found: AtomicBool, cases: AtomicU64, cur: Vec<Mutex<(u64, String)>>, out: Mutex<Vec<String>> }
impl Run {
    fn hit(&self, kind: &str, input: String, fs: Finds) -> bool {
        self.cases.fetch_add(1, Relaxed);
        if fs.is_empty() { return false }
        if let Some((_, m)) = fs.into_iter().find(|x| x.0 == self.pid) {
            if self.found.swap(true, SeqCst) { return true }
            let path = format!("{}/{}.replay", self.dir, self.pid);
            let _ = std::fs::create_dir_all(&self.dir);
            let _ = std::fs::write(&path, format!("property {}\nkind {kind}\ninput {input}\nwhat {m}\n", self.pid));
            self.out.lock().unwrap().push(format!("FOUND {} {path} {}", self.pid, m.chars().take(600).collect::<String>()));
            return true;
        }
        false
    }
}
fn one(kind: &str, input: &str) -> Finds {
    match kind {
        "bytes" => judge(&unhex(input)),
        "tail" => { let (a, b) = input.split_once(':').unwrap(); judge_tail(&unhex(a), &unhex(b)) }
        "value" => { let (fo, h) = input.split_once(':').unwrap(); match refc::decode(&unhex(h)) { Out::Good(q, _) => round(&q, fo.parse().unwrap(), &[1, 2, 3]), _ => vec![] } }
        "vbi" => c01_value(input.parse().unwrap()), "vbibytes" => c01_bytes(&unhex(input)), "tables" => c11(), "flags" => c12_flags(), "limits" => c04_limits(input.parse().unwrap()),
        "history" => { let mut it = input.split(',').map(|x| x.parse::<usize>().unwrap()); let s = it.next().unwrap(); c12_history(s, &it.map(|i| OPS[i]).collect::<Vec<_>>()) }
        _ => vec![],
    }
}
fn main() {
    std::panic::set_hook(Box::new(|i| { if i.to_string().contains("reference disagrees") { eprintln!("{i}") } }));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        let t = std::fs::read_to_string(&a[2]).unwrap();
        let g = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k} "))).unwrap_or("").to_string();
        let fs = one(&g("kind"), &g("input"));
        for f in &fs { println!("{} {}", f.0, f.1) }
        std::process::exit(if fs.is_empty() { 0 } else { 1 });
    }
    let (pid, tier, seed, dir) = (a[1].clone(), a[2].clone(), a[3].parse::<u64>().unwrap_or(1), a[4].clone());
    let thorough = tier == "thorough";
    let secs = if thorough { 240 } else { 25 };
    let nt = 8usize;
    let run = Arc::new(Run { pid: pid.clone(), dir, found: AtomicBool::new(false), cases: AtomicU64::new(0), cur: (0..nt).map(|_| Mutex::new((0, String::new()))).collect(), out: Mutex::new(vec![]) });
    let t0 = std::time::Instant::now();
    let hs: Vec<_> = (0..nt).map(|t| { let run = run.clone(); std::thread::spawn(move || worker(&run, t, nt, thorough, seed, t0, secs)) }).collect();
    let mut last: Vec<(u64, std::time::Instant)> = vec![(0, t0); nt];
    loop {
        std::thread::sleep(std::time::Duration::from_millis(50));
        if run.found.load(SeqCst) || hs.iter().all(|h| h.is_finished()) { break }
        for t in 0..nt {
            let c = run.cur[t].lock().unwrap();
            if c.0 != last[t].0 || hs[t].is_finished() { last[t] = (c.0, std::time::Instant::now()) }
            else if last[t].1.elapsed().as_secs() > 20 && !c.1.is_empty() {
                let (k, i) = c.1.split_once(' ').unwrap();
                if pid == "C02" { run.hit(k, i.to_string(), vec![("C02", format!("decoding {i} does not come to an end"))]); } else { println!("NOTE a case does not come to an end: {}", c.1) }
                run.found.store(true, SeqCst);
            }
        }
    }
    std::thread::sleep(std::time::Duration::from_millis(100));
    for l in run.out.lock().unwrap().iter() { println!("{l}") }
    println!("CASES {}", run.cases.load(Relaxed));
    std::process::exit(if run.out.lock().unwrap().is_empty() { 0 } else { 1 });
}
fn worker(run: &Run, t: usize, nt: usize, thorough: bool, seed: u64, t0: std::time::Instant, secs: u64) {
    let mut n = 0u64;
    let mut r = Rng(seed.wrapping_mul(1000).wrapping_add(t as u64));
    let pid = run.pid.as_str();
    let over = || t0.elapsed().as_secs() >= secs || run.found.load(Relaxed);
    macro_rules! case { ($kind:expr, $input:expr) => { { let k: &str = $kind; let i: String = $input; n += 1; *run.cur[t].lock().unwrap() = (n, format!("{k} {i}")); let fs = one(k, &i); if run.hit(k, i, fs) { return } } } }
    let types: Vec<u8> = match pid { "C05" => vec![3], "C06" => vec![1], "C07" => vec![4, 5, 6, 7], "C08" => vec![8, 9, 10, 11], "C09" => vec![2, 14, 12, 13], "C12" => vec![3, 1], _ => ALL.to_vec() };
    match pid {
        "C01" => {
            let step = if thorough { 1 } else { 5 };
            let hi = 1u64 << 28;
            let mut v = t as u64;
            for x in [0u32, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 268435457, u32::MAX, u32::MAX - 1, 1 << 29, 1 << 31] { case!("vbi", x.to_string()) }
            while v < hi { let fs = c01_value(v as u32); if !fs.is_empty() { run.hit("vbi", v.to_string(), fs); return } n += 1; v += (nt * step) as u64 }
            run.cases.fetch_add(n, Relaxed);
            for _ in 0..2_000_000u32 { let x = r.next() as u32 | 1 << 28; let fs = c01_value(x); if !fs.is_empty() { run.hit("vbi", x.to_string(), fs); return } }
            // byte sequences: all up to three bytes, longer ones over boundary bytes
            case!("vbibytes", String::new());
            for b in (t..256).step_by(nt) { case!("vbibytes", hex(&[b as u8])); for c in 0..=255u8 { let fs = c01_bytes(&[b as u8, c]); if run.hit("vbibytes", hex(&[b as u8, c]), fs) { return } for d in 0..=255u8 { let fs = c01_bytes(&[b as u8, c, d]); if !fs.is_empty() { run.hit("vbibytes", hex(&[b as u8, c, d]), fs); return } } } }
            let bs = [0u8, 1, 2, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff];
            for i in (t..100000).step_by(nt) { let mut x = i; let b: Vec<u8> = (0..5).map(|_| { let y = bs[x % 10]; x /= 10; y }).collect(); for l in [4, 5] { let fs = c01_bytes(&b[..l]); if run.hit("vbibytes", hex(&b[..l]), fs) { return } } }
            return;
        }
        "C11" => { if t == 0 { let fs = c11(); run.hit("tables", "all".into(), fs); run.cases.fetch_add(5 * 256, Relaxed); } return }
        "C12" => {
            if t == 0 { let fs = c12_flags(); if run.hit("flags", "all".into(), fs) { return } }
            let k = OPS.len();
            let depth = if thorough { 5 } else { 4 };
            let total = 23 * k.pow(depth);
            for i in (t..total).step_by(nt) {
                if i % 4096 == 0 && run.found.load(Relaxed) { return }
                let s = i % 23; let mut x = i / 23; let ops: Vec<usize> = (0..depth).map(|_| { let y = x % k; x /= k; y }).collect();
                let o: Vec<Op> = ops.iter().map(|j| OPS[*j]).collect();
                let fs = c12_history(s, &o);
                if !fs.is_empty() { run.hit("history", std::iter::once(s).chain(ops).map(|x| x.to_string()).collect::<Vec<_>>().join(","), fs); return }
                n += 1;
            }
            run.cases.fetch_add(n, Relaxed);
        }
        "C04" => { for i in (t..42 + 32).step_by(nt) { case!("limits", i.to_string()) } }
        "C02" | "C10" | "C03" => {
            // every buffer of up to two bytes, and of up to three bytes over each header
            case!("bytes", String::new());
            for b in (t..256).step_by(nt) { case!("bytes", hex(&[b as u8])); for c in 0..=255u8 { let x = [b as u8, c]; let fs = judge(&x); if run.hit("bytes", hex(&x), fs) { return } for d in 0..=255u8 { let x = [b as u8, c, d]; let fs = judge(&x); if !fs.is_empty() && run.hit("bytes", hex(&x), fs) { return } } } }
        }
        _ => {}
    }
    // values, round robin over the packet types, exhaustive part first
    let mut i = t;
    let hostile = matches!(pid, "C02" | "C03" | "C10");
    let limit = if thorough { usize::MAX } else { 60_000 };
    while i / nt < limit && !over() {
        let pt = types[i % types.len()];
        let q = nth(pt, i / types.len(), &mut r);
        let form = (i / 7 % 3) as u8;
        let b = refc::enc(&q, form);
        if hostile {
            for _ in 0..6 { case!("bytes", hex(&mutate(&b, &mut r))) }
            if pid == "C03" && b.len() < 400 { for k in 0..b.len() { let fs = judge(&b[..k]); if run.hit("bytes", hex(&b[..k]), fs) { return } } }
            if pid == "C03" { let m = if r.chance(50) { b.clone() } else { mutate(&b, &mut r) }; let tl = if r.chance(50) { b.clone() } else { bin(&mut r) }; case!("tail", format!("{}:{}", hex(&m), hex(&tl))) }
            if pid == "C10" && b.len() < 300 {
                // each byte of the packet set to each of the property identifiers and boundary values
                let p = r.below(b.len());
                for v in (0..=0x30u8).chain([0x7f, 0x80, 0x81, 0xa3, 0xc0, 0xf5, 0xff]) { let mut m = b.clone(); m[p] = v; let fs = judge(&m); if run.hit("bytes", hex(&m), fs) { return } }
            }
            case!("bytes", hex(&b));
        } else { case!("value", format!("{form}:{}", hex(&b))) }
        i += nt;
    }
}
