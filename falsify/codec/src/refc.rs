//! Independent reference codec for the MQTT 5 packets this project supports.
//! Written from the specification; shares no code with the code under test.
use crate::table::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V { U8(u8), U16(u16), U32(u32), S(Vec<u8>), Pair(Vec<u8>, Vec<u8>) }
pub type Props = Vec<(u8, V)>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Will { pub props: Props, pub topic: Vec<u8>, pub payload: Vec<u8> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pay { None, Rest(Vec<u8>), Filters(Vec<(Vec<u8>, u8)>), Reasons(Vec<u8>), Topics(Vec<Vec<u8>>),
    Conn { cid: Vec<u8>, will: Option<Will>, user: Option<Vec<u8>>, pass: Option<Vec<u8>> } }
/// A packet: type nibble, header flags, variable header fields, properties, payload.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rp { pub pt: u8, pub flags: u8, pub hdr: Vec<V>, pub props: Props, pub pay: Pay }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    /// more bytes are needed
    Incomplete,
    /// more bytes are needed, but the header is invalid already
    IncompleteBad,
    Bad(&'static str),
    Good(Rp, usize),
    /// outcome not settled by the properties
    Open,
}

pub fn table(pt: u8) -> &'static [(&'static str, K, u8)] {
    match pt { 1 => P_CONNECT, 2 => P_CONNACK, 3 => P_PUBLISH, 4..=7 => P_PUBRESP, 8 => P_SUBSCRIBE, 9 => P_SUBACK, 10 => P_UNSUBSCRIBE, 11 => P_UNSUBACK, 14 => P_DISCONNECT, _ => &[] }
}
pub fn kind(pt: u8, will: bool, id: u8) -> Option<K> {
    let t = if will { P_WILLHEADER } else { table(pt) };
    t.iter().find(|x| x.2 == id).map(|x| x.1)
}
pub fn reason_known(c: u8) -> bool { REASONS.iter().any(|r| r.1 == c) }
pub fn reason_allowed(pt: u8, c: u8) -> bool {
    match pt {
        4 | 5 => [0u8, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99].contains(&c),
        6 | 7 => [0u8, 0x92].contains(&c),
        _ => reason_known(c),
    }
}
pub fn prop_known(c: u8) -> bool { PROPERTIES.iter().any(|r| r.1 == c) }
pub fn vbi(mut v: u32) -> Vec<u8> {
    let mut o = vec![];
    loop { let b = (v % 128) as u8; v /= 128; if v > 0 { o.push(b | 128) } else { o.push(b); return o } }
}
fn lp(o: &mut Vec<u8>, s: &[u8]) { o.extend((s.len() as u16).to_be_bytes()); o.extend(s) }

pub fn enc_props(props: &Props) -> Vec<u8> {
    let mut b = vec![];
    for (id, v) in props {
        b.push(*id);
        match v {
            V::U8(x) => b.push(*x), V::U16(x) => b.extend(x.to_be_bytes()),
            V::U32(x) => if *id == 0x0b { b.extend(vbi(*x)) } else { b.extend(x.to_be_bytes()) },
            V::S(x) => lp(&mut b, x), V::Pair(k, x) => { lp(&mut b, k); lp(&mut b, x) }
        }
    }
    b
}
pub fn sect(props: &Props) -> Vec<u8> { let b = enc_props(props); let mut o = vbi(b.len() as u32); o.extend(b); o }
/// form: 0 = shortest allowed, 1 = reason without properties where allowed, 2 = full
pub fn body(p: &Rp, form: u8) -> Vec<u8> {
    let mut o = vec![];
    for v in &p.hdr { match v { V::U8(x) => o.push(*x), V::U16(x) => o.extend(x.to_be_bytes()), V::U32(x) => o.extend(x.to_be_bytes()), V::S(x) => lp(&mut o, x), V::Pair(..) => unreachable!() } }
    let abbrev = matches!(p.pt, 4..=7 | 14);
    if p.pt == 12 || p.pt == 13 { return o }
    if abbrev && p.props.is_empty() {
        if form == 0 && p.hdr.last() == Some(&V::U8(0)) { o.pop(); return o }
        if form == 1 { return o }
    }
    o.extend(sect(&p.props));
    match &p.pay {
        Pay::None => {}
        Pay::Rest(b) => o.extend(b),
        Pay::Filters(f) => for (t, b) in f { lp(&mut o, t); o.push(*b) },
        Pay::Reasons(r) => o.extend(r),
        Pay::Topics(t) => for x in t { lp(&mut o, x) },
        Pay::Conn { cid, will, user, pass } => {
            lp(&mut o, cid);
            if let Some(w) = will { o.extend(sect(&w.props)); lp(&mut o, &w.topic); lp(&mut o, &w.payload) }
            if let Some(u) = user { lp(&mut o, u) }
            if let Some(u) = pass { lp(&mut o, u) }
        }
    }
    o
}
pub fn frame(pt: u8, flags: u8, body: &[u8]) -> Vec<u8> { let mut o = vec![pt << 4 | flags]; o.extend(vbi(body.len() as u32)); o.extend(body); o }
pub fn enc(p: &Rp, form: u8) -> Vec<u8> { frame(p.pt, p.flags, &body(p, form)) }

// ------------------------------------------------------------------ decoding
#[derive(Debug)]
pub enum E { Bad(&'static str), Open }
type R<T> = Result<T, E>;
pub struct Rd<'a> { pub s: &'a [u8], pub p: usize }
impl<'a> Rd<'a> {
    fn left(&self) -> usize { self.s.len() - self.p }
    fn take(&mut self, n: usize) -> R<&'a [u8]> { if self.left() < n { return Err(E::Bad("a field is cut short by the end of the packet")) } let r = &self.s[self.p..self.p + n]; self.p += n; Ok(r) }
    fn u8(&mut self) -> R<u8> { Ok(self.take(1)?[0]) }
    fn u16(&mut self) -> R<u16> { let b = self.take(2)?; Ok(u16::from_be_bytes([b[0], b[1]])) }
    fn u32(&mut self) -> R<u32> { let b = self.take(4)?; Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]])) }
    fn bin(&mut self) -> R<Vec<u8>> { let n = self.u16()? as usize; Ok(self.take(n)?.to_vec()) }
    fn vbi(&mut self) -> R<u32> {
        let (mut v, mut m) = (0u32, 1u32);
        for i in 0..4 {
            let b = self.u8()?;
            v += (b as u32 % 128) * m; m = m.wrapping_mul(128);
            if b < 128 { return if i > 0 && b == 0 { Err(E::Open) } else { Ok(v) } }
        }
        Err(E::Bad("variable byte integer of more than four bytes"))
    }
    fn str(&mut self) -> R<Vec<u8>> {
        let b = self.bin()?;
        if std::str::from_utf8(&b).is_err() { return Err(E::Bad("text that is not UTF-8")) }
        Ok(b)
    }
}
fn props(r: &mut Rd, pt: u8, will: bool) -> R<Props> {
    let n = r.vbi()? as usize;
    if r.left() < n { return Err(E::Bad("properties run past the end of the packet")) }
    let mut q = Rd { s: &r.s[..r.p + n], p: r.p };
    let mut out: Props = vec![];
    let mut open = false;
    while q.left() > 0 {
        let id = q.u8()?;
        if !prop_known(id) { return Err(E::Bad("unknown property")) }
        let k = match kind(pt, will, id) { Some(k) => k, None => return Err(E::Bad("property not allowed in this packet")) };
        let v = match k {
            K::U16 => V::U16(q.u16()?), K::U32 => V::U32(q.u32()?),
            K::Bool => { let b = q.u8()?; if b > 1 { return Err(E::Bad("boolean property with a value other than 0 and 1")) } V::U8(b) }
            K::Qos => { let b = q.u8()?; if b > 2 { return Err(E::Bad("QoS property with an unassigned value")) } V::U8(b) }
            K::Pf => { let b = q.u8()?; if b > 1 { return Err(E::Bad("payload format property with an unassigned value")) } V::U8(b) }
            K::Str | K::Str1 => V::S(q.str()?), K::Bin => V::S(q.bin()?),
            K::Vbi => match q.vbi() { Err(E::Open) => { open = true; V::U32(0) }, x => V::U32(x?) },
            K::Up => V::Pair(q.str()?, q.str()?),
        };
        if k != K::Up && out.iter().any(|x| x.0 == id) { open = true }
        out.push((id, v));
    }
    r.p += n;
    if open { return Err(E::Open) }
    Ok(out)
}
pub fn dec_body(pt: u8, flags: u8, b: &[u8]) -> R<Rp> {
    let mut r = Rd { s: b, p: 0 };
    let mut hdr = vec![];
    let mut pr = vec![];
    let mut pay = Pay::None;
    let mut open = false;
    match pt {
        1 => {
            let n = r.str()?; let v = r.u8()?; let f = r.u8()?; let ka = r.u16()?;
            if n != b"MQTT" || v != 5 || f & 1 != 0 || (f >> 3) & 3 == 3 || (f & 4 == 0 && f & 0x38 != 0) { open = true }
            hdr.extend([V::S(n), V::U8(v), V::U8(f), V::U16(ka)]);
            pr = props(&mut r, 1, false)?;
            let cid = r.str()?;
            let will = if f & 4 != 0 { let p = props(&mut r, 1, true)?; Some(Will { props: p, topic: r.str()?, payload: r.bin()? }) } else { None };
            let user = if f & 0x80 != 0 { Some(r.str()?) } else { None };
            let pass = if f & 0x40 != 0 { Some(r.bin()?) } else { None };
            pay = Pay::Conn { cid, will, user, pass };
        }
        2 => {
            let a = r.u8()?; let c = r.u8()?;
            if !reason_known(c) { return Err(E::Bad("unknown reason code")) }
            if a > 1 { open = true }
            hdr.extend([V::U8(a), V::U8(c)]);
            pr = props(&mut r, 2, false)?;
        }
        3 => {
            hdr.push(V::S(r.str()?));
            if (flags >> 1) & 3 != 0 { hdr.push(V::U16(r.u16()?)) } else if flags & 8 != 0 { open = true }
            pr = props(&mut r, 3, false)?;
            pay = Pay::Rest(r.s[r.p..].to_vec()); r.p = r.s.len();
        }
        4..=7 => {
            hdr.push(V::U16(r.u16()?));
            if r.left() == 0 { hdr.push(V::U8(0)) } else {
                let c = r.u8()?;
                if !reason_known(c) { return Err(E::Bad("unknown reason code")) }
                if !reason_allowed(pt, c) { open = true }
                hdr.push(V::U8(c));
                if r.left() > 0 { pr = props(&mut r, pt, false)? }
            }
        }
        8 | 9 | 10 | 11 => {
            hdr.push(V::U16(r.u16()?));
            pr = props(&mut r, pt, false)?;
            match pt {
                8 => { let mut l = vec![]; while r.left() > 0 { let t = r.str()?; l.push((t, r.u8()?)) } pay = Pay::Filters(l) }
                10 => { let mut l = vec![]; while r.left() > 0 { l.push(r.str()?) } pay = Pay::Topics(l) }
                _ => { let mut l = vec![]; while r.left() > 0 { let c = r.u8()?; if !reason_known(c) { return Err(E::Bad("unknown reason code")) } l.push(c) } pay = Pay::Reasons(l) }
            }
        }
        12 | 13 => {}
        14 => {
            if r.left() == 0 { hdr.push(V::U8(0)) } else {
                let c = r.u8()?;
                if !reason_known(c) { return Err(E::Bad("unknown reason code")) }
                hdr.push(V::U8(c));
                if r.left() > 0 { pr = props(&mut r, 14, false)? }
            }
        }
        _ => return Err(E::Open),
    }
    if r.left() > 0 { return Err(E::Bad("bytes left over after the last field")) }
    if open { return Err(E::Open) }
    Ok(Rp { pt, flags, hdr, props: pr, pay })
}
pub fn hdr_ok(b: u8) -> Option<bool> {
    let f = b & 15;
    match b >> 4 { 0 => Some(false), 15 => None, 3 => Some((f >> 1) & 3 != 3 && !(f & 8 != 0 && f & 6 == 0)), 6 | 8 | 10 => Some(f == 2), _ => Some(f == 0) }
}
pub fn decode(s: &[u8]) -> Out {
    if s.is_empty() { return Out::Incomplete }
    let h = hdr_ok(s[0]);
    let inc = if h == Some(true) { Out::Incomplete } else { Out::IncompleteBad };
    let mut r = Rd { s, p: 1 };
    let mut cont = 0;
    while cont < 4 && 1 + cont < s.len() && s[1 + cont] >= 128 { cont += 1 }
    if cont == 4 { return Out::Bad("remaining length of more than four bytes") }
    if 1 + cont >= s.len() { return inc }
    let overlong = cont > 0 && s[1 + cont] == 0;
    let n = match r.vbi() { Ok(n) => n as usize, Err(_) => { let mut v = 0usize; for i in 0..=cont { v += (s[1 + i] as usize % 128) << (7 * i) } r.p = 2 + cont; v } };
    if r.left() < n { return inc }
    match h { Some(false) => return Out::Bad("reserved header flags, reserved QoS or reserved packet type"), None => return Out::Open, _ => {} }
    match dec_body(s[0] >> 4, s[0] & 15, &s[r.p..r.p + n]) {
        Ok(_) if overlong => Out::Open,
        Ok(p) => Out::Good(p, r.p + n),
        Err(E::Bad(m)) => Out::Bad(m),
        Err(E::Open) => Out::Open,
    }
}

// ------------------------------------------------------------------ canonical form
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Cp { pub one: BTreeMap<u8, V>, pub up: BTreeMap<Vec<u8>, Vec<Vec<u8>>> }
pub fn canon_props(p: &Props, pt: u8, will: bool) -> Cp {
    let mut c = Cp::default();
    for (id, v) in p {
        match v {
            V::Pair(k, x) => c.up.entry(k.clone()).or_default().push(x.clone()),
            V::S(x) if x.is_empty() && matches!(kind(pt, will, *id), Some(K::Bin)) => { c.one.remove(id); }
            V::S(x) if x.is_empty() && matches!(kind(pt, will, *id), Some(K::Str1)) => { c.one.remove(id); }
            v => { c.one.insert(*id, v.clone()); }
        }
    }
    c
}
/// equality of packets up to property order and the order of different user property names
pub fn same(a: &Rp, b: &Rp) -> bool {
    let pay = match (&a.pay, &b.pay) {
        (Pay::Conn { cid, will, user, pass }, Pay::Conn { cid: c2, will: w2, user: u2, pass: p2 }) => cid == c2 && user == u2 && pass == p2 && match (will, w2) {
            (None, None) => true,
            (Some(x), Some(y)) => x.topic == y.topic && x.payload == y.payload && canon_props(&x.props, 1, true) == canon_props(&y.props, 1, true),
            _ => false },
        (x, y) => x == y,
    };
    a.pt == b.pt && a.flags == b.flags && a.hdr == b.hdr && canon_props(&a.props, a.pt, false) == canon_props(&b.props, b.pt, false) && pay
}
