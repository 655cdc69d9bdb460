//! Packet generators: exhaustive small scope, then pseudo-random.
use crate::refc::*;
use crate::table::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn chance(&mut self, p: usize) -> bool { self.below(100) < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}
pub fn text(r: &mut Rng) -> Vec<u8> {
    match r.below(24) {
        0 | 1 => vec![], 2..=8 => b"a".to_vec(), 9..=11 => b"ab/c".to_vec(), 12 | 13 => "é".as_bytes().to_vec(), 14 => "日本/語".as_bytes().to_vec(), 15 => "😀".as_bytes().to_vec(),
        16 => vec![b'x'; 120 + r.below(12)], 17 => vec![b'y'; 250 + r.below(12)], 18 => b"\x01\x02".to_vec(), 19 => { let n = r.below(40); (0..n).map(|_| b'a' + r.below(26) as u8).collect() }
        20 => b"$SYS/+/#".to_vec(), _ => { let n = r.below(4); (0..n).map(|_| b'a' + r.below(3) as u8).collect() }
    }
}
pub fn bin(r: &mut Rng) -> Vec<u8> {
    match r.below(12) { 0 => vec![], 1 => vec![0], 2 => vec![0xff], 3 => vec![0x80; 128], 4 => (0..=255).collect(), _ => { let n = r.below(6); (0..n).map(|_| r.next() as u8).collect() } }
}
fn u32v(r: &mut Rng) -> u32 { match r.below(8) { 0 => 0, 1 => 1, 2 => 255, 3 => 256, 4 => 65536, 5 => u32::MAX, 6 => 0x01020304, _ => r.next() as u32 } }
fn u16v(r: &mut Rng) -> u16 { match r.below(8) { 0 => 1, 1 => 2, 2 => 255, 3 => 256, 4 => 65535, 5 => 0x0102, 6 => 0x8000, _ => r.next() as u16 } }
pub fn pid(r: &mut Rng) -> u16 { u16v(r).max(1) }
pub const VBIS: [u32; 8] = [1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455];
pub fn value(k: K, r: &mut Rng, variant: usize) -> V {
    match k {
        K::U16 => V::U16(if variant == 0 { 0x0102 } else { u16v(r) }), K::U32 => V::U32(if variant == 0 { 0x01020304 } else { u32v(r) }),
        K::Bool | K::Pf => V::U8(if variant == 0 { 1 } else { r.below(2) as u8 }), K::Qos => V::U8(if variant == 0 { 1 } else { r.below(3) as u8 }),
        K::Str | K::Str1 => V::S(if variant == 0 { b"ab".to_vec() } else { text(r) }), K::Bin => V::S(if variant == 0 { vec![1, 2, 3] } else { let b = bin(r); if b.is_empty() { vec![7] } else { b } }),
        K::Vbi => V::U32(if variant == 0 { 200 } else { *r.pick(&VBIS) }), K::Up => V::Pair(text(r), text(r)),
    }
}
/// properties: those whose index bit is in `mask`, user properties several times
pub fn props(t: &[(&str, K, u8)], mask: u32, r: &mut Rng, variant: usize) -> Props {
    let mut p: Props = vec![];
    for (i, (_, k, id)) in t.iter().enumerate() {
        if mask >> i & 1 == 0 { continue }
        if *k == K::Up {
            if variant == 0 { p.push((*id, V::Pair(b"k".to_vec(), b"v1".to_vec()))); p.push((*id, V::Pair(b"k".to_vec(), b"v0".to_vec()))); p.push((*id, V::Pair(b"".to_vec(), b"".to_vec()))) }
            else { for _ in 0..1 + r.below(5) { let k = if r.chance(60) { (*r.pick(&[&b"a"[..], b"b"])).to_vec() } else { text(r) }; p.push((*id, V::Pair(k, text(r)))) } }
        } else { p.push((*id, value(*k, r, variant))) }
    }
    p
}
/// shuffle, keeping the order of user properties
pub fn shuffle(p: &mut Props, r: &mut Rng) {
    for i in (1..p.len()).rev() { let j = r.below(i + 1); if p[i].0 != 0x26 && p[j].0 != 0x26 { p.swap(i, j) } }
    for i in 1..p.len() { if r.chance(50) && !(p[i].0 == 0x26 && p[i - 1].0 == 0x26) { p.swap(i, i - 1) } }
}
pub const ALL: [u8; 14] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
fn some<T>(b: bool, f: impl FnOnce() -> T) -> Option<T> { if b { Some(f()) } else { None } }
/// one packet of the type with the given properties; `v` picks header and payload
pub fn packet(pt: u8, props_: Props, wmask: u32, r: &mut Rng, v: usize) -> Rp {
    let allowed: Vec<u8> = REASONS.iter().map(|x| x.1).filter(|c| reason_allowed(pt, *c)).collect();
    let mut flags = match pt { 6 | 8 | 10 => 2, _ => 0 };
    let (hdr, pay) = match pt {
        1 => {
            let bits = if v < 64 { v as u8 } else { r.below(64) as u8 };
            let (w, u, p) = (bits & 1 != 0, bits & 2 != 0, bits & 4 != 0);
            let mut f = if bits & 8 != 0 { 2u8 } else { 0 };
            if w { f |= 4 | ((r.below(3) as u8) << 3) | if bits & 16 != 0 { 0x20 } else { 0 } }
            if u { f |= 0x80 } if p { f |= 0x40 }
            let pay = Pay::Conn { cid: text(r), will: some(w, || { let mut wp = props(P_WILLHEADER, wmask, r, (v / 64) & 1); shuffle(&mut wp, r); Will { props: wp, topic: text(r), payload: bin(r) } }), user: some(u, || text(r)), pass: some(p, || bin(r)) };
            (vec![V::S(b"MQTT".to_vec()), V::U8(5), V::U8(f), V::U16(u16v(r))], pay)
        }
        2 => (vec![V::U8((v & 1) as u8), V::U8(*r.pick(&allowed))], Pay::None),
        3 => {
            let q = if v < 16 { (v % 4) as u8 % 3 } else { r.below(3) as u8 };
            flags = q << 1 | (r.below(2) as u8) | if q > 0 { (r.below(2) as u8) << 3 } else { 0 };
            let mut h = vec![V::S(text(r))];
            if q > 0 { h.push(V::U16(pid(r))) }
            (h, Pay::Rest(bin(r)))
        }
        4..=7 => (vec![V::U16(pid(r)), V::U8(if v % 2 == 0 { 0 } else { *r.pick(&allowed) })], Pay::None),
        8 => (vec![V::U16(pid(r))], Pay::Filters({ let n = if v < 4 { v } else { r.below(6) }; (0..n).map(|_| (text(r), (r.below(3) | r.below(4) << 2 | r.below(3) << 4) as u8)).collect() })),
        10 => (vec![V::U16(pid(r))], Pay::Topics({ let n = if v < 4 { v } else { r.below(6) }; (0..n).map(|_| text(r)).collect() })),
        9 | 11 => (vec![V::U16(pid(r))], Pay::Reasons({ let n = if v < 4 { v } else { r.below(9) }; (0..n).map(|_| *r.pick(&allowed)).collect() })),
        14 => (vec![V::U8(if v % 2 == 0 { 0 } else { *r.pick(&allowed) })], Pay::None),
        _ => (vec![], Pay::None),
    };
    Rp { pt, flags, hdr, props: props_, pay }
}
/// the i-th packet of type pt: first every set of at most two and of all but at most one
/// properties, each with several headers, then random ones
pub fn nth(pt: u8, i: usize, r: &mut Rng) -> Rp {
    let t = table(pt);
    let n = t.len();
    let mut masks: Vec<u32> = vec![0, ((1u64 << n) - 1) as u32];
    for a in 0..n { masks.push(1 << a); masks.push(((1u64 << n) - 1) as u32 & !(1 << a)); for b in 0..a { masks.push(1 << a | 1 << b) } }
    let nv = if pt == 1 { 128 } else { 8 };
    let (mask, variant, v) = if i < masks.len() * nv { (masks[i / nv], i % 2, i % nv) } else { (r.next() as u32, 1, 100 + r.below(1000)) };
    let wn = P_WILLHEADER.len();
    let wm = if i < masks.len() * nv { match i % 12 { 0 => 0, 1 => (1 << wn) - 1, k => 1u32 << (k % wn) | 1 << ((i / 12) % wn) } } else { r.next() as u32 };
    let mut p = props(t, mask, r, variant);
    shuffle(&mut p, r);
    packet(pt, p, wm, r, v)
}
