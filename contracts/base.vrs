// ---- Base vocabulary of every verified unit: sequences, text, maps, byte buffers. ----
// Types below stand for the std / bytes types of the same name.  Their contracts are the
// trusted base (see DESIGN.md, "Trusted contracts"); everything else in a unit is either
// specification, proof, or a function body extracted from /repo on this run.
pub type Bs = Seq<u8>;

/// Text (String, str, Box<str>): its UTF-8 bytes.
pub struct String { pub s: Ghost<Seq<u8>> }
/// Vec<T> and [T].
pub struct Vec<T> { pub s: Ghost<Seq<T>> }

impl String {
    pub open spec fn view(&self) -> Seq<u8> { self.s@ }
    pub open spec fn of(s: Seq<u8>) -> String { String { s: Ghost(s) } }
}
impl<T> Vec<T> {
    pub open spec fn view(&self) -> Seq<T> { self.s@ }
    pub open spec fn of(s: Seq<T>) -> Vec<T> { Vec { s: Ghost(s) } }
}
pub uninterp spec fn is_utf8(s: Seq<u8>) -> bool;

pub broadcast proof fn vec_ext<T>(a: Vec<T>) ensures #[trigger] a.view() == a.s@, a == Vec::of(a@) { }
pub broadcast proof fn string_ext(a: String) ensures #[trigger] a.view() == a.s@, a == String::of(a@) { }
pub broadcast proof fn skip_skip<T>(s: Seq<T>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn skip_take<T>(s: Seq<T>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).take(b) == s.subrange(a, a + b)
{ assert(s.skip(a).take(b) =~= s.subrange(a, a + b)); }

pub struct Utf8Err { pub v: u8 }
impl String {
    #[verifier::external_body]
    pub fn new() -> (r: String) ensures r == String::of(Seq::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &String) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8(v: Vec<u8>) -> (r: Result<String, Utf8Err>)
        ensures r is Ok <==> is_utf8(v@), r matches Ok(s) ==> s == String::of(v@)
    { unimplemented!() }
}
/// Text constants are emitted as arrays of their bytes.
pub trait VxLitStr { fn to_string(&self) -> String; }
impl<const N: usize> VxLitStr for [u8; N] {
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
/// ASCII is UTF-8.
#[verifier::external_body]
pub proof fn ascii_utf8(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> s[i] < 128 ensures is_utf8(s) { }
impl<T> Vec<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Vec<T>) ensures r == Vec::<T>::of(Seq::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) ensures *final(self) == Vec::of(old(self)@.push(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<T>) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (r: T)
        requires i < old(self)@.len()
        ensures r == old(self)@[i as int], final(self)@ == old(self)@.remove(i as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_index(&self, i: usize) -> (r: &T)
        requires i < self@.len()
        ensures *r == self@[i as int]
    { unimplemented!() }
}
impl Vec<u8> {
    #[verifier::external_body]
    pub fn resize(&mut self, n: usize, v: u8)
        ensures final(self)@.len() == n,
            forall|i: int| 0 <= i < n ==> final(self)@[i] == (if i < old(self)@.len() { old(self)@[i] } else { v }),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_from_elem(x: u8, n: usize) -> (r: Vec<u8>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }

impl Clone for String { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Clone for Vec<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

/// Text whose content no property depends on (format!, error messages).
#[verifier::external_body]
pub fn vx_text() -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_lit() -> (r: &'static String) { unimplemented!() }
pub fn vx_nop() { }

// ---- iteration: Vec / slice in order, maps in some fixed order ----
pub trait VxIter: Sized { type T; spec fn items(&self) -> Seq<Self::T>; }
impl<'a, T> VxIter for &'a Vec<T> { type T = &'a T; open spec fn items(&self) -> Seq<&'a T> { Seq::new((**self)@.len(), |i: int| &(**self)@[i]) } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { p: core::marker::PhantomData<T> }
impl<T> It<T> { pub uninterp spec fn view(&self) -> Seq<T>; }
#[verifier::external_body]
pub fn vx_iter<C: VxIter>(c: C) -> (r: It<C::T>) ensures r@ == c.items() { unimplemented!() }
#[verifier::external_body]
pub fn vx_iter_len<T>(c: &It<T>) -> (r: usize) ensures r == c@.len() { unimplemented!() }
#[verifier::external_body]
pub fn vx_iter_get<T>(c: &It<T>, i: usize) -> (r: T) requires i < c@.len() ensures r == c@[i as int] { unimplemented!() }
pub trait VxCol: Sized { fn vx_seq(&self) -> (r: &Self) ensures *r == *self; }
impl<T> VxCol for Vec<T> { fn vx_seq(&self) -> &Self { self } }

// ---- HashMap ----
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { pub m: Ghost<Map<K, V>> }
impl<K, V> HashMap<K, V> {
    pub open spec fn view(&self) -> Map<K, V> { self.m@ }
    pub open spec fn of(m: Map<K, V>) -> HashMap<K, V> { HashMap { m: Ghost(m) } }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r == HashMap::<K, V>::of(Map::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
}
/// The iteration order of a map: some enumeration of its keys, fixed while the map is unchanged.
pub uninterp spec fn order<K, V>(m: Map<K, V>) -> Seq<K>;
pub open spec fn enumerates<K, V>(o: Seq<K>, m: Map<K, V>) -> bool {
    o.no_duplicates() && (forall|k: K| #[trigger] o.contains(k) <==> m.dom().contains(k))
}
impl<'a, K, V> VxIter for &'a HashMap<K, V> {
    type T = (&'a K, &'a V);
    open spec fn items(&self) -> Seq<(&'a K, &'a V)> {
        let m = (**self)@;
        Seq::new(order(m).len(), |i: int| (&order(m)[i], &m[order(m)[i]]))
    }
}
/// A HashMap can be iterated, so its keys can be enumerated.
#[verifier::external_body]
pub proof fn order_enumerates<K, V>(m: &HashMap<K, V>) ensures enumerates(order(m@), m@) { }

impl<K, T> HashMap<K, Vec<T>> {
    /// entry(k).or_default().push(v)
    #[verifier::external_body]
    pub fn vx_entry_push(&mut self, k: K, v: T)
        ensures *final(self) == HashMap::of(multi_add(old(self)@, k, v))
    { unimplemented!() }
}
pub open spec fn multi_add<K, T>(m: Map<K, Vec<T>>, k: K, v: T) -> Map<K, Vec<T>> {
    m.insert(k, Vec::of(if m.dom().contains(k) { m[k]@.push(v) } else { seq![v] }))
}

// ---- bytes::{Bytes, BytesMut} ----
#[verifier::external_body]
pub struct BytesMut { v: u8 }
impl BytesMut { pub uninterp spec fn view(&self) -> Seq<u8>; }
pub struct Bytes { pub s: Ghost<Seq<u8>> }
impl Bytes {
    pub open spec fn view(&self) -> Seq<u8> { self.s@ }
    pub open spec fn of(s: Seq<u8>) -> Bytes { Bytes { s: Ghost(s) } }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn from(v: Vec<u8>) -> (r: Bytes) ensures r == Bytes::of(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn copy_from_slice(v: &Vec<u8>) -> (r: Bytes) ensures r == Bytes::of(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r == Vec::<u8>::of(self@) { unimplemented!() }
}
impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

/// No allocation exceeds isize::MAX bytes.
#[verifier::external_body]
pub broadcast proof fn bytesmut_len(b: &BytesMut) ensures #[trigger] b@.len() <= 0x7fff_ffff_ffff_ffff { }

pub open spec fn be16(a: u8, b: u8) -> u16 { (a as u16 * 256 + b as u16) as u16 }
pub open spec fn be32(a: u8, b: u8, c: u8, d: u8) -> u32 { (a as int * 16777216 + b as int * 65536 + c as int * 256 + d as int) as u32 }
pub open spec fn w16(v: u16) -> Seq<u8> { seq![(v / 256) as u8, (v % 256) as u8] }
pub open spec fn w32(v: u32) -> Seq<u8> { seq![(v / 16777216) as u8, (v / 65536 % 256) as u8, (v / 256 % 256) as u8, (v % 256) as u8] }

pub struct TryGetError { pub v: u8 }
pub trait VxBytes { spec fn bytes(&self) -> Seq<u8>; }
impl VxBytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl VxBytes for Bytes { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl BytesMut {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn remaining(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn has_remaining(&self) -> (r: bool) ensures r == (self@.len() > 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u8(&mut self) -> (r: u8)
        requires old(self)@.len() >= 1
        ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u16(&mut self) -> (r: u16)
        requires old(self)@.len() >= 2
        ensures r == be16(old(self)@[0], old(self)@[1]), final(self)@ == old(self)@.skip(2)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u32(&mut self) -> (r: u32)
        requires old(self)@.len() >= 4
        ensures r == be32(old(self)@[0], old(self)@[1], old(self)@[2], old(self)@[3]), final(self)@ == old(self)@.skip(4)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u8(&mut self, v: u8) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u16(&mut self, v: u16) ensures final(self)@ == old(self)@ + w16(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u32(&mut self, v: u32) ensures final(self)@ == old(self)@ + w32(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn put<B: VxBytes>(&mut self, b: &B) ensures final(self)@ == old(self)@ + b.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn put_slice<B: VxBytes>(&mut self, b: &B) ensures final(self)@ == old(self)@ + b.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_index(&self, i: usize) -> (r: &u8)
        requires i < self@.len()
        ensures *r == self@[i as int]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split_off(&mut self, n: usize) -> (r: BytesMut)
        requires n <= old(self)@.len()
        ensures final(self)@ == old(self)@.take(n as int), r@ == old(self)@.skip(n as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: BytesMut)
        requires n <= old(self)@.len()
        ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn freeze(self) -> (r: Bytes) ensures r == Bytes::of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_copy_to_slice(&mut self, d: &mut Vec<u8>) -> (r: Result<(), TryGetError>)
        ensures
            old(self)@.len() >= old(d)@.len() ==> r is Ok && *final(d) == Vec::<u8>::of(old(self)@.take(old(d)@.len() as int))
                && final(self)@ == old(self)@.skip(old(d)@.len() as int),
            old(self)@.len() < old(d)@.len() ==> r is Err && final(d)@ == old(d)@ && final(self)@ == old(self)@,
    { unimplemented!() }
    /// try_copy_to_slice(&mut d[a..b])
    #[verifier::external_body]
    pub fn vx_try_copy_to_range(&mut self, d: &mut Vec<u8>, a: usize, b: usize) -> (r: Result<(), TryGetError>)
        requires a <= b <= old(d)@.len()
        ensures
            old(self)@.len() >= b - a ==> r is Ok && final(self)@ == old(self)@.skip(b - a)
                && *final(d) == Vec::<u8>::of(old(d)@.take(a as int) + old(self)@.take(b - a) + old(d)@.skip(b as int)),
            old(self)@.len() < b - a ==> r is Err && final(d)@ == old(d)@ && final(self)@ == old(self)@,
    { unimplemented!() }
}

#[verifier::external]
impl core::fmt::Debug for String { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
#[verifier::external]
impl<T> core::fmt::Debug for Vec<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }

// ---- conversions and defaults: own traits so that every instance carries a contract ----
pub trait TryFrom<S>: Sized {
    type Error;
    spec fn tf(s: S) -> Option<Self>;
    fn vx_try_from(value: S) -> (r: Result<Self, Self::Error>)
        ensures r is Ok <==> Self::tf(value) is Some, r matches Ok(v) ==> Self::tf(value) == Some(v);
}
pub trait TryInto<T: TryFrom<Self>>: Sized {
    fn vx_try_into(self) -> (r: Result<T, T::Error>)
        ensures r is Ok <==> T::tf(self) is Some, r matches Ok(v) ==> T::tf(self) == Some(v);
}
impl<S, T: TryFrom<S>> TryInto<T> for S {
    fn vx_try_into(self) -> (r: Result<T, T::Error>) { T::vx_try_from(self) }
}
pub trait Default: Sized { spec fn dflt() -> Self; fn vx_default() -> (r: Self) ensures r == Self::dflt(); }
impl Default for u8 { open spec fn dflt() -> u8 { 0 } fn vx_default() -> u8 { 0 } }
impl Default for u16 { open spec fn dflt() -> u16 { 0 } fn vx_default() -> u16 { 0 } }
impl Default for u32 { open spec fn dflt() -> u32 { 0 } fn vx_default() -> u32 { 0 } }
impl Default for bool { open spec fn dflt() -> bool { false } fn vx_default() -> bool { false } }
impl Default for String { open spec fn dflt() -> String { String::of(Seq::empty()) } fn vx_default() -> String { String::new() } }
impl<T> Default for Vec<T> { open spec fn dflt() -> Vec<T> { Vec::of(Seq::empty()) } fn vx_default() -> Vec<T> { Vec::new() } }
impl<T> Default for Option<T> { open spec fn dflt() -> Option<T> { None } fn vx_default() -> Option<T> { None } }
impl<K, V> Default for HashMap<K, V> { open spec fn dflt() -> Self { HashMap::of(Map::empty()) } fn vx_default() -> Self { HashMap::new() } }
pub fn vx_unwrap_or_default<T: Default>(o: Option<T>) -> (r: T)
    ensures r == (match o { Some(v) => v, None => T::dflt() })
{ match o { Some(v) => v, None => T::vx_default() } }
