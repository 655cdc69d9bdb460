// ---- Base vocabulary of the broker / client / stream units. Vec is std's, specified by vstd;
// text, maps and the few std calls below carry the contracts stated here (trusted, see DESIGN.md).
pub type Bs = Seq<u8>;

/// Text (String, str, Box<str>): its UTF-8 bytes.
pub struct String { pub s: Ghost<Seq<u8>> }
impl String {
    pub open spec fn view(&self) -> Seq<u8> { self.s@ }
    pub open spec fn of(s: Seq<u8>) -> String { String { s: Ghost(s) } }
    #[verifier::external_body]
    pub fn new() -> (r: String) ensures r == String::of(Seq::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &String) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: String) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with(&self, c: char) -> (r: bool)
        requires (c as u32) < 128
        ensures r == (self@.len() > 0 && self@[0] == c as u8)
    { unimplemented!() }
}
pub broadcast proof fn string_ext(a: String) ensures #[trigger] a.view() == a.s@, a == String::of(a@) { }
impl Clone for String { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEq for String { #[verifier::external_body] fn eq(&self, o: &String) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for String {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &String) -> bool { self@ == o@ }
}
pub trait VxText { spec fn t(&self) -> Seq<u8>; }
impl VxText for String { open spec fn t(&self) -> Seq<u8> { self@ } }
impl<'a, T: VxText> VxText for &'a T { open spec fn t(&self) -> Seq<u8> { (**self).t() } }
#[verifier::external_body]
pub fn vx_eq<A: VxText, B: VxText>(a: &A, b: &B) -> (r: bool) ensures r == (a.t() == b.t()) { unimplemented!() }
/// A text constant of at most two bytes (longer ones: vx_lit).
#[verifier::external_body]
pub fn vx_str<const N: usize>(a: &[u8; N]) -> (r: &'static String) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_text() -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_lit() -> (r: &'static String) { unimplemented!() }
pub fn vx_nop() { }
pub trait VxInto<T>: Sized { spec fn into_ok(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_ok(r); }
impl<'a> VxInto<String> for &'a String {
    open spec fn into_ok(self, r: String) -> bool { r == *self }
    fn vx_into(self) -> (r: String) { self.to_string() }
}
impl VxInto<String> for String {
    open spec fn into_ok(self, r: String) -> bool { r == self }
    fn vx_into(self) -> (r: String) { self }
}

// ---- splitting text ----
pub type Segs = Seq<Seq<u8>>;
pub open spec fn split_at(s: Seq<u8>, c: u8) -> Segs
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::<u8>::empty()] }
    else if s.last() == c { split_at(s.drop_last(), c).push(Seq::empty()) }
    else {
        let r = split_at(s.drop_last(), c);
        r.drop_last().push(r.last().push(s.last()))
    }
}
pub proof fn split_nonempty(s: Seq<u8>, c: u8) ensures split_at(s, c).len() >= 1 decreases s.len() {
    if s.len() > 0 { split_nonempty(s.drop_last(), c); }
}
pub open spec fn texts(v: Seq<&String>) -> Segs { Seq::new(v.len(), |i: int| v[i]@) }
/// s.split(c).collect()
#[verifier::external_body]
pub fn vx_split<T: VxText>(s: &T, c: u8) -> (r: Vec<&String>)
    ensures texts(r@) == split_at(s.t(), c)
{ unimplemented!() }

// ---- Vec ----
pub trait VxVec<T> { fn vx_extend_cloned(&mut self, o: &Vec<T>); }
/// V.extend(X.iter().cloned()), for element types whose clone is the value itself
pub trait VxSame: Sized { fn vx_same(&self) -> (r: Self) ensures r == *self; }

// ---- iteration ----
pub trait VxIter: Sized { type T; spec fn items(&self) -> Seq<Self::T>; }
impl<'a, T> VxIter for &'a Vec<T> { type T = &'a T; open spec fn items(&self) -> Seq<&'a T> { Seq::new((**self)@.len(), |i: int| &(**self)@[i]) } }
impl<T> VxIter for Vec<T> { type T = T; open spec fn items(&self) -> Seq<T> { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { p: core::marker::PhantomData<T> }
impl<T> It<T> { pub uninterp spec fn view(&self) -> Seq<T>; }
#[verifier::external_body]
pub fn vx_iter<C: VxIter>(c: C) -> (r: It<C::T>) ensures r@ == c.items() { unimplemented!() }
#[verifier::external_body]
pub fn vx_iter_len<T>(c: &It<T>) -> (r: usize) ensures r == c@.len() { unimplemented!() }
/// each element is handed out once: the loop counter only grows
#[verifier::external_body]
pub fn vx_iter_get<T>(c: &It<T>, i: usize) -> (r: T) requires i < c@.len() ensures r == c@[i as int] { unimplemented!() }
pub trait VxCol: Sized { fn vx_seq(&self) -> (r: &Self) ensures *r == *self; }
impl<T> VxCol for Vec<T> { fn vx_seq(&self) -> &Self { self } }

// ---- HashMap ----
pub trait VxKey { type S; spec fn k(&self) -> Self::S; }
impl VxKey for String { type S = Seq<u8>; open spec fn k(&self) -> Seq<u8> { self@ } }
impl VxKey for u16 { type S = u16; open spec fn k(&self) -> u16 { *self } }
impl<'a, T: VxKey> VxKey for &'a T { type S = T::S; open spec fn k(&self) -> T::S { (**self).k() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K: VxKey, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K::S, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::S, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::S, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VxKey<S = K::S>>(&self, q: &Q) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(q.k()) { Some(&self@[q.k()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VxKey<S = K::S>>(&self, q: &Q) -> (r: bool)
        ensures r == self@.dom().contains(q.k())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.k(), v),
            r == (if old(self)@.dom().contains(k.k()) { Some(old(self)@[k.k()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VxKey<S = K::S>>(&mut self, q: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(q.k()),
            r == (if old(self)@.dom().contains(q.k()) { Some(old(self)@[q.k()]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K::S, V>::empty() { unimplemented!() }
}
pub broadcast axiom fn hm_finite<K: VxKey, V>(m: HashMap<K, V>) ensures #[trigger] m@.dom().finite();
/// what drain() hands out: each entry once
pub open spec fn entries_of<K: VxKey, V>(l: Seq<(K, V)>, m: Map<K::S, V>) -> bool {
    l.len() == m.dom().len()
    && (forall|i: int| 0 <= i < l.len() ==> m.dom().contains((#[trigger] l[i]).0.k()) && m[l[i].0.k()] == l[i].1)
    && (forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0.k() != (#[trigger] l[j]).0.k())
}
#[verifier::reject_recursive_types(K)]
pub struct Drained<K, V> { pub l: Vec<(K, V)> }
impl<K: VxKey, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: Drained<K, V>) ensures final(self)@ == Map::<K::S, V>::empty(), entries_of(r.l@, old(self)@) { unimplemented!() }
}
impl<K, V> Drained<K, V> { pub fn collect(self) -> (r: Vec<(K, V)>) ensures r == self.l { self.l } }
// ---- conversions and defaults: own traits so that every instance carries a contract ----
pub trait TryFrom<S>: Sized {
    type Error;
    spec fn tf(s: S) -> Option<Self>;
    fn vx_try_from(value: S) -> (r: Result<Self, Self::Error>)
        ensures r is Ok <==> Self::tf(value) is Some, r matches Ok(v) ==> Self::tf(value) == Some(v);
}
pub trait TryInto<T: TryFrom<Self>>: Sized {
    fn vx_try_into(self) -> (r: Result<T, T::Error>)
        ensures r is Ok <==> T::tf(self) is Some, r matches Ok(v) ==> T::tf(self) == Some(v);
}
impl<S, T: TryFrom<S>> TryInto<T> for S {
    fn vx_try_into(self) -> (r: Result<T, T::Error>) { T::vx_try_from(self) }
}
pub struct TryFromIntError { }
impl TryFrom<u64> for u16 {
    type Error = TryFromIntError;
    open spec fn tf(s: u64) -> Option<u16> { if s <= 65535 { Some(s as u16) } else { None } }
    fn vx_try_from(s: u64) -> Result<u16, TryFromIntError> { if s <= 65535 { Ok(s as u16) } else { Err(TryFromIntError { }) } }
}
impl TryFrom<u64> for u32 {
    type Error = TryFromIntError;
    open spec fn tf(s: u64) -> Option<u32> { if s <= 0xffff_ffff { Some(s as u32) } else { None } }
    fn vx_try_from(s: u64) -> Result<u32, TryFromIntError> { if s <= 0xffff_ffff { Ok(s as u32) } else { Err(TryFromIntError { }) } }
}
pub trait Default: Sized { spec fn dflt(r: Self) -> bool; fn vx_default() -> (r: Self) ensures Self::dflt(r); }
impl Default for u8 { open spec fn dflt(r: u8) -> bool { r == 0 } fn vx_default() -> u8 { 0 } }
impl Default for u16 { open spec fn dflt(r: u16) -> bool { r == 0 } fn vx_default() -> u16 { 0 } }
impl Default for u32 { open spec fn dflt(r: u32) -> bool { r == 0 } fn vx_default() -> u32 { 0 } }
impl Default for bool { open spec fn dflt(r: bool) -> bool { !r } fn vx_default() -> bool { false } }
impl Default for String { open spec fn dflt(r: String) -> bool { r == String::of(Seq::empty()) } fn vx_default() -> String { String::new() } }
impl<T> Default for Vec<T> { open spec fn dflt(r: Vec<T>) -> bool { r@ == Seq::<T>::empty() } fn vx_default() -> Vec<T> { Vec::new() } }
impl<T> Default for Option<T> { open spec fn dflt(r: Option<T>) -> bool { r is None } fn vx_default() -> Option<T> { None } }
impl<K: VxKey, V> Default for HashMap<K, V> { open spec fn dflt(r: Self) -> bool { r@ == Map::<K::S, V>::empty() } fn vx_default() -> Self { HashMap::new() } }
pub trait VxMaybe: Sized { type V; spec fn val(&self) -> Option<Self::V>; fn vx_val(self) -> (r: Option<Self::V>) ensures r == self.val(); }
impl<T, E> VxMaybe for Result<T, E> { type V = T; open spec fn val(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } } fn vx_val(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } } }
impl<T> VxMaybe for Option<T> { type V = T; open spec fn val(&self) -> Option<T> { *self } fn vx_val(self) -> Option<T> { self } }
pub fn vx_unwrap_or_default<T: Default, M: VxMaybe<V = T>>(r: M) -> (v: T) ensures r.val() matches Some(x) ==> v == x, r.val() is None ==> T::dflt(v) { match r.vx_val() { Some(x) => x, None => T::vx_default() } }
pub fn vx_ok_or<T, M: VxMaybe<V = T>>(r: M, d: T) -> (v: T) ensures v == (match r.val() { Some(x) => x, None => d }) { match r.vx_val() { Some(x) => x, None => d } }
