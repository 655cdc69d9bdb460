// ---------------------------------------------------------------- property sections
/// A set of properties: one(p, id, s) is p after reading the value of property `id` from s.
pub trait Props: Sized {
    spec fn one(p: Self, id: u8, s: Bs) -> Option<(Self, nat)>;
    spec fn up(p: Self) -> Map<String, Vec<String>>;
    spec fn with_up(p: Self, m: Map<String, Vec<String>>) -> Self;
    proof fn up_laws(p: Self, m: Map<String, Vec<String>>, m2: Map<String, Vec<String>>)
        ensures Self::up(Self::with_up(p, m)) == m, Self::with_up(Self::with_up(p, m), m2) == Self::with_up(p, m2), Self::with_up(p, Self::up(p)) == p;
    proof fn up_one(p: Self, s: Bs)
        ensures Self::one(p, 0x26, s) == (match d_pair(s) { Some((k, v, n)) => Some((Self::with_up(p, multi_add(Self::up(p), k, v)), n)), None => None::<(Self, nat)> });
}
pub open spec fn d_pair(s: Bs) -> Option<(String, String, nat)> {
    match d_str(s) { Some((k, n)) => match d_str(s.skip(n as int)) { Some((v, m)) => Some((k, v, n + m)), None => None }, None => None }
}
/// the properties held by exactly the first n bytes of s
#[verifier::opaque]
pub open spec fn props<T: Props>(p: T, s: Bs, n: int) -> Option<T>
    decreases (if n < 0 { 0 } else { n + 1 })
{
    if n == 0 { Some(p) } else if n < 0 { None } else if s.len() < 1 { None } else {
        match T::one(p, s[0], s.skip(1)) { Some((q, k)) => props(q, s.skip(1).skip(k as int), n - 1 - k), None => None }
    }
}
pub proof fn props_unfold<T: Props>(p: T, s: Bs, n: int)
    ensures n == 0 ==> props(p, s, n) == Some(p), n < 0 ==> props(p, s, n) is None, n > 0 && s.len() < 1 ==> props(p, s, n) is None,
        n > 0 && s.len() >= 1 ==> props(p, s, n) == (match T::one(p, s[0], s.skip(1)) { Some((q, k)) => props(q, s.skip(1).skip(k as int), n - 1 - k), None => None })
{ reveal(props); }
/// a property section: its length and its properties
pub open spec fn d_props<T: Props>(p: T, s: Bs) -> Option<(T, nat)> {
    match d_vbi(s) {
        Some((len, k)) => match props(p, s.skip(k as int), len as int) { Some(q) => Some((q, k + len as nat)), None => None },
        None => None,
    }
}
pub open spec fn d_list<T: Decode + Default>(acc: Seq<T>, s: Bs) -> Option<Seq<T>>
    decreases s.len()
{
    if s.len() == 0 { Some(acc) } else {
        match T::dec(T::dflt(), s) {
            Some((x, n)) => if 0 < n <= s.len() { d_list(acc.push(x), s.skip(n as int)) } else { None },
            None => None,
        }
    }
}

// content of one property, its size, and what encoding it appends
pub open spec fn b_u32(id: u8, o: Option<u32>) -> Bs { match o { Some(v) => seq![id] + w32(v), None => Seq::empty() } }
pub open spec fn b_u16(id: u8, o: Option<u16>) -> Bs { match o { Some(v) => seq![id] + w16(v), None => Seq::empty() } }
pub open spec fn b_bool(id: u8, o: Option<bool>) -> Bs { match o { Some(v) => seq![id] + seq![if v { 1u8 } else { 0u8 }], None => Seq::empty() } }
pub open spec fn b_code<T: Code>(id: u8, o: Option<T>) -> Bs { match o { Some(v) => seq![id] + seq![v.code()], None => Seq::empty() } }
pub open spec fn b_str(id: u8, o: Option<String>) -> Bs { match o { Some(v) => seq![id] + e_bin(v@), None => Seq::empty() } }
pub open spec fn b_str1(id: u8, v: String) -> Bs { seq![id] + e_bin(v@) }
pub open spec fn b_bin(id: u8, v: Vec<u8>) -> Bs { if v@.len() > 0 { seq![id] + e_bin(v@) } else { Seq::empty() } }
pub open spec fn b_vbi(id: u8, o: Option<u32>) -> Bs { match o { Some(v) => seq![id] + e_vbi(v), None => Seq::empty() } }

pub open spec fn ef_u32(acc: Bs, id: u8, o: Option<u32>) -> Bs { match o { Some(v) => acc.push(id) + w32(v), None => acc } }
pub open spec fn ef_u16(acc: Bs, id: u8, o: Option<u16>) -> Bs { match o { Some(v) => acc.push(id) + w16(v), None => acc } }
pub open spec fn ef_bool(acc: Bs, id: u8, o: Option<bool>) -> Bs { match o { Some(v) => acc.push(id).push(if v { 1u8 } else { 0u8 }), None => acc } }
pub open spec fn ef_code<T: Code>(acc: Bs, id: u8, o: Option<T>) -> Bs { match o { Some(v) => acc.push(id).push(v.code()), None => acc } }
pub open spec fn ef_str(acc: Bs, id: u8, o: Option<String>) -> Bs { match o { Some(v) => acc.push(id) + e_bin(v@), None => acc } }
pub open spec fn ef_str1(acc: Bs, id: u8, v: String) -> Bs { acc.push(id) + e_bin(v@) }
pub open spec fn ef_bin(acc: Bs, id: u8, v: Vec<u8>) -> Bs { if v@.len() > 0 { acc.push(id) + e_bin(v@) } else { acc } }
pub open spec fn ef_vbi(acc: Bs, id: u8, o: Option<u32>) -> Bs { match o { Some(v) => acc.push(id) + e_vbi(v), None => acc } }

pub open spec fn z_u32(o: Option<u32>) -> nat { match o { Some(v) => 5, None => 0 } }
pub open spec fn z_u16(o: Option<u16>) -> nat { match o { Some(v) => 3, None => 0 } }
pub open spec fn z_bool(o: Option<bool>) -> nat { match o { Some(v) => 2, None => 0 } }
pub open spec fn z_code<T>(o: Option<T>) -> nat { match o { Some(v) => 2, None => 0 } }
pub open spec fn z_str(o: Option<String>) -> nat { match o { Some(v) => v@.len() + 3, None => 0 } }
pub open spec fn z_str1(v: String) -> nat { v@.len() + 3 }
pub open spec fn z_bin(v: Vec<u8>) -> nat { if v@.len() > 0 { v@.len() + 3 } else { 0 } }
pub open spec fn z_vbi(o: Option<u32>) -> nat { match o { Some(v) => vbi_len(v as nat) + 1, None => 0 } }

pub open spec fn ok_str(o: Option<String>) -> bool { match o { Some(v) => fits(v@), None => true } }
pub open spec fn ok_str1(v: String) -> bool { fits(v@) }
pub open spec fn ok_bin(v: Vec<u8>) -> bool { fits(v@) }
pub open spec fn ok_vbi(o: Option<u32>) -> bool { match o { Some(v) => v <= VBI_MAX, None => true } }
pub open spec fn wf_str(o: Option<String>) -> bool { match o { Some(v) => is_utf8(v@), None => true } }
pub open spec fn wf_str1(v: String) -> bool { is_utf8(v@) }

pub proof fn assoc(a: Bs, b: Bs, c: Bs) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub proof fn add_nil(a: Bs) ensures a + Seq::<u8>::empty() == a, Seq::<u8>::empty() + a == a { assert(a + Seq::<u8>::empty() =~= a); assert(Seq::<u8>::empty() + a =~= a); }

pub proof fn l_u32(acc: Bs, id: u8, o: Option<u32>) ensures ef_u32(acc, id, o) == acc + b_u32(id, o), b_u32(id, o).len() == z_u32(o) { assert(ef_u32(acc, id, o) =~= acc + b_u32(id, o)); }
pub proof fn l_u16(acc: Bs, id: u8, o: Option<u16>) ensures ef_u16(acc, id, o) == acc + b_u16(id, o), b_u16(id, o).len() == z_u16(o) { assert(ef_u16(acc, id, o) =~= acc + b_u16(id, o)); }
pub proof fn l_bool(acc: Bs, id: u8, o: Option<bool>) ensures ef_bool(acc, id, o) == acc + b_bool(id, o), b_bool(id, o).len() == z_bool(o) { assert(ef_bool(acc, id, o) =~= acc + b_bool(id, o)); }
pub proof fn l_code<T: Code>(acc: Bs, id: u8, o: Option<T>) ensures ef_code(acc, id, o) == acc + b_code(id, o), b_code(id, o).len() == z_code(o) { assert(ef_code(acc, id, o) =~= acc + b_code(id, o)); }
pub proof fn l_str(acc: Bs, id: u8, o: Option<String>) ensures ef_str(acc, id, o) == acc + b_str(id, o), b_str(id, o).len() == z_str(o) { assert(ef_str(acc, id, o) =~= acc + b_str(id, o)); }
pub proof fn l_str1(acc: Bs, id: u8, o: String) ensures ef_str1(acc, id, o) == acc + b_str1(id, o), b_str1(id, o).len() == z_str1(o) { assert(ef_str1(acc, id, o) =~= acc + b_str1(id, o)); }
pub proof fn l_bin(acc: Bs, id: u8, o: Vec<u8>) ensures ef_bin(acc, id, o) == acc + b_bin(id, o), b_bin(id, o).len() == z_bin(o) { assert(ef_bin(acc, id, o) =~= acc + b_bin(id, o)); }
pub proof fn l_vbi(acc: Bs, id: u8, o: Option<u32>) ensures ef_vbi(acc, id, o) == acc + b_vbi(id, o), b_vbi(id, o).len() == z_vbi(o) { assert(ef_vbi(acc, id, o) =~= acc + b_vbi(id, o)); }

/// reading one property off the front of a section
pub proof fn step<T: Props>(p: T, q: T, id: u8, body: Bs, rest: Bs, m: int)
    requires T::one(p, id, body + rest) == Some((q, body.len())), m >= 0
    ensures props(p, (seq![id] + body) + rest, 1 + body.len() + m) == props(q, rest, m)
{
    let s = (seq![id] + body) + rest;
    props_unfold(p, s, 1 + body.len() + m);
    assert(s.skip(1) =~= body + rest);
    assert(s[0] == id);
    assert((body + rest).skip(body.len() as int) =~= rest);
}

// ---------------------------------------------------------------- user properties
//@item mqtt UserProperty
impl Default for UserProperty {
    open spec fn dflt() -> Self { UserProperty(HashMap::of(Map::empty())) }
//@fn mqtt Default for UserProperty::default | as=vx_default
//@end
}
pub open spec fn e_up(k: String, v: String) -> Bs { (seq![0x26u8] + e_bin(k@)) + e_bin(v@) }
pub open spec fn ef_up1(acc: Bs, k: String, v: String) -> Bs { (acc.push(0x26u8) + e_bin(k@)) + e_bin(v@) }
pub open spec fn uv(acc: Bs, k: String, vs: Seq<String>, n: nat) -> Bs decreases n {
    if n == 0 { acc } else { ef_up1(uv(acc, k, vs, (n - 1) as nat), k, vs[n - 1]) }
}
pub open spec fn uk(acc: Bs, o: Seq<String>, m: Map<String, Vec<String>>, n: nat) -> Bs decreases n {
    if n == 0 { acc } else { uv(uk(acc, o, m, (n - 1) as nat), o[n - 1], m[o[n - 1]]@, m[o[n - 1]]@.len()) }
}
pub open spec fn zv(k: String, vs: Seq<String>, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { zv(k, vs, (n - 1) as nat) + 5 + k@.len() + vs[n - 1]@.len() }
}
pub open spec fn zk(o: Seq<String>, m: Map<String, Vec<String>>, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { zk(o, m, (n - 1) as nat) + zv(o[n - 1], m[o[n - 1]]@, m[o[n - 1]]@.len()) }
}
pub open spec fn okv(k: String, vs: Seq<String>, n: nat) -> bool { forall|j: int| 0 <= j < n ==> fits(k@) && fits((#[trigger] vs[j])@) }
pub open spec fn okk(o: Seq<String>, m: Map<String, Vec<String>>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> okv(#[trigger] o[i], m[o[i]]@, m[o[i]]@.len()) }
pub open spec fn z_up(u: UserProperty) -> nat { zk(order(u.0@), u.0@, order(u.0@).len()) }
pub open spec fn ok_up(u: UserProperty) -> bool { okk(order(u.0@), u.0@, order(u.0@).len()) }
pub open spec fn ef_up(acc: Bs, u: UserProperty) -> Bs { uk(acc, order(u.0@), u.0@, order(u.0@).len()) }
pub open spec fn b_up(u: UserProperty) -> Bs { ef_up(Seq::empty(), u) }
pub open spec fn wf_up(u: UserProperty) -> bool {
    enumerates(order(u.0@), u.0@)
    && (forall|k: String| #[trigger] u.0@.dom().contains(k) ==> is_utf8(k@) && u.0@[k]@.len() > 0 && (forall|j: int| 0 <= j < u.0@[k]@.len() ==> is_utf8((#[trigger] u.0@[k]@[j])@)))
}
pub proof fn zv_mono(k: String, vs: Seq<String>, a: nat, b: nat) requires a <= b ensures zv(k, vs, a) <= zv(k, vs, b) decreases b {
    if a < b { zv_mono(k, vs, a, (b - 1) as nat); }
}
pub proof fn zk_mono(o: Seq<String>, m: Map<String, Vec<String>>, a: nat, b: nat) requires a <= b ensures zk(o, m, a) <= zk(o, m, b) decreases b {
    if a < b { zk_mono(o, m, a, (b - 1) as nat); }
}
pub proof fn l_uv(acc: Bs, k: String, vs: Seq<String>, n: nat)
    ensures uv(acc, k, vs, n) == acc + uv(Seq::empty(), k, vs, n), uv(Seq::empty(), k, vs, n).len() == zv(k, vs, n)
    decreases n
{
    if n == 0 { add_nil(acc); } else {
        l_uv(acc, k, vs, (n - 1) as nat);
        assert(uv(acc, k, vs, n) =~= acc + uv(Seq::empty(), k, vs, n));
    }
}
pub proof fn l_uk(acc: Bs, o: Seq<String>, m: Map<String, Vec<String>>, n: nat)
    ensures uk(acc, o, m, n) == acc + uk(Seq::empty(), o, m, n), uk(Seq::empty(), o, m, n).len() == zk(o, m, n)
    decreases n
{
    if n == 0 { add_nil(acc); } else {
        let k = o[n - 1]; let vs = m[k]@;
        l_uk(acc, o, m, (n - 1) as nat);
        l_uv(uk(acc, o, m, (n - 1) as nat), k, vs, vs.len());
        l_uv(uk(Seq::empty(), o, m, (n - 1) as nat), k, vs, vs.len());
        assert(uk(acc, o, m, n) =~= acc + uk(Seq::empty(), o, m, n));
    }
}
pub proof fn l_up(acc: Bs, u: UserProperty) ensures ef_up(acc, u) == acc + b_up(u), b_up(u).len() == z_up(u) {
    l_uk(acc, order(u.0@), u.0@, order(u.0@).len());
}
/// the map after reading the first n values of key k
pub open spec fn mv(m0: Map<String, Vec<String>>, k: String, vs: Seq<String>, n: nat) -> Map<String, Vec<String>> decreases n {
    if n == 0 { m0 } else { multi_add(mv(m0, k, vs, (n - 1) as nat), k, vs[n - 1]) }
}
pub open spec fn mk(o: Seq<String>, m: Map<String, Vec<String>>, n: nat) -> Map<String, Vec<String>> decreases n {
    if n == 0 { Map::empty() } else { mv(mk(o, m, (n - 1) as nat), o[n - 1], m[o[n - 1]]@, m[o[n - 1]]@.len()) }
}
pub proof fn mv_is(m0: Map<String, Vec<String>>, k: String, vs: Seq<String>, n: nat)
    requires !m0.dom().contains(k), n <= vs.len()
    ensures n > 0 ==> mv(m0, k, vs, n) == m0.insert(k, Vec::of(vs.take(n as int))), n == 0 ==> mv(m0, k, vs, n) == m0
    decreases n
{
    if n > 0 {
        mv_is(m0, k, vs, (n - 1) as nat);
        if n == 1 { assert(seq![vs[0]] =~= vs.take(1)); } else { assert(vs.take(n - 1).push(vs[n - 1]) =~= vs.take(n as int)); }
        assert(mv(m0, k, vs, n) =~= m0.insert(k, Vec::of(vs.take(n as int))));
    }
}
pub proof fn mk_is(o: Seq<String>, m: Map<String, Vec<String>>, n: nat)
    requires enumerates(o, m), n <= o.len(), forall|k: String| #[trigger] m.dom().contains(k) ==> m[k]@.len() > 0
    ensures forall|k: String| #[trigger] mk(o, m, n).dom().contains(k) <==> o.take(n as int).contains(k),
        forall|k: String| #[trigger] mk(o, m, n).dom().contains(k) ==> mk(o, m, n)[k] == m[k],
    decreases n
{
    if n > 0 {
        mk_is(o, m, (n - 1) as nat);
        let k = o[n - 1]; let vs = m[k]@;
        assert(o.contains(k));
        assert(!o.take(n - 1).contains(k)) by {
            if o.take(n - 1).contains(k) { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] o.take(n - 1)[i] == k; assert(o[i] == o[n - 1]); }
        }
        mv_is(mk(o, m, (n - 1) as nat), k, vs, vs.len());
        assert(vs.take(vs.len() as int) =~= vs);
        assert(o.take(n as int) =~= o.take(n - 1).push(k));
        assert forall|x: String| o.take(n as int).contains(x) <==> (o.take(n - 1).contains(x) || x == k) by {
            if o.take(n - 1).contains(x) { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] o.take(n - 1)[i] == x; assert(o.take(n as int)[i] == x); }
            if x == k { assert(o.take(n as int)[n - 1] == x); }
            if o.take(n as int).contains(x) && x != k { let i = choose|i: int| 0 <= i < n && #[trigger] o.take(n as int)[i] == x; assert(o.take(n - 1)[i] == x); }
        }
    } else { assert(o.take(0) =~= Seq::empty()); }
}
pub proof fn st_uv<T: Props>(p: T, k: String, vs: Seq<String>, n: nat, rest: Bs, m: int)
    requires n <= vs.len(), m >= 0, fits(k@), is_utf8(k@), forall|j: int| 0 <= j < n ==> fits((#[trigger] vs[j])@) && is_utf8(vs[j]@)
    ensures props(p, uv(Seq::empty(), k, vs, n) + rest, zv(k, vs, n) + m) == props(T::with_up(p, mv(T::up(p), k, vs, n)), rest, m)
    decreases n
{
    T::up_laws(p, T::up(p), T::up(p));
    if n == 0 { add_nil(rest); } else {
        let v = vs[n - 1];
        let front = uv(Seq::empty(), k, vs, (n - 1) as nat);
        let body = e_bin(k@) + e_bin(v@);
        let m1 = mv(T::up(p), k, vs, (n - 1) as nat);
        let p1 = T::with_up(p, m1);
        let tail = (seq![0x26u8] + body) + rest;
        assert(uv(Seq::empty(), k, vs, n) + rest =~= front + tail);
        bin_round_trip(k@, e_bin(v@) + rest);
        bin_round_trip(v@, rest);
        st_uv(p, k, vs, (n - 1) as nat, tail, m + 5 + k@.len() + v@.len());
        assert(body + rest =~= e_bin(k@) + (e_bin(v@) + rest));
        assert((body + rest).skip(k@.len() as int + 2) =~= e_bin(v@) + rest);
        T::up_one(p1, body + rest);
        T::up_laws(p, m1, multi_add(m1, k, v));
        assert(d_pair(body + rest) == Some((k, v, body.len())));
        step(p1, T::with_up(p, multi_add(m1, k, v)), 0x26, body, rest, m);
    }
}
pub proof fn st_uk<T: Props>(p: T, o: Seq<String>, mm: Map<String, Vec<String>>, n: nat, rest: Bs, m: int)
    requires T::up(p) == Map::<String, Vec<String>>::empty(), enumerates(o, mm), n <= o.len(), m >= 0, okk(o, mm, n),
        forall|k: String| #[trigger] mm.dom().contains(k) ==> is_utf8(k@) && (forall|j: int| 0 <= j < mm[k]@.len() ==> is_utf8((#[trigger] mm[k]@[j])@)),
        forall|k: String| #[trigger] mm.dom().contains(k) ==> mm[k]@.len() > 0
    ensures props(p, uk(Seq::empty(), o, mm, n) + rest, zk(o, mm, n) + m) == props(T::with_up(p, mk(o, mm, n)), rest, m)
    decreases n
{
    T::up_laws(p, T::up(p), T::up(p));
    if n == 0 { add_nil(rest); } else {
        let k = o[n - 1]; let vs = mm[k]@;
        assert(o.contains(k));
        assert(mm.dom().contains(k));
        assert(okv(k, vs, vs.len()));
        assert(vs.len() > 0 && fits(vs[0]@));
        let front = uk(Seq::empty(), o, mm, (n - 1) as nat);
        let mid = uv(Seq::empty(), k, vs, vs.len());
        l_uv(front, k, vs, vs.len());
        assoc(front, mid, rest);
        assert(uk(Seq::empty(), o, mm, n) + rest == front + (mid + rest));
        st_uk(p, o, mm, (n - 1) as nat, mid + rest, m + zv(k, vs, vs.len()));
        let m1 = mk(o, mm, (n - 1) as nat);
        let p1 = T::with_up(p, m1);
        st_uv(p1, k, vs, vs.len(), rest, m);
        T::up_laws(p, m1, mv(m1, k, vs, vs.len()));
    }
}
pub proof fn st_up<T: Props>(p: T, u: UserProperty, rest: Bs, m: int)
    requires T::up(p) == Map::<String, Vec<String>>::empty(), ok_up(u), wf_up(u), m >= 0
    ensures props(p, b_up(u) + rest, z_up(u) + m) == props(T::with_up(p, u.0@), rest, m)
{
    let o = order(u.0@); let mm = u.0@;
    st_uk(p, o, mm, o.len(), rest, m);
    mk_is(o, mm, o.len());
    assert(o.take(o.len() as int) =~= o);
    assert(mk(o, mm, o.len()) =~= mm);
}
impl PropertyCodecSize for UserProperty {
    open spec fn psize(&self) -> nat { z_up(*self) }
//@fn mqtt PropertyCodecSize for UserProperty::property_size | let=size:u32
//@loop 0
        invariant vx_it1@.len() == order(self.0@).len(), vx_i2 <= vx_it1@.len(),
            forall|i: int| 0 <= i < vx_it1@.len() ==> #[trigger] vx_it1@[i] == (&order(self.0@)[i], &self.0@[order(self.0@)[i]]),
            size == zk(order(self.0@), self.0@, vx_i2 as nat), z_up(*self) <= u32::MAX,
        decreases vx_it1@.len() - vx_i2,
//@top 0
        let ghost size0 = size as int;
        proof { zk_mono(order(self.0@), self.0@, (vx_i2 + 1) as nat, order(self.0@).len()); }
//@loop 1
        invariant vx_it3@.len() == values@.len(), vx_i4 <= vx_it3@.len(),
            forall|i: int| 0 <= i < vx_it3@.len() ==> #[trigger] vx_it3@[i] == &values@[i],
            size == size0 + zv(*key, values@, vx_i4 as nat), size0 + zv(*key, values@, values@.len()) <= u32::MAX,
        decreases vx_it3@.len() - vx_i4,
//@top 1
        proof { zv_mono(*key, values@, (vx_i4 + 1) as nat, values@.len()); }
//@end
}
impl Encode for UserProperty {
    open spec fn enc_req(&self) -> bool { true }
    open spec fn enc_ok(&self) -> bool { ok_up(*self) }
    open spec fn enc_acc(&self, acc: Bs) -> Bs { ef_up(acc, *self) }
//@fn mqtt Encode for UserProperty::encode
//@loop 0
        invariant vx_it1@.len() == order(self.0@).len(), vx_i2 <= vx_it1@.len(),
            forall|i: int| 0 <= i < vx_it1@.len() ==> #[trigger] vx_it1@[i] == (&order(self.0@)[i], &self.0@[order(self.0@)[i]]),
            dest@ == uk(old(dest)@, order(self.0@), self.0@, vx_i2 as nat), okk(order(self.0@), self.0@, vx_i2 as nat),
        decreases vx_it1@.len() - vx_i2,
//@top 0
        let ghost dest0 = dest@;
        proof { let i = vx_i2 as int; assert(okk(order(self.0@), self.0@, order(self.0@).len()) ==> okv(order(self.0@)[i], self.0@[order(self.0@)[i]]@, self.0@[order(self.0@)[i]]@.len())); }
//@loop 1
        invariant vx_it3@.len() == values@.len(), vx_i4 <= vx_it3@.len(),
            forall|i: int| 0 <= i < vx_it3@.len() ==> #[trigger] vx_it3@[i] == &values@[i],
            dest@ == uv(dest0, *key, values@, vx_i4 as nat), okv(*key, values@, vx_i4 as nat),
            ok_up(*self) ==> okv(*key, values@, values@.len()),
        decreases vx_it3@.len() - vx_i4,
//@top 1
        proof { let j = vx_i4 as int; assert(0 <= j < values@.len()); let w = values@[j]; if okv(*key, values@, values@.len()) { assert(fits(key@)); assert(fits(w@)); } }
//@end
}
impl Decode for UserProperty {
    open spec fn dec(v: Self, s: Bs) -> Option<(Self, nat)> {
        match d_pair(s) { Some((k, x, n)) => Some((UserProperty(HashMap::of(multi_add(v.0@, k, x))), n)), None => None }
    }
//@fn mqtt Decode for UserProperty::decode
//@end
}
impl UserProperty {
//@fn mqtt UserProperty::new
    ensures r == UserProperty::dflt(),
//@end
//@fn mqtt UserProperty::add
    ensures *final(self) == UserProperty(HashMap::of(multi_add(old(self).0@, key, value))),
//@end
}
