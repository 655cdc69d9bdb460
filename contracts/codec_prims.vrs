//@consts mqtt
// ---------------------------------------------------------------- errors
//@item mqtt ErrorKind | #[derive(Debug)]
//@item mqtt MqttCodecError | #[derive(Debug)]
impl Default for ErrorKind {
    open spec fn dflt() -> ErrorKind { ErrorKind::MalformedPacket }
//@fn mqtt Default for ErrorKind::default | as=vx_default
//@end
}
impl Default for MqttCodecError {
    open spec fn dflt() -> Self { MqttCodecError { reason: String::dflt(), kind: ErrorKind::MalformedPacket } }
//@fn mqtt Default for MqttCodecError::default | as=vx_default
//@end
}
impl MqttCodecError {
//@fn mqtt MqttCodecError::new
    ensures r.kind == ErrorKind::MalformedPacket,
//@end
//@fn mqtt MqttCodecError::new_with_kind
    ensures r.kind == kind,
//@end
}
pub open spec fn short(r: MqttCodecError) -> bool { r.kind is InsufficientData }

// ---------------------------------------------------------------- codec traits
pub trait CodecSize { spec fn size(&self) -> nat;
    fn codec_size(&self) -> (r: u32) requires self.size() <= u32::MAX ensures r == self.size(); }
pub trait PropertyCodecSize { spec fn psize(&self) -> nat;
    fn property_size(&self) -> (r: u32) requires self.psize() <= u32::MAX ensures r == self.psize(); }
pub trait PropertyEncode { spec fn penc_req(&self) -> bool; spec fn penc_ok(&self) -> bool; spec fn penc_acc(&self, acc: Bs) -> Bs;
    fn property_encode(&self, dest: &mut BytesMut) -> (r: Result<(), MqttCodecError>)
        requires self.penc_req()
        ensures r is Ok <==> self.penc_ok(), r is Ok ==> final(dest)@ == self.penc_acc(old(dest)@); }
pub trait Encode { spec fn enc_req(&self) -> bool; spec fn enc_ok(&self) -> bool; spec fn enc_acc(&self, acc: Bs) -> Bs;
    fn encode(&self, dest: &mut BytesMut) -> (r: Result<(), MqttCodecError>)
        requires self.enc_req()
        ensures r is Ok <==> self.enc_ok(), r is Ok ==> final(dest)@ == self.enc_acc(old(dest)@); }
/// dec(v, s): what decoding into v from the bytes s yields: the new value and the bytes taken.
pub trait Decode: Sized { spec fn dec(v: Self, s: Bs) -> Option<(Self, nat)>;
    open spec fn dec_req(v: Self) -> bool { true }
    fn decode(&mut self, src: &mut BytesMut) -> (r: Result<usize, MqttCodecError>)
        requires Self::dec_req(*old(self))
        ensures match Self::dec(*old(self), old(src)@) {
            Some((v, n)) => n <= old(src)@.len() && r == Ok::<usize, MqttCodecError>(n as usize) && *final(self) == v && final(src)@ == old(src)@.skip(n as int),
            None => r is Err,
        }; }

// ---------------------------------------------------------------- primitive field codecs (MQTT 5, 1.5)
pub open spec fn d_u8(s: Bs) -> Option<(u8, nat)> { if s.len() < 1 { None } else { Some((s[0], 1)) } }
pub open spec fn d_u16(s: Bs) -> Option<(u16, nat)> { if s.len() < 2 { None } else { Some((be16(s[0], s[1]), 2)) } }
pub open spec fn d_u32(s: Bs) -> Option<(u32, nat)> { if s.len() < 4 { None } else { Some((be32(s[0], s[1], s[2], s[3]), 4)) } }
pub open spec fn d_bool(s: Bs) -> Option<(bool, nat)> {
    if s.len() < 1 { None } else if s[0] == 0 { Some((false, 1)) } else if s[0] == 1 { Some((true, 1)) } else { None }
}
/// length-prefixed bytes
pub open spec fn d_bin(s: Bs) -> Option<(Bs, nat)> {
    if s.len() < 2 { None } else {
        let n = be16(s[0], s[1]) as nat;
        if s.len() < n + 2 { None } else { Some((s.subrange(2, n as int + 2), n + 2)) }
    }
}
pub open spec fn d_vec(s: Bs) -> Option<(Vec<u8>, nat)> { match d_bin(s) { Some((b, n)) => Some((Vec::of(b), n)), None => None } }
pub open spec fn d_str(s: Bs) -> Option<(String, nat)> {
    match d_bin(s) { Some((b, n)) => if is_utf8(b) { Some((String::of(b), n)) } else { None }, None => None }
}
pub open spec fn d_tf<T: TryFrom<u8>>(s: Bs) -> Option<(T, nat)> {
    if s.len() < 1 { None } else { match T::tf(s[0]) { Some(v) => Some((v, 1)), None => None } }
}
pub const VBI_MAX: u32 = 268_435_455;
/// variable byte integer
pub open spec fn d_vbi(s: Bs) -> Option<(u32, nat)> {
    if s.len() >= 1 && s[0] < 128 { Some((s[0] as u32, 1)) }
    else if s.len() >= 2 && s[0] >= 128 && s[1] < 128 { Some(((s[0] - 128 + s[1] * 128) as u32, 2)) }
    else if s.len() >= 3 && s[0] >= 128 && s[1] >= 128 && s[2] < 128 { Some(((s[0] - 128 + (s[1] - 128) * 128 + s[2] * 16384) as u32, 3)) }
    else if s.len() >= 4 && s[0] >= 128 && s[1] >= 128 && s[2] >= 128 && s[3] < 128 {
        Some(((s[0] - 128 + (s[1] - 128) * 128 + (s[2] - 128) * 16384 + s[3] * 2097152) as u32, 4)) }
    else { None }
}
/// the bytes are a proper prefix of a variable byte integer
pub open spec fn vbi_short(s: Bs) -> bool { s.len() <= 3 && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] >= 128) }
pub open spec fn e_vbi(v: u32) -> Bs {
    if v < 128 { seq![v as u8] }
    else if v < 16384 { seq![(v % 128 + 128) as u8, (v / 128) as u8] }
    else if v < 2097152 { seq![(v % 128 + 128) as u8, (v / 128 % 128 + 128) as u8, (v / 16384) as u8] }
    else { seq![(v % 128 + 128) as u8, (v / 128 % 128 + 128) as u8, (v / 16384 % 128 + 128) as u8, (v / 2097152) as u8] }
}
pub open spec fn vbi_len(v: nat) -> nat { if v < 128 { 1 } else if v < 16384 { 2 } else if v < 2097152 { 3 } else { 4 } }
pub open spec fn e_bin(b: Bs) -> Bs { w16(b.len() as u16) + b }
pub open spec fn fits(b: Bs) -> bool { b.len() <= 65535 }

/// C01: every value round-trips in its shortest form.
pub proof fn vbi_round_trip(v: u32, rest: Bs)
    requires v <= VBI_MAX
    ensures d_vbi(e_vbi(v) + rest) == Some((v, vbi_len(v as nat))), e_vbi(v).len() == vbi_len(v as nat),
        1 <= vbi_len(v as nat) <= 4,
{
    let s = e_vbi(v) + rest;
    assert(v == v % 128 + v / 128 * 128);
    assert(v / 128 == v / 128 % 128 + v / 16384 * 128);
    assert(v / 16384 == v / 16384 % 128 + v / 2097152 * 128);
    assert(forall|i: int| 0 <= i < e_vbi(v).len() ==> s[i] == e_vbi(v)[i]);
    if v < 128 { assert(s[0] == v as u8); }
    else if v < 16384 { assert(s[0] == (v % 128 + 128) as u8 && s[1] == (v / 128) as u8); }
    else if v < 2097152 { assert(s[0] == (v % 128 + 128) as u8 && s[1] == (v / 128 % 128 + 128) as u8 && s[2] == (v / 16384) as u8); }
    else { assert(s[0] == (v % 128 + 128) as u8 && s[1] == (v / 128 % 128 + 128) as u8 && s[2] == (v / 16384 % 128 + 128) as u8 && s[3] == (v / 2097152) as u8); }
}
/// C01: no shorter sequence of bytes denotes the value.
pub proof fn vbi_shortest(s: Bs)
    ensures d_vbi(s) matches Some((v, n)) ==> vbi_len(v as nat) <= n && v <= VBI_MAX && n <= s.len()
{ }
pub proof fn u16_round_trip(v: u16, rest: Bs) ensures d_u16(w16(v) + rest) == Some((v, 2nat)), w16(v).len() == 2 {
    let s = w16(v) + rest; assert(s[0] == (v / 256) as u8 && s[1] == (v % 256) as u8);
}
pub proof fn u32_round_trip(v: u32, rest: Bs) ensures d_u32(w32(v) + rest) == Some((v, 4nat)), w32(v).len() == 4 {
    let s = w32(v) + rest;
    assert(s[0] == (v / 16777216) as u8 && s[1] == (v / 65536 % 256) as u8 && s[2] == (v / 256 % 256) as u8 && s[3] == (v % 256) as u8);
    let (a, b, c, d) = (v / 16777216, v / 65536 % 256, v / 256 % 256, v % 256);
    assert(a == v / 16777216 && b == v / 65536 % 256 && c == v / 256 % 256 && d == v % 256 ==> v == a * 16777216 + b * 65536 + c * 256 + d && a < 256 && b < 256 && c < 256 && d < 256) by (bit_vector);
    assert((a as u8) as int == a && (b as u8) as int == b && (c as u8) as int == c && (d as u8) as int == d);
}
pub proof fn bin_round_trip(b: Bs, rest: Bs) requires fits(b)
    ensures d_bin(e_bin(b) + rest) == Some((b, b.len() + 2)), e_bin(b).len() == b.len() + 2
{
    let s = e_bin(b) + rest;
    u16_round_trip(b.len() as u16, b + rest);
    assert(s =~= w16(b.len() as u16) + (b + rest));
    assert(s.subrange(2, b.len() as int + 2) =~= b);
}

//@fn mqtt require_remaining
    ensures r is Ok <==> src@.len() >= required, r matches Err(e) ==> short(e),
//@end
//@fn mqtt variable_byte_int_size
    ensures r == vbi_len(value as nat), 1 <= r <= 4,
//@end
//@fn mqtt variable_byte_int_size_ref
    ensures r == vbi_len(*value as nat), 1 <= r <= 4,
//@end
//@fn mqtt codec_size_opt_variable_byte_int_ref
    ensures r == (match *src { Some(v) => vbi_len(v as nat), None => 0 }),
//@end
//@fn mqtt decode_variable_byte_int | let=shift:usize
    ensures match d_vbi(old(src)@) {
            Some((v, n)) => r == Ok::<(u32, usize), MqttCodecError>((v, n as usize)) && n <= old(src)@.len() && final(src)@ == old(src)@.skip(n as int),
            None => r is Err && (short(r->Err_0) <==> vbi_short(old(src)@)),
        },
//@loop 0
        invariant
            shift == 0 || shift == 7 || shift == 14 || shift == 21 || (shift == 28 && !decode),
            decode ==> ({ let k = (shift / 7) as int;
                k < old(src)@.len() && next_byte == old(src)@[k] && src@ == old(src)@.skip(k + 1)
                && (forall|i: int| 0 <= i < k ==> #[trigger] old(src)@[i] >= 128)
                && result == (if k == 0 { 0int } else if k == 1 { old(src)@[0] - 128 } else if k == 2 { old(src)@[0] - 128 + (old(src)@[1] - 128) * 128 }
                    else { old(src)@[0] - 128 + (old(src)@[1] - 128) * 128 + (old(src)@[2] - 128) * 16384 }) }),
            !decode ==> shift % 7 == 0 && d_vbi(old(src)@) == Some((result, (shift / 7) as nat)) && src@ == old(src)@.skip((shift / 7) as int) && shift / 7 <= old(src)@.len(),
        decreases (if decode { 29 - shift } else { 0 }),
//@top 0
            proof {
                let b = next_byte;
                assert(((b & 0x7f) as u32) << 0u32 == b as u32 % 128) by (bit_vector);
                assert(((b & 0x7f) as u32) << 7u32 == (b as u32 % 128) * 128) by (bit_vector);
                assert(((b & 0x7f) as u32) << 14u32 == (b as u32 % 128) * 16384) by (bit_vector);
                assert(((b & 0x7f) as u32) << 21u32 == (b as u32 % 128) * 2097152) by (bit_vector);
                assert((b & 0x80 == 0) <==> b < 128) by (bit_vector);
            }
//@bot 0
            proof { if decode { assert(src@ =~= old(src)@.skip(shift / 7 + 1)); } }
//@end
//@fn mqtt decode_opt_variable_byte_int
    ensures match d_vbi(old(src)@) {
            Some((v, n)) => r == Ok::<(Option<u32>, usize), MqttCodecError>((Some(v), n as usize)) && n <= old(src)@.len() && final(src)@ == old(src)@.skip(n as int),
            None => r is Err,
        },
//@end
pub open spec fn vbi_rec(v: u32) -> Bs decreases v { if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + vbi_rec(v / 128) } }
pub proof fn vbi_rec_closed(v: u32) requires v <= VBI_MAX ensures vbi_rec(v) == e_vbi(v) {
    reveal_with_fuel(vbi_rec, 4);
    assert(v / 128 / 128 == v / 16384); assert(v / 16384 / 128 == v / 2097152);
    assert(vbi_rec(v) =~= e_vbi(v));
}
//@fn mqtt encode_variable_byte_int
    ensures r is Ok <==> val <= VBI_MAX, r is Ok ==> final(dest)@ == old(dest)@ + e_vbi(val), r is Err ==> final(dest)@ == old(dest)@,
//@start
    proof { if val <= VBI_MAX { vbi_rec_closed(val); } }
//@loop 0
        invariant
            val <= VBI_MAX, vbi_rec(val) == e_vbi(val),
            old(dest)@ + vbi_rec(val) == dest@ + (if encode { vbi_rec(input_val) } else { Seq::empty() }),
            encode ==> input_val <= val,
        decreases (if encode { input_val + 1 } else { 0int }),
//@top 0
        let ghost iv = input_val; let ghost d0 = dest@;
        proof {
            assert(iv >> 7u32 == iv / 128) by (bit_vector);
            assert(forall|b: u8| b < 128 ==> b | 0x80 == b + 128) by (bit_vector);
            assert(iv >> 7u32 < iv || iv == 0) by (bit_vector);
        }
//@bot 0
        proof { assert(d0 + vbi_rec(iv) =~= dest@ + (if encode { vbi_rec(input_val) } else { Seq::empty() })); }
//@after 0
    proof { assert(dest@ + Seq::<u8>::empty() =~= dest@); }
//@end
//@fn mqtt encode_opt_variable_byte_int
    ensures r is Ok <==> (val matches Some(v) ==> v <= VBI_MAX), r is Ok ==> final(dest)@ == old(dest)@ + (match val { Some(v) => e_vbi(v), None => Seq::empty() }),
//@start
    proof { assert(dest@ + Seq::<u8>::empty() =~= dest@); }
//@end
//@fn mqtt encode_opt_variable_byte_int_ref
    ensures r is Ok <==> (*val matches Some(v) ==> v <= VBI_MAX), r is Ok ==> final(dest)@ == old(dest)@ + (match *val { Some(v) => e_vbi(v), None => Seq::empty() }),
//@start
    proof { assert(dest@ + Seq::<u8>::empty() =~= dest@); }
//@end
//@fn mqtt encode_variable_byte_int_ref
    ensures r is Ok <==> *val <= VBI_MAX, r is Ok ==> final(dest)@ == old(dest)@ + e_vbi(*val),
//@end
/// C01: the functions themselves, composed.
pub fn vx_c01(v: u32, buf: &mut BytesMut) -> (r: Result<(u32, usize), MqttCodecError>)
    requires v <= VBI_MAX, old(buf)@.len() == 0
    ensures r == Ok::<(u32, usize), MqttCodecError>((v, vbi_len(v as nat) as usize)), final(buf)@.len() == 0
{
    let e = encode_variable_byte_int(v, buf);
    proof { vbi_round_trip(v, Seq::empty()); assert(e_vbi(v) + Seq::<u8>::empty() =~= e_vbi(v)); assert(Seq::<u8>::empty() + e_vbi(v) =~= e_vbi(v)); assert(old(buf)@ =~= Seq::<u8>::empty()); }
    decode_variable_byte_int(buf)
}

// ---- strings and binary
impl Decode for String {
    open spec fn dec(v: Self, s: Bs) -> Option<(Self, nat)> { d_str(s) }
//@fn mqtt Decode for String::decode
//@end
}
impl Decode for Vec<u8> {
    open spec fn dec(v: Self, s: Bs) -> Option<(Self, nat)> { d_vec(s) }
//@fn mqtt Decode for Vec<u8>::decode
//@tail
    proof { assert(self@ =~= old(src)@.skip(2).take(len as int)); }
//@end
}
impl Decode for bool {
    open spec fn dec(v: Self, s: Bs) -> Option<(Self, nat)> { d_bool(s) }
//@fn mqtt Decode for bool::decode
//@end
}
impl Decode for u8 {
    open spec fn dec(v: Self, s: Bs) -> Option<(Self, nat)> { d_u8(s) }
//@fn mqtt Decode for u8::decode
//@end
}
impl Decode for u16 {
    open spec fn dec(v: Self, s: Bs) -> Option<(Self, nat)> { d_u16(s) }
//@fn mqtt Decode for u16::decode
//@end
}
impl Decode for u32 {
    open spec fn dec(v: Self, s: Bs) -> Option<(Self, nat)> { d_u32(s) }
//@fn mqtt Decode for u32::decode
//@end
}
//@fn mqtt decode_string
    ensures match d_str(old(src)@) {
            Some((v, n)) => r == Ok::<(String, usize), MqttCodecError>((v, n as usize)) && n <= old(src)@.len() && final(src)@ == old(src)@.skip(n as int),
            None => r is Err,
        },
//@end
//@fn mqtt decode_array_field
    ensures match d_vec(old(src)@) {
            Some((v, n)) => r == Ok::<(Vec<u8>, usize), MqttCodecError>((v, n as usize)) && n <= old(src)@.len() && final(src)@ == old(src)@.skip(n as int),
            None => r is Err,
        },
//@end
//@fn mqtt encode_string
    ensures r is Ok <==> fits(src@), r is Ok ==> final(dest)@ == old(dest)@ + e_bin(src@),
//@tail
    proof { assert(fits(src@) ==> dest@ =~= old(dest)@ + e_bin(src@)); }
//@end
//@fn mqtt encode_array_field
    ensures r is Ok <==> fits(src@), r is Ok ==> final(dest)@ == old(dest)@ + e_bin(src@),
//@tail
    proof { assert(fits(src@) ==> dest@ =~= old(dest)@ + e_bin(src@)); }
//@end
//@fn mqtt codec_size_opt_array_field
    requires *src matches Some(d) ==> d@.len() + 2 <= u32::MAX,
    ensures r == (match *src { Some(d) => d@.len() + 2, None => 0 }),
//@end
//@fn mqtt encode_opt_array_field
    ensures r is Ok <==> (*src matches Some(d) ==> fits(d@)), r is Ok ==> final(dest)@ == old(dest)@ + (match *src { Some(d) => e_bin(d@), None => Seq::empty() }),
//@start
    proof { assert(dest@ + Seq::<u8>::empty() =~= dest@); }
//@end
//@fn mqtt decode_opt_vec_u8_raw
    ensures r == Ok::<(Option<Bytes>, usize), MqttCodecError>((Some(Bytes::of(old(src)@)), old(src)@.len() as usize)), final(src)@ == old(src)@.skip(old(src)@.len() as int),
//@start
    proof { assert(src@.take(src@.len() as int) =~= src@); }
//@end
//@fn mqtt codec_size_opt_vec_u8_raw
    requires *src matches Some(d) ==> d@.len() <= u32::MAX,
    ensures r == (match *src { Some(d) => d@.len(), None => 0 }),
//@end
//@fn mqtt encode_opt_vec_u8_raw_ref
    ensures r is Ok, final(dest)@ == old(dest)@ + (match *src { Some(d) => d@, None => Seq::empty() }),
//@start
    proof { assert(dest@ + Seq::<u8>::empty() =~= dest@); }
//@end
//@fn mqtt codec_size_vec_u8_raw
    requires src@.len() <= u32::MAX,
    ensures r == src@.len(),
//@end
//@fn mqtt encode_vec_u8_raw
    ensures r is Ok, final(dest)@ == old(dest)@ + src@,
//@end
//@fn mqtt decode_vec_u8_raw
    ensures r == Ok::<(Option<Vec<u8>>, usize), MqttCodecError>((Some(Vec::of(old(src)@)), old(src)@.len() as usize)), final(src)@ == old(src)@.skip(old(src)@.len() as int),
//@start
    proof { assert(src@.take(src@.len() as int) =~= src@); }
    broadcast use vec_ext;
//@end
impl CodecSize for &String {
    open spec fn size(&self) -> nat { (**self)@.len() + 2 }
//@fn mqtt CodecSize for &String::codec_size
//@end
}
impl Encode for &String {
    open spec fn enc_req(&self) -> bool { true }
    open spec fn enc_ok(&self) -> bool { fits((**self)@) }
    open spec fn enc_acc(&self, acc: Bs) -> Bs { acc + e_bin((**self)@) }
//@fn mqtt Encode for &String::encode
//@end
}
impl Encode for Vec<u8> {
    open spec fn enc_req(&self) -> bool { true }
    open spec fn enc_ok(&self) -> bool { fits(self@) }
    open spec fn enc_acc(&self, acc: Bs) -> Bs { acc + e_bin(self@) }
//@fn mqtt Encode for Vec<u8>::encode
//@end
}
/// the MQTT code of an enumerated value
pub trait Code: Sized { spec fn code(self) -> u8; proof fn code_tf(self) where Self: TryFrom<u8> ensures Self::tf(self.code()) == Some(self); }
