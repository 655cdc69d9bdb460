// ================================================================ whole packets
//@item mqtt PingReq
//@item mqtt PingResp
pub type PubAck = PubResp;
pub type PubRec = PubResp;
pub type PubRel = PubResp;
pub type PubComp = PubResp;
//@item mqtt Packet

impl Default for PingReq {
    open spec fn dflt() -> Self { PingReq { fixed_header: fh_new(PacketType::PingReq) } }
//@fn mqtt Default for PingReq::default | as=vx_default
//@end
}
impl CodecSize for PingReq { open spec fn size(&self) -> nat { 0 }
//@fn mqtt CodecSize for PingReq::codec_size
//@end
}
impl Encode for PingReq {
    open spec fn enc_req(&self) -> bool { true }
    open spec fn enc_ok(&self) -> bool { true }
    open spec fn enc_acc(&self, acc: Bs) -> Bs { acc.push(fh_byte(self.fixed_header)) + e_vbi(0) }
//@fn mqtt Encode for PingReq::encode
//@end
}

impl Default for PingResp {
    open spec fn dflt() -> Self { PingResp { fixed_header: fh_new(PacketType::PingResp) } }
//@fn mqtt Default for PingResp::default | as=vx_default
//@end
}
impl CodecSize for PingResp { open spec fn size(&self) -> nat { 0 }
//@fn mqtt CodecSize for PingResp::codec_size
//@end
}
impl Encode for PingResp {
    open spec fn enc_req(&self) -> bool { true }
    open spec fn enc_ok(&self) -> bool { true }
    open spec fn enc_acc(&self, acc: Bs) -> Bs { acc.push(fh_byte(self.fixed_header)) + e_vbi(0) }
//@fn mqtt Encode for PingResp::encode
//@end
}

impl PubResp {
//@fn mqtt PubResp::new_with_fixed_header
    ensures match fixed_header.packet_type {
        PacketType::PubAck | PacketType::PubRec | PacketType::PubRel | PacketType::PubComp => r matches Ok(p) && p == (PubResp { fixed_header, ..PubResp::dflt() }),
        _ => r is Err && !short(r->Err_0),
    },
//@end
}
impl Publish {
//@fn mqtt Publish::new_from_header
    requires fh_inv(fixed_header)
    ensures if fixed_header.packet_type == PacketType::Publish && !(fh_dup(fixed_header) && fh_qos(fixed_header) == 0) { r matches Ok(p) && p == (Publish { fixed_header, ..Publish::dflt() }) }
        else { r is Err && !short(r->Err_0) },
//@end
}

impl Encode for Packet {
    open spec fn enc_req(&self) -> bool { match *self { Packet::PingRequest(x) => x.enc_req(), Packet::PingResponse(x) => x.enc_req(), Packet::Connect(x) => x.enc_req(), Packet::Publish(x) => x.enc_req(), Packet::PubAck(x) => x.enc_req(), Packet::PubComp(x) => x.enc_req(), Packet::PubRec(x) => x.enc_req(), Packet::PubRel(x) => x.enc_req(), Packet::Disconnect(x) => x.enc_req(), Packet::ConnAck(x) => x.enc_req(), Packet::Subscribe(x) => x.enc_req(), Packet::SubAck(x) => x.enc_req(), Packet::Unsubscribe(x) => x.enc_req(), Packet::UnsubAck(x) => x.enc_req(), } }
    open spec fn enc_ok(&self) -> bool { match *self { Packet::PingRequest(x) => x.enc_ok(), Packet::PingResponse(x) => x.enc_ok(), Packet::Connect(x) => x.enc_ok(), Packet::Publish(x) => x.enc_ok(), Packet::PubAck(x) => x.enc_ok(), Packet::PubComp(x) => x.enc_ok(), Packet::PubRec(x) => x.enc_ok(), Packet::PubRel(x) => x.enc_ok(), Packet::Disconnect(x) => x.enc_ok(), Packet::ConnAck(x) => x.enc_ok(), Packet::Subscribe(x) => x.enc_ok(), Packet::SubAck(x) => x.enc_ok(), Packet::Unsubscribe(x) => x.enc_ok(), Packet::UnsubAck(x) => x.enc_ok(), } }
    open spec fn enc_acc(&self, acc: Bs) -> Bs { match *self { Packet::PingRequest(x) => x.enc_acc(acc), Packet::PingResponse(x) => x.enc_acc(acc), Packet::Connect(x) => x.enc_acc(acc), Packet::Publish(x) => x.enc_acc(acc), Packet::PubAck(x) => x.enc_acc(acc), Packet::PubComp(x) => x.enc_acc(acc), Packet::PubRec(x) => x.enc_acc(acc), Packet::PubRel(x) => x.enc_acc(acc), Packet::Disconnect(x) => x.enc_acc(acc), Packet::ConnAck(x) => x.enc_acc(acc), Packet::Subscribe(x) => x.enc_acc(acc), Packet::SubAck(x) => x.enc_acc(acc), Packet::Unsubscribe(x) => x.enc_acc(acc), Packet::UnsubAck(x) => x.enc_acc(acc), } }
//@fn mqtt Encode for Packet::encode
//@end
}
pub open spec fn type_of(p: Packet) -> PacketType { match p { Packet::PingRequest(_) => PacketType::PingReq, Packet::PingResponse(_) => PacketType::PingResp, Packet::Connect(_) => PacketType::Connect, Packet::Publish(_) => PacketType::Publish, Packet::PubAck(_) => PacketType::PubAck, Packet::PubComp(_) => PacketType::PubComp, Packet::PubRec(_) => PacketType::PubRec, Packet::PubRel(_) => PacketType::PubRel, Packet::Disconnect(_) => PacketType::Disconnect, Packet::ConnAck(_) => PacketType::ConnAck, Packet::Subscribe(_) => PacketType::Subscribe, Packet::SubAck(_) => PacketType::SubAck, Packet::Unsubscribe(_) => PacketType::Unsubscribe, Packet::UnsubAck(_) => PacketType::UnsubAck, } }
impl PacketType {
//@fn mqtt From<&Packet> for PacketType::from | free as=vx_from_packet
    ensures r == type_of(*p),
//@end
}

/// the packet whose header is h and whose remaining bytes start s
#[verifier::opaque]
pub open spec fn d_body(h: FixedHeader, s: Bs) -> Option<(Packet, nat)> {
    match h.packet_type {
        PacketType::PingReq => Some((Packet::PingRequest(PingReq::dflt()), 0)),
        PacketType::PingResp => Some((Packet::PingResponse(PingResp::dflt()), 0)),
        PacketType::Connect => match Connect::dec(connect_new(String::of(Seq::empty())), s) { Some((v, n)) => Some((Packet::Connect(Box::new(v)), n)), None => None },
        PacketType::Publish => if fh_dup(h) && fh_qos(h) == 0 { None } else { match Publish::dec(Publish { fixed_header: h, ..Publish::dflt() }, s) { Some((v, n)) => Some((Packet::Publish(v), n)), None => None } },
        PacketType::PubAck => match PubResp::dec(PubResp { fixed_header: h, ..PubResp::dflt() }, s) { Some((v, n)) => Some((Packet::PubAck(v), n)), None => None },
        PacketType::PubComp => match PubResp::dec(PubResp { fixed_header: h, ..PubResp::dflt() }, s) { Some((v, n)) => Some((Packet::PubComp(v), n)), None => None },
        PacketType::PubRec => match PubResp::dec(PubResp { fixed_header: h, ..PubResp::dflt() }, s) { Some((v, n)) => Some((Packet::PubRec(v), n)), None => None },
        PacketType::PubRel => match PubResp::dec(PubResp { fixed_header: h, ..PubResp::dflt() }, s) { Some((v, n)) => Some((Packet::PubRel(v), n)), None => None },
        PacketType::Disconnect => match Disconnect::dec(Disconnect::dflt(), s) { Some((v, n)) => Some((Packet::Disconnect(v), n)), None => None },
        PacketType::ConnAck => match ConnAck::dec(ConnAck::dflt(), s) { Some((v, n)) => Some((Packet::ConnAck(v), n)), None => None },
        PacketType::Subscribe => match Subscribe::dec(Subscribe::dflt(), s) { Some((v, n)) => Some((Packet::Subscribe(v), n)), None => None },
        PacketType::SubAck => match SubAck::dec(SubAck::dflt(), s) { Some((v, n)) => Some((Packet::SubAck(v), n)), None => None },
        PacketType::Unsubscribe => match Unsubscribe::dec(Unsubscribe::dflt(), s) { Some((v, n)) => Some((Packet::Unsubscribe(v), n)), None => None },
        PacketType::UnsubAck => match UnsubAck::dec(UnsubAck::dflt(), s) { Some((v, n)) => Some((Packet::UnsubAck(v), n)), None => None },
        _ => None,
    }
}
/// the client id a CONNECT is decoded into does not matter
pub proof fn props_cid(p: Connect, q: Connect, s: Bs, n: int)
    requires q == (Connect { client_id: q.client_id, ..p })
    ensures match props(p, s, n) { Some(x) => props(q, s, n) == Some(Connect { client_id: q.client_id, ..x }), None => props(q, s, n) is None }
    decreases (if n < 0 { 0 } else { n + 1 })
{
    props_unfold(p, s, n); props_unfold(q, s, n);
    if n > 0 && s.len() >= 1 {
        match Connect::one(p, s[0], s.skip(1)) {
            Some((p1, k)) => {
                let q1 = Connect { client_id: q.client_id, ..p1 };
                assert(Connect::one(q, s[0], s.skip(1)) == Some((q1, k)));
                props_cid(p1, q1, s.skip(1).skip(k as int), n - 1 - k);
            },
            None => { assert(Connect::one(q, s[0], s.skip(1)) is None); },
        }
    }
}
pub proof fn connect_any(a: String, b: String, s: Bs)
    ensures Connect::dec(connect_new(a), s) == Connect::dec(connect_new(b), s)
{
    reveal(Connect_dec); let p = connect_new(a); let q = connect_new(b);
    match Connect_hdr(p, s) {
        Some((p1, k)) => {
            let q1 = Connect { client_id: b, ..p1 };
            assert(Connect_hdr(q, s) == Some((q1, k)));
            match d_vbi(s.skip(k as int)) { Some((len, m)) => { props_cid(p1, q1, s.skip(k as int).skip(m as int), len as int); }, None => { } }
        },
        None => { assert(Connect_hdr(q, s) is None); },
    }
}
pub open spec fn fh_of(b: u8) -> FixedHeader { FixedHeader { packet_type: pt_of(b), flags: (b % 16) as u8 } }
pub open spec fn header_ok(b: u8) -> bool { fh_flags_ok(pt_of(b), (b % 16) as u8) }
/// the content of exactly one frame
pub open spec fn packet_of(f: Bs) -> Option<Packet> {
    match d_vbi(f.skip(1)) {
        Some((v, k)) => match d_body(fh_of(f[0]), f.skip(1).skip(k as int)) { Some((p, n)) => if n == v { Some(p) } else { None }, None => None },
        None => None,
    }
}

/// Where the first packet of a byte sequence ends: Partial while that cannot be told or bytes are missing.
pub enum Frame { Partial, Bad, Whole(int) }
pub open spec fn frame(s: Seq<u8>) -> Frame {
    if s.len() < 2 { Frame::Partial }
    else if !header_ok(s[0]) { Frame::Bad }
    else { match d_vbi(s.skip(1)) {
        Some((v, n)) => if s.len() < 1 + n + v { Frame::Partial } else { Frame::Whole(1 + n + v) },
        None => if vbi_short(s.skip(1)) { Frame::Partial } else { Frame::Bad },
    } }
}
/// more bytes do not change where the first packet ends
pub proof fn frame_grows(s: Seq<u8>, t: Seq<u8>)
    ensures frame(s) is Partial || frame(s + t) == frame(s), frame(s) matches Frame::Whole(n) ==> 2 <= n <= s.len() && (s + t).take(n) == s.take(n) && (s + t).skip(n) == s.skip(n) + t,
{
    let u = s + t;
    if !(frame(s) is Partial) {
        assert(s.len() >= 2);
        assert(u[0] == s[0]);
        assert forall|i: int| 0 <= i < s.len() - 1 implies s.skip(1)[i] == #[trigger] u.skip(1)[i] by { }
        if let Frame::Whole(n) = frame(s) { assert(u.take(n) =~= s.take(n)); assert(u.skip(n) =~= s.skip(n) + t); }
        if frame(s) is Bad && header_ok(s[0]) {
            let a = s.skip(1);
            let b = u.skip(1);
            if a.len() <= 3 {
                let i = choose|i: int| 0 <= i < a.len() && a[i] < 128;
                assert(a[i] < 128);
                assert(i == 0 || i == 1 || i == 2);
                assert(a[0] < 128 || a[1] < 128 || a[2] < 128);
            }
            assert(a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]);
            assert(d_vbi(b) is None);
            assert(!vbi_short(b));
        }
    }
}

/// C03: every proper prefix of a packet is incomplete
pub proof fn frame_prefix(s: Bs, k: int)
    ensures frame(s) matches Frame::Whole(n) ==> (0 <= k < n ==> frame(s.take(k)) is Partial)
{
    if let Frame::Whole(n) = frame(s) { if 0 <= k < n { frame_grows(s.take(k), s.skip(k)); frame_grows(s, Seq::empty()); assert(s.take(k) + s.skip(k) =~= s); } }
}
/// a frame is decoded from its own bytes
pub proof fn frame_whole(s: Bs, n: int)
    requires frame(s) == Frame::Whole(n)
    ensures d_vbi(s.take(n).skip(1)) == d_vbi(s.skip(1)), s.take(n)[0] == s[0], n >= 2
{
    let a = s.take(n).skip(1); let b = s.skip(1);
    let (v, k) = d_vbi(b)->0;
    assert(forall|i: int| 0 <= i < k ==> a[i] == b[i]);
    if k >= 1 { assert(a[0] == b[0]); }
    if k >= 2 { assert(a[1] == b[1]); }
    if k >= 3 { assert(a[2] == b[2]); }
    if k >= 4 { assert(a[3] == b[3]); }
}
//@fn mqtt decode_packet
    requires fh_flags_ok(fixed_header.packet_type, fixed_header.flags), decode_len <= 5,
    ensures match d_body(fixed_header, old(src)@) {
        Some((p, n)) => r matches Ok(o) && o matches Some(x) && x.0 == p && x.1 == decode_len + n && n <= old(src)@.len(),
        None => r is Err,
    },
//@start
    proof { reveal(d_body); bytesmut_len(src); assert forall|c: String| #[trigger] Connect::dec(connect_new(c), src@) == Connect::dec(connect_new(String::of(Seq::empty())), src@) by { connect_any(c, String::of(Seq::empty()), src@); } }
//@end
/// C02, C03: decoding is the frame and its content, for every buffer
//@fn mqtt decode | index
    ensures
        r matches Ok(x) ==> (x matches Some(t) && frame(old(src)@) == Frame::Whole(t.1 as int) && packet_of(old(src)@.take(t.1 as int)) == Some(t.0)),
        r matches Err(e) ==> if short(e) { frame(old(src)@) is Partial }
            else { frame(old(src)@) is Bad || (frame(old(src)@) matches Frame::Whole(n) && packet_of(old(src)@.take(n)) is None) },
//@start
    proof { bytesmut_len(src); }
//@loop 0
        invariant src@ == old(src)@.skip(1), old(src)@.len() >= 2, header_ok(old(src)@[0]), vx_r1 <= 4, vx_e2 == 3, forall|i: int| 0 <= i < vx_r1 ==> #[trigger] src@[i] >= 128,
        decreases 4 - vx_r1,
//@aftercall decode_variable_byte_int
    proof {
        let s0 = old(src)@;
        let t = s0.skip(1);
        let (v, k) = d_vbi(t)->0;
        assert(src@ == t.skip(k as int));
        if src@.len() >= v {
            let n = 1 + k + v;
            let f = s0.take(n as int);
            assert(frame(s0) == Frame::Whole(n as int));
            frame_whole(s0, n as int);
            assert(f.skip(1).skip(k as int) =~= src@.take(v as int));
            if src@.len() == v { assert(src@.take(v as int) =~= src@); }
        }
    }
//@top 0
        proof { if vx_r1 < src@.len() { let b = src@[vx_r1 as int]; assert((b & 0x80 == 0) <==> b < 128) by (bit_vector); } }
//@end

// ---------------------------------------------------------------- every packet read back (C03, C05-C09)
pub open spec fn hdr_wf(h: FixedHeader, t: PacketType) -> bool { h.packet_type == t && h.flags < 16 && fh_flags_ok(t, h.flags) }
/// the packets the protocol allows: what each field may hold, and the header that goes with the type
pub open spec fn packet_wf(p: Packet) -> bool {
    match p {
        Packet::PingRequest(x) => x == PingReq::dflt(),
        Packet::PingResponse(x) => x == PingResp::dflt(),
        Packet::Connect(x) => Connect_wf(*x),
        Packet::Publish(x) => Publish_wf(x) && hdr_wf(x.fixed_header, PacketType::Publish) && !(fh_dup(x.fixed_header) && fh_qos(x.fixed_header) == 0),
        Packet::PubAck(x) => PubResp_wf(x) && hdr_wf(x.fixed_header, PacketType::PubAck),
        Packet::PubComp(x) => PubResp_wf(x) && hdr_wf(x.fixed_header, PacketType::PubComp),
        Packet::PubRec(x) => PubResp_wf(x) && hdr_wf(x.fixed_header, PacketType::PubRec),
        Packet::PubRel(x) => PubResp_wf(x) && hdr_wf(x.fixed_header, PacketType::PubRel),
        Packet::Disconnect(x) => Disconnect_wf(x),
        Packet::ConnAck(x) => ConnAck_wf(x),
        Packet::Subscribe(x) => Subscribe_wf(x),
        Packet::SubAck(x) => SubAck_wf(x),
        Packet::Unsubscribe(x) => Unsubscribe_wf(x),
        Packet::UnsubAck(x) => UnsubAck_wf(x),
    }
}
/// the same packet as it reads back: an absent payload as an empty one, a short acknowledgement without its implied reason
pub open spec fn packet_norm(p: Packet) -> Packet {
    match p {
        Packet::Publish(x) => Packet::Publish(Publish_norm(x)),
        Packet::PubAck(x) => Packet::PubAck(PubResp_norm(x)),
        Packet::PubComp(x) => Packet::PubComp(PubResp_norm(x)),
        Packet::PubRec(x) => Packet::PubRec(PubResp_norm(x)),
        Packet::PubRel(x) => Packet::PubRel(PubResp_norm(x)),
        _ => p,
    }
}
pub open spec fn hdr_of(p: Packet) -> FixedHeader { match p { Packet::PingRequest(x) => x.fixed_header, Packet::PingResponse(x) => x.fixed_header, Packet::Connect(x) => x.fixed_header, Packet::Publish(x) => x.fixed_header, Packet::PubAck(x) => x.fixed_header, Packet::PubComp(x) => x.fixed_header, Packet::PubRec(x) => x.fixed_header, Packet::PubRel(x) => x.fixed_header, Packet::Disconnect(x) => x.fixed_header, Packet::ConnAck(x) => x.fixed_header, Packet::Subscribe(x) => x.fixed_header, Packet::SubAck(x) => x.fixed_header, Packet::Unsubscribe(x) => x.fixed_header, Packet::UnsubAck(x) => x.fixed_header, } }
pub open spec fn size_of_packet(p: Packet) -> nat { match p { Packet::PingRequest(x) => 0, Packet::PingResponse(x) => 0, Packet::Connect(x) => x.size(), Packet::Publish(x) => x.size(), Packet::PubAck(x) => x.size(), Packet::PubComp(x) => x.size(), Packet::PubRec(x) => x.size(), Packet::PubRel(x) => x.size(), Packet::Disconnect(x) => x.size(), Packet::ConnAck(x) => x.size(), Packet::Subscribe(x) => x.size(), Packet::SubAck(x) => x.size(), Packet::Unsubscribe(x) => x.size(), Packet::UnsubAck(x) => x.size(), } }
pub open spec fn body_of(p: Packet) -> Bs { match p { Packet::PingRequest(x) => Seq::empty(), Packet::PingResponse(x) => Seq::empty(), Packet::Connect(x) => Connect_body(*x), Packet::Publish(x) => Publish_body(x), Packet::PubAck(x) => PubResp_body(x), Packet::PubComp(x) => PubResp_body(x), Packet::PubRec(x) => PubResp_body(x), Packet::PubRel(x) => PubResp_body(x), Packet::Disconnect(x) => Disconnect_body(x), Packet::ConnAck(x) => ConnAck_body(x), Packet::Subscribe(x) => Subscribe_body(x), Packet::SubAck(x) => SubAck_body(x), Packet::Unsubscribe(x) => Unsubscribe_body(x), Packet::UnsubAck(x) => UnsubAck_body(x), } }
pub proof fn packet_parts(p: Packet)
    requires packet_wf(p)
    ensures hdr_wf(hdr_of(p), type_of(p)), size_of_packet(p) <= VBI_MAX
{ }
/// what encode writes: one header byte, the remaining length, and exactly that many bytes
pub proof fn packet_shape(p: Packet, acc: Bs)
    requires size_of_packet(p) <= VBI_MAX
    ensures p.enc_acc(acc) == (acc.push(fh_byte(hdr_of(p))) + e_vbi(size_of_packet(p) as u32)) + body_of(p), body_of(p).len() == size_of_packet(p)
{
    match p {
        Packet::PingRequest(x) => { add_nil(acc.push(fh_byte(x.fixed_header)) + e_vbi(0)); },
        Packet::PingResponse(x) => { add_nil(acc.push(fh_byte(x.fixed_header)) + e_vbi(0)); },
        Packet::Connect(x) => { Connect_shape(*x, acc); },
        Packet::Publish(x) => { Publish_shape(x, acc); },
        Packet::PubAck(x) => { PubResp_shape(x, acc); }, Packet::PubComp(x) => { PubResp_shape(x, acc); }, Packet::PubRec(x) => { PubResp_shape(x, acc); }, Packet::PubRel(x) => { PubResp_shape(x, acc); },
        Packet::Disconnect(x) => { Disconnect_shape(x, acc); },
        Packet::ConnAck(x) => { ConnAck_shape(x, acc); },
        Packet::Subscribe(x) => { Subscribe_shape(x, acc); },
        Packet::SubAck(x) => { SubAck_shape(x, acc); },
        Packet::Unsubscribe(x) => { Unsubscribe_shape(x, acc); },
        Packet::UnsubAck(x) => { UnsubAck_shape(x, acc); },
    }
}
pub proof fn packet_body_rt(p: Packet)
    requires packet_wf(p)
    ensures d_body(hdr_of(p), body_of(p)) == Some((packet_norm(p), size_of_packet(p)))
{
    reveal(d_body);
    match p {
        Packet::PingRequest(_) | Packet::PingResponse(_) => { },
        Packet::Connect(x) => { Connect_rt(*x, String::of(Seq::empty())); },
        Packet::Publish(x) => { Publish_rt(x); },
        Packet::PubAck(x) => { PubResp_rt(x); }, Packet::PubComp(x) => { PubResp_rt(x); }, Packet::PubRec(x) => { PubResp_rt(x); }, Packet::PubRel(x) => { PubResp_rt(x); },
        Packet::Disconnect(x) => { Disconnect_rt(x); },
        Packet::ConnAck(x) => { ConnAck_rt(x); },
        Packet::Subscribe(x) => { Subscribe_rt(x); },
        Packet::SubAck(x) => { SubAck_rt(x); },
        Packet::Unsubscribe(x) => { Unsubscribe_rt(x); },
        Packet::UnsubAck(x) => { UnsubAck_rt(x); },
    }
}
pub proof fn header_rt(h: FixedHeader)
    requires hdr_wf(h, h.packet_type)
    ensures header_ok(fh_byte(h)), fh_of(fh_byte(h)) == h
{ packettype_code(h.packet_type); let c = h.packet_type.code(); let f = h.flags; assert(c % 16 == 0); assert((c + f) % 16 == f); assert((c + f) / 16 * 16 == c); }
/// the packet read back, whatever follows it
pub proof fn packet_rt(p: Packet, rest: Bs)
    requires packet_wf(p)
    ensures ({ let e = p.enc_acc(Seq::empty()); frame(e + rest) == Frame::Whole(e.len() as int) && packet_of(e) == Some(packet_norm(p)) && (e + rest).take(e.len() as int) == e
        && e.len() == 1 + vbi_len(size_of_packet(p)) + size_of_packet(p) })
{
    let e = p.enc_acc(Seq::empty()); let h = hdr_of(p); let z = size_of_packet(p); let b = body_of(p);
    packet_parts(p); packet_shape(p, Seq::empty()); packet_body_rt(p); header_rt(h);
    vbi_round_trip(z as u32, b); vbi_round_trip(z as u32, b + rest);
    assert(e =~= seq![fh_byte(h)] + (e_vbi(z as u32) + b));
    assert(e.skip(1) =~= e_vbi(z as u32) + b);
    assert((e + rest).skip(1) =~= e_vbi(z as u32) + (b + rest));
    assert(e.skip(1).skip(vbi_len(z) as int) =~= b);
    assert((e + rest).take(e.len() as int) =~= e);
}
/// C03, C05-C09: the functions themselves, composed: what encode writes, decode gives back, and takes exactly that
pub fn vx_round_trip(p: &Packet, buf: &mut BytesMut) -> (r: Result<Option<(Packet, usize)>, MqttCodecError>)
    requires packet_wf(*p), old(buf)@.len() == 0
    ensures r == Ok::<Option<(Packet, usize)>, MqttCodecError>(Some((packet_norm(*p), (1 + vbi_len(size_of_packet(*p)) + size_of_packet(*p)) as usize)))
{
    let e = p.encode(buf);
    proof { packet_rt(*p, Seq::empty()); assert(old(buf)@ =~= Seq::<u8>::empty()); add_nil(buf@); }
    decode(buf)
}
