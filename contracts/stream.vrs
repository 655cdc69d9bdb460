// ---- C24: the packet stream ----
/// A packet: the codec's business (C02-C12).
#[verifier::external_body]
pub struct Packet { }
pub enum ErrorKind { InsufficientData(usize, usize), Other }
pub struct MqttCodecError { pub kind: ErrorKind }
pub enum IoErrorKind { WouldBlock, TimedOut, UnexpectedEof, Other }
/// made: by the packet stream itself, not by the transport
pub struct IoError { pub made: Ghost<bool>, pub k: IoErrorKind }
impl IoError {
    #[verifier::external_body]
    pub fn kind(&self) -> (r: IoErrorKind) ensures r == self.k { unimplemented!() }
}
impl VxInto<IoError> for IoErrorKind {
    open spec fn into_ok(self, r: IoError) -> bool { r.made@ && r.k == self }
    #[verifier::external_body]
    fn vx_into(self) -> IoError { unimplemented!() }
}
pub struct Bytes { pub s: Ghost<Seq<u8>> }
impl Bytes {
    pub open spec fn view(&self) -> Seq<u8> { self.s@ }
    #[verifier::external_body]
    pub fn copy_from_slice(s: &Vec<u8>) -> (r: Bytes) ensures r@ == s@ { unimplemented!() }
}
pub struct BytesMut { pub s: Ghost<Seq<u8>> }
impl BytesMut {
    pub open spec fn view(&self) -> Seq<u8> { self.s@ }
    #[verifier::external_body]
    pub fn from(s: &Vec<u8>) -> (r: BytesMut) ensures r@ == s@ { unimplemented!() }
}
impl Default for BytesMut {
    open spec fn dflt(r: BytesMut) -> bool { r@ == Seq::<u8>::empty() }
    #[verifier::external_body]
    fn vx_default() -> BytesMut { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_sub(v: &Vec<u8>, a: usize, b: usize) -> (r: &Vec<u8>) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_copy_range(v: &mut Vec<u8>, a: usize, b: usize, c: usize)
    requires a <= b <= old(v)@.len(), c + (b - a) <= old(v)@.len()
    ensures final(v)@ == old(v)@.take(c as int) + old(v)@.subrange(a as int, b as int) + old(v)@.skip(c + (b - a))
{ unimplemented!() }
pub fn vx_copy_within(v: &mut Vec<u8>, a: usize, b: usize, c: usize)
    requires a <= b <= old(v)@.len(), c + (b - a) <= old(v)@.len()
    ensures final(v)@ == old(v)@.take(c as int) + old(v)@.subrange(a as int, b as int) + old(v)@.skip(c + (b - a)), final(v)@.len() == old(v)@.len(),
        c == 0 ==> final(v)@.take(b - a) == old(v)@.take(b as int).skip(a as int),
{
    vx_copy_range(v, a, b, c);
    proof { if c == 0 { assert(v@.take(b - a) =~= old(v)@.take(b as int).skip(a as int)); } }
}
pub fn vx_resize(v: &mut Vec<u8>, n: usize, x: u8)
    ensures final(v)@.len() == n, forall|k: int| 0 <= k <= old(v)@.len() && k <= n ==> #[trigger] final(v)@.take(k) == old(v)@.take(k)
{
    v.resize(n, x);
    proof { assert forall|k: int| 0 <= k <= old(v)@.len() && k <= n implies #[trigger] v@.take(k) == old(v)@.take(k) by { assert(v@.take(k) =~= old(v)@.take(k)); } }
}
#[verifier::external_body]
pub fn vx_from_elem(x: u8, n: usize) -> (r: Vec<u8>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x { unimplemented!() }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
/// The transport: the bytes it will still deliver before it ends, and those it was given.
/// A read delivers some of them, at least one unless there is no room or nothing is left; a failing read consumes none.
pub struct AsyncMqttStream { pub rest: Ghost<Seq<u8>>, pub sent: Ghost<Seq<u8>> }
impl AsyncMqttStream {
    #[verifier::external_body]
    pub fn read_into(&mut self, v: &mut Vec<u8>, from: usize) -> (r: Result<usize, IoError>)
        requires from <= old(v)@.len()
        ensures final(self).sent == old(self).sent, final(v)@.len() == old(v)@.len(), final(v)@.take(from as int) == old(v)@.take(from as int),
            r matches Ok(n) ==> n <= old(v)@.len() - from && n <= old(self).rest@.len() && (n == 0 <==> from == old(v)@.len() || old(self).rest@.len() == 0)
                && final(v)@.subrange(from as int, from + n) == old(self).rest@.take(n as int) && final(self).rest@ == old(self).rest@.skip(n as int),
            r matches Err(e) ==> final(self).rest == old(self).rest && !e.made@,
    { unimplemented!() }
    pub fn read(&mut self, v: &mut Vec<u8>, from: usize) -> (r: Result<usize, IoError>)
        requires from <= old(v)@.len()
        ensures final(self).sent == old(self).sent, final(v)@.len() == old(v)@.len(),
            r matches Ok(n) ==> n <= old(v)@.len() - from && (n == 0 <==> from == old(v)@.len() || old(self).rest@.len() == 0) && final(self).rest@.len() == old(self).rest@.len() - n
                && final(v)@.take(from + n) + final(self).rest@ == old(v)@.take(from as int) + old(self).rest@,
            r matches Err(e) ==> final(self).rest == old(self).rest && !e.made@ && final(v)@.take(from as int) == old(v)@.take(from as int),
    {
        let r = self.read_into(v, from);
        proof { if let Ok(n) = r {
            assert(v@.take(from + n) =~= v@.take(from as int) + v@.subrange(from as int, from + n));
            assert(v@.take(from + n) + self.rest@ =~= old(v)@.take(from as int) + old(self).rest@);
        } }
        r
    }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &BytesMut) -> (r: Result<(), IoError>)
        ensures final(self).rest == old(self).rest, r is Ok ==> final(self).sent@ == old(self).sent@ + b@, r is Err ==> old(self).sent@.is_prefix_of(final(self).sent@) && final(self).sent@.is_prefix_of(old(self).sent@ + b@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shutdown(&mut self) -> (r: Result<(), IoError>) ensures *final(self) == *old(self) { unimplemented!() }
}
pub type Bs = Seq<u8>;
pub uninterp spec fn header_ok(b: u8) -> bool;
//@spec codec_prims.vrs d_vbi vbi_short
//@include frame.vrs
/// what the bytes of one frame decode to; decode is a function of these bytes alone
pub uninterp spec fn packet_of(s: Seq<u8>) -> Option<Packet>;
pub uninterp spec fn encoding(p: Packet, b: Seq<u8>) -> bool;
/// Assumed of the codec; its framing part is proved there (C03).
#[verifier::external_body]
pub fn decode(src: &mut BytesMut) -> (r: Result<Option<(Packet, usize)>, MqttCodecError>)
    ensures
        r matches Ok(x) ==> (x matches Some(t) && frame(old(src)@) == Frame::Whole(t.1 as int) && packet_of(old(src)@.take(t.1 as int)) == Some(t.0)),
        r matches Err(e) ==> if e.kind is InsufficientData { frame(old(src)@) is Partial }
            else { frame(old(src)@) is Bad || (frame(old(src)@) matches Frame::Whole(n) && packet_of(old(src)@.take(n)) is None) },
{ unimplemented!() }
impl Packet {
    #[verifier::external_body]
    pub fn encode(&mut self, dest: &mut BytesMut) -> (r: Result<(), MqttCodecError>)
        ensures *final(self) == *old(self), r is Ok ==> exists|b: Seq<u8>| #[trigger] encoding(*old(self), b) && final(dest)@ == old(dest)@ + b
    { unimplemented!() }
}
//@consts async
//@item async Error
//@item async PacketStream
impl PacketStream {
    pub open spec fn wf(self) -> bool {
        0 < self.read_buffer@.len() <= self.max_buffer_size && self.max_buffer_size <= usize::MAX / 2
        && self.read_offset <= self.read_buffer@.len() && (self.read_offset == self.read_buffer@.len() ==> self.read_offset == self.max_buffer_size)
    }
    /// everything received and not yet handed out, and everything to come
    pub open spec fn input(self) -> Seq<u8> { self.read_buffer@.take(self.read_offset as int) + self.stream.rest@ }
}
pub open spec fn transport(e: Error) -> bool { match e { Error::Io(x) => !x.made@, Error::ReadTimeout(x) => !x.made@, _ => false } }
/// what reading one packet does with the input
pub open spec fn yields(s: Seq<u8>, max: int, raw: bool, s1: Seq<u8>, r: Result<Option<(Packet, Option<Bytes>)>, Error>) -> bool {
    match r {
        Ok(Some(x)) => exists|n: int| #[trigger] frame(s) == Frame::Whole(n) && packet_of(s.take(n)) == Some(x.0) && s1 == s.skip(n) && n <= max
            && (raw ==> (x.1 matches Some(b) && b@ == s.take(n))),
        Ok(None) => s.len() == 0 && s1 == s,
        Err(e) => s1 == s && (transport(e) || match e {
            Error::ReadBuffer => s.len() >= max && frame(s.take(max)) is Partial,
            Error::Codec(_) => frame(s) is Bad || (frame(s) matches Frame::Whole(n) && packet_of(s.take(n)) is None),
            _ => s.len() > 0 && frame(s) is Partial,
        }),
    }
}
impl PacketStream {
//@fn async PacketStream::new
    requires max_buffer_size matches Some(m) ==> m <= usize::MAX / 2
    ensures r.wf(), r.input() == stream.rest@, r.stream == stream,
        r.max_buffer_size == (match max_buffer_size { Some(m) => if m == 0 { 1usize } else { m }, None => 4_194_304usize }),
//@end
//@fn async PacketStream::buffer_size
    ensures r == self.read_buffer@.len(),
//@end
//@fn async PacketStream::read_internal | slices
    requires old(self).wf()
    ensures final(self).wf(), final(self).max_buffer_size == old(self).max_buffer_size, final(self).stream.sent == old(self).stream.sent,
        yields(old(self).input(), old(self).max_buffer_size as int, with_bytes, final(self).input(), r),
//@loop 0
    invariant self.wf(), self.read_offset == bytes_read, self.input() == old(self).input(), self.max_buffer_size == old(self).max_buffer_size, self.stream.sent == old(self).stream.sent,
    decreases self.stream.rest@.len()
//@top 0
    proof {
        let s0 = old(self).input();
        let m = self.max_buffer_size as int;
        let seen = self.read_buffer@.take(bytes_read as int);
        assert(s0 == seen + self.stream.rest@);
        frame_grows(seen, self.stream.rest@);
        if bytes_read == m { assert(s0.take(m) =~= seen); }
        if self.stream.rest@.len() == 0 { assert(s0 =~= seen); }
        assert(seen =~= self.read_buffer@.subrange(0, bytes_read as int));
        if let Frame::Whole(n) = frame(seen) { assert(self.read_buffer@.subrange(0, n) =~= seen.take(n)); if n == bytes_read { assert(s0.skip(n) =~= self.read_buffer@.take(0) + self.stream.rest@); } }
    }
//@await
    assert(self.wf() && self.input() == old(self).input()); // @C24
//@end
//@fn async PacketStream::read
    requires old(self).wf()
    ensures final(self).wf(), final(self).max_buffer_size == old(self).max_buffer_size, final(self).stream.sent == old(self).stream.sent,
        yields(old(self).input(), old(self).max_buffer_size as int, false, final(self).input(), match r { Ok(Some(p)) => Ok(Some((p, None))), Ok(None) => Ok(None), Err(e) => Err(e) }),
//@end
//@fn async PacketStream::read_raw
    requires old(self).wf()
    ensures final(self).wf(), final(self).max_buffer_size == old(self).max_buffer_size, final(self).stream.sent == old(self).stream.sent,
        yields(old(self).input(), old(self).max_buffer_size as int, true, final(self).input(), match r { Ok(Some(x)) => Ok(Some((x.0, Some(x.1)))), Ok(None) => Ok(None), Err(e) => Err(e) }),
//@end
//@fn async PacketStream::write
    ensures final(self).input() == old(self).input(), old(self).wf() ==> final(self).wf(),
        r is Ok ==> exists|b: Seq<u8>| #[trigger] encoding(*old(packet), b) && final(self).stream.sent@ == old(self).stream.sent@ + b,
        r matches Err(Error::Codec(_)) ==> final(self).stream.sent == old(self).stream.sent,
//@end
//@fn async PacketStream::shutdown
    ensures final(self).input() == old(self).input(), final(self).stream.sent == old(self).stream.sent,
//@end
}
/// the bytes of a sequence of packets
pub open spec fn wire(fs: Seq<Bs>) -> Bs decreases fs.len() { if fs.len() == 0 { Seq::empty() } else { fs[0] + wire(fs.skip(1)) } }
pub open spec fn frames(fs: Seq<Bs>, max: int) -> bool {
    forall|i: int| 0 <= i < fs.len() ==> #[trigger] frame(fs[i]) == Frame::Whole(fs[i].len() as int) && packet_of(fs[i]) is Some && fs[i].len() <= max
}
/// C24: reading yields the packets in order, each once, then the end; only the transport can fail.
pub proof fn in_order(fs: Seq<Bs>, max: int, raw: bool, s1: Bs, r: Result<Option<(Packet, Option<Bytes>)>, Error>)
    requires frames(fs, max), max > 0, yields(wire(fs), max, raw, s1, r)
    ensures match r {
        Ok(Some(x)) => fs.len() > 0 && Some(x.0) == packet_of(fs[0]) && s1 == wire(fs.skip(1)) && (raw ==> (x.1 matches Some(b) && b@ == fs[0])),
        Ok(None) => fs.len() == 0,
        Err(e) => transport(e) && s1 == wire(fs),
    }
{
    let s = wire(fs);
    if fs.len() > 0 {
        let f = fs[0];
        assert(s == f + wire(fs.skip(1)));
        frame_grows(f, wire(fs.skip(1)));
        let n = f.len() as int;
        assert(frame(fs[0]) == Frame::Whole(n));
        assert(s.take(n) =~= f && s.skip(n) =~= wire(fs.skip(1)));
        if s.len() >= max { let t = s.take(max); assert(t =~= f + wire(fs.skip(1)).take(max - n)); frame_grows(f, wire(fs.skip(1)).take(max - n)); }
    } else { assert(frame(s) is Partial); assert(s.len() == 0); }
}
/// C24: a stream that ends inside a packet ends in an error
pub proof fn cut_short(s: Bs, max: int, raw: bool, s1: Bs, r: Result<Option<(Packet, Option<Bytes>)>, Error>)
    requires s.len() > 0, frame(s) is Partial, yields(s, max, raw, s1, r)
    ensures r is Err
{ }
/// C24: so does a packet above the maximum
pub proof fn too_big(s: Bs, n: int, max: int, raw: bool, s1: Bs, r: Result<Option<(Packet, Option<Bytes>)>, Error>)
    requires frame(s) == Frame::Whole(n), n > max, yields(s, max, raw, s1, r)
    ensures r is Err
{ }
