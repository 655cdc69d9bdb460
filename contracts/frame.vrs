/// Where the first packet of a byte sequence ends: Partial while that cannot be told or bytes are missing.
pub enum Frame { Partial, Bad, Whole(int) }
pub open spec fn frame(s: Seq<u8>) -> Frame {
    if s.len() < 2 { Frame::Partial }
    else if !header_ok(s[0]) { Frame::Bad }
    else { match d_vbi(s.skip(1)) {
        Some((v, n)) => if s.len() < 1 + n + v { Frame::Partial } else { Frame::Whole(1 + n + v) },
        None => if vbi_short(s.skip(1)) { Frame::Partial } else { Frame::Bad },
    } }
}
/// more bytes do not change where the first packet ends
pub proof fn frame_grows(s: Seq<u8>, t: Seq<u8>)
    ensures frame(s) is Partial || frame(s + t) == frame(s), frame(s) matches Frame::Whole(n) ==> 2 <= n <= s.len() && (s + t).take(n) == s.take(n) && (s + t).skip(n) == s.skip(n) + t,
{
    let u = s + t;
    if !(frame(s) is Partial) {
        assert(s.len() >= 2);
        assert(u[0] == s[0]);
        assert forall|i: int| 0 <= i < s.len() - 1 implies s.skip(1)[i] == #[trigger] u.skip(1)[i] by { }
        if let Frame::Whole(n) = frame(s) { assert(u.take(n) =~= s.take(n)); assert(u.skip(n) =~= s.skip(n) + t); }
        if frame(s) is Bad && header_ok(s[0]) {
            let a = s.skip(1);
            let b = u.skip(1);
            if a.len() <= 3 {
                let i = choose|i: int| 0 <= i < a.len() && a[i] < 128;
                assert(a[i] < 128);
                assert(i == 0 || i == 1 || i == 2);
                assert(a[0] < 128 || a[1] < 128 || a[2] < 128);
            }
            assert(a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]);
            assert(d_vbi(b) is None);
            assert(!vbi_short(b));
        }
    }
}
