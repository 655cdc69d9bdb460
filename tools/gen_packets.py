"""Packet contracts (second half of gen_codec)."""
from codec_table import PACKETS
import gen_pkt

TOP0 = """    proof { props_unfold(*self, src@, property_length - property_bytes_read); if src@.len() > 0 { propertytype_only(src@[0]); } }"""

FIXED = """// ================================================================ fixed header
//@item mqtt FixedHeader | #[derive(Debug)]
pub open spec fn fh_new(pt: PacketType) -> FixedHeader {
    FixedHeader { packet_type: pt, flags: match pt { PacketType::PubRel | PacketType::Subscribe | PacketType::Unsubscribe => 2u8, _ => 0u8 } }
}
/// flags a header of this type may carry (MQTT 5, 2.1.3)
pub open spec fn fh_flags_ok(pt: PacketType, f: u8) -> bool {
    match pt { PacketType::PubRel | PacketType::Subscribe | PacketType::Unsubscribe => f == 2, PacketType::Publish => (f / 2) % 4 != 3, _ => f == 0 }
}
pub open spec fn fh_qos(h: FixedHeader) -> u8 { (h.flags / 2) % 4 }
pub open spec fn fh_inv(h: FixedHeader) -> bool { fh_qos(h) != 3 }
pub open spec fn fh_byte(h: FixedHeader) -> u8 { (h.packet_type.code() + h.flags % 16) as u8 }
pub open spec fn fh_dup(h: FixedHeader) -> bool { (h.flags / 8) % 2 == 1 }
pub open spec fn fh_retain(h: FixedHeader) -> bool { h.flags % 2 == 1 }
pub proof fn fh_bits(f: u8)
    ensures f & 0x0f == f % 16, f & 0xf0 == f / 16 * 16, (f & 6) >> 1u8 == (f / 2) % 4, ((f & 6) == 6) == ((f / 2) % 4 == 3), ((f & 8) != 0) == ((f / 8) % 2 == 1), ((f & 1) != 0) == (f % 2 == 1), f % 16 < 16,
        ((f % 16) / 2) % 4 == (f / 2) % 4,
{
    assert(f & 0x0f == f % 16) by (bit_vector);
    assert(f & 0xf0 == f / 16 * 16) by (bit_vector);
    assert((f & 6) >> 1u8 == (f / 2) % 4) by (bit_vector);
    assert(((f & 6) == 6) == ((f / 2) % 4 == 3)) by (bit_vector);
    assert(((f & 8) != 0) == ((f / 8) % 2 == 1)) by (bit_vector);
    assert(((f & 1) != 0) == (f % 2 == 1)) by (bit_vector);
    assert(f % 16 < 16) by (bit_vector);
    assert(((f % 16) / 2) % 4 == (f / 2) % 4) by (bit_vector);
}
pub proof fn fh_join(c: u8, f: u8)
    requires c % 16 == 0
    ensures c | (f & 0x0f) == (c + f % 16) as u8, c + f % 16 < 256
{
    assert(c % 16 == 0 ==> c | (f & 0x0f) == (c + f % 16) as u8) by (bit_vector);
    assert(c % 16 == 0 ==> c <= 240) by (bit_vector);
    assert(f % 16 < 16) by (bit_vector);
}
impl Default for FixedHeader {
    open spec fn dflt() -> Self { FixedHeader { packet_type: PacketType::Connect, flags: 0 } }
//@fn mqtt Default for FixedHeader::default | as=vx_default
//@end
}
impl Encode for FixedHeader {
    open spec fn enc_req(&self) -> bool { true }
    open spec fn enc_ok(&self) -> bool { true }
    open spec fn enc_acc(&self, acc: Bs) -> Bs { acc.push(fh_byte(*self)) }
//@fn mqtt Encode for FixedHeader::encode
//@start
    proof { packettype_code(self.packet_type); fh_join(self.packet_type.code(), self.flags); }
//@end
}
impl Decode for FixedHeader {
    open spec fn dec(v: Self, s: Bs) -> Option<(Self, nat)> {
        if s.len() < 2 { None } else if fh_flags_ok(pt_of(s[0]), (s[0] % 16) as u8) { Some((FixedHeader { packet_type: pt_of(s[0]), flags: (s[0] % 16) as u8 }, 1)) } else { None }
    }
//@fn mqtt Decode for FixedHeader::decode
    ensures r matches Err(e) ==> (short(e) <==> old(src)@.len() < 2),
//@start
    proof { if src@.len() > 0 { let b = src@[0]; fh_bits(b); fh_bits((b % 16) as u8); assert((b & 0xf0) / 16 == b / 16) by (bit_vector); } }
//@end
}
"""

# C12: accessors on the header
FIXED_ACC = """impl FixedHeader {
//@fn mqtt FixedHeader::new
    ensures r == fh_new(packet_type), fh_inv(r),
//@end
//@fn mqtt FixedHeader::packet_type
    ensures r == self.packet_type,
//@end
//@fn mqtt FixedHeader::dup
    ensures r == fh_dup(*self),
//@start
    proof { fh_bits(self.flags); }
//@end
//@fn mqtt FixedHeader::set_dup
    ensures final(self).packet_type == old(self).packet_type, fh_dup(*final(self)) == dup, fh_retain(*final(self)) == fh_retain(*old(self)),
        fh_qos(*final(self)) == fh_qos(*old(self)), final(self).flags / 16 == old(self).flags / 16,
//@start
    proof { let f = self.flags; let d: u8 = if dup { 1 } else { 0 }; fh_bits(f); fh_bits(f & !8u8 | (d << 3u8));
        assert((d == 0 || d == 1) ==> ({ let g = f & !8u8 | (d << 3u8); (g / 8) % 2 == d && g % 2 == f % 2 && (g / 2) % 4 == (f / 2) % 4 && g / 16 == f / 16 })) by (bit_vector); }
//@end
//@fn mqtt FixedHeader::retain
    ensures r == fh_retain(*self),
//@start
    proof { fh_bits(self.flags); }
//@end
//@fn mqtt FixedHeader::set_retain
    ensures final(self).packet_type == old(self).packet_type, fh_retain(*final(self)) == retain, fh_dup(*final(self)) == fh_dup(*old(self)),
        fh_qos(*final(self)) == fh_qos(*old(self)), final(self).flags / 16 == old(self).flags / 16,
//@start
    proof { let f = self.flags; let d: u8 = if retain { 1 } else { 0 };
        assert((d == 0 || d == 1) ==> ({ let g = f & !1u8 | d; (g / 8) % 2 == (f / 8) % 2 && g % 2 == d && (g / 2) % 4 == (f / 2) % 4 && g / 16 == f / 16 })) by (bit_vector); }
//@end
//@fn mqtt FixedHeader::qos
    requires fh_inv(*self),
    ensures r.code() == fh_qos(*self), QoSLevel::tf(fh_qos(*self)) == Some(r),
//@start
    proof { fh_bits(self.flags); }
//@end
//@fn mqtt FixedHeader::set_qos
    ensures final(self).packet_type == old(self).packet_type, fh_qos(*final(self)) == qos.code(), fh_inv(*final(self)),
        fh_dup(*final(self)) == fh_dup(*old(self)), fh_retain(*final(self)) == fh_retain(*old(self)), final(self).flags / 16 == old(self).flags / 16,
//@start
    proof { qoslevel_code(qos); let f = self.flags; let d = qos.code();
        assert(d < 3 ==> ({ let g = f & !6u8 | (d << 1u8); (g / 8) % 2 == (f / 8) % 2 && g % 2 == f % 2 && (g / 2) % 4 == d && g / 16 == f / 16 })) by (bit_vector); }
//@end
//@fn mqtt FixedHeader::flags
    ensures r == self.flags,
//@end
//@fn mqtt FixedHeader::set_flags
    ensures r is Ok <==> (flags / 2) % 4 != 3, r is Ok ==> *final(self) == (FixedHeader { flags: flags, ..*old(self) }) && fh_inv(*final(self)), r is Err ==> *final(self) == *old(self),
//@start
    proof { fh_bits(flags); }
//@end
//@fn mqtt FixedHeader::clear_flags
    ensures *final(self) == (FixedHeader { flags: 0, ..*old(self) }), fh_inv(*final(self)),
//@end
}
"""

LISTS = """// ================================================================ list payloads
pub trait Item: Decode + Default {
    spec fn ib(self) -> Bs;
    spec fn iok(self) -> bool;
    spec fn iwf(self) -> bool;
    proof fn item_rt(self, rest: Bs)
        requires self.iok(), self.iwf()
        ensures Self::dec(Self::dflt(), self.ib() + rest) == Some((self, self.ib().len())), self.ib().len() > 0;
}
pub open spec fn el<T: Item>(acc: Bs, xs: Seq<T>, n: nat) -> Bs decreases n { if n == 0 { acc } else { el(acc, xs, (n - 1) as nat) + xs[n - 1].ib() } }
pub open spec fn zl<T: Item>(xs: Seq<T>, n: nat) -> nat decreases n { if n == 0 { 0 } else { zl(xs, (n - 1) as nat) + xs[n - 1].ib().len() } }
pub open spec fn okl<T: Item>(xs: Seq<T>, n: nat) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] xs[i]).iok() }
pub open spec fn wfl<T: Item>(xs: Seq<T>) -> bool { forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).iwf() }
pub proof fn zl_mono<T: Item>(xs: Seq<T>, a: nat, b: nat) requires a <= b ensures zl(xs, a) <= zl(xs, b) decreases b { if a < b { zl_mono(xs, a, (b - 1) as nat); } }
pub proof fn l_el<T: Item>(acc: Bs, xs: Seq<T>, n: nat)
    ensures el(acc, xs, n) == acc + el(Seq::empty(), xs, n), el(Seq::empty(), xs, n).len() == zl(xs, n)
    decreases n
{ if n == 0 { add_nil(acc); } else { l_el(acc, xs, (n - 1) as nat); assoc(acc, el(Seq::empty(), xs, (n - 1) as nat), xs[n - 1].ib()); } }
pub proof fn el_front<T: Item>(xs: Seq<T>, n: nat)
    requires 0 < n <= xs.len()
    ensures el(Seq::empty(), xs, n) == xs[0].ib() + el(Seq::empty(), xs.skip(1), (n - 1) as nat)
    decreases n
{
    reveal_with_fuel(el, 2);
    if n == 1 { add_nil(xs[0].ib()); } else {
        el_front(xs, (n - 1) as nat);
        assoc(xs[0].ib(), el(Seq::empty(), xs.skip(1), (n - 2) as nat), xs[n - 1].ib());
        assert(xs.skip(1)[n - 2] == xs[n - 1]);
    }
}
pub proof fn list_rt<T: Item>(acc: Seq<T>, xs: Seq<T>)
    requires okl(xs, xs.len()), wfl(xs)
    ensures d_list(acc, el(Seq::empty(), xs, xs.len())) == Some(acc + xs)
    decreases xs.len()
{
    if xs.len() == 0 { assert(acc + xs =~= acc); } else {
        let x = xs[0]; let t = xs.skip(1);
        el_front(xs, xs.len());
        let rest = el(Seq::empty(), t, t.len());
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).iok() && t[i].iwf() by { assert(t[i] == xs[i + 1]); }
        x.item_rt(rest);
        assert((x.ib() + rest).skip(x.ib().len() as int) =~= rest);
        list_rt(acc.push(x), t);
        assert(acc.push(x) + t =~= acc + xs);
    }
}
impl Item for Reason {
    open spec fn ib(self) -> Bs { seq![self.code()] }
    open spec fn iok(self) -> bool { true }
    open spec fn iwf(self) -> bool { true }
    proof fn item_rt(self, rest: Bs) { self.code_tf(); }
}
impl Item for String {
    open spec fn ib(self) -> Bs { e_bin(self@) }
    open spec fn iok(self) -> bool { fits(self@) }
    open spec fn iwf(self) -> bool { is_utf8(self@) }
    proof fn item_rt(self, rest: Bs) { bin_round_trip(self@, rest); }
}
//@item mqtt SubscriptionFilter
impl Default for SubscriptionFilter {
    open spec fn dflt() -> Self { SubscriptionFilter { filter: String::dflt(), options: 0 } }
//@fn mqtt Default for SubscriptionFilter::default | as=vx_default
//@end
}
impl CodecSize for SubscriptionFilter { open spec fn size(&self) -> nat { self.filter@.len() + 3 }
//@fn mqtt CodecSize for SubscriptionFilter::codec_size
//@end
}
impl Encode for SubscriptionFilter {
    open spec fn enc_req(&self) -> bool { true }
    open spec fn enc_ok(&self) -> bool { fits(self.filter@) }
    open spec fn enc_acc(&self, acc: Bs) -> Bs { (acc + e_bin(self.filter@)).push(self.options) }
//@fn mqtt Encode for SubscriptionFilter::encode
//@end
}
impl Decode for SubscriptionFilter {
    open spec fn dec(v: Self, s: Bs) -> Option<(Self, nat)> {
        match d_str(s) { Some((f, n)) => match d_u8(s.skip(n as int)) { Some((o, m)) => Some((SubscriptionFilter { filter: f, options: o }, n + m)), None => None }, None => None }
    }
//@fn mqtt Decode for SubscriptionFilter::decode
//@end
}
impl Item for SubscriptionFilter {
    open spec fn ib(self) -> Bs { e_bin(self.filter@) + seq![self.options] }
    open spec fn iok(self) -> bool { fits(self.filter@) }
    open spec fn iwf(self) -> bool { is_utf8(self.filter@) }
    proof fn item_rt(self, rest: Bs) {
        let s = self.ib() + rest;
        assert(s =~= e_bin(self.filter@) + (seq![self.options] + rest));
        bin_round_trip(self.filter@, seq![self.options] + rest);
        assert(s.skip(self.filter@.len() as int + 2)[0] == self.options);
    }
}
//@fn mqtt codec_size_vec_reason
    requires reason_codes@.len() <= u32::MAX,
    ensures r == reason_codes@.len(),
//@end
pub proof fn zl_reason(xs: Seq<Reason>, n: nat) ensures zl(xs, n) == n decreases n { if n > 0 { zl_reason(xs, (n - 1) as nat); } }
"""

LIST_SIZE_LOOP = """//@loop 0
        invariant vx_it1@.len() == self.{f}@.len(), vx_i2 <= vx_it1@.len(),
            forall|i: int| 0 <= i < vx_it1@.len() ==> #[trigger] vx_it1@[i] == &self.{f}@[i],
            vx_sum == zl(self.{f}@, vx_i2 as nat), self.size() <= u32::MAX,
        decreases vx_it1@.len() - vx_i2,
//@top 0
        proof {{ zl_mono(self.{f}@, (vx_i2 + 1) as nat, self.{f}@.len()); }}
"""
LIST_ENC_LOOP = """//@loop 0
        invariant vx_it1@.len() == self.{f}@.len(), vx_i2 <= vx_it1@.len(),
            forall|i: int| 0 <= i < vx_it1@.len() ==> #[trigger] vx_it1@[i] == &self.{f}@[i],
            dest@ == el({P}_pre(*self, old(dest)@), self.{f}@, vx_i2 as nat), okl(self.{f}@, vx_i2 as nat),
            self.size() <= VBI_MAX, self.penc_ok(),
        decreases vx_it1@.len() - vx_i2,
//@top 0
        let ghost dest0 = dest@; let ghost ix = vx_i2 as int;
        proof {{ assert(okl(self.{f}@, self.{f}@.len()) ==> self.{f}@[ix].iok()); }}
//@bot 0
        proof {{ assert(dest@ =~= dest0 + self.{f}@[ix].ib()); }}
"""

def field_names(P):
    d = PACKETS[P]
    return [f for f, k in d["hdr"]] + [f for f, k, i in d["props"]]

def packets(G, only=None):
    w, direct, DFL, module = G["w"], G["direct"], G["DFL"], G["module"]
    module("fixed"); w(FIXED); w(FIXED_ACC); module("lists"); w(G["EXTRA"]); w(LISTS)
    HD = {"u8": "0", "u16": "0", "str": "String::of(Seq::empty())", "reason": "Reason::Success", "pid": "None", "oreason": "None"}
    order = ["WillHeader", "ConnAck", "Connect", "Publish", "PubResp", "Disconnect", "Subscribe", "SubAck", "UnsubAck", "Unsubscribe"]
    PT = {"ConnAck": "ConnAck", "Connect": "Connect", "Publish": "Publish", "Disconnect": "Disconnect", "Subscribe": "Subscribe",
          "SubAck": "SubAck", "UnsubAck": "UnsubAck", "Unsubscribe": "Unsubscribe"}
    if only: order = only
    for P in order:
        d = PACKETS[P]; hdr, props, pay = d["hdr"], d["props"], d["payload"]
        islist = isinstance(pay, tuple)
        module(P.lower())
        w(f"// ================================================================ {P}")
        w(f"//@item mqtt {P}")
        G["props_impl"](P, props)
        G["prop_codec"](P, props)
        G["prop_rt"](P, props)
        # default
        fixed = f"fixed_header: {'FixedHeader::dflt()' if P == 'PubResp' else 'fh_new(PacketType::%s)' % PT.get(P, '')}, " if d["fixed"] else ""
        payd = ""
        if islist: payd = f"{pay[1]}: Vec::of(Seq::empty()), "
        if pay == "rest": payd = "payload: None, "
        fs = fixed + "".join(f"{f}: {HD[k]}, " for f, k in hdr) + "".join(f"{f}: {DFL[k]}, " for f, k, i in props) + payd
        if P == "Connect":
            w("""/// MQTT
pub open spec fn mqtt_name() -> Bs { seq![77u8, 81, 84, 84] }
pub open spec fn connect_new(c: String) -> Connect { Connect { """ + fixed + """protocol_name: String::of(mqtt_name()), protocol_version: 5, connect_flags: 0, keep_alive: 60, """ +
              "".join(f"{f}: {DFL[k]}, " for f, k, i in props) + """client_id: c, will_properties: None, will_topic: None, will_payload: None, username: None, password: None } }
impl Connect {
//@fn mqtt Connect::new
    ensures r == connect_new(r.client_id),
//@start
    proof { assert(MQTT_PROTOCOL_NAME@ =~= mqtt_name()); }
//@end
}""")
        else:
            w(f"""impl Default for {P} {{
    open spec fn dflt() -> Self {{ {P} {{ {fs} }} }}
//@fn mqtt Default for {P}::default | as=vx_default
//@end
}}""")
        # ---- size
        size = []
        for f, k in hdr:
            size.append({"u8": "1", "u16": "2", "str": f"2 + self.{f}@.len()", "reason": "1", "pid": f"(if self.{f} is Some {{ 2nat }} else {{ 0 }})",
                         "oreason": f"(if self.{f} is Some {{ 1nat }} else {{ 0 }})"}[k])
        if islist: size.append(f"zl(self.{pay[1]}@, self.{pay[1]}@.len())")
        if pay == "rest": size.append("(match self.payload { Some(b) => b@.len(), None => 0 })")
        if pay == "connect":
            size += ["2 + self.client_id@.len()", "(match self.will_properties { Some(h) => h.size(), None => 0 })",
                     "(match self.will_topic { Some(t) => 2 + t@.len(), None => 0 })", "(match self.will_payload { Some(t) => t@.len() + 2, None => 0 })",
                     "(match self.username { Some(t) => 2 + t@.len(), None => 0 })", "(match self.password { Some(t) => t@.len() + 2, None => 0 })"]
        full = " + ".join(size + ["self.psize()", "vbi_len(self.psize())"])
        if P == "PubResp":
            w("pub open spec fn PubResp_short(p: PubResp) -> bool { (p.reason is None || p.reason == Some(Reason::Success)) && p.psize() == 0 }")
            full = f"if PubResp_short(*self) {{ 2 }} else {{ {full} }}"
        if P == "Disconnect":
            w("pub open spec fn Disconnect_short(p: Disconnect) -> bool { p.reason == Reason::Success && p.psize() == 0 }")
            full = f"if Disconnect_short(*self) {{ 0 }} else {{ {full} }}"
        # sizes of payload parts must not overflow before the sum is formed: all parts are below the whole
        w(f"""impl CodecSize for {P} {{
    open spec fn size(&self) -> nat {{ {full} }}
//@fn mqtt CodecSize for {P}::codec_size""")
        if islist and pay[2] != "Reason" or P == "UnsubAck": w(LIST_SIZE_LOOP.format(f=pay[1]))
        if P == "SubAck": w("//@start\n    proof { zl_reason(self.reason_codes@, self.reason_codes@.len()); }")
        w("//@end\n}")
        # ---- encode
        if P == "WillHeader":
            w("""impl Encode for WillHeader {
    open spec fn enc_req(&self) -> bool { self.penc_req() }
    open spec fn enc_ok(&self) -> bool { self.penc_ok() }
    open spec fn enc_acc(&self, acc: Bs) -> Bs { self.penc_acc(acc) }
//@fn mqtt Encode for WillHeader::encode
//@end
}
impl Decode for WillHeader {
    open spec fn dec(v: Self, s: Bs) -> Option<(Self, nat)> { d_props(v, s) }
//@fn mqtt Decode for WillHeader::decode""")
        else:
            acc = "acc.push(fh_byte(p.fixed_header)) + e_vbi(p.size() as u32)"
            if P == "PubResp":
                pre = f"({acc} + w16(p.packet_id))"
                acc = f"if PubResp_short(p) {{ {pre} }} else {{ p.penc_acc(match p.reason {{ Some(x) => {pre}.push(x.code()), None => {pre} }}) }}"
            elif P == "Disconnect":
                acc = f"if Disconnect_short(p) {{ {acc} }} else {{ p.penc_acc(({acc}).push(p.reason.code())) }}"
            else:
                for f, k in hdr:
                    acc = {"u8": f"({acc}).push(p.{f})", "u16": f"({acc}) + w16(p.{f})", "str": f"({acc}) + e_bin(p.{f}@)", "reason": f"({acc}).push(p.{f}.code())",
                           "pid": f"(match p.{f} {{ Some(x) => ({acc}) + w16(x), None => ({acc}) }})"}[k]
                acc = f"p.penc_acc({acc})"
            w(f"pub open spec fn {P}_pre(p: {P}, acc: Bs) -> Bs {{ {acc} }}")
            ok = ["self.size() <= VBI_MAX"]
            for f, k in hdr:
                if k == "str": ok.append(f"fits(self.{f}@)")
            if P == "PubResp": ok.append("(PubResp_short(*self) || self.penc_ok())")
            elif P == "Disconnect": ok.append("(Disconnect_short(*self) || self.penc_ok())")
            else: ok.append("self.penc_ok()")
            full = f"{P}_pre(*self, acc)"
            if islist:
                ok.append(f"okl(self.{pay[1]}@, self.{pay[1]}@.len())"); full = f"el({full}, self.{pay[1]}@, self.{pay[1]}@.len())"
            if pay == "rest": full = f"(match self.payload {{ Some(b) => {full} + b@, None => {full} }})"
            if pay == "connect":
                ok += ["fits(self.client_id@)", "(self.will_properties matches Some(h) ==> h.enc_ok())", "(self.will_topic matches Some(t) ==> fits(t@))",
                       "(self.will_payload matches Some(t) ==> fits(t@))", "(self.username matches Some(t) ==> fits(t@))", "(self.password matches Some(t) ==> fits(t@))"]
                full = f"{full} + e_bin(self.client_id@)"
                full = f"(match self.will_properties {{ Some(h) => h.enc_acc({full}), None => {full} }})"
                for f in ("will_topic", "will_payload", "username", "password"):
                    full = f"ef_opt{'s' if f in ('will_topic','username') else 'b'}({full}, self.{f})"
            w(f"""impl Encode for {P} {{
    open spec fn enc_req(&self) -> bool {{ self.size() <= u32::MAX }}
    open spec fn enc_ok(&self) -> bool {{ {' && '.join(ok)} }}
    open spec fn enc_acc(&self, acc: Bs) -> Bs {{ {full} }}
//@fn mqtt Encode for {P}::encode""")
            if islist: w(LIST_ENC_LOOP.format(f=pay[1], P=P))
            w("//@end\n}")
            # ---- decode
            if P == "PubResp":
                w("""pub open spec fn PubResp_hdr(v: PubResp, s: Bs) -> Option<(PubResp, nat)> {
    match d_u16(s) { Some((x, n)) => match d_tf::<Reason>(s.skip(2)) { Some((y, m)) => Some((PubResp { packet_id: x, reason: Some(y), ..v }, 3)), None => None }, None => None }
}""")
            else:
                w(f"pub open spec fn {P}_hdr(v: {P}, s: Bs) -> Option<({P}, nat)> {{ {G['hdr_spec'](P, hdr)} }}")
            w(f"""pub open spec fn {P}_head(v: {P}, s: Bs) -> Option<({P}, nat)> {{
    match {P}_hdr(v, s) {{ Some((v1, k0)) => match d_props(v1, s.skip(k0 as int)) {{ Some((v2, m)) => Some((v2, k0 + m)), None => None }}, None => None }}
}}
pub open spec fn {P}_inv(o: {P}, s: Bs, c: {P}, t: Bs, br: int, pl: int, pbr: int) -> bool {{
    match {P}_hdr(o, s) {{
        Some((v1, k0)) => k0 <= s.len() && match d_vbi(s.skip(k0 as int)) {{
            Some((len, vn)) => len == pl && br == k0 + vn && props(v1, s.skip(k0 as int).skip(vn as int), pl) == props(c, t, pl - pbr)
                && br + pbr + t.len() == s.len() && t == s.skip(br + pbr) && c.{'fixed_header' if d['fixed'] else props[0][0]} == {'o.fixed_header' if d['fixed'] else 'c.'+props[0][0]},
            None => false,
        }},
        None => false,
    }}
}}""")
            if islist:
                f, T = pay[1], pay[2]
                dec = f"match {P}_head(v, s) {{ Some((v2, k)) => match d_list::<{T}>(Seq::empty(), s.skip(k as int)) {{ Some(l) => Some(({P} {{ {f}: Vec::of(l), ..v2 }}, s.len())), None => None }}, None => None }}"
            elif pay == "rest":
                dec = f"match {P}_head(v, s) {{ Some((v2, k)) => Some(({P} {{ payload: Some(Bytes::of(s.skip(k as int))), ..v2 }}, s.len())), None => None }}"
            elif pay == "connect":
                dec = "match Connect_head(v, s) { Some((v2, k)) => match d_cp(v2, s.skip(k as int)) { Some((v3, m)) => Some((v3, k + m)), None => None }, None => None }"
                w(CONNECT_PAYLOAD)
            elif P == "PubResp":
                dec = ("match d_u16(s) { None => None, Some((x, n)) => if s.len() == 2 { Some((PubResp { packet_id: x, ..v }, 2)) } else { "
                       "match d_tf::<Reason>(s.skip(2)) { None => None, Some((y, m)) => if s.len() == 3 { Some((PubResp { packet_id: x, reason: Some(y), ..v }, 3)) } else { PubResp_head(v, s) } } } }")
            elif P == "Disconnect":
                dec = ("if s.len() == 0 { Some((v, 0)) } else { match d_tf::<Reason>(s) { None => None, Some((y, m)) => if s.len() == 1 { Some((Disconnect { reason: y, ..v }, 1)) } else { Disconnect_head(v, s) } } }")
            else:
                dec = f"{P}_head(v, s)"
            w(f"""#[verifier::opaque_outside_module]
pub open spec fn {P}_dec(v: {P}, s: Bs) -> Option<({P}, nat)> {{ {dec} }}
impl Decode for {P} {{
    open spec fn dec(v: Self, s: Bs) -> Option<(Self, nat)> {{ {P}_dec(v, s) }}""")
            if P == "Publish": w("    open spec fn dec_req(v: Self) -> bool { fh_inv(v.fixed_header) }")
            w(f"//@fn mqtt Decode for {P}::decode" + (f" | let=value:Vec<{pay[2]}>" if islist and False else ""))
            w("//@attrs\n    #[verifier::rlimit(%d)] %s" % ((400, "#[verifier::spinoff_prover]") if P in ("ConnAck", "Connect") else (100, "")))
            if P == "Publish":
                w(f"//@start\n    proof {{ bytesmut_len(src); assert(src@.skip(0) =~= src@); let f = self.fixed_header.flags; if fh_qos(self.fixed_header) == 0 {{ }} }}")
            else: w(f"//@start\n    proof {{ bytesmut_len(src); }}")
        if P == "WillHeader":
            w("""//@loop 0
        invariant ({ match d_vbi(old(src)@) {
            Some((len, vn)) => len == property_length && bytes_read == vn && props(*old(self), old(src)@.skip(vn as int), property_length as int) == props(*self, src@, property_length - property_bytes_read)
                && bytes_read + property_bytes_read + src@.len() == old(src)@.len() && src@ == old(src)@.skip(bytes_read + property_bytes_read),
            None => false } }),
        decreases src@.len(),
//@top 0
    """ + TOP0 + """
//@after 0
    proof { props_unfold(*self, src@, property_length - property_bytes_read); }
//@end
}""")
            continue
        w(f"""//@loop 0
        invariant {P}_inv(*old(self), old(src)@, *self, src@, bytes_read as int, property_length as int, property_bytes_read as int), old(src)@.len() <= usize::MAX,
        decreases src@.len(),
//@top 0
{TOP0}""")
        if not islist:
            w("//@after 0\n    proof { props_unfold(*self, src@, property_length - property_bytes_read); }")
        if islist:
            w(f"""//@loop 1
        invariant {P}_head(*old(self), old(src)@) == Some((*self, k0)), k0 <= old(src)@.len(),
            d_list::<{T}>(Seq::empty(), old(src)@.skip(k0 as int)) == d_list::<{T}>(value@, src@),
            bytes_read + src@.len() == old(src)@.len(), old(src)@.len() <= usize::MAX, src@ == old(src)@.skip(bytes_read as int),
        decreases src@.len(),
//@after 0
    let ghost mut k0: nat = 0;
    proof {{ props_unfold(*self, src@, property_length - property_bytes_read); if property_bytes_read == property_length {{ k0 = (bytes_read + property_bytes_read) as nat; }} }}""")
        w("//@end\n}")
        gen_pkt.pkt(w, P, DFL)

CONNECT_PAYLOAD = """
pub open spec fn cf_will(f: u8) -> bool { (f / 4) % 2 == 1 }
pub open spec fn cf_user(f: u8) -> bool { (f / 128) % 2 == 1 }
pub open spec fn cf_pass(f: u8) -> bool { (f / 64) % 2 == 1 }
pub open spec fn d_cp_will(v: Connect, s: Bs) -> Option<(Connect, nat)> {
    if !cf_will(v.connect_flags) { Some((v, 0)) } else {
        match WillHeader::dec(WillHeader::dflt(), s) { None => None, Some((h, a)) =>
            match d_str(s.skip(a as int)) { None => None, Some((t, b)) =>
                match d_vec(s.skip((a + b) as int)) { None => None, Some((p, c)) =>
                    Some((Connect { will_properties: Some(h), will_topic: Some(t), will_payload: Some(p), ..v }, a + b + c)) } } }
    }
}
pub open spec fn d_cp_user(v: Connect, s: Bs) -> Option<(Connect, nat)> {
    if !cf_user(v.connect_flags) { Some((v, 0)) } else { match d_str(s) { Some((u, n)) => Some((Connect { username: Some(u), ..v }, n)), None => None } }
}
pub open spec fn d_cp_pass(v: Connect, s: Bs) -> Option<(Connect, nat)> {
    if !cf_pass(v.connect_flags) { Some((v, 0)) } else { match d_vec(s) { Some((u, n)) => Some((Connect { password: Some(u), ..v }, n)), None => None } }
}
pub open spec fn d_cp(v: Connect, s: Bs) -> Option<(Connect, nat)> {
    match d_str(s) { None => None, Some((cid, n0)) =>
        match d_cp_will(Connect { client_id: cid, ..v }, s.skip(n0 as int)) { None => None, Some((v1, n1)) =>
            match d_cp_user(v1, s.skip((n0 + n1) as int)) { None => None, Some((v2, n2)) =>
                match d_cp_pass(v2, s.skip((n0 + n1 + n2) as int)) { None => None, Some((v3, n3)) => Some((v3, n0 + n1 + n2 + n3)) } } } }
}
pub proof fn cf_bits(f: u8)
    ensures ((f & 0x80) != 0) == cf_user(f), ((f & 0x40) != 0) == cf_pass(f), ((f & 4) != 0) == cf_will(f), ((f & 2) != 0) == ((f / 2) % 2 == 1), ((f & 0x20) != 0) == ((f / 32) % 2 == 1), (f & 0x18) >> 3u8 == (f / 8) % 4,
{
    assert(((f & 0x80) != 0) == ((f / 128) % 2 == 1)) by (bit_vector);
    assert(((f & 0x40) != 0) == ((f / 64) % 2 == 1)) by (bit_vector);
    assert(((f & 4) != 0) == ((f / 4) % 2 == 1)) by (bit_vector);
    assert(((f & 2) != 0) == ((f / 2) % 2 == 1)) by (bit_vector);
    assert(((f & 0x20) != 0) == ((f / 32) % 2 == 1)) by (bit_vector);
    assert((f & 0x18) >> 3u8 == (f / 8) % 4) by (bit_vector);
}
impl Connect {
//@fn mqtt Connect::will
    ensures r == cf_will(self.connect_flags),
//@start
    proof { cf_bits(self.connect_flags); }
//@end
//@fn mqtt Connect::username
    ensures r == cf_user(self.connect_flags),
//@start
    proof { cf_bits(self.connect_flags); }
//@end
//@fn mqtt Connect::password
    ensures r == cf_pass(self.connect_flags),
//@start
    proof { cf_bits(self.connect_flags); }
//@end
}
"""
