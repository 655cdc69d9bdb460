"""Shape and round trip of whole packets: what encode writes, decode reads back."""
from codec_table import PACKETS

def hb(f, k, p="p"):
    return {"u8": f"seq![{p}.{f}]", "u16": f"w16({p}.{f})", "str": f"e_bin({p}.{f}@)", "reason": f"seq![{p}.{f}.code()]",
            "pid": f"(match {p}.{f} {{ Some(x) => w16(x), None => Seq::<u8>::empty() }})"}[k]
def hl(f, k, p="p"):
    return {"u8": "1", "u16": "2", "str": f"(2 + {p}.{f}@.len())", "reason": "1", "pid": f"(if {p}.{f} is Some {{ 2nat }} else {{ 0nat }})"}[k]
def hrt(f, k, rest):
    return {"u8": f"assert((seq![p.{f}] + {rest})[0] == p.{f});", "u16": f"u16_round_trip(p.{f}, {rest});", "str": f"bin_round_trip(p.{f}@, {rest});",
            "reason": f"p.{f}.code_tf(); assert((seq![p.{f}.code()] + {rest})[0] == p.{f}.code());",
            "pid": f"match p.{f} {{ Some(x) => {{ u16_round_trip(x, {rest}); }}, None => {{ assert(Seq::<u8>::empty() + {rest} =~= {rest}); }} }}"}[k]

SECT = "(e_vbi(p.psize() as u32) + {P}_r0(p))"

def pkt(w, P, DFL):
    d = PACKETS[P]; hdr, pay = d["hdr"], d["payload"]
    islist = isinstance(pay, tuple)
    sect = SECT.format(P=P)
    if islist:
        f = pay[1]
        pl, plen = f"el(Seq::empty(), p.{f}@, p.{f}@.len())", f"zl(p.{f}@, p.{f}@.len())"
        q = f"{P} {{ {f}: Vec::of(Seq::empty()), ..p }}"
        norm = "p"
    elif pay == "rest":
        pl = "(match p.payload { Some(b) => b@, None => Seq::<u8>::empty() })"; q = f"{P} {{ payload: None, ..p }}"
        norm = f"{P} {{ payload: Some(Bytes::of({pl})), ..p }}"
    elif pay == "connect":
        pl = "Connect_pl(p)"; norm = "p"
        q = "Connect { client_id: c0, will_properties: None, will_topic: None, will_payload: None, username: None, password: None, ..p }"
        w("""pub open spec fn eo_s(o: Option<String>) -> Bs { match o { Some(v) => e_bin(v@), None => Seq::empty() } }
pub open spec fn eo_b(o: Option<Vec<u8>>) -> Bs { match o { Some(v) => e_bin(v@), None => Seq::empty() } }
pub open spec fn eo_w(o: Option<WillHeader>) -> Bs { match o { Some(h) => e_vbi(h.psize() as u32) + WillHeader_r0(h), None => Seq::empty() } }
pub open spec fn Connect_p4(p: Connect) -> Bs { eo_s(p.username) + eo_b(p.password) }
pub open spec fn Connect_p3(p: Connect) -> Bs { eo_b(p.will_payload) + Connect_p4(p) }
pub open spec fn Connect_p2(p: Connect) -> Bs { eo_s(p.will_topic) + Connect_p3(p) }
pub open spec fn Connect_p1(p: Connect) -> Bs { eo_w(p.will_properties) + Connect_p2(p) }
pub open spec fn Connect_pl(p: Connect) -> Bs { e_bin(p.client_id@) + Connect_p1(p) }""")
    else:
        pl = None; q = "p"; norm = "p"
    n = len(hdr)
    last = f"{sect} + {pl}" if pl else sect
    if P == "PubResp":
        w(f"""pub open spec fn PubResp_b1(p: PubResp) -> Bs {{ (match p.reason {{ Some(x) => seq![x.code()], None => Seq::<u8>::empty() }}) + {sect} }}
/// C07: the content of an acknowledgement: short exactly for success without properties
pub open spec fn PubResp_body(p: PubResp) -> Bs {{ if PubResp_short(p) {{ w16(p.packet_id) }} else {{ w16(p.packet_id) + PubResp_b1(p) }} }}
pub proof fn PubResp_shape(p: PubResp, acc: Bs)
    requires p.size() <= VBI_MAX
    ensures p.enc_acc(acc) == (acc.push(fh_byte(p.fixed_header)) + e_vbi(p.size() as u32)) + PubResp_body(p), PubResp_body(p).len() == p.size()
{{
    let a = acc.push(fh_byte(p.fixed_header)) + e_vbi(p.size() as u32);
    if !PubResp_short(p) {{
        let rb = match p.reason {{ Some(x) => seq![x.code()], None => Seq::<u8>::empty() }};
        let b = match p.reason {{ Some(x) => (a + w16(p.packet_id)).push(x.code()), None => a + w16(p.packet_id) }};
        assert(b =~= (a + w16(p.packet_id)) + rb);
        PubResp_pshape(p, b);
        assoc(a + w16(p.packet_id), rb, {sect});
        assoc(a, w16(p.packet_id), PubResp_b1(p));
    }}
}}
pub open spec fn PubResp_norm(p: PubResp) -> PubResp {{ if PubResp_short(p) {{ PubResp {{ reason: None, ..p }} }} else {{ p }} }}
pub open spec fn PubResp_wf(p: PubResp) -> bool {{ p.enc_ok() && PubResp_pwf(p) && (p.reason is None ==> PubResp_short(p)) }}
pub proof fn PubResp_rt(p: PubResp)
    requires PubResp_wf(p)
    ensures PubResp::dec(PubResp {{ fixed_header: p.fixed_header, ..PubResp::dflt() }}, PubResp_body(p)) == Some((PubResp_norm(p), p.size()))
{{
    PubResp_shape(p, Seq::empty());
    let v = PubResp {{ fixed_header: p.fixed_header, ..PubResp::dflt() }};
    let s = PubResp_body(p);
    if PubResp_short(p) {{
        u16_round_trip(p.packet_id, Seq::empty()); add_nil(s);
        PubResp_pshape(p, Seq::empty());
        assert(PubResp_r0(p) =~= Seq::<u8>::empty());
        PubResp_prt(p, Seq::empty(), 0); add_nil(PubResp_r0(p));
        let e = Seq::<u8>::empty();
        props_unfold(PubResp_blank(p), e, 0); props_unfold(p, e, 0);
        assert(PubResp_blank(p) == p);
    }} else {{
        u16_round_trip(p.packet_id, PubResp_b1(p));
        let y = p.reason->0;
        y.code_tf();
        assert(s.skip(2) =~= PubResp_b1(p));
        assert(s.skip(2)[0] == y.code());
        assert(s.skip(3) =~= {sect});
        add_nil({sect});
        PubResp_sect(p, Seq::empty());
        assert(PubResp_hdr(v, s) == Some((PubResp_blank(p), 3nat)));
    }}
}}""")
        return
    # ---- shape
    names = []
    for j in range(n, -1, -1):
        body = last if j == n else f"{hb(*hdr[j])} + {P}_b{j+1}(p)"
        w(f"pub open spec fn {P}_b{j}(p: {P}) -> Bs {{ {body} }}")
    if P == "Disconnect":
        w("/// C09: short exactly for a normal disconnect without properties\npub open spec fn Disconnect_body(p: Disconnect) -> Bs { if Disconnect_short(p) { Seq::empty() } else { Disconnect_b0(p) } }")
    else: w(f"pub open spec fn {P}_body(p: {P}) -> Bs {{ {P}_b0(p) }}")
    pr = ["let a0 = acc.push(fh_byte(p.fixed_header)) + e_vbi(p.size() as u32);"]
    for j, (f, k) in enumerate(hdr):
        nx = {"u8": f"a{j}.push(p.{f})", "u16": f"a{j} + w16(p.{f})", "str": f"a{j} + e_bin(p.{f}@)", "reason": f"a{j}.push(p.{f}.code())",
              "pid": f"(match p.{f} {{ Some(x) => a{j} + w16(x), None => a{j} }})"}[k]
        pr.append(f"let a{j+1} = {nx}; assert(a{j+1} =~= a{j} + {hb(f, k)});")
    pr.append(f"{P}_pshape(p, a{n});")
    if islist:
        pr.append(f"l_el(a{n} + {sect}, p.{f0(pay)}@, p.{f0(pay)}@.len()); assoc(a{n}, {sect}, {pl});")
    if pay == "rest":
        pr.append(f"assoc(a{n}, {sect}, {pl}); if p.payload is None {{ add_nil(a{n} + {sect}); }}")
    if pay == "connect":
        pr.append(f"Connect_plshape(p, a{n} + {sect}); l_pl(p);")
        pr.append(f"assoc(a{n}, {sect}, {pl});")
    for j in range(n - 1, -1, -1):
        pr.append(f"assoc(a{j}, {hb(*hdr[j])}, {P}_b{j+1}(p));")
    body = "\n    ".join(pr)
    if P == "Disconnect":
        body = "if Disconnect_short(p) { add_nil(acc.push(fh_byte(p.fixed_header)) + e_vbi(0)); } else {\n    " + body + "\n    }"
    if pay == "connect":
        w("""pub open spec fn Connect_eacc(p: Connect, a: Bs) -> Bs {
    let b = a + e_bin(p.client_id@);
    ef_optb(ef_opts(ef_optb(ef_opts((match p.will_properties { Some(h) => h.enc_acc(b), None => b }), p.will_topic), p.will_payload), p.username), p.password)
}
pub proof fn Connect_plshape(p: Connect, c0: Bs)
    ensures Connect_eacc(p, c0) == c0 + Connect_pl(p)
{
    let c1 = c0 + e_bin(p.client_id@); let c2 = c1 + eo_w(p.will_properties); let c3 = c2 + eo_s(p.will_topic); let c4 = c3 + eo_b(p.will_payload); let c5 = c4 + eo_s(p.username);
    match p.will_properties { Some(h) => { WillHeader_pshape(h, c1); }, None => { add_nil(c1); } }
    add_nil(c2); add_nil(c3); add_nil(c4); add_nil(c5);
    assert(ef_opts(c2, p.will_topic) == c3); assert(ef_optb(c3, p.will_payload) == c4); assert(ef_opts(c4, p.username) == c5);
    assoc(c4, eo_s(p.username), eo_b(p.password)); assoc(c3, eo_b(p.will_payload), Connect_p4(p)); assoc(c2, eo_s(p.will_topic), Connect_p3(p)); assoc(c1, eo_w(p.will_properties), Connect_p2(p)); assoc(c0, e_bin(p.client_id@), Connect_p1(p));
}
pub proof fn l_pl(p: Connect)
    requires p.size() <= VBI_MAX
    ensures Connect_pl(p).len() == 2 + p.client_id@.len() + (match p.will_properties { Some(h) => h.size(), None => 0 }) + (match p.will_topic { Some(t) => 2 + t@.len(), None => 0 })
        + (match p.will_payload { Some(t) => t@.len() + 2, None => 0 }) + (match p.username { Some(t) => 2 + t@.len(), None => 0 }) + (match p.password { Some(t) => t@.len() + 2, None => 0 })
{
    match p.will_properties { Some(h) => { WillHeader_pshape(h, Seq::empty()); }, None => { } }
}""")
    hides = "hide(Connect_r0); hide(Connect_pl); hide(Connect_eacc);" if P == "Connect" else ""
    if P == "Connect":
        w("""pub proof fn Connect_encs(p: Connect, acc: Bs)
    ensures p.enc_acc(acc) == Connect_eacc(p, Connect_pre(p, acc))
{ }""")
        pr.insert(0, "Connect_encs(p, acc);")
        body = "\n    ".join(pr)
    body = hides + body
    w(f"""{'#[verifier::spinoff_prover] #[verifier::rlimit(60)]' if P == 'Connect' else ''}
pub proof fn {P}_shape(p: {P}, acc: Bs)
    requires p.size() <= VBI_MAX
    ensures p.enc_acc(acc) == (acc.push(fh_byte(p.fixed_header)) + e_vbi(p.size() as u32)) + {P}_body(p), {P}_body(p).len() == p.size()
{{
    {body}
}}""")
    # ---- round trip
    init = f"{P}::dflt()"
    wf = ["p.enc_ok()", f"{P}_pwf(p)"]
    for f, k in hdr:
        if k == "str": wf.append(f"is_utf8(p.{f}@)")
        if k == "pid": wf.append("(p.packet_id is Some <==> fh_qos(p.fixed_header) != 0)")
    if islist: wf.append(f"wfl(p.{f0(pay)}@)")
    if P == "Publish": init = "Publish { fixed_header: p.fixed_header, ..Publish::dflt() }"
    elif P == "Connect": init = "connect_new(c0)"; wf.append("p.fixed_header == fh_new(PacketType::Connect)")
    else: wf.append(f"p.fixed_header == {P}::dflt().fixed_header")
    if P == "Connect":
        wf += ["Connect_flags_ok(p)", "Connect_strs_ok(p)"]
    w(f"pub open spec fn {P}_wf(p: {P}) -> bool {{ {' && '.join(wf)} }}")
    w(f"/// what decoding gives back\npub open spec fn {P}_norm(p: {P}) -> {P} {{ {norm} }}")
    hd = ["let s = {P}_b0(p); assert(s.skip(0) =~= s);".replace("{P}", P)]
    off = "0"
    for j, (f, k) in enumerate(hdr):
        hd.append(f"{hrt(f, k, f'{P}_b{j+1}(p)')} let o{j+1}: nat = ({'o%d' % j if j else '0nat'} + {hl(f, k)}) as nat; assert({P}_b{j}(p).skip({hl(f, k)} as int) =~= {P}_b{j+1}(p)); assert(s.skip(o{j+1} as int) =~= s.skip({'o%d as int' % j if j else '0'}).skip({hl(f, k)} as int)); ")
    hlen = "(" + " + ".join([hl(f, k) for f, k in hdr] or ["0nat"]) + ") as nat"
    hreq = [f"fits(p.{f}@) && is_utf8(p.{f}@)" for f, k in hdr if k == "str"] + (["(p.packet_id is Some <==> fh_qos(p.fixed_header) != 0)", "v.fixed_header == p.fixed_header", "v.packet_id is None"] if P == "Publish" else []) or ["true"]
    hbody = "\n    ".join(hd)
    hset = f"{P} {{ " + "".join(f"{f}: p.{f}, " for f, k in hdr) + "..v }"
    w(f"""pub proof fn {P}_hrt(p: {P}, v: {P})
    requires {', '.join(hreq)}
    ensures {P}_hdr(v, {P}_b0(p)) == Some(({hset}, {hlen})), {P}_b0(p).skip(({hlen}) as int) == {P}_b{n}(p)
{{
    {hbody}
}}""")
    pr = [f"{P}_shape(p, Seq::empty());", f"let v = {init}; let s = {P}_body(p); let q = {q};", f"{P}_hrt(p, v); let on = {hlen};"]
    if P == "Connect": pr.insert(0, "hide(Connect_hdr); hide(d_cp); hide(Connect_r0); hide(Connect_pwf); hide(Connect_strs_ok); hide(Connect_flags_ok); hide(Connect_pl); hide(Connect_blank); hide(connect_new);")
    on = "on"
    rest = pl or "Seq::<u8>::empty()"
    if not pl: pr.append(f"add_nil({sect});")
    if P == "Connect": pr.append("Connect_q(p, q); Connect_wf_parts(p); Connect_blankq(p, c0);")
    pr.append(f"assert({P}_r0(q) == {P}_r0(p)); assert(q.psize() == p.psize()); assert({P}_pwf(q)); {P}_sect(q, {rest});")
    pr.append(f"assert({P}_hdr(v, s) == Some(({P}_blank(q), {on})));")
    pr.append(f"{P}_pshape(p, Seq::empty());")
    pr.append(f"let k = ({on} + (vbi_len(p.psize()) + p.psize())) as nat; assert({P}_head(v, s) == Some((q, k)));")
    if pl: pr.append(f"assert(s.skip(k as int) =~= s.skip({on} as int).skip((vbi_len(p.psize()) + p.psize()) as int)); assert(({sect} + {pl}).skip((vbi_len(p.psize()) + p.psize()) as int) =~= {pl}); assert(s.skip(k as int) == {pl});")
    if islist:
        f = f0(pay)
        pr.append(f"list_rt(Seq::<{pay[2]}>::empty(), p.{f}@); assert(Seq::<{pay[2]}>::empty() + p.{f}@ =~= p.{f}@);")
    if pay == "connect": pr.append("Connect_plrt(p, q);")
    body = "\n    ".join(pr)
    if pay == "connect":
        w(PLRT)
    if P == "Disconnect":
        body = """if Disconnect_short(p) {
        Disconnect_pshape(p, Seq::empty());
        assert(Disconnect_r0(p) =~= Seq::<u8>::empty());
        Disconnect_prt(p, Seq::empty(), 0); add_nil(Disconnect_r0(p));
        let e = Seq::<u8>::empty();
        props_unfold(Disconnect_blank(p), e, 0); props_unfold(p, e, 0);
        assert(Disconnect_blank(p) == p);
    } else {
    """ + body + "\n    }"
    w(f"""/// the packet read back
#[verifier::rlimit(40)]
pub proof fn {P}_rt(p: {P}{', c0: String' if pay == 'connect' else ''})
    requires {P}_wf(p)
    ensures {P}::dec({init}, {P}_body(p)) == Some(({P}_norm(p), p.size()))
{{
    {body}
}}""")

def f0(pay): return pay[1]

PLRT = """pub open spec fn Connect_flags_ok(p: Connect) -> bool {
    (p.will_properties is Some <==> cf_will(p.connect_flags)) && (p.will_topic is Some <==> cf_will(p.connect_flags)) && (p.will_payload is Some <==> cf_will(p.connect_flags))
    && (p.username is Some <==> cf_user(p.connect_flags)) && (p.password is Some <==> cf_pass(p.connect_flags))
}
pub open spec fn Connect_strs_ok(p: Connect) -> bool {
    (p.will_properties matches Some(h) ==> WillHeader_pwf(h)) && (p.will_topic matches Some(t) ==> is_utf8(t@) && fits(t@)) && (p.will_payload matches Some(t) ==> fits(t@))
    && (p.username matches Some(t) ==> is_utf8(t@) && fits(t@)) && (p.password matches Some(t) ==> fits(t@)) && is_utf8(p.client_id@) && fits(p.client_id@)
}
pub proof fn Connect_whrt(h: WillHeader, rest: Bs)
    requires WillHeader_pwf(h)
    ensures WillHeader::dec(WillHeader::dflt(), eo_w(Some(h)) + rest) == Some((h, (vbi_len(h.psize()) + h.psize()) as nat)), eo_w(Some(h)).len() == vbi_len(h.psize()) + h.psize()
{
    WillHeader_sect(h, rest); WillHeader_pshape(h, Seq::empty());
    assert(WillHeader_blank(h) == WillHeader::dflt());
}
pub proof fn Connect_willrt(p: Connect, v0: Connect)
    requires Connect_flags_ok(p), Connect_strs_ok(p), v0.connect_flags == p.connect_flags, v0.will_properties is None, v0.will_topic is None, v0.will_payload is None
    ensures ({ let n1 = (eo_w(p.will_properties).len() + eo_s(p.will_topic).len() + eo_b(p.will_payload).len()) as nat;
        d_cp_will(v0, Connect_p1(p)) == Some((Connect { will_properties: p.will_properties, will_topic: p.will_topic, will_payload: p.will_payload, ..v0 }, n1))
        && Connect_p1(p).skip(n1 as int) == Connect_p4(p) })
{
    hide(WillHeader_pwf); hide(WillHeader_r0);
    let s1 = Connect_p1(p); let s2 = Connect_p4(p);
    if cf_will(p.connect_flags) {
        let h = p.will_properties->0; let t = p.will_topic->0; let b = p.will_payload->0;
        Connect_whrt(h, Connect_p2(p));
        let a = (vbi_len(h.psize()) + h.psize()) as nat;
        assert(s1.skip(a as int) =~= Connect_p2(p));
        bin_round_trip(t@, Connect_p3(p));
        let c = (t@.len() + 2) as nat;
        assert(Connect_p2(p).skip(c as int) =~= Connect_p3(p));
        assert(s1.skip((a + c) as int) =~= s1.skip(a as int).skip(c as int));
        bin_round_trip(b@, Connect_p4(p));
        let e = (b@.len() + 2) as nat;
        assert(Connect_p3(p).skip(e as int) =~= s2);
        assert(s1.skip((a + c + e) as int) =~= s1.skip((a + c) as int).skip(e as int));
    } else {
        assert(s1 =~= s2); assert(s1.skip(0) =~= s1);
        assert(Connect { will_properties: p.will_properties, will_topic: p.will_topic, will_payload: p.will_payload, ..v0 } == v0);
    }
}
pub proof fn Connect_userrt(p: Connect, v1: Connect)
    requires Connect_flags_ok(p), Connect_strs_ok(p), v1.connect_flags == p.connect_flags, v1.username is None
    ensures d_cp_user(v1, Connect_p4(p)) == Some((Connect { username: p.username, ..v1 }, eo_s(p.username).len())), Connect_p4(p).skip(eo_s(p.username).len() as int) == eo_b(p.password)
{
    let s2 = Connect_p4(p); let s3 = eo_b(p.password); let n2 = eo_s(p.username).len();
    if cf_user(p.connect_flags) { bin_round_trip((p.username->0)@, s3); assert(s2.skip(n2 as int) =~= s3); } else { assert(s2 =~= s3); assert(s2.skip(0) =~= s2); assert(Connect { username: p.username, ..v1 } == v1); }
}
pub proof fn Connect_passrt(p: Connect, v2: Connect)
    requires Connect_flags_ok(p), Connect_strs_ok(p), v2.connect_flags == p.connect_flags, v2.password is None
    ensures d_cp_pass(v2, eo_b(p.password)) == Some((Connect { password: p.password, ..v2 }, eo_b(p.password).len()))
{
    let s3 = eo_b(p.password);
    if cf_pass(p.connect_flags) { bin_round_trip((p.password->0)@, Seq::empty()); add_nil(s3); } else { assert(Connect { password: p.password, ..v2 } == v2); }
}
pub proof fn Connect_q(p: Connect, q: Connect)
    requires q == (Connect { client_id: q.client_id, will_properties: None, will_topic: None, will_payload: None, username: None, password: None, ..p })
    ensures Connect_r0(q) == Connect_r0(p), q.psize() == p.psize(), Connect_pwf(p) ==> Connect_pwf(q)
{ }
pub proof fn Connect_wf_parts(p: Connect)
    requires Connect_wf(p)
    ensures Connect_flags_ok(p), Connect_strs_ok(p), Connect_pwf(p), fits(p.protocol_name@), is_utf8(p.protocol_name@), p.size() <= VBI_MAX, p.psize() <= VBI_MAX
{ }
pub proof fn Connect_blankq(p: Connect, c0: String)
    requires p.fixed_header == fh_new(PacketType::Connect)
    ensures ({ let q = Connect { client_id: c0, will_properties: None, will_topic: None, will_payload: None, username: None, password: None, ..p };
        Connect_blank(q) == (Connect { protocol_name: p.protocol_name, protocol_version: p.protocol_version, connect_flags: p.connect_flags, keep_alive: p.keep_alive, ..connect_new(c0) }) })
{ }
pub proof fn Connect_plrt(p: Connect, q: Connect)
    requires Connect_flags_ok(p), Connect_strs_ok(p), q == (Connect { client_id: q.client_id, will_properties: None, will_topic: None, will_payload: None, username: None, password: None, ..p })
    ensures d_cp(q, Connect_pl(p)) == Some((p, Connect_pl(p).len()))
{
    hide(d_cp_will); hide(d_cp_user); hide(d_cp_pass);
    let s = Connect_pl(p);
    bin_round_trip(p.client_id@, Connect_p1(p));
    let n0 = (p.client_id@.len() + 2) as nat;
    let s1 = Connect_p1(p);
    assert(s.skip(n0 as int) =~= s1);
    let v0 = Connect { client_id: p.client_id, ..q };
    assert(d_str(s) == Some((p.client_id, n0)));
    let n1 = (eo_w(p.will_properties).len() + eo_s(p.will_topic).len() + eo_b(p.will_payload).len()) as nat;
    let v1 = Connect { will_properties: p.will_properties, will_topic: p.will_topic, will_payload: p.will_payload, ..v0 };
    Connect_willrt(p, v0);
    assert(s.skip((n0 + n1) as int) =~= s.skip(n0 as int).skip(n1 as int));
    let n2 = eo_s(p.username).len();
    let v2 = Connect { username: p.username, ..v1 };
    Connect_userrt(p, v1);
    assert(s.skip((n0 + n1 + n2) as int) =~= s.skip((n0 + n1) as int).skip(n2 as int));
    Connect_passrt(p, v2);
    assert(Connect { password: p.password, ..v2 } == p);
    assert(s.len() == n0 + n1 + n2 + eo_b(p.password).len());
}"""
