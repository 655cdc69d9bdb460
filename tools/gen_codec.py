#!/usr/bin/env python3
"""Generates the packet part of the codec unit: contracts for every packet type, written from
codec_table.py (the MQTT 5 tables), never from the source under test."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from codec_table import *

MODS = []            # (module name, lines)
def module(name): MODS.append((name, []))
def w(s): MODS[-1][1].append(s)
HERE = os.path.dirname(os.path.abspath(__file__))
CONTRACTS = os.path.join(HERE, "..", "contracts")
def include(f): w(open(os.path.join(CONTRACTS, f)).read())
BROADCAST = "broadcast use {bytesmut_len, vec_ext, string_ext, skip_skip, skip_take};"
def render():
    o = ["// Verification unit generated on this run. Bodies of //@fn functions come from /repo.",
         "#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, non_snake_case, non_upper_case_globals)]",
         "use vstd::prelude::*;", "verus! {", "global size_of usize == 8;"]
    for n, _ in MODS: o.append(f"pub use {n}::*;")
    # the enum items stay at the crate root: Verus panics on derive(Structural) inside a module
    for n in ["PacketType", "Reason", "QoSLevel", "PayloadFormat", "RetainHandling", "PropertyType"]:
        o.append(f"//@item mqtt {n} | {STRUCTURAL}")
    for n, ls in MODS:
        o.append(f"pub mod {n} {{\nuse vstd::prelude::*;\nuse super::*;")
        if n != "base": o.append(BROADCAST)
        o += ls
        o.append("}")
    o.append("fn main() { }\n}")
    return "\n".join(o)

STRUCTURAL = "#[derive(Copy, Clone, PartialEq, Eq, Structural, Debug)]"

# ------------------------------------------------------------------ enums
def enum_code(name, table):
    arms = " ".join(f"{name}::{v} => 0x{c:02x}u8," for v, c in table)
    return f"match self {{ {arms} }}"

def tf_body(name, table):
    b = ""
    for v, c in table:
        b += f"if s == 0x{c:02x} {{ Some({name}::{v}) }} else "
    return b + "{ None }"

def enum(name, table, default=None, codec=False, psize=None, tf=True):
    if tf:
        w(f"impl TryFrom<u8> for {name} {{ type Error = MqttCodecError;\n    open spec fn tf(s: u8) -> Option<Self> {{ {tf_body(name, table)} }}")
        w(f"//@fn mqtt TryFrom<u8> for {name}::try_from | as=vx_try_from\n//@end\n}}")
    w(f"impl Code for {name} {{\n    open spec fn code(self) -> u8 {{ {enum_code(name, table)} }}\n    proof fn code_tf(self) {{ }}\n}}")
    w(f"/// C11: the discriminant is the code.\npub proof fn {name.lower()}_code(x: {name}) ensures x as u8 == x.code() {{ }}")
    if default:
        w(f"impl Default for {name} {{\n    open spec fn dflt() -> Self {{ {name}::{default} }}\n//@fn mqtt Default for {name}::default | as=vx_default\n//@end\n}}")
    if codec:
        w(f"""impl CodecSize for {name} {{ open spec fn size(&self) -> nat {{ 1 }}
//@fn mqtt CodecSize for {name}::codec_size
//@end
}}
impl Encode for {name} {{
    open spec fn enc_req(&self) -> bool {{ true }}
    open spec fn enc_ok(&self) -> bool {{ true }}
    open spec fn enc_acc(&self, acc: Bs) -> Bs {{ acc.push(self.code()) }}
//@fn mqtt Encode for {name}::encode
//@start
    proof {{ {name.lower()}_code(*self); }}
//@end
}}
impl Decode for {name} {{ open spec fn dec(v: Self, s: Bs) -> Option<(Self, nat)> {{ d_tf::<{name}>(s) }}
//@fn mqtt Decode for {name}::decode
//@end
}}""")
    if psize:
        w(f"impl PropertyCodecSize for {psize} {{ open spec fn psize(&self) -> nat {{ 2 }}\n//@fn mqtt PropertyCodecSize for {psize}::property_size\n//@end\n}}")

def enums():
    w("// ================================================================ enums and their codes")
    w("//@assoc mqtt Reason")
    enum("Reason", REASONS, "Success", codec=True)
    enum("QoSLevel", QOS, "AtMostOnce", codec=True, psize="&QoSLevel")
    enum("PayloadFormat", PAYLOAD_FORMAT, "Bin", codec=True, psize="PayloadFormat")
    enum("RetainHandling", RETAIN, "Send")
    enum("PropertyType", PROPERTIES)
    # PacketType: From<u8>; TryFrom is std's blanket instance over it
    pt = PACKET_TYPES
    fr = "".join(f"if b / 16 == {c >> 4} {{ PacketType::{v} }} else " for v, c in pt) + "{ PacketType::Auth }"
    w(f"pub open spec fn pt_of(b: u8) -> PacketType {{ {fr} }}")
    w(f"""#[derive(Debug)] pub struct Infallible {{ pub v: u8 }}
impl PacketType {{
//@fn mqtt From<u8> for PacketType::from | free
    ensures r == pt_of(val),
//@start
    proof {{ assert(val & 0xf0 == val / 16 * 16) by (bit_vector); }}
//@end
}}
/// std: impl<T, U: Into<T>> TryFrom<U> for T
impl TryFrom<u8> for PacketType {{ type Error = Infallible;
    open spec fn tf(s: u8) -> Option<Self> {{ Some(pt_of(s)) }}
    fn vx_try_from(value: u8) -> (r: Result<Self, Infallible>) {{ Ok(PacketType::from(value)) }}
}}
impl Default for PacketType {{ open spec fn dflt() -> Self {{ PacketType::Connect }}
//@fn mqtt Default for PacketType::default | as=vx_default
//@end
}}
impl PacketType {{ pub open spec fn code(self) -> u8 {{ {enum_code('PacketType', pt)} }} }}
/// C11: packet types are one-to-one with the high nibbles 1..15.
pub proof fn packettype_code(x: PacketType) ensures x as u8 == x.code(), pt_of(x.code()) == x {{ }}
pub proof fn packettype_rev(b: u8) requires b >= 16 ensures pt_of(b).code() == b / 16 * 16 {{ }}""")
    # C11 one-to-one both ways
    for n, t in [("Reason", REASONS), ("QoSLevel", QOS), ("PayloadFormat", PAYLOAD_FORMAT), ("RetainHandling", RETAIN), ("PropertyType", PROPERTIES)]:
        w(f"/// C11: the only byte read as x is its code.\npub proof fn {n.lower()}_only(b: u8) ensures {n}::tf(b) matches Some(x) ==> x.code() == b {{ }}")

# ------------------------------------------------------------------ header fields / properties
TY = {"u32": "Option<u32>", "u16": "Option<u16>", "bool": "Option<bool>", "str": "Option<String>", "bin": "Vec<u8>",
      "vbi": "Option<u32>", "qos": "Option<QoSLevel>", "pf": "Option<PayloadFormat>", "up": "UserProperty", "str1": "String"}
DEC = {"u32": "d_u32", "u16": "d_u16", "bool": "d_bool", "str": "d_str", "bin": "d_vec", "vbi": "d_vbi",
       "qos": "d_tf::<QoSLevel>", "pf": "d_tf::<PayloadFormat>", "str1": "d_str"}
SFX = {"u32": "u32", "u16": "u16", "bool": "bool", "str": "str", "bin": "bin", "vbi": "vbi", "qos": "code", "pf": "code", "up": "up", "str1": "str1"}
DFL = {"u32": "None", "u16": "None", "bool": "None", "str": "None", "bin": "Vec::of(Seq::empty())", "vbi": "None", "qos": "None",
       "pf": "None", "up": "UserProperty::dflt()", "str1": "String::of(Seq::empty())"}
def direct(k): return k in ("bin", "str1")

def b_of(k, i, x): return f"b_up({x})" if k == "up" else f"b_{SFX[k]}(0x{i:02x}, {x})"
def ef_of(k, i, acc, x): return f"ef_up({acc}, {x})" if k == "up" else f"ef_{SFX[k]}({acc}, 0x{i:02x}, {x})"
def l_of(k, i, acc, x): return f"l_up({acc}, {x});" if k == "up" else f"l_{SFX[k]}({acc}, 0x{i:02x}, {x});"
def z_of(k, x): return f"z_{SFX[k]}({x})"
def ok_of(k, x): return f"ok_{SFX[k]}({x})" if k in ("str", "bin", "vbi", "up", "str1") else "true"
def wf_of(k, x): return f"wf_{SFX[k]}({x})" if k in ("str", "up", "str1") else "true"

def props_impl(P, props):
    one = ""
    for f, k, i in props:
        if k == "up":
            one += f"if id == 0x26 {{ match d_pair(s) {{ Some((k, v, n)) => Some(({P} {{ {f}: UserProperty(HashMap::of(multi_add(p.{f}.0@, k, v))), ..p }}, n)), None => None }} }}\n        else "
            up = f
        else:
            v = "v" if direct(k) else "Some(v)"
            one += f"if id == 0x{i:02x} {{ match {DEC[k]}(s) {{ Some((v, n)) => Some(({P} {{ {f}: {v}, ..p }}, n)), None => None }} }}\n        else "
    w(f"""impl Props for {P} {{
    open spec fn one(p: Self, id: u8, s: Bs) -> Option<(Self, nat)> {{
        {one}{{ None }}
    }}
    open spec fn up(p: Self) -> Map<String, Vec<String>> {{ p.{up}.0@ }}
    open spec fn with_up(p: Self, m: Map<String, Vec<String>>) -> Self {{ {P} {{ {up}: UserProperty(HashMap::of(m)), ..p }} }}
    proof fn up_laws(p: Self, m: Map<String, Vec<String>>, m2: Map<String, Vec<String>>) {{ }}
    proof fn up_one(p: Self, s: Bs) {{ }}
}}""")

def psize(P, props):
    return " + ".join(z_of(k, f"self.{f}") for f, k, i in props)

def ef_name(k): return f"ef_{SFX[k]}"
def rev(k): return f" by {{ reveal({ef_name(k)}); }}"
def hide(P, props):
    if P != "ConnAck": return ""
    return "//@start\n    " + " ".join(f"hide({x});" for x in sorted({ef_name(k) for f, k, i in props})) + "\n"
def hints(props, post, snap, rv=None, chain={}):
    return "".join(f"//@pre {f}\n    let ghost vx_b_{f} = {snap};\n//@post {f}\n    assert({post(f, k, i)}){rv(k) if rv else ''};{' assert(' + ok_of(k, 'self.' + f) + ');' if rv and ok_of(k, '') != 'true' else ''}{' assert(dest@ == ' + chain[f] + ');' if chain else ''}\n" for f, k, i in props) if len(props) > 8 else ""

def prop_codec(P, props):
    w(f"""impl PropertyCodecSize for {P} {{
    open spec fn psize(&self) -> nat {{ {psize(P, props)} }}
//@fn mqtt PropertyCodecSize for {P}::property_size
{"//@attrs\n#[verifier::rlimit(400)] #[verifier::spinoff_prover]\n" if P == "ConnAck" else ""}{hints(props, lambda f, k, i: f"$acc as int == vx_b_{f} + {z_of(k, 'self.'+f)}", "$acc as int")}//@end
}}""")
    acc = "acc + e_vbi(self.psize() as u32)"
    for f, k, i in props: acc = ef_of(k, i, acc, f"self.{f}")
    chain, c = {}, "old(dest)@ + e_vbi(self.psize() as u32)"
    for f, k, i in props: c = ef_of(k, i, c, f"self.{f}"); chain[f] = c
    ok = " && ".join(ok_of(k, f"self.{f}") for f, k, i in props if ok_of(k, "") != "true")
    w(f"""impl PropertyEncode for {P} {{
    open spec fn penc_req(&self) -> bool {{ self.psize() <= u32::MAX }}
    open spec fn penc_ok(&self) -> bool {{ self.psize() <= VBI_MAX && {ok} }}
    open spec fn penc_acc(&self, acc: Bs) -> Bs {{ {acc} }}
//@fn mqtt PropertyEncode for {P}::property_encode
{"//@attrs\n#[verifier::rlimit(400)] #[verifier::spinoff_prover]\n" if P == "ConnAck" else ""}{hide(P, props)}{hints(props, lambda f, k, i: f"dest@ == {ef_of(k, i, f'vx_b_{f}', 'self.'+f)}", "dest@", rev if P == "ConnAck" else None, chain if P == "ConnAck" else {})}//@end
}}""")

def prop_rt(P, props):
    """round trip of the property section"""
    module(P.lower() + "_rt")
    n = len(props)
    for j, (f, k, i) in enumerate(props):
        nxt = f" + {P}_r{j+1}(p)" if j + 1 < n else ""
        w(f"pub open spec fn {P}_r{j}(p: {P}) -> Bs {{ {b_of(k, i, 'p.'+f)}{nxt} }}")
        nz = f" + {P}_z{j+1}(p)" if j + 1 < n else ""
        w(f"pub open spec fn {P}_z{j}(p: {P}) -> nat {{ {z_of(k, 'p.'+f)}{nz} }}")
        # step
        req = [f"m >= 0"]
        if k == "up": req.append(f"q.{f}.0@ == Map::<String, Vec<String>>::empty()")
        elif k in ("bin", "str1"): req.append(f"q.{f} == {DFL[k]}")
        else: req.append(f"q.{f} is None")
        for g in (ok_of, wf_of):
            if g(k, "x") != "true": req.append(g(k, f"p.{f}"))
        if k == "up":
            body = f"st_up(q, p.{f}, rest, m); assert({P}::with_up(q, p.{f}.0@) == {P} {{ {f}: p.{f}, ..q }});"
        else:
            rt = {"u32": "u32_round_trip(v, rest);", "u16": "u16_round_trip(v, rest);", "bool": "", "str": "bin_round_trip(v@, rest);",
                  "str1": "bin_round_trip(v@, rest);", "bin": "bin_round_trip(v@, rest);", "vbi": "vbi_round_trip(v, rest);",
                  "qos": "v.code_tf();", "pf": "v.code_tf();"}[k]
            bd = {"u32": "w32(v)", "u16": "w16(v)", "bool": "seq![if v { 1u8 } else { 0u8 }]", "str": "e_bin(v@)", "str1": "e_bin(v@)",
                  "bin": "e_bin(v@)", "vbi": "e_vbi(v)", "qos": "seq![v.code()]", "pf": "seq![v.code()]"}[k]
            q2 = f"{P} {{ {f}: p.{f}, ..q }}"
            core = f"{rt} step(q, {q2}, 0x{i:02x}, {bd}, rest, m);"
            if k in ("u32", "u16", "bool", "str", "vbi", "qos", "pf"):
                body = f"match p.{f} {{ Some(v) => {{ {core} }}, None => {{ add_nil(rest); assert({q2} == q); }} }}"
            elif k == "str1":
                body = f"let v = p.{f}; {core}"
            else:
                body = f"let v = p.{f}; if v@.len() > 0 {{ {core} }} else {{ add_nil(rest); assert(v@ =~= Seq::empty()); assert({q2} == q); }}"
        w(f"""pub proof fn {P}_st{j}(q: {P}, p: {P}, rest: Bs, m: int)
    requires {', '.join(req)}
    ensures props(q, {b_of(k, i, 'p.'+f)} + rest, {z_of(k, 'p.'+f)} + m) == props({P} {{ {f}: p.{f}, ..q }}, rest, m)
{{ {body} }}""")
    blank = ", ".join(f"{f}: {DFL[k]}" for f, k, i in props)
    w(f"pub open spec fn {P}_blank(p: {P}) -> {P} {{ {P} {{ {blank}, ..p }} }}")
    w(f"pub open spec fn {P}_pwf(p: {P}) -> bool {{ p.penc_ok()" + "".join(f" && {wf_of(k, 'p.'+f)}" for f, k, i in props if wf_of(k, '') != "true") + " }")
    body = [f"let q0 = {P}_blank(p);"]
    for j, (f, k, i) in enumerate(props):
        last = j + 1 == n
        rest = "rr" if last else f"{P}_r{j+1}(p) + rr"
        m = "m" if last else f"{P}_z{j+1}(p) + m"
        if not last: body.append(f"assoc({b_of(k, i, 'p.'+f)}, {P}_r{j+1}(p), rr);")
        body.append(f"{P}_st{j}(q{j}, p, {rest}, {m}); let q{j+1} = {P} {{ {f}: p.{f}, ..q{j} }};")
    body.append(f"assert(q{n} == p);")
    w(f"""pub proof fn {P}_prt(p: {P}, rr: Bs, m: int)
    requires {P}_pwf(p), m >= 0
    ensures props({P}_blank(p), {P}_r0(p) + rr, p.psize() + m) == props(p, rr, m)
{{
    {chr(10).join('    ' + b for b in body).strip()}
}}""")
    # shape
    body = ["let a = acc + e_vbi(p.psize() as u32);"]
    for j, (f, k, i) in enumerate(props):
        body.append(l_of(k, i, f"a{j}" if j else "a", f"p.{f}") + f" let a{j+1} = {ef_of(k, i, f'a{j}' if j else 'a', f'p.{f}')};")
    for j in range(n - 2, -1, -1):
        f, k, i = props[j]
        body.append(f"assoc({'a%d' % j if j else 'a'}, {b_of(k, i, 'p.'+f)}, {P}_r{j+1}(p));")
    body.append(f"assoc(acc, e_vbi(p.psize() as u32), {P}_r0(p));")
    w(f"""pub proof fn {P}_pshape(p: {P}, acc: Bs)
    ensures p.penc_acc(acc) == acc + (e_vbi(p.psize() as u32) + {P}_r0(p)), {P}_r0(p).len() == p.psize(), {P}_z0(p) == p.psize()
{{
    {chr(10).join('    ' + b for b in body).strip()}
}}""")
    w(f"""/// the whole property section read back
pub proof fn {P}_sect(p: {P}, rest: Bs)
    requires {P}_pwf(p)
    ensures d_props({P}_blank(p), (e_vbi(p.psize() as u32) + {P}_r0(p)) + rest) == Some((p, (vbi_len(p.psize()) + p.psize()) as nat))
{{
    let s = (e_vbi(p.psize() as u32) + {P}_r0(p)) + rest;
    vbi_round_trip(p.psize() as u32, {P}_r0(p) + rest);
    assoc(e_vbi(p.psize() as u32), {P}_r0(p), rest);
    assert(s.skip(vbi_len(p.psize()) as int) =~= {P}_r0(p) + rest);
    {P}_prt(p, rest, 0);
    props_unfold(p, rest, 0);
}}""")
    module(P.lower() + "_pkt")

LOOP0 = """        invariant
            {req}
            0 <= k0 <= old(src)@.len(), {P}_hdr(*old(self), old(src)@) == Some((v1, k0)),
            d_vbi(old(src)@.skip(k0 as int)) == Some((property_length as u32, vn)), property_length <= u32::MAX,
            bytes_read == k0 + vn,
            props(v1, s0, property_length as int) == props(*self, src@, property_length - property_bytes_read),
            s0 == old(src)@.skip((k0 + vn) as int),
            bytes_read + property_bytes_read + src@.len() == old(src)@.len(),
            src@ == old(src)@.skip(bytes_read + property_bytes_read),
        decreases src@.len(),"""

def hdr_spec(P, hdr):
    """P_hdr(v, s): the fields before the properties"""
    if not hdr:
        return f"Some((v, 0))"
    # build nested
    def go(j, v, off):
        if j == len(hdr):
            return f"Some(({v}, ({off}) as nat))"
        f, k = hdr[j]
        s = f"s.skip(({off}) as int)" if j else "s"
        d = {"u8": "d_u8", "u16": "d_u16", "str": "d_str", "reason": "d_tf::<Reason>"}.get(k)
        if k == "pid":
            return (f"if (v.fixed_header.flags / 2) % 4 == 0 {{ {go(j+1, v, off)} }} else {{ match d_u16({s}) {{ Some((x{j}, n{j})) => "
                    f"{go(j+1, P + ' { ' + f + ': Some(x%d), ..(' % j + v + ') }', off + ' + n%d' % j)}, None => None }} }}")
        return (f"match {d}({s}) {{ Some((x{j}, n{j})) => {go(j+1, P + ' { ' + f + ': x%d, ..(' % j + v + ') }', off + ' + n%d' % j)}, None => None }}")
    return go(0, "v", "0")

EXTRA = """
pub open spec fn ef_opts(acc: Bs, o: Option<String>) -> Bs { match o { Some(v) => acc + e_bin(v@), None => acc } }
pub open spec fn ef_optb(acc: Bs, o: Option<Vec<u8>>) -> Bs { match o { Some(v) => acc + e_bin(v@), None => acc } }
pub struct Uuid { pub v: u8 }
impl Uuid {
    #[verifier::external_body]
    pub fn new_v4() -> Uuid { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
"""
def unit(packets=None, full=True):
    import gen_packets
    module("base"); include("base.vrs")
    module("prims"); include("codec_prims.vrs")
    module("enums"); enums()
    if full:
        module("kinds"); include("codec_kinds.vrs")
        gen_packets.packets(globals(), packets)
        if not packets:
            module("top"); include("codec_top.vrs")
            module("acc"); include("codec_acc.vrs")
            module("resp"); include("codec_resp.vrs")
            module("reqs"); include("codec_reqs.vrs")
    return render()

if __name__ == "__main__":
    sys.modules["gen_codec"] = sys.modules["__main__"]
    print(unit(sys.argv[1].split(",") if len(sys.argv) > 1 else None))
