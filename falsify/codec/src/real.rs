//! Glue between the reference's abstract packets and the crate's own types: `observe` compares a
//! decoded packet with an abstract one through the public API, `build` makes one through it.
use crate::refc::*;
use bytes::Bytes;
use vaux_mqtt::codec::{CodecSize, Packet, Reason};
use vaux_mqtt::property::UserProperty;
use vaux_mqtt::subscribe::RetainHandling;
use vaux_mqtt::subscribe::SubAck;
use vaux_mqtt::unsubscribe::{UnsubAck, Unsubscribe};
use vaux_mqtt::*;

fn s(b: &[u8]) -> String { String::from_utf8(b.to_vec()).unwrap() }
fn reason(c: u8) -> Reason { Reason::try_from(c).unwrap() }
pub fn qos(c: u8) -> QoSLevel { match c { 0 => QoSLevel::AtMostOnce, 1 => QoSLevel::AtLeastOnce, _ => QoSLevel::ExactlyOnce } }
fn pf(c: u8) -> PayloadFormat { if c == 0 { PayloadFormat::Bin } else { PayloadFormat::Utf8 } }
pub fn up_of(c: &Cp) -> UserProperty {
    let mut u = UserProperty::new();
    for (k, vs) in &c.up { for v in vs { u.add(s(k), s(v)) } }
    u
}
struct G<'a>(&'a Cp);
impl G<'_> {
    fn u32(&self, id: u8) -> Option<u32> { match self.0.one.get(&id) { Some(V::U32(x)) => Some(*x), _ => None } }
    fn u16(&self, id: u8) -> Option<u16> { match self.0.one.get(&id) { Some(V::U16(x)) => Some(*x), _ => None } }
    fn b(&self, id: u8) -> Option<bool> { match self.0.one.get(&id) { Some(V::U8(x)) => Some(*x == 1), _ => None } }
    fn u8(&self, id: u8) -> Option<u8> { match self.0.one.get(&id) { Some(V::U8(x)) => Some(*x), _ => None } }
    fn s(&self, id: u8) -> Option<String> { match self.0.one.get(&id) { Some(V::S(x)) => Some(s(x)), _ => None } }
    fn bin(&self, id: u8) -> Vec<u8> { match self.0.one.get(&id) { Some(V::S(x)) => x.clone(), _ => vec![] } }
}
macro_rules! ck { ($f:expr, $g:expr) => { let (f, g) = (&$f, &$g); if f != g { return Err(format!("{} is {:?}, expected {:?}", stringify!($f), f, g)) } } }

/// checks every publicly visible field of the decoded packet against the abstract one
pub fn observe(p: &Packet, r: &Rp) -> Result<(), String> {
    let c = canon_props(&r.props, r.pt, false);
    let g = G(&c);
    let up = up_of(&c);
    match (p, &r.pay) {
        (Packet::PingRequest(_), _) => { ck!(12u8, r.pt); }
        (Packet::PingResponse(_), _) => { ck!(13u8, r.pt); }
        (Packet::Connect(x), Pay::Conn { cid, will, user, pass }) => {
            ck!(1u8, r.pt);
            let f = match &r.hdr[2] { V::U8(f) => *f, _ => 0 };
            ck!(V::U16(x.keep_alive), r.hdr[3]);
            ck!(x.clean_start(), f & 2 != 0); ck!(x.will(), f & 4 != 0); ck!(x.will_retain(), f & 0x20 != 0);
            ck!(x.username(), f & 0x80 != 0); ck!(x.password(), f & 0x40 != 0);
            ck!(x.username(), user.is_some()); ck!(x.password(), pass.is_some());
            ck!(x.will_qos().ok(), Some(qos((f >> 3) & 3)));
            ck!(x.session_expiry_interval, g.u32(0x11)); ck!(x.receive_maximum, g.u16(0x21)); ck!(x.max_packet_size, g.u32(0x27));
            ck!(x.topic_alias_maximum, g.u16(0x22)); ck!(x.request_response_info, g.b(0x19)); ck!(x.request_problem_info, g.b(0x17));
            ck!(x.auth_method, g.s(0x15)); ck!(x.auth_data, g.bin(0x16)); ck!(x.user_properties, up); ck!(x.client_id, s(cid));
            ck!(x.will_message(), will.as_ref().map(|w| will_of(w, f)));
        }
        (Packet::ConnAck(x), _) => {
            ck!(2u8, r.pt);
            ck!(V::U8(x.session_present() as u8), r.hdr[0]); ck!(V::U8(x.reason as u8), r.hdr[1]);
            ck!(x.session_expiry_interval, g.u32(0x11)); ck!(x.receive_maximum, g.u16(0x21)); ck!(x.receive_max(), g.u16(0x21)); ck!(x.maximum_qos, g.u8(0x24).map(qos));
            ck!(x.retain_available, g.b(0x25)); ck!(x.maximum_packet_size, g.u32(0x27)); ck!(x.assigned_client_id, g.s(0x12));
            ck!(x.topic_alias_maximum, g.u16(0x22)); ck!(x.reason_string, g.s(0x1f)); ck!(x.subscription_identifier_available, g.b(0x29));
            ck!(x.user_properties, up); ck!(x.wildcard_subscription_available, g.b(0x28)); ck!(x.shared_subscription_available, g.b(0x2a));
            ck!(x.server_keep_alive, g.u16(0x13)); ck!(x.response_information, g.s(0x1a)); ck!(x.server_reference, g.s(0x1c));
            ck!(x.auth_method, g.s(0x15)); ck!(x.auth_data, g.bin(0x16));
        }
        (Packet::Publish(x), Pay::Rest(b)) => {
            ck!(3u8, r.pt);
            ck!(x.dup(), r.flags & 8 != 0); ck!(x.retain(), r.flags & 1 != 0); ck!(x.qos(), qos((r.flags >> 1) & 3));
            ck!(V::S(x.topic_name.as_bytes().to_vec()), r.hdr[0]);
            ck!(x.packet_id().map(V::U16), r.hdr.get(1).cloned());
            ck!(x.message_expiry, g.u32(2)); ck!(x.payload_format, g.u8(1).map(pf)); ck!(x.topic_alias, g.u16(0x23)); ck!(x.response_topic, g.s(8));
            ck!(x.correlation_data, g.bin(9)); ck!(x.subscription_identifiers, g.u32(0x0b)); ck!(x.content_type, g.s(3)); ck!(x.user_properties, up);
            ck!(x.payload.as_deref().unwrap_or_default(), &b[..]);
        }
        (Packet::PubAck(x), _) | (Packet::PubRec(x), _) | (Packet::PubRel(x), _) | (Packet::PubComp(x), _) => {
            ck!(match p { Packet::PubAck(_) => 4u8, Packet::PubRec(_) => 5, Packet::PubRel(_) => 6, _ => 7 }, r.pt);
            ck!(V::U16(x.packet_id), r.hdr[0]); ck!(V::U8(x.reason().unwrap_or_default() as u8), r.hdr[1]);
        }
        (Packet::Disconnect(x), _) => {
            ck!(14u8, r.pt);
            ck!(V::U8(x.reason as u8), r.hdr[0]); ck!(x.session_expiry_interval, g.u32(0x11)); ck!(x.reason_string, g.s(0x1f)); ck!(x.server_reference, g.s(0x1c)); ck!(x.user_properties, up);
        }
        (Packet::Subscribe(x), Pay::Filters(l)) => {
            ck!(8u8, r.pt);
            ck!(V::U16(x.packet_id), r.hdr[0]); ck!(x.subscription_id, g.u32(0x0b)); ck!(x.user_props, up);
            ck!(x.filter.len(), l.len());
            for (f, (t, o)) in x.filter.iter().zip(l) {
                ck!(f.filter, s(t)); ck!(f.qos() as u8, if o & 3 == 3 { 0 } else { o & 3 }); ck!(f.no_local(), o & 4 != 0); ck!(f.retain_as_published(), o & 8 != 0);
                ck!(f.retain_handling() as u8, if (o >> 4) & 3 == 3 { 0 } else { (o >> 4) & 3 });
            }
        }
        (Packet::SubAck(x), Pay::Reasons(l)) => {
            ck!(9u8, r.pt);
            ck!(V::U16(x.packet_id()), r.hdr[0]); ck!(x.reason, g.s(0x1f)); ck!(x.user_properties, up);
            ck!(x.reason_codes.iter().map(|r| *r as u8).collect::<Vec<_>>(), *l);
        }
        (Packet::Unsubscribe(x), Pay::Topics(l)) => {
            ck!(10u8, r.pt);
            ck!(V::U16(x.packet_id), r.hdr[0]); ck!(x.props, up);
            ck!(x.topics.iter().map(|t| t.as_bytes().to_vec()).collect::<Vec<_>>(), *l);
        }
        (Packet::UnsubAck(x), Pay::Reasons(l)) => {
            ck!(11u8, r.pt);
            ck!(V::U16(x.packet_id), r.hdr[0]); ck!(x.reason, g.s(0x1f).unwrap_or_default()); ck!(x.user_properties, up);
            ck!(x.reason_code.iter().map(|r| *r as u8).collect::<Vec<_>>(), *l);
        }
        _ => return Err(format!("decoded as {:?}", PacketType::from(p))),
    }
    Ok(())
}
pub fn will_of(w: &Will, f: u8) -> WillMessage {
    let c = canon_props(&w.props, 1, true);
    let g = G(&c);
    let header = WillHeader { will_delay: g.u32(0x18), payload_format: g.u8(1).map(pf), message_expiry: g.u32(2), content_type: g.s(3), response_topic: g.s(8), correlation_data: g.bin(9), user_properties: up_of(&c) };
    WillMessage { header, topic: s(&w.topic), payload: Bytes::from(w.payload.clone()), qos: qos((f >> 3) & 3), retain: f & 0x20 != 0 }
}
/// the packet made through the public API, or None where it cannot be made that way
pub fn build(r: &Rp) -> Option<Result<Packet, String>> {
    let c = canon_props(&r.props, r.pt, false);
    let g = G(&c);
    let u = up_of(&c);
    let h16 = |i: usize| match r.hdr.get(i) { Some(V::U16(x)) => *x, _ => 0 };
    let h8 = |i: usize| match r.hdr.get(i) { Some(V::U8(x)) => *x, _ => 0 };
    Some(Ok(match r.pt {
        1 => {
            let mut x = Connect::new();
            let f = h8(2);
            x.keep_alive = h16(3); x.set_clean_start(f & 2 != 0);
            x.session_expiry_interval = g.u32(0x11); x.receive_maximum = g.u16(0x21); x.max_packet_size = g.u32(0x27); x.topic_alias_maximum = g.u16(0x22);
            x.request_response_info = g.b(0x19); x.request_problem_info = g.b(0x17); x.auth_method = g.s(0x15); x.auth_data = g.bin(0x16); x.user_properties = u;
            if let Pay::Conn { cid, will, user, pass } = &r.pay {
                x.client_id = s(cid);
                if let Some(w) = will { x.set_will_message(will_of(w, f)) }
                x.set_username(user.as_ref().map(|u| s(u)));
                x.set_password(pass.clone());
            }
            Packet::Connect(Box::new(x))
        }
        2 => {
            let mut x = ConnAck::default();
            x.reason = reason(h8(1)); x.session_expiry_interval = g.u32(0x11); x.receive_maximum = g.u16(0x21); x.maximum_qos = g.u8(0x24).map(qos); x.retain_available = g.b(0x25); x.maximum_packet_size = g.u32(0x27); x.assigned_client_id = g.s(0x12); x.topic_alias_maximum = g.u16(0x22); x.reason_string = g.s(0x1f); x.subscription_identifier_available = g.b(0x29); x.user_properties = u; x.wildcard_subscription_available = g.b(0x28); x.shared_subscription_available = g.b(0x2a); x.server_keep_alive = g.u16(0x13); x.response_information = g.s(0x1a); x.server_reference = g.s(0x1c); x.auth_method = g.s(0x15); x.auth_data = g.bin(0x16);
            x.set_session_present(h8(0) & 1 != 0);
            Packet::ConnAck(x)
        }
        3 => {
            let q = qos((r.flags >> 1) & 3);
            let Pay::Rest(b) = &r.pay else { return None };
            let t = match &r.hdr[0] { V::S(x) => s(x), _ => return None };
            let pid = if q == QoSLevel::AtMostOnce { None } else { Some(h16(1)) };
            let mut x = match Publish::new_with_payload(pid, t, q, b.clone()) { Ok(x) => x, Err(e) => return Some(Err(format!("new_with_payload: {e}"))) };
            if let Err(e) = x.set_dup(r.flags & 8 != 0) { return Some(Err(format!("set_dup: {e}"))) }
            x.set_retain(r.flags & 1 != 0);
            x.message_expiry = g.u32(2); x.payload_format = g.u8(1).map(pf); x.topic_alias = g.u16(0x23); x.response_topic = g.s(8); x.correlation_data = g.bin(9);
            x.subscription_identifiers = g.u32(0x0b); x.content_type = g.s(3); x.user_properties = u;
            Packet::Publish(x)
        }
        4..=7 => {
            if !r.props.is_empty() { return None }
            let id = h16(0);
            let (mut x, w): (PubAck, fn(PubAck) -> Packet) = match r.pt { 4 => (PubAck::new_puback_with_packet_id(id), Packet::PubAck), 5 => (PubAck::new_pubrec_with_packet_id(id), Packet::PubRec),
                6 => (PubAck::new_pubrel_with_packet_id(id), Packet::PubRel), _ => (PubAck::new_pubcomp_with_packet_id(id), Packet::PubComp) };
            if h8(1) != 0 { if let Err(e) = x.set_reason(reason(h8(1))) { return Some(Err(format!("set_reason({:#x}): {e}", h8(1)))) } }
            w(x)
        }
        8 => {
            let Pay::Filters(l) = &r.pay else { return None };
            let mut x = Subscribe::new_with_packet_id(h16(0));
            x.subscription_id = g.u32(0x0b); x.user_props = u;
            for (t, o) in l {
                if o & 3 == 3 || (o >> 4) & 3 == 3 || o & 0xc0 != 0 { return None }
                let mut f = SubscriptionFilter::new(s(t), qos(o & 3));
                f.set_no_local(o & 4 != 0); f.set_retain_as_published(o & 8 != 0);
                f.set_retain_handling(match (o >> 4) & 3 { 0 => RetainHandling::Send, 1 => RetainHandling::SendNew, _ => RetainHandling::None });
                x.add_filter(f);
            }
            Packet::Subscribe(x)
        }
        9 => {
            let Pay::Reasons(l) = &r.pay else { return None };
            let mut x = match SubAck::new_with_packet_id(h16(0)) { Ok(x) => x, Err(e) => return if h16(0) == 0 { None } else { Some(Err(format!("new_with_packet_id: {e}"))) } };
            x.reason = g.s(0x1f); x.user_properties = u; x.reason_codes = l.iter().map(|c| reason(*c)).collect();
            Packet::SubAck(x)
        }
        10 => {
            let Pay::Topics(l) = &r.pay else { return None };
            let mut x = Unsubscribe::new(h16(0), l.iter().map(|t| s(t)).collect());
            x.props = u;
            Packet::Unsubscribe(x)
        }
        11 => {
            let Pay::Reasons(l) = &r.pay else { return None };
            let mut x = UnsubAck::default();
            x.packet_id = h16(0); x.reason = g.s(0x1f).unwrap_or_default(); x.user_properties = u; x.reason_code = l.iter().map(|c| reason(*c)).collect();
            Packet::UnsubAck(x)
        }
        12 => Packet::PingRequest(PingReq::default()),
        13 => Packet::PingResponse(PingResp::default()),
        14 => {
            let mut x = Disconnect::new(reason(h8(0)));
            x.session_expiry_interval = g.u32(0x11); x.reason_string = g.s(0x1f); x.server_reference = g.s(0x1c); x.user_properties = u;
            Packet::Disconnect(x)
        }
        _ => return None,
    }))
}
/// the size a packet reports for itself
pub fn size(p: &Packet) -> u32 {
    match p {
        Packet::PingRequest(x) => x.codec_size(), Packet::PingResponse(x) => x.codec_size(), Packet::Connect(x) => x.codec_size(), Packet::ConnAck(x) => x.codec_size(),
        Packet::Publish(x) => x.codec_size(), Packet::PubAck(x) | Packet::PubRec(x) | Packet::PubRel(x) | Packet::PubComp(x) => x.codec_size(),
        Packet::Disconnect(x) => x.codec_size(), Packet::Subscribe(x) => x.codec_size(), Packet::SubAck(x) => x.codec_size(), Packet::Unsubscribe(x) => x.codec_size(), Packet::UnsubAck(x) => x.codec_size(),
    }
}
