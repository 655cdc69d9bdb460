// ---- requests and their acknowledgements
impl SubAck {
//@fn mqtt SubAck::new_with_packet_id
    ensures r is Ok <==> packet_id != 0, r matches Ok(p) ==> p == (SubAck { packet_id, ..SubAck::dflt() }),
//@end
//@fn mqtt SubAck::packet_id
    ensures r == self.packet_id,
//@end
//@fn mqtt SubAck::set_packet_id
    ensures r is Ok <==> packet_id != 0, *final(self) == (if r is Ok { SubAck { packet_id, ..*old(self) } } else { *old(self) }),
//@end
}
impl Subscribe {
//@fn mqtt Subscribe::new_with_packet_id
    ensures r == (Subscribe { packet_id, ..Subscribe::dflt() }),
//@end
//@fn mqtt Subscribe::new_with_filter
    ensures r == (Subscribe { packet_id, filter, ..Subscribe::dflt() }),
//@end
//@fn mqtt Subscribe::add_filter
    ensures *final(self) == (Subscribe { filter: final(self).filter, ..*old(self) }), final(self).filter@ == old(self).filter@.push(filter),
//@end
}
impl Unsubscribe {
//@fn mqtt Unsubscribe::add_topic
    ensures *final(self) == (Unsubscribe { topics: final(self).topics, ..*old(self) }), final(self).topics@ == old(self).topics@.push(topic),
//@end
}
