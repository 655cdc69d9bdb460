From 5c48cd3999de5ed68e6e9cf8eecfeda181514f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 01/44] fix: accept four byte variable byte integers when
 decoding

---
 vaux-mqtt/src/codec/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 68c55fa..bb9e2ae 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -718,6 +718,11 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
         if next_byte & 0x80 == 0 {
             decode = false;
         } else {
+            if shift > 21 {
+                return Err(MqttCodecError::new(
+                    "malformed packet: variable byte integer",
+                ));
+            }
             if !src.has_remaining() {
                 return Err(MqttCodecError::new_with_kind(
                     "Insufficient data for variable byte integer",
@@ -726,11 +731,6 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
             }
             next_byte = src.get_u8();
         }
-        if shift > 21 {
-            return Err(MqttCodecError::new(
-                "malformed packet: variable byte integer",
-            ));
-        }
     }
     Ok((result, shift / 7))
 }
-- 
2.43.0


From e7e3054d27185ee634966d318c38fedfadd1c3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 02/44] fix: reject values that do not fit a variable byte
 integer when encoding

---
 vaux-mqtt/src/codec/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index bb9e2ae..cee8aff 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -736,6 +736,11 @@ pub fn decode_variable_byte_int(src: &mut BytesMut) -> Result<(u32, usize), Mqtt
 }
 
 pub fn encode_variable_byte_int(val: u32, dest: &mut BytesMut) -> Result<(), MqttCodecError> {
+    if val > MAX_VARIABLE_BYTE_INT {
+        return Err(MqttCodecError::new(
+            "variable byte integer exceeds max value",
+        ));
+    }
     let mut encode = true;
     let mut input_val = val;
     while encode {
-- 
2.43.0


From 1f98be1e7bbfceeb814df6cbe27e00727c27b608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 03/44] fix: count the bytes of a decoded user property once

---
 vaux-mqtt/src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-mqtt/src/property.rs b/vaux-mqtt/src/property.rs
index e697cd3..06ef371 100644
--- a/vaux-mqtt/src/property.rs
+++ b/vaux-mqtt/src/property.rs
@@ -181,7 +181,7 @@ impl codec::Decode for UserProperty {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
         let (key_value, key_len) = codec::decode_string(src)?;
         let (value, len) = codec::decode_string(src)?;
-        let bytes_read = 2 + key_len + 2 + len;
+        let bytes_read = key_len + len;
         self.0.entry(key_value).or_default().push(value);
         Ok(bytes_read)
     }
-- 
2.43.0


From 8575fbdf55d206009755edeca275e2e6ce7002ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 04/44] fix: count binary properties towards the property
 length in derived decoders

---
 vaux-macro/src/decode.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 500599f..1e23e9a 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -430,8 +430,13 @@ fn decode_for_vec(
     field_name: &syn::Ident,
     type_path: &syn::TypePath,
     optional_field: bool,
-    _property_type: &Option<syn::Path>,
+    property_type: &Option<syn::Path>,
 ) -> proc_macro2::TokenStream {
+    let read = if property_type.is_some() {
+        quote! { property_bytes_read }
+    } else {
+        quote! { bytes_read }
+    };
     let decode_stmt = match &type_path.path.segments.last().unwrap().arguments {
         syn::PathArguments::AngleBracketed(args) => match args.args.first().unwrap() {
             syn::GenericArgument::Type(syn::Type::Path(vec_inner_type_path)) => {
@@ -449,14 +454,14 @@ fn decode_for_vec(
                             quote! {
                                 let mut value = Vec::new();
                                 let var_bytes_read = value.decode(src)?;
-                                bytes_read += var_bytes_read;  
+                                #read += var_bytes_read;
                                 self.#field_name = Some(value);
                             }
                         } else {
                             quote! {
                                 let mut value = Vec::new();
                                 let var_bytes_read = value.decode(src)?;
-                                bytes_read += var_bytes_read;
+                                #read += var_bytes_read;
                                 self.#field_name = value;
                             }
                         }
-- 
2.43.0


From dd300188711e4bf8bad7bd688b3083fcab4c0414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 05/44] fix: return an error instead of panicking when a packet
 field is truncated

---
 vaux-macro/src/decode.rs   |  9 +++++++--
 vaux-mqtt/src/codec/mod.rs | 17 +++++++++++++++++
 vaux-mqtt/src/connect.rs   |  6 ++++++
 vaux-mqtt/src/publish.rs   |  4 ++++
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 1e23e9a..62473f1 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -83,6 +83,7 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
             bytes_read += var_bytes_read;
             let mut property_bytes_read = 0_usize;
             while property_bytes_read < property_length {
+                codec::require_remaining(src, 1)?;
                 let property_type = src.get_u8().try_into()?;
                 property_bytes_read += 1;
                 match property_type {
@@ -282,12 +283,16 @@ pub(crate) fn decode_field(field: &syn::Field) -> proc_macro2::TokenStream {
                     }
                     type_name => {
                         if is_primitive_type(type_name) {
-                            decode_for_primitive(
+                            let decode_primitive = decode_for_primitive(
                                 field_name,
                                 &inner_field_type,
                                 optional_field,
                                 &property_type,
-                            )
+                            );
+                            quote! {
+                                codec::require_remaining(src, std::mem::size_of::<#inner_field_type>())?;
+                                #decode_primitive
+                            }
                         } else {
                             decode_for_type(
                                 field_name,
diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index cee8aff..50cfa6c 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -223,6 +223,7 @@ impl Encode for Reason {
 
 impl Decode for Reason {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        require_remaining(src, 1)?;
         let val = src.get_u8();
         *self = val.try_into()?;
         Ok(1)
@@ -286,6 +287,7 @@ impl Encode for QoSLevel {
 
 impl Decode for QoSLevel {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        require_remaining(src, 1)?;
         let val = src.get_u8();
         *self = val.try_into()?;
         Ok(1)
@@ -431,6 +433,17 @@ impl MqttCodecError {
     }
 }
 
+/// Returns an error unless the buffer holds at least the required number of bytes.
+pub fn require_remaining(src: &BytesMut, required: usize) -> Result<(), MqttCodecError> {
+    if src.len() < required {
+        return Err(MqttCodecError::new_with_kind(
+            "Insufficient data",
+            ErrorKind::InsufficientData(required, src.len()),
+        ));
+    }
+    Ok(())
+}
+
 pub fn decode(src: &mut BytesMut) -> Result<Option<(Packet, usize)>, MqttCodecError> {
     let mut fixed_header = FixedHeader::default();
     let mut decode_len = fixed_header.decode(src)?;
@@ -608,6 +621,7 @@ impl Decode for Vec<u8> {
 
 impl Decode for bool {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        require_remaining(src, 1)?;
         *self = match src.get_u8() {
             0 => Ok(false),
             1 => Ok(true),
@@ -622,6 +636,7 @@ impl Decode for bool {
 
 impl Decode for u8 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        require_remaining(src, 1)?;
         *self = src.get_u8();
         Ok(1)
     }
@@ -629,6 +644,7 @@ impl Decode for u8 {
 
 impl Decode for u16 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        require_remaining(src, 2)?;
         *self = src.get_u16();
         Ok(2)
     }
@@ -636,6 +652,7 @@ impl Decode for u16 {
 
 impl Decode for u32 {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        require_remaining(src, 4)?;
         *self = src.get_u32();
         Ok(4)
     }
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 6ac087d..55d73e3 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -195,6 +195,7 @@ impl codec::Decode for Connect {
 
         // header fields
         bytes_read += self.protocol_name.decode(src)?;
+        codec::require_remaining(src, 4)?;
         self.protocol_version = src.get_u8();
         bytes_read += 1;
         self.connect_flags = src.get_u8();
@@ -208,6 +209,7 @@ impl codec::Decode for Connect {
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
         while property_bytes_read < property_length {
+            codec::require_remaining(src, 1)?;
             let property_type: PropertyType = src.get_u8().try_into()?;
             property_bytes_read += 1;
             match property_type {
@@ -217,6 +219,7 @@ impl codec::Decode for Connect {
                     self.session_expiry_interval = Some(value);
                 }
                 PropertyType::RecvMax => {
+                    codec::require_remaining(src, 2)?;
                     self.receive_maximum = Some(src.get_u16());
                     property_bytes_read += 2;
                 }
@@ -226,14 +229,17 @@ impl codec::Decode for Connect {
                     self.max_packet_size = Some(value);
                 }
                 PropertyType::TopicAliasMax => {
+                    codec::require_remaining(src, 2)?;
                     self.topic_alias_maximum = Some(src.get_u16());
                     property_bytes_read += 2;
                 }
                 PropertyType::ReqRespInfo => {
+                    codec::require_remaining(src, 1)?;
                     self.request_response_info = Some(src.get_u8() != 0);
                     property_bytes_read += 1;
                 }
                 PropertyType::ReqProblemInfo => {
+                    codec::require_remaining(src, 1)?;
                     self.request_problem_info = Some(src.get_u8() != 0);
                     property_bytes_read += 1;
                 }
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index bbd2b09..94ee237 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -35,6 +35,7 @@ impl codec::Encode for PayloadFormat {
 
 impl codec::Decode for PayloadFormat {
     fn decode(&mut self, src: &mut BytesMut) -> Result<usize, MqttCodecError> {
+        codec::require_remaining(src, 1)?;
         *self = PayloadFormat::try_from(src.get_u8())?;
         Ok(1)
     }
@@ -284,6 +285,7 @@ impl codec::Decode for Publish {
         bytes_read += self.topic_name.decode(src)?;
 
         if self.fixed_header.qos() != QoSLevel::AtMostOnce {
+            codec::require_remaining(src, 2)?;
             self.packet_id = Some(src.get_u16());
             bytes_read += 2;
         }
@@ -293,6 +295,7 @@ impl codec::Decode for Publish {
         bytes_read += var_bytes_read;
         let mut property_bytes_read = 0_usize;
         while property_bytes_read < property_length {
+            codec::require_remaining(src, 1)?;
             let property_type: PropertyType = src.get_u8().try_into()?;
             property_bytes_read += 1;
             match property_type {
@@ -307,6 +310,7 @@ impl codec::Decode for Publish {
                     self.payload_format = Some(value);
                 }
                 PropertyType::TopicAlias => {
+                    codec::require_remaining(src, 2)?;
                     self.topic_alias = Some(src.get_u16());
                     property_bytes_read += 2;
                 }
-- 
2.43.0


From 4d79baa89a12caa82c20dea20cff29859d1528d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 06/44] fix: reject properties that run past the declared
 property length

---
 vaux-macro/src/decode.rs | 3 +++
 vaux-mqtt/src/connect.rs | 3 +++
 vaux-mqtt/src/publish.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 62473f1..3484ae5 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -96,6 +96,9 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
                     }
                 }
             }
+            if property_bytes_read != property_length {
+                return Err(codec::MqttCodecError::new("malformed packet: property length"));
+            }
             bytes_read += property_bytes_read;
         }
     } else {
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 55d73e3..8def5e0 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -268,6 +268,9 @@ impl codec::Decode for Connect {
                 }
             }
         }
+        if property_bytes_read != property_length {
+            return Err(MqttCodecError::new("malformed packet: property length"));
+        }
         bytes_read += property_bytes_read;
 
         // payload: client_id (always present)
diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 94ee237..3b3e3a2 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -349,6 +349,9 @@ impl codec::Decode for Publish {
                 }
             }
         }
+        if property_bytes_read != property_length {
+            return Err(MqttCodecError::new("malformed packet: property length"));
+        }
         bytes_read += property_bytes_read;
 
         let (value, decode_bytes_read) = codec::decode_opt_vec_u8_raw(src)?;
-- 
2.43.0


From a5a079e9f07e093a89355cd4851425c7e09248d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 07/44] fix: reject publish packets with the reserved QoS level
 instead of panicking

---
 vaux-mqtt/src/codec/fixed.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vaux-mqtt/src/codec/fixed.rs b/vaux-mqtt/src/codec/fixed.rs
index c967acc..f5a387d 100644
--- a/vaux-mqtt/src/codec/fixed.rs
+++ b/vaux-mqtt/src/codec/fixed.rs
@@ -130,6 +130,12 @@ impl Decode for FixedHeader {
                     format!("invalid flags for {}: {flags}", self.packet_type).as_str(),
                 ));
             }
+            PacketType::Publish if flags & QOS_MASK == QOS_MASK => {
+                return Err(MqttCodecError::new_with_kind(
+                    "unsupported QOS level",
+                    ErrorKind::UnsupportedQosLevel,
+                ));
+            }
             _ => {}
         }
         self.flags = flags;
-- 
2.43.0


From 15cd1b7f9ffe5f470a282327a67953de2650faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 08/44] fix: accept acknowledgements and disconnects that omit
 the property length

---
 vaux-macro/src/decode.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vaux-macro/src/decode.rs b/vaux-macro/src/decode.rs
index 3484ae5..d582ac5 100644
--- a/vaux-macro/src/decode.rs
+++ b/vaux-macro/src/decode.rs
@@ -209,6 +209,7 @@ pub(crate) fn decode_internal(input: TokenStream) -> TokenStream {
                 #(#header_field_decoded)*
                 #abbreviated_check
                 #(#non_abbreviated_header_decoded)*
+                #abbreviated_check
                 #min_size_check
                 #decode_properties
                 #(#decode_field_payload)*
-- 
2.43.0


From fc33c92680c848139f04f8d413b2f2b406dd72fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 09/44] fix: keep the packet type of decoded publish responses

---
 vaux-mqtt/src/codec/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 50cfa6c..1b26e47 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -500,22 +500,22 @@ pub fn decode(src: &mut BytesMut) -> Result<Option<(Packet, usize)>, MqttCodecEr
             Ok(Some((Packet::Publish(publish), decode_len)))
         }
         PacketType::PubAck => {
-            let mut puback = PubAck::default();
+            let mut puback = PubAck::new_with_fixed_header(fixed_header)?;
             decode_len += puback.decode(src)?;
             Ok(Some((Packet::PubAck(puback), decode_len)))
         }
         PacketType::PubComp => {
-            let mut pubcomp = PubComp::default();
+            let mut pubcomp = PubComp::new_with_fixed_header(fixed_header)?;
             decode_len += pubcomp.decode(src)?;
             Ok(Some((Packet::PubComp(pubcomp), decode_len)))
         }
         PacketType::PubRec => {
-            let mut pubrec = PubRec::default();
+            let mut pubrec = PubRec::new_with_fixed_header(fixed_header)?;
             decode_len += pubrec.decode(src)?;
             Ok(Some((Packet::PubRec(pubrec), decode_len)))
         }
         PacketType::PubRel => {
-            let mut pubrel = PubRel::default();
+            let mut pubrel = PubRel::new_with_fixed_header(fixed_header)?;
             decode_len += pubrel.decode(src)?;
             Ok(Some((Packet::PubRel(pubrel), decode_len)))
         }
-- 
2.43.0


From 5b39bffa202be63cd93bdd77a57c120a3df1add9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 10/44] fix: decode exactly the bytes framed by the remaining
 length

---
 vaux-mqtt/src/codec/mod.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 1b26e47..4700b10 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -483,6 +483,25 @@ pub fn decode(src: &mut BytesMut) -> Result<Option<(Packet, usize)>, MqttCodecEr
         }
         _ => {}
     }
+    let packet_len = decode_len + packet_remaining as usize;
+    match decode_packet(fixed_header, decode_len, src) {
+        Ok(Some((_, len))) if len != packet_len => Err(MqttCodecError::new(
+            "malformed packet: remaining length does not match packet",
+        )),
+        // the whole packet is available, more data will not make it valid
+        Err(MqttCodecError {
+            reason,
+            kind: ErrorKind::InsufficientData(_, _),
+        }) => Err(MqttCodecError::new(&reason)),
+        result => result,
+    }
+}
+
+fn decode_packet(
+    fixed_header: FixedHeader,
+    mut decode_len: usize,
+    src: &mut BytesMut,
+) -> Result<Option<(Packet, usize)>, MqttCodecError> {
     match fixed_header.packet_type {
         PacketType::PingReq => Ok(Some((Packet::PingRequest(crate::PingReq::default()), decode_len))),
         PacketType::PingResp => Ok(Some((
-- 
2.43.0


From 394ab69cf8e5350547bb54f0e0003b36e0a41f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 11/44] fix: drop the packet identifier when a publish is
 downgraded to QoS 0

---
 vaux-mqtt/src/publish.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 3b3e3a2..3ad2358 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -199,6 +199,11 @@ impl Publish {
 
     pub fn set_qos(&mut self, qos: QoSLevel) {
         self.fixed_header.set_qos(qos);
+        if qos == QoSLevel::AtMostOnce {
+            // neither a packet identifier nor DUP is allowed with QoS 0
+            self.packet_id = None;
+            self.fixed_header.set_dup(false);
+        }
     }
 
     pub fn with_qos(mut self, qos: QoSLevel) -> Self {
-- 
2.43.0


From 85d2b2bdf0ebb385011220130f5de4a09b816f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 12/44] fix: encode every connect payload field announced by
 the flags, will topic before will payload

---
 vaux-mqtt/src/codec/mod.rs | 17 +++++++++++++
 vaux-mqtt/src/connect.rs   | 50 +++++++++++++++++++++++---------------
 2 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/vaux-mqtt/src/codec/mod.rs b/vaux-mqtt/src/codec/mod.rs
index 4700b10..628ab23 100644
--- a/vaux-mqtt/src/codec/mod.rs
+++ b/vaux-mqtt/src/codec/mod.rs
@@ -703,6 +703,23 @@ pub fn encode_array_field(src: &[u8], dest: &mut BytesMut) -> Result<(), MqttCod
     Ok(())
 }
 
+pub fn codec_size_opt_array_field(src: &Option<Vec<u8>>) -> u32 {
+    match src {
+        Some(data) => 2 + data.len() as u32,
+        None => 0,
+    }
+}
+
+pub fn encode_opt_array_field(
+    src: &Option<Vec<u8>>,
+    dest: &mut BytesMut,
+) -> Result<(), MqttCodecError> {
+    if let Some(data) = src {
+        encode_array_field(data, dest)?;
+    }
+    Ok(())
+}
+
 pub fn decode_array_field(src: &mut BytesMut) -> Result<(Vec<u8>, usize), MqttCodecError> {
     let mut data = Vec::new();
     let bytes_read = data.decode(src)?;
diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index 8def5e0..d3c8f39 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -49,14 +49,22 @@ pub struct Connect {
     pub client_id: String,
     #[codec(payload_type = "field")]
     pub(crate) will_properties: Option<WillHeader>,
-    #[codec(payload_type = "field", skip_if = "Vec::is_empty")]
-    pub(crate) will_payload: Vec<u8>,
     #[codec(payload_type = "field")]
     pub(crate) will_topic: Option<String>,
-    #[codec(skip_if = "String::is_empty", payload_type = "field")]
-    username: String,
-    #[codec(skip_if = "Vec::is_empty", payload_type = "field")]
-    password: Vec<u8>,
+    #[codec(
+        payload_type = "field",
+        size_with = "codec::codec_size_opt_array_field",
+        encode_with = "codec::encode_opt_array_field"
+    )]
+    pub(crate) will_payload: Option<Vec<u8>>,
+    #[codec(payload_type = "field")]
+    username: Option<String>,
+    #[codec(
+        payload_type = "field",
+        size_with = "codec::codec_size_opt_array_field",
+        encode_with = "codec::encode_opt_array_field"
+    )]
+    password: Option<Vec<u8>>,
 }
 
 impl Default for Connect {
@@ -89,10 +97,10 @@ impl Connect {
             user_properties: property::UserProperty::new(),
             client_id: uuid::Uuid::new_v4().to_string(),
             will_properties: None,
-            will_payload: Vec::new(),
             will_topic: None,
-            username: String::new(),
-            password: Vec::new(),
+            will_payload: None,
+            username: None,
+            password: None,
         }
     }
 
@@ -140,7 +148,7 @@ impl Connect {
         } else {
             self.connect_flags = (self.connect_flags & !CONNECT_FLAG_USERNAME) | 1_u8 << 7;
         }
-        self.username = username.unwrap_or_default();
+        self.username = username;
     }
 
     pub fn password(&self) -> bool {
@@ -153,7 +161,7 @@ impl Connect {
         } else {
             self.connect_flags = (self.connect_flags & !CONNECT_FLAG_PASSWORD) | 1_u8 << 6;
         }
-        self.password = password.unwrap_or_default();
+        self.password = password;
     }
 
     pub fn set_session_expiry_interval(&mut self, interval: u32) {
@@ -168,7 +176,7 @@ impl Connect {
         if self.will() {
             Some(WillMessage {
                 topic: self.will_topic.clone().unwrap_or_default(),
-                payload: bytes::Bytes::from(self.will_payload.clone()),
+                payload: bytes::Bytes::from(self.will_payload.clone().unwrap_or_default()),
                 qos: self.will_qos().unwrap_or(QoSLevel::AtMostOnce),
                 retain: self.will_retain(),
                 header: self.will_properties.clone().unwrap_or_default(),
@@ -180,7 +188,7 @@ impl Connect {
 
     pub fn set_will_message(&mut self, will: WillMessage) {
         self.will_topic = Some(will.topic);
-        self.will_payload = will.payload.to_vec();
+        self.will_payload = Some(will.payload.to_vec());
         self.will_properties = Some(will.header);
         self.set_will(true);
         self.set_will_qos(will.qos);
@@ -282,19 +290,21 @@ impl codec::Decode for Connect {
             bytes_read += will_header.decode(src)?;
             self.will_properties = Some(will_header);
 
-            let mut value = Vec::new();
-            let var_bytes_read = value.decode(src)?;
-            bytes_read += var_bytes_read;
-            self.will_payload = value;
-
             let mut value = String::default();
             bytes_read += value.decode(src)?;
             self.will_topic = Some(value);
+
+            let mut value = Vec::new();
+            let var_bytes_read = value.decode(src)?;
+            bytes_read += var_bytes_read;
+            self.will_payload = Some(value);
         }
 
         // payload: username (only if USERNAME flag set)
         if self.username() {
-            bytes_read += self.username.decode(src)?;
+            let mut value = String::default();
+            bytes_read += value.decode(src)?;
+            self.username = Some(value);
         }
 
         // payload: password (only if PASSWORD flag set)
@@ -302,7 +312,7 @@ impl codec::Decode for Connect {
             let mut value = Vec::new();
             let var_bytes_read = value.decode(src)?;
             bytes_read += var_bytes_read;
-            self.password = value;
+            self.password = Some(value);
         }
 
         Ok(bytes_read)
-- 
2.43.0


From 73e9fc66a42397555bd6743b0891c47b5aed11a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 13/44] fix: report a stream that ends in the middle of a
 packet instead of spinning

---
 vaux-async/src/stream/packet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index a4a2924..060908a 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -143,6 +143,10 @@ impl PacketStream {
                     if len == 0 && bytes_read == 0 {
                         return Ok(None);
                     }
+                    if len == 0 {
+                        // the stream ended in the middle of a packet
+                        return Err(Error::Io(std::io::ErrorKind::UnexpectedEof.into()));
+                    }
                     bytes_read += len;
                     self.read_offset = bytes_read;
                     if self.read_offset >= self.read_buffer.len() {
-- 
2.43.0


From 39106d0330b8c236fac7238ea024fbbd30098591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 14/44] fix: return the bytes of a packet and consume it when
 reading raw packets

---
 vaux-async/src/stream/packet.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index 060908a..a3e2cc6 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -30,7 +30,6 @@ impl Display for Error {
 pub struct PacketStream {
     read_buffer: Vec<u8>,
     read_offset: usize,
-    initial_buffer_size: usize,
     max_buffer_size: usize,
     stream: AsyncMqttStream,
 }
@@ -44,7 +43,6 @@ impl PacketStream {
         Self {
             read_buffer: vec![0; initial_buffer_size.unwrap_or(READ_BUFFER_SIZE)],
             read_offset: 0,
-            initial_buffer_size: initial_buffer_size.unwrap_or(READ_BUFFER_SIZE),
             max_buffer_size: max_buffer_size.unwrap_or(MAX_BUFFER_SIZE),
             stream,
         }
@@ -98,24 +96,19 @@ impl PacketStream {
                 match decode(bytes_mut) {
                     Ok(data_read) => {
                         if let Some((packet, decode_len)) = data_read {
-                            if with_bytes {
-                                // split the buffer into packet and remaining bytes
-                                let packet_bytes = bytes_mut.split_to(decode_len);
-                                // resize the buffer if less than requested initial size
-                                if self.read_buffer.len() < self.initial_buffer_size {
-                                    self.read_buffer.resize(self.initial_buffer_size, 0);
-                                }
-                                return Ok(Some((packet, Some(packet_bytes.freeze()))));
+                            let packet_bytes = if with_bytes {
+                                Some(Bytes::copy_from_slice(&self.read_buffer[0..decode_len]))
                             } else {
-                                if decode_len < bytes_read {
-                                    self.read_buffer.copy_within(decode_len..bytes_read, 0);
-                                    // adjust offset to end of decoded bytes
-                                    self.read_offset = bytes_read - decode_len;
-                                } else {
-                                    self.read_offset = 0;
-                                }
-                                return Ok(Some((packet, None)));
+                                None
+                            };
+                            if decode_len < bytes_read {
+                                self.read_buffer.copy_within(decode_len..bytes_read, 0);
+                                // adjust offset to end of decoded bytes
+                                self.read_offset = bytes_read - decode_len;
+                            } else {
+                                self.read_offset = 0;
                             }
+                            return Ok(Some((packet, packet_bytes)));
                         } else {
                             return Ok(None);
                         }
-- 
2.43.0


From 206c5699af0cc7b2753238f8d77f3a22c761bd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 15/44] fix: do not match topics starting with '$' with filters
 starting with a wildcard

---
 vaux-broker/src/topic.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vaux-broker/src/topic.rs b/vaux-broker/src/topic.rs
index f9d4fac..cc7bbb0 100644
--- a/vaux-broker/src/topic.rs
+++ b/vaux-broker/src/topic.rs
@@ -100,6 +100,15 @@ impl TopicTree {
     pub fn matching_subscribers(&self, topic: &str) -> Vec<Subscriber> {
         let segments: Vec<&str> = topic.split('/').collect();
         let mut results = Vec::new();
+        if topic.starts_with('$') {
+            // a filter that starts with a wildcard does not match a topic that starts with '$',
+            // see MQTT 5.0 specification, 4.7.2
+            let root = &self.nodes[ROOT_NODE as usize];
+            if let Some(&child_idx) = root.children.get(segments[0]) {
+                self.collect_matches(child_idx, &segments, 1, &mut results);
+            }
+            return results;
+        }
         self.collect_matches(ROOT_NODE, &segments, 0, &mut results);
         results
     }
-- 
2.43.0


From 96a92f73296accbfc2fc3f7ef1ef8d94540993b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 16/44] fix: report that no subscription existed in UNSUBACK

---
 vaux-broker/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index e5d7343..68dac02 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -418,7 +418,7 @@ impl Broker {
             let reason = if tree.unsubscribe(topic, session_id) {
                 Reason::Success
             } else {
-                Reason::NoSubscribers
+                Reason::NoSubscriptionExisted
             };
             unsuback.reason_code.push(reason);
         }
-- 
2.43.0


From 457408913536ac40bbc06466ae5c566f404b5abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 17/44] fix: do not reuse the packet identifier of an
 unacknowledged message

---
 vaux-broker/src/session.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 91e8f18..704e5f4 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -275,11 +275,12 @@ impl Session {
     }
 
     pub fn next_packet_id(&mut self) -> u16 {
-        let id = self.next_packet_id;
-        self.next_packet_id = self.next_packet_id.wrapping_add(1);
-        if self.next_packet_id == 0 {
-            self.next_packet_id = 1;
+        let mut id = self.next_packet_id;
+        // skip the identifiers of messages that are still waiting for an acknowledgement
+        while self.pending_ack.len() < u16::MAX as usize && self.pending_ack.contains_key(&id) {
+            id = if id == u16::MAX { 1 } else { id + 1 };
         }
+        self.next_packet_id = if id == u16::MAX { 1 } else { id + 1 };
         id
     }
 
-- 
2.43.0


From 334c707409d9ca4d7e121f4001eadc8f3ccf3305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 18/44] fix: discard the subscriptions of the previous session
 on a clean start

---
 vaux-broker/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 68dac02..9699b38 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -540,6 +540,8 @@ impl Broker {
                     let _ = Broker::handle_takeover(Arc::clone(&existing_session)).await;
                 }
             }
+            // the subscriptions of a discarded session do not outlive it
+            state.topic_tree.write().await.unsubscribe_all(&session_id);
             let mut new_session =
                 Session::new(session_id.clone(), connect.will_message(), keep_alive, channel_size);
             new_session.set_connected(true);
-- 
2.43.0


From 36ded464f4cafa5ffc182ca71a358650bde69ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 19/44] fix: apply the keep alive of the new connection to a
 resumed session

---
 vaux-broker/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 9699b38..a864d0a 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -555,6 +555,7 @@ impl Broker {
                     ack.set_session_present(true);
                     session.cancel_pending_will();
                     session.set_will(connect.will_message());
+                    session.set_keep_alive(keep_alive);
                     session.reset_control(channel_size);
                 }
                 session
@@ -565,6 +566,7 @@ impl Broker {
                     ack.set_session_present(true);
                     session.cancel_pending_will();
                     session.set_will(connect.will_message());
+                    session.set_keep_alive(keep_alive);
                     session.reset_control(channel_size);
                     session.set_last_active();
                 }
-- 
2.43.0


From 7106182e3c118e7db0734e4f39ae87e98f86e1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 20/44] fix: publish the user properties of a will message

---
 vaux-broker/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index a864d0a..ee9f68b 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -653,6 +653,7 @@ impl Broker {
         publish.content_type = will.header.content_type.clone();
         publish.response_topic = will.header.response_topic.clone();
         publish.correlation_data = will.header.correlation_data.clone();
+        publish.user_properties = will.header.user_properties.clone();
         if let Some(format) = will.header.payload_format {
             publish.set_payload_format(format);
         }
-- 
2.43.0


From 8f1aa5cb364b33c554fa6190e4de3e9829d96840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 21/44] fix: do not forward DUP and the topic alias of the
 sender to subscribers

---
 vaux-broker/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index ee9f68b..7171273 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -676,6 +676,9 @@ impl Broker {
             if let Some(target_session) = session_pool.get_active(&sub.session_id) {
                 let mut out = publish.clone();
                 out.set_qos(qos);
+                // DUP and the topic alias only concern the connection of the sender
+                let _ = out.set_dup(false);
+                out.topic_alias = None;
                 if qos != QoSLevel::AtMostOnce {
                     let mut target = target_session.write().await;
                     let packet_id = target.next_packet_id();
-- 
2.43.0


From 0753121629670f3177518518ef8b595d124167ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 22/44] fix: close the connection after the broker disconnects
 a client

---
 vaux-broker/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 7171273..64dd6ee 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -220,6 +220,7 @@ impl Broker {
                                         let session = session.read().await;
                                         (*session).id().to_string()
                                     };
+                                    Broker::initiate_will(session, &state).await;
                                     match reason {
                                         Reason::SessionTakeOver => {
                                             // the session will already be deactivated and taken over
@@ -230,10 +231,10 @@ impl Broker {
                                         }
                                     }
                                     stream.write(&mut Packet::Disconnect(Disconnect::new(reason))).await?;
-                                } else {
-                                    stream.shutdown().await?;
-                                    return Ok(());
                                 }
+                                // the session may already belong to another connection
+                                stream.shutdown().await?;
+                                return Ok(());
                             }
                             SessionControl::Deliver(publish) => {
                                 stream.write(&mut Packet::Publish(*publish)).await?;
-- 
2.43.0


From e6a73f50b165602eb0a5da5666e4e41f8d5d10a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 23/44] fix: end the connection when the keep alive expires or
 the client disconnects

---
 vaux-broker/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 64dd6ee..e8ab7c3 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -248,10 +248,9 @@ impl Broker {
                         tracing::info!(session_id = %session_id, "keep-alive expired");
                         Broker::initiate_will(session, &state).await;
                         state.session_pool.write().await.deactivate(&session_id).await;
-                    } else {
-                        stream.shutdown().await?;
-                        return Ok(());
                     }
+                    stream.shutdown().await?;
+                    return Ok(());
                 }
                 packet_result = stream.read() => {
                     match packet_result {
@@ -279,7 +278,12 @@ impl Broker {
                                 }
                                 connected = true;
                             } else if let Some(session) = &client_session {
+                                let disconnect = matches!(packet, Packet::Disconnect(_));
                                 Broker::handle_packet(packet, stream, Arc::clone(session), &state).await?;
+                                if disconnect {
+                                    stream.shutdown().await?;
+                                    return Ok(());
+                                }
                             }
                         }
                         Ok(None) => {
-- 
2.43.0


From 8d297408045cd2fdc1aff750ba09b8d1ec3b0d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 24/44] fix: never assign packet identifier 0

---
 vaux-client/src/session.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 98ebad4..e6b3953 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -306,10 +306,11 @@ impl ClientSession {
                         self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
                         // verify the packet ID is not already in use
                         // TODO improve in-use packet ID managment
-                        while self
-                            .state
-                            .pending_qos_send
-                            .contains_key(&self.state.last_packet_id)
+                        while self.state.last_packet_id == 0
+                            || self
+                                .state
+                                .pending_qos_send
+                                .contains_key(&self.state.last_packet_id)
                         {
                             self.state.last_packet_id = self.state.last_packet_id.wrapping_add(1);
                         }
-- 
2.43.0


From f3eba8249a655197e630d923dfcb63a564b185cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 25/44] fix: count sent QoS publishes against the receive
 maximum of the server

---
 vaux-client/src/session.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index e6b3953..6d73791 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -343,6 +343,7 @@ impl ClientSession {
                         }
                         _ => {}
                     }
+                    self.state.qos_send_remaining -= 1;
                 }
                 self.send_packet(Packet::Publish(p)).await
             }
@@ -597,7 +598,8 @@ impl ClientSession {
         }
         // set the server assigned receive maximum
         if let Some(receive_max) = connack.receive_maximum {
-            self.state.qos_send_remaining = receive_max as usize;
+            self.state.qos_send_remaining =
+                (receive_max as usize).saturating_sub(self.state.pending_qos_send.len());
         }
         Ok(connack)
     }
-- 
2.43.0


From 54092786ad2afc8fddcafb82c07660a506822a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 26/44] fix: do not deadlock when the server assigns the client
 identifier

---
 vaux-client/src/session.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 6d73791..29405dc 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -556,8 +556,7 @@ impl ClientSession {
     }
 
     async fn handle_connack(&mut self, connack: ConnAck) -> crate::Result<ConnAck> {
-        let set_id = self.state.client_id.lock().await;
-        let client_id_set = set_id.is_some();
+        let client_id_set = self.state.client_id.lock().await.is_some();
         if connack.reason != Reason::Success {
             // TODO return the connack reason as MQTT error with reason code
             let mut connected = self.connected.write().await;
-- 
2.43.0


From 233607d3518b93f3aeb5a57e63b618372f0d0d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 27/44] fix: deliver a repeated QoS 2 message once and bound
 the received QoS 2 messages

---
 vaux-client/src/session.rs | 75 +++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 25 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 29405dc..4944cb6 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -376,7 +376,7 @@ impl ClientSession {
                 ));
             }
             Packet::Publish(publish) => {
-                self.handle_recv_publish(publish.clone()).await?;
+                packet_to_consumer = self.handle_recv_publish(publish.clone()).await?;
             }
             Packet::PubAck(puback) => {
                 if let Some(p) = self.state.pending_qos_send.get(&puback.packet_id) {
@@ -603,9 +603,11 @@ impl ClientSession {
         Ok(connack)
     }
 
-    async fn handle_recv_publish(&mut self, publish: Publish) -> crate::Result<()> {
+    /// Handles a received PUBLISH. The result is true when the message is to be delivered to
+    /// the consumer, false when it repeats a QoS 2 message that was already delivered.
+    async fn handle_recv_publish(&mut self, publish: Publish) -> crate::Result<bool> {
         match publish.qos() {
-            vaux_mqtt::QoSLevel::AtMostOnce => Ok(()),
+            vaux_mqtt::QoSLevel::AtMostOnce => Ok(true),
 
             vaux_mqtt::QoSLevel::AtLeastOnce => {
                 if self.state.qos_recv_remaining == 0 {
@@ -638,7 +640,7 @@ impl ClientSession {
                                 .pending_qos_recv
                                 .remove(&publish.packet_id().unwrap());
                             self.state.qos_recv_remaining += 1;
-                            Ok(())
+                            Ok(true)
                         }
                         Err(_) => {
                             // TODO handle the pub ack next time through
@@ -652,16 +654,29 @@ impl ClientSession {
                 } else {
                     // not auto ack, remaining - 1 until client app sends response
                     self.state.qos_recv_remaining -= 1;
-                    Ok(())
+                    Ok(true)
                 }
             }
             vaux_mqtt::QoSLevel::ExactlyOnce => {
-                self.state.pending_qos_recv.insert(
-                    publish.packet_id().unwrap(),
-                    QoSPacketState::new_qos2(Packet::Publish(publish.clone())),
-                );
-                // decrement the remaining QoS packets until ack  sent
-                self.state.qos_recv_remaining -= 1;
+                let duplicate = self
+                    .state
+                    .pending_qos_recv
+                    .contains_key(&publish.packet_id().unwrap());
+                if !duplicate {
+                    if self.state.qos_recv_remaining == 0 {
+                        // protocol error, no more QoS packets allowed
+                        return Err(MqttError::new(
+                            "no more QoS packets allowed",
+                            ErrorKind::Protocol(Reason::ProtocolErr),
+                        ));
+                    }
+                    self.state.pending_qos_recv.insert(
+                        publish.packet_id().unwrap(),
+                        QoSPacketState::new_qos2(Packet::Publish(publish.clone())),
+                    );
+                    // decrement the remaining QoS packets until ack  sent
+                    self.state.qos_recv_remaining -= 1;
+                }
                 if self.state.auto_ack {
                     let pubrec = if let Some(packet_id) = publish.packet_id() {
                         PubResp::new_pubrec_with_packet_id(packet_id)
@@ -675,21 +690,31 @@ impl ClientSession {
                     };
                     match self.send_packet(Packet::PubRec(pubrec)).await {
                         Ok(_) => {
-                            // move to next state and re-insert into pending qos
-                            let next = self
-                                .state
-                                .pending_qos_recv
-                                .remove(&publish.packet_id().unwrap())
-                                .map(|p| p.next().unwrap())
-                                .ok_or(MqttError::new(
-                                    "invalid session state",
-                                    ErrorKind::Session,
-                                ))?;
-                            self.state
-                                .pending_qos_recv
-                                .insert(publish.packet_id().unwrap(), next);
+                            // move to next state and re-insert into pending qos, a repeated
+                            // message keeps the state it has reached
+                            if !duplicate {
+                                let next = self
+                                    .state
+                                    .pending_qos_recv
+                                    .remove(&publish.packet_id().unwrap())
+                                    .map(|p| p.next().unwrap())
+                                    .ok_or(MqttError::new(
+                                        "invalid session state",
+                                        ErrorKind::Session,
+                                    ))?;
+                                self.state
+                                    .pending_qos_recv
+                                    .insert(publish.packet_id().unwrap(), next);
+                            }
                         }
                         Err(_) => {
+                            // the message was neither acknowledged nor delivered
+                            if !duplicate {
+                                self.state
+                                    .pending_qos_recv
+                                    .remove(&publish.packet_id().unwrap());
+                                self.state.qos_recv_remaining += 1;
+                            }
                             // TODO handle the pub rec next time through
                             // push a message to the last error channel
                             return Err(MqttError::new(
@@ -699,7 +724,7 @@ impl ClientSession {
                         }
                     }
                 }
-                Ok(())
+                Ok(!duplicate)
             }
         }
     }
-- 
2.43.0


From 2c04fd70f68589fe17c154a8ce2e54256ee5f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 28/44] fix: keep the QoS state of packets acknowledged by the
 application

---
 vaux-client/src/session.rs | 49 ++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 4944cb6..0f042df 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -354,7 +354,36 @@ impl ClientSession {
                 *self.connected.write().await = false;
                 Ok(())
             }
-            _ => self.send_packet(packet).await,
+            _ => {
+                self.track_sent_ack(&packet);
+                self.send_packet(packet).await
+            }
+        }
+    }
+
+    /// Advances the QoS state for an acknowledgement that is sent by the application.
+    fn track_sent_ack(&mut self, packet: &Packet) {
+        let (packet_id, sent) = match packet {
+            Packet::PubAck(p) => (p.packet_id, QoSPacket::PubAck),
+            Packet::PubRec(p) => (p.packet_id, QoSPacket::PubRec),
+            Packet::PubRel(p) => (p.packet_id, QoSPacket::PubRel),
+            Packet::PubComp(p) => (p.packet_id, QoSPacket::PubComp),
+            _ => return,
+        };
+        if sent == QoSPacket::PubRel {
+            if let Some(p) = self.state.pending_qos_send.remove(&packet_id) {
+                let p = if p.next == sent { p.next() } else { Some(p) };
+                if let Some(p) = p {
+                    self.state.pending_qos_send.insert(packet_id, p);
+                }
+            }
+        } else if let Some(p) = self.state.pending_qos_recv.remove(&packet_id) {
+            let p = if p.next == sent { p.next() } else { Some(p) };
+            if let Some(p) = p {
+                self.state.pending_qos_recv.insert(packet_id, p);
+            } else {
+                self.state.qos_recv_remaining += 1;
+            }
         }
     }
 
@@ -454,6 +483,9 @@ impl ClientSession {
                                         ));
                                     }
                                 }
+                            } else if let Some(pubrec_state) = p.next() {
+                                // the application sends the PUBREL
+                                self.state.pending_qos_send.insert(packet_id, pubrec_state);
                             }
                         }
                         _ => {
@@ -498,6 +530,9 @@ impl ClientSession {
                                         ));
                                     }
                                 }
+                            } else if let Some(pubrel_state) = p.next() {
+                                // the application sends the PUBCOMP
+                                self.state.pending_qos_recv.insert(packet_id, pubrel_state);
                             }
                         }
                         _ => {
@@ -618,10 +653,13 @@ impl ClientSession {
                     ));
                 }
                 // insert into pending receive QoS
-                self.state.pending_qos_recv.insert(
+                let replaced = self.state.pending_qos_recv.insert(
                     publish.packet_id().unwrap(),
                     QoSPacketState::new_qos1(Packet::Publish(publish.clone())),
                 );
+                if replaced.is_none() {
+                    self.state.qos_recv_remaining -= 1;
+                }
                 if self.state.auto_ack {
                     let puback = if let Some(packet_id) = publish.packet_id() {
                         PubResp::new_puback_with_packet_id(packet_id)
@@ -633,7 +671,6 @@ impl ClientSession {
                             ErrorKind::Protocol(Reason::MalformedPacket),
                         ));
                     };
-                    self.state.qos_recv_remaining -= 1;
                     match self.send_packet(Packet::PubAck(puback)).await {
                         Ok(_) => {
                             self.state
@@ -643,6 +680,11 @@ impl ClientSession {
                             Ok(true)
                         }
                         Err(_) => {
+                            // the message was neither acknowledged nor delivered
+                            self.state
+                                .pending_qos_recv
+                                .remove(&publish.packet_id().unwrap());
+                            self.state.qos_recv_remaining += 1;
                             // TODO handle the pub ack next time through
                             // push a message to the last error channel
                             Err(MqttError::new(
@@ -653,7 +695,6 @@ impl ClientSession {
                     }
                 } else {
                     // not auto ack, remaining - 1 until client app sends response
-                    self.state.qos_recv_remaining -= 1;
                     Ok(true)
                 }
             }
-- 
2.43.0


From ff935fc34308d7db7db69ed5a647e1b9be215246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:07 +0000
Subject: [PATCH 29/44] fix: reject connect properties whose boolean value is
 neither 0 nor 1

---
 vaux-mqtt/src/connect.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vaux-mqtt/src/connect.rs b/vaux-mqtt/src/connect.rs
index d3c8f39..d108af6 100644
--- a/vaux-mqtt/src/connect.rs
+++ b/vaux-mqtt/src/connect.rs
@@ -242,14 +242,14 @@ impl codec::Decode for Connect {
                     property_bytes_read += 2;
                 }
                 PropertyType::ReqRespInfo => {
-                    codec::require_remaining(src, 1)?;
-                    self.request_response_info = Some(src.get_u8() != 0);
-                    property_bytes_read += 1;
+                    let mut value = bool::default();
+                    property_bytes_read += value.decode(src)?;
+                    self.request_response_info = Some(value);
                 }
                 PropertyType::ReqProblemInfo => {
-                    codec::require_remaining(src, 1)?;
-                    self.request_problem_info = Some(src.get_u8() != 0);
-                    property_bytes_read += 1;
+                    let mut value = bool::default();
+                    property_bytes_read += value.decode(src)?;
+                    self.request_problem_info = Some(value);
                 }
                 PropertyType::AuthMethod => {
                     let mut value = String::default();
-- 
2.43.0


From 096b784d86659e7e2628d8d375886557ed795b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:55 +0000
Subject: [PATCH 30/44] fix: allow PUBREL and PUBCOMP to report an unknown
 packet identifier

---
 vaux-mqtt/src/pubresp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vaux-mqtt/src/pubresp.rs b/vaux-mqtt/src/pubresp.rs
index e165b81..baba10e 100644
--- a/vaux-mqtt/src/pubresp.rs
+++ b/vaux-mqtt/src/pubresp.rs
@@ -115,7 +115,10 @@ impl PubResp {
                     | Reason::PayloadFormatErr
             ),
             PacketType::PubComp | PacketType::PubRel => {
-                matches!(reason, Reason::Success | Reason::PacketIdInUse)
+                matches!(
+                    reason,
+                    Reason::Success | Reason::PacketIdInUse | Reason::PacketIdNotFound
+                )
             }
             _ => false,
         }
-- 
2.43.0


From 2ffa0f607b16a5b964e20243dd9cc075874fad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:39 +0000
Subject: [PATCH 31/44] fix: refuse a PUBLISH header with DUP set and QoS 0

---
 vaux-mqtt/src/publish.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vaux-mqtt/src/publish.rs b/vaux-mqtt/src/publish.rs
index 3ad2358..498b1e0 100644
--- a/vaux-mqtt/src/publish.rs
+++ b/vaux-mqtt/src/publish.rs
@@ -182,6 +182,13 @@ impl Publish {
 
     pub fn new_from_header(fixed_header: codec::FixedHeader) -> Result<Self, MqttCodecError> {
         match fixed_header.packet_type {
+            PacketType::Publish
+                if fixed_header.dup() && fixed_header.qos() == QoSLevel::AtMostOnce =>
+            {
+                Err(MqttCodecError::new(
+                    "Mqttv5 3.3.1.1 DUP must not be set when QOS level is \"At Most Once\" (0)",
+                ))
+            }
             PacketType::Publish => Ok(Publish {
                 fixed_header,
                 ..Default::default()
-- 
2.43.0


From b4bb87450e821127a60ee14c40918032628a0d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:56 +0000
Subject: [PATCH 32/44] verification hooks in broker and client, compiled only
 with --cfg vaux_verif

---
 vaux-broker/src/lib.rs     | 7 +++++++
 vaux-client/src/session.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index e8ab7c3..b935f03 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -713,6 +713,13 @@ impl Broker {
     }
 }
 
+// Verification hook: the code named by the environment is compiled in as a child module.
+#[cfg(vaux_verif)]
+#[doc(hidden)]
+pub mod verif {
+    include!(env!("VAUX_VERIF_BROKER"));
+}
+
 #[cfg(test)]
 mod test {
     use std::{
diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 0f042df..33e96b6 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -786,3 +786,10 @@ impl ClientSession {
             .map_err(|_| MqttError::new("unable to write packet to stream", ErrorKind::Transport))
     }
 }
+
+// Verification hook: the code named by the environment is compiled in as a child module.
+#[cfg(vaux_verif)]
+#[doc(hidden)]
+pub mod verif {
+    include!(env!("VAUX_VERIF_CLIENT"));
+}
-- 
2.43.0


From e5d7b811e9af2467335ccdb3b4170734e84a0765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:54 +0000
Subject: [PATCH 33/44] fix: keep messages pending when their redelivery is cut
 short

---
 vaux-broker/src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index b935f03..39fee1b 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -261,15 +261,17 @@ impl Broker {
                                         let mut session = session.write().await;
                                         keep_alive = session.keep_alive();
                                         session_control = session.take_control_receiver();
-                                        session.drain_pending()
-                                    };
-                                    for (packet_id, mut publish) in pending {
-                                        publish.set_dup(true).ok();
-                                        let _ = publish.set_packet_id(Some(packet_id));
-                                        {
-                                            let mut s = session.write().await;
-                                            s.track_qos_publish(packet_id, publish.clone());
+                                        let mut pending = session.drain_pending();
+                                        // the messages stay pending until they are acknowledged, however
+                                        // far their redelivery gets
+                                        for (packet_id, publish) in &mut pending {
+                                            publish.set_dup(true).ok();
+                                            let _ = publish.set_packet_id(Some(*packet_id));
+                                            session.track_qos_publish(*packet_id, publish.clone());
                                         }
+                                        pending
+                                    };
+                                    for (_, publish) in pending {
                                         stream.write(&mut Packet::Publish(publish)).await?;
                                     }
                                     client_session = Some(Arc::clone(&session));
-- 
2.43.0


From 02aea84099dec7bbb1905b4662670dfa4788dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:33 +0000
Subject: [PATCH 34/44] fix: a connection that ends no longer deactivates a
 session another connection took over

---
 vaux-broker/src/lib.rs | 67 ++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 39fee1b..d67a1b6 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -216,18 +216,14 @@ impl Broker {
                         match control {
                             SessionControl::Disconnect(reason) => {
                                 if let Some(session) = &client_session {
-                                    let session_id = {
-                                        let session = session.read().await;
-                                        (*session).id().to_string()
-                                    };
-                                    Broker::initiate_will(session, &state).await;
                                     match reason {
                                         Reason::SessionTakeOver => {
                                             // the session will already be deactivated and taken over
                                             // by another client, just send the disconnect packet
+                                            Broker::initiate_will(session, &state).await;
                                         }
                                         _ => {
-                                            state.session_pool.write().await.deactivate(&session_id).await;
+                                            Broker::release_session(session, &session_control, &state).await;
                                         }
                                     }
                                     stream.write(&mut Packet::Disconnect(Disconnect::new(reason))).await?;
@@ -246,8 +242,7 @@ impl Broker {
                     if let Some(session) = &client_session {
                         let session_id = session.read().await.id().to_string();
                         tracing::info!(session_id = %session_id, "keep-alive expired");
-                        Broker::initiate_will(session, &state).await;
-                        state.session_pool.write().await.deactivate(&session_id).await;
+                        Broker::release_session(session, &session_control, &state).await;
                     }
                     stream.shutdown().await?;
                     return Ok(());
@@ -283,6 +278,7 @@ impl Broker {
                                 let disconnect = matches!(packet, Packet::Disconnect(_));
                                 Broker::handle_packet(packet, stream, Arc::clone(session), &state).await?;
                                 if disconnect {
+                                    Broker::deactivate_session(session, &session_control, &state).await;
                                     stream.shutdown().await?;
                                     return Ok(());
                                 }
@@ -292,8 +288,7 @@ impl Broker {
                             if let Some(session) = &client_session {
                                 let session_id = session.read().await.id().to_string();
                                 tracing::info!(session_id = %session_id, "connection closed");
-                                Broker::initiate_will(session, &state).await;
-                                state.session_pool.write().await.deactivate(&session_id).await;
+                                Broker::release_session(session, &session_control, &state).await;
                             }
                             return Ok(());
                         }
@@ -301,8 +296,7 @@ impl Broker {
                             if let Some(session) = &client_session {
                                 let session_id = session.read().await.id().to_string();
                                 tracing::warn!(session_id = %session_id, error = %e, "connection error");
-                                Broker::initiate_will(session, &state).await;
-                                state.session_pool.write().await.deactivate(&session_id).await;
+                                Broker::release_session(session, &session_control, &state).await;
                             }
                             return Err(e.into());
                         }
@@ -377,16 +371,6 @@ impl Broker {
                 } else {
                     Broker::initiate_will(&session, state).await;
                 }
-                let session_id = {
-                    let session = session.read().await;
-                    (*session).id().to_string()
-                };
-                state
-                    .session_pool
-                    .write()
-                    .await
-                    .deactivate(&session_id)
-                    .await;
                 Ok(())
             }
             _ => Ok(()),
@@ -618,6 +602,45 @@ impl Broker {
         Ok(())
     }
 
+    /// Ends the use of the session by a connection: publishes its will and deactivates it.
+    async fn release_session(
+        session: &Arc<RwLock<Session>>,
+        control: &Option<Receiver<SessionControl>>,
+        state: &BrokerState,
+    ) {
+        if Broker::taken_over(control) {
+            // the will now in the session is that of the other connection
+            return;
+        }
+        Broker::initiate_will(session, state).await;
+        Broker::deactivate_session(session, control, state).await;
+    }
+
+    /// Deactivates the session unless it belongs to another connection by now.
+    async fn deactivate_session(
+        session: &Arc<RwLock<Session>>,
+        control: &Option<Receiver<SessionControl>>,
+        state: &BrokerState,
+    ) {
+        let session_id = session.read().await.id().to_string();
+        let mut session_pool = state.session_pool.write().await;
+        let held = match session_pool.get_active(&session_id) {
+            Some(active) => Arc::ptr_eq(&active, session),
+            None => false,
+        };
+        if held && !Broker::taken_over(control) {
+            session_pool.deactivate(&session_id).await;
+        }
+    }
+
+    /// A connection that resumes a session replaces its control channel.
+    fn taken_over(control: &Option<Receiver<SessionControl>>) -> bool {
+        match control {
+            Some(receiver) => receiver.is_closed(),
+            None => false,
+        }
+    }
+
     async fn initiate_will(session: &Arc<RwLock<Session>>, state: &BrokerState) {
         let will = {
             let mut session = session.write().await;
-- 
2.43.0


From e1f46287820f92daeb223614675a0024068056c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:25 +0000
Subject: [PATCH 35/44] fix: publish the will and deactivate the session when
 writing to a connection fails

---
 vaux-broker/src/lib.rs | 57 +++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index d67a1b6..fe25d7c 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -205,25 +205,42 @@ impl Broker {
         stream: &mut PacketStream,
         state: BrokerState,
     ) -> Result<(), BrokerError> {
-        let mut connected = false;
         let mut client_session: Option<Arc<RwLock<Session>>> = None;
         let mut session_control: Option<Receiver<SessionControl>> = None;
+        let result =
+            Broker::serve_client(stream, &state, &mut client_session, &mut session_control).await;
+        if result.is_err() {
+            // whatever failed, the connection has ended without a normal disconnect
+            if let Some(session) = &client_session {
+                Broker::release_session(session, &session_control, &state).await;
+            }
+        }
+        result
+    }
+
+    async fn serve_client(
+        stream: &mut PacketStream,
+        state: &BrokerState,
+        client_session: &mut Option<Arc<RwLock<Session>>>,
+        session_control: &mut Option<Receiver<SessionControl>>,
+    ) -> Result<(), BrokerError> {
+        let mut connected = false;
         let mut keep_alive = DEFAULT_KEEP_ALIVE;
         loop {
             select! {
-                ctrl = Broker::handle_control(&mut session_control) => {
+                ctrl = Broker::handle_control(session_control) => {
                     if let Some(control) = ctrl {
                         match control {
                             SessionControl::Disconnect(reason) => {
-                                if let Some(session) = &client_session {
+                                if let Some(session) = client_session.as_ref() {
                                     match reason {
                                         Reason::SessionTakeOver => {
                                             // the session will already be deactivated and taken over
                                             // by another client, just send the disconnect packet
-                                            Broker::initiate_will(session, &state).await;
+                                            Broker::initiate_will(session, state).await;
                                         }
                                         _ => {
-                                            Broker::release_session(session, &session_control, &state).await;
+                                            Broker::release_session(session, session_control, state).await;
                                         }
                                     }
                                     stream.write(&mut Packet::Disconnect(Disconnect::new(reason))).await?;
@@ -239,10 +256,10 @@ impl Broker {
                     }
                 }
                 _ = Broker::keep_alive_timer(keep_alive) => {
-                    if let Some(session) = &client_session {
+                    if let Some(session) = client_session.as_ref() {
                         let session_id = session.read().await.id().to_string();
                         tracing::info!(session_id = %session_id, "keep-alive expired");
-                        Broker::release_session(session, &session_control, &state).await;
+                        Broker::release_session(session, session_control, state).await;
                     }
                     stream.shutdown().await?;
                     return Ok(());
@@ -251,11 +268,12 @@ impl Broker {
                     match packet_result {
                         Ok(Some(packet)) => {
                             if !connected {
-                                if let Some(session) = Broker::handle_pre_connect(packet, stream, &state).await? {
+                                if let Some(session) = Broker::handle_pre_connect(packet, stream, state).await? {
+                                    *client_session = Some(Arc::clone(&session));
                                     let pending = {
                                         let mut session = session.write().await;
                                         keep_alive = session.keep_alive();
-                                        session_control = session.take_control_receiver();
+                                        *session_control = session.take_control_receiver();
                                         let mut pending = session.drain_pending();
                                         // the messages stay pending until they are acknowledged, however
                                         // far their redelivery gets
@@ -269,34 +287,33 @@ impl Broker {
                                     for (_, publish) in pending {
                                         stream.write(&mut Packet::Publish(publish)).await?;
                                     }
-                                    client_session = Some(Arc::clone(&session));
                                 } else {
                                     continue;
                                 }
                                 connected = true;
-                            } else if let Some(session) = &client_session {
+                            } else if let Some(session) = client_session.as_ref() {
                                 let disconnect = matches!(packet, Packet::Disconnect(_));
-                                Broker::handle_packet(packet, stream, Arc::clone(session), &state).await?;
+                                Broker::handle_packet(packet, stream, Arc::clone(session), state).await?;
                                 if disconnect {
-                                    Broker::deactivate_session(session, &session_control, &state).await;
+                                    Broker::deactivate_session(session, session_control, state).await;
                                     stream.shutdown().await?;
                                     return Ok(());
                                 }
                             }
                         }
                         Ok(None) => {
-                            if let Some(session) = &client_session {
+                            if let Some(session) = client_session.as_ref() {
                                 let session_id = session.read().await.id().to_string();
                                 tracing::info!(session_id = %session_id, "connection closed");
-                                Broker::release_session(session, &session_control, &state).await;
+                                Broker::release_session(session, session_control, state).await;
                             }
                             return Ok(());
                         }
                         Err(e) => {
-                            if let Some(session) = &client_session {
+                            if let Some(session) = client_session.as_ref() {
                                 let session_id = session.read().await.id().to_string();
                                 tracing::warn!(session_id = %session_id, error = %e, "connection error");
-                                Broker::release_session(session, &session_control, &state).await;
+                                Broker::release_session(session, session_control, state).await;
                             }
                             return Err(e.into());
                         }
@@ -583,7 +600,11 @@ impl Broker {
             }
         }
         tracing::info!(session_id = %session_id, "client connected");
-        stream.write(&mut Packet::ConnAck(ack)).await?;
+        if let Err(e) = stream.write(&mut Packet::ConnAck(ack)).await {
+            let control = session.write().await.take_control_receiver();
+            Broker::release_session(&session, &control, state).await;
+            return Err(e.into());
+        }
         Ok(Some(Arc::clone(&session)))
     }
 
-- 
2.43.0


From 3ffd46fc3d1b9222d8a44a65e52b3d0467ef4d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:32 +0000
Subject: [PATCH 36/44] fix: configured keep-alive limits above 65535 s no
 longer wrap around

---
 vaux-broker/src/session.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vaux-broker/src/session.rs b/vaux-broker/src/session.rs
index 704e5f4..bd0953b 100644
--- a/vaux-broker/src/session.rs
+++ b/vaux-broker/src/session.rs
@@ -39,11 +39,11 @@ impl SessionPool {
     }
 
     pub fn default_keep_alive_secs(&self) -> u16 {
-        self.default_keep_alive.as_secs() as u16
+        u16::try_from(self.default_keep_alive.as_secs()).unwrap_or(u16::MAX)
     }
 
     pub fn max_keep_alive_secs(&self) -> u16 {
-        self.max_keep_alive.as_secs() as u16
+        u16::try_from(self.max_keep_alive.as_secs()).unwrap_or(u16::MAX)
     }
 
     pub fn session_expiry(&self) -> Duration {
-- 
2.43.0


From 9622d488afc153d4201368d91237674f11ce6c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:34 +0000
Subject: [PATCH 37/44] fix: announce a session expiry of 0 and do not wrap a
 configured expiry above 2^32-1 s

---
 vaux-broker/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index fe25d7c..fc04956 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -506,10 +506,12 @@ impl Broker {
             if requested_expiry > 0 {
                 let max_expiry: u32;
                 {
-                    max_expiry = state.session_pool.read().await.session_expiry().as_secs() as u32;
+                    let session_pool = state.session_pool.read().await;
+                    max_expiry = u32::try_from(session_pool.session_expiry().as_secs()).unwrap_or(u32::MAX);
                 }
                 if requested_expiry > max_expiry {
-                    ack.set_session_expiry(max_expiry);
+                    // an expiry of 0 has to be announced as well
+                    ack.session_expiry_interval = Some(max_expiry);
                     Some(Duration::from_secs(max_expiry as u64))
                 } else {
                     Some(Duration::from_secs(requested_expiry as u64))
-- 
2.43.0


From ac86011d32e3990fd7ee218c661d8a83974237e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:58 +0000
Subject: [PATCH 38/44] fix: a connection that learns late of its take-over no
 longer publishes the will of the one that took over

---
 vaux-broker/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index fc04956..60313dc 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -237,7 +237,10 @@ impl Broker {
                                         Reason::SessionTakeOver => {
                                             // the session will already be deactivated and taken over
                                             // by another client, just send the disconnect packet
-                                            Broker::initiate_will(session, state).await;
+                                            if !Broker::taken_over(session_control) {
+                                                // else the will in the session is the other client's
+                                                Broker::initiate_will(session, state).await;
+                                            }
                                         }
                                         _ => {
                                             Broker::release_session(session, session_control, state).await;
-- 
2.43.0


From 57871de026b9bc8ae25f6a26cb82560e1f6f2b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:50 +0000
Subject: [PATCH 39/44] fix: a connection whose session was taken over no
 longer changes it

---
 vaux-broker/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vaux-broker/src/lib.rs b/vaux-broker/src/lib.rs
index 60313dc..c540034 100644
--- a/vaux-broker/src/lib.rs
+++ b/vaux-broker/src/lib.rs
@@ -295,6 +295,12 @@ impl Broker {
                                 }
                                 connected = true;
                             } else if let Some(session) = client_session.as_ref() {
+                                if Broker::taken_over(session_control) {
+                                    // the session is no longer this connection's to change
+                                    stream.write(&mut Packet::Disconnect(Disconnect::new(Reason::SessionTakeOver))).await?;
+                                    stream.shutdown().await?;
+                                    return Ok(());
+                                }
                                 let disconnect = matches!(packet, Packet::Disconnect(_));
                                 Broker::handle_packet(packet, stream, Arc::clone(session), state).await?;
                                 if disconnect {
-- 
2.43.0


From 20677e51d10f79bae108f5e026fd37e694930dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 40/44] fix: keep the read buffer of a packet stream within its
 maximum size

---
 vaux-async/src/stream/packet.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vaux-async/src/stream/packet.rs b/vaux-async/src/stream/packet.rs
index a3e2cc6..1cf6800 100644
--- a/vaux-async/src/stream/packet.rs
+++ b/vaux-async/src/stream/packet.rs
@@ -40,10 +40,15 @@ impl PacketStream {
         initial_buffer_size: Option<usize>,
         max_buffer_size: Option<usize>,
     ) -> Self {
+        // neither an empty buffer nor one larger than the maximum can hold to the limit
+        let max_buffer_size = max_buffer_size.unwrap_or(MAX_BUFFER_SIZE).max(1);
+        let buffer_size = initial_buffer_size
+            .unwrap_or(READ_BUFFER_SIZE)
+            .clamp(1, max_buffer_size);
         Self {
-            read_buffer: vec![0; initial_buffer_size.unwrap_or(READ_BUFFER_SIZE)],
+            read_buffer: vec![0; buffer_size],
             read_offset: 0,
-            max_buffer_size: max_buffer_size.unwrap_or(MAX_BUFFER_SIZE),
+            max_buffer_size,
             stream,
         }
     }
-- 
2.43.0


From 7e45911f113210c24bc4b173cecd40906b68ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 41/44] fix: do not exceed the receive maximum when more
 packets are pending than it allows

---
 vaux-client/src/session.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index 33e96b6..b6a4d42 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -74,6 +74,8 @@ pub struct SessionState {
     pub(crate) session_expiry: Arc<RwLock<Duration>>,
 
     pub(crate) qos_send_remaining: usize,
+    // receive maximum of the server
+    qos_send_max: usize,
     pending_qos_send: HashMap<u16, QoSPacketState>,
     pub(crate) qos_recv_remaining: usize,
     pending_qos_recv: HashMap<u16, QoSPacketState>,
@@ -103,6 +105,7 @@ impl SessionState {
             keep_alive: Arc::new(RwLock::new(DEFAULT_CLIENT_KEEP_ALIVE)),
             session_expiry: Arc::new(RwLock::new(DEFAULT_SESSION_EXPIRY)),
             qos_send_remaining: u16::MAX as usize,
+            qos_send_max: u16::MAX as usize,
             pending_qos_send: HashMap::new(),
             qos_recv_remaining: u16::MAX as usize,
             pending_qos_recv: HashMap::new(),
@@ -115,6 +118,15 @@ impl SessionState {
             keep_alive_enabled: true,
         }
     }
+
+    /// Updates the number of QoS packets that can be sent before the receive maximum of the
+    /// server is reached. More packets than the maximum can be pending when the session
+    /// resumes with a lower maximum.
+    fn update_send_remaining(&mut self) {
+        self.qos_send_remaining = self
+            .qos_send_max
+            .saturating_sub(self.pending_qos_send.len());
+    }
 }
 
 pub(crate) struct ClientSession {
@@ -412,7 +424,7 @@ impl ClientSession {
                     match p.next {
                         QoSPacket::PubAck => {
                             self.state.pending_qos_send.remove(&puback.packet_id);
-                            self.state.qos_send_remaining += 1;
+                            self.state.update_send_remaining();
                         }
                         _ => {
                             // protocol error, unexpected packet - disconnect
@@ -560,7 +572,7 @@ impl ClientSession {
                     match p.next {
                         QoSPacket::PubComp => {
                             //  do nothing - removed from pending qos
-                            self.state.qos_send_remaining += 1;
+                            self.state.update_send_remaining();
                         }
                         _ => {
                             // protocol error, unexpected packet
@@ -632,8 +644,8 @@ impl ClientSession {
         }
         // set the server assigned receive maximum
         if let Some(receive_max) = connack.receive_maximum {
-            self.state.qos_send_remaining =
-                (receive_max as usize).saturating_sub(self.state.pending_qos_send.len());
+            self.state.qos_send_max = receive_max as usize;
+            self.state.update_send_remaining();
         }
         Ok(connack)
     }
-- 
2.43.0


From 80519a1703c93ba0fcffb088fbc0e509fbec7f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 42/44] fix: send no pings when the keep alive is zero

---
 vaux-client/src/client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vaux-client/src/client.rs b/vaux-client/src/client.rs
index efaf3c2..b0a0378 100644
--- a/vaux-client/src/client.rs
+++ b/vaux-client/src/client.rs
@@ -351,7 +351,8 @@ impl MqttClient {
             {
                 *_session_expiry.write().await = session_expiry;
             }
-            let keep_alive_enabled = session.keep_alive_enabled();
+            // a keep alive of zero turns the keep alive off
+            let keep_alive_enabled = session.keep_alive_enabled() && !keep_alive.is_zero();
             // Holds a packet that has been read off the wire (and already acked,
             // for auto-acked QoS 1/2) but could not be handed to the consumer
             // because its channel was full. While this is set, reads from the
-- 
2.43.0


From 00a1a01475238fc290e71c43107e8ef2a9e264da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:23 +0000
Subject: [PATCH 43/44] fix: keep the client id the server assigns to an empty
 client id

---
 vaux-client/src/session.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index b6a4d42..d003c1b 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -603,7 +603,14 @@ impl ClientSession {
     }
 
     async fn handle_connack(&mut self, connack: ConnAck) -> crate::Result<ConnAck> {
-        let client_id_set = self.state.client_id.lock().await.is_some();
+        // an empty client ID asks the server to assign one
+        let client_id_set = self
+            .state
+            .client_id
+            .lock()
+            .await
+            .as_ref()
+            .is_some_and(|client_id| !client_id.is_empty());
         if connack.reason != Reason::Success {
             // TODO return the connack reason as MQTT error with reason code
             let mut connected = self.connected.write().await;
-- 
2.43.0


From 225b687d8b5ea2e6c20a2776031e6a0ca53589dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:04 +0000
Subject: [PATCH 44/44] remove the verification hook of the client, which
 nothing uses

---
 vaux-client/src/session.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/vaux-client/src/session.rs b/vaux-client/src/session.rs
index d003c1b..03d98b8 100644
--- a/vaux-client/src/session.rs
+++ b/vaux-client/src/session.rs
@@ -805,10 +805,3 @@ impl ClientSession {
             .map_err(|_| MqttError::new("unable to write packet to stream", ErrorKind::Transport))
     }
 }
-
-// Verification hook: the code named by the environment is compiled in as a child module.
-#[cfg(vaux_verif)]
-#[doc(hidden)]
-pub mod verif {
-    include!(env!("VAUX_VERIF_CLIENT"));
-}
-- 
2.43.0

