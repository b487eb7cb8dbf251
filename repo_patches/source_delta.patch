From d08a4cfe1eba85462105fe6b9f065d9610ad97bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 1/7] fix: count subscription identifiers once in the property
 cursor

The identifier byte was already counted before the match, so every
subscription identifier advanced the cursor one byte too far; a section with
several of them ended early and the rest was taken for payload or filters.
---
 src/publish.rs   | 2 +-
 src/subscribe.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/publish.rs b/src/publish.rs
index 1536467..2576c96 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -231,7 +231,7 @@ impl PublishProperties {
                 }
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, id) = length(bytes.iter())?;
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
                 }
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 7c25bb5..ec8f7cf 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -242,7 +242,7 @@ impl SubscribeProperties {
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, sub_id) = length(bytes.iter())?;
                     // TODO: Validate 1 +. Tests are working either way
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     id = Some(sub_id);
                 }
-- 
2.43.0


From 73b755efadbb37f9f1fa973d8094629bf89ffd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 2/7] fix: write and read disconnect reason codes without
 properties

A disconnect with a reason code and no properties was written with a stray
byte after the frame, could not be read back (remaining length 1), and one
with an empty property set lost its reason code because its length collided
with the sentinel for a normal disconnection.
---
 src/disconnect.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 7931da4..c1e4ea2 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -260,19 +260,15 @@ impl Disconnect {
         if self.reason_code == DisconnectReasonCode::NormalDisconnection
             && self.properties.is_none()
         {
-            return 2; // Packet type + 0x00
+            return 0; // no reason code, no properties
         }
 
-        let mut length = 0;
+        let mut length = 1; // Disconnect Reason Code
 
         if let Some(properties) = &self.properties {
-            length += 1; // Disconnect Reason Code
-
             let properties_len = properties.len();
             let properties_len_len = len_len(properties_len);
             length += properties_len_len + properties_len;
-        } else {
-            length += 1;
         }
 
         length
@@ -281,10 +277,6 @@ impl Disconnect {
     #[must_use]
     pub fn size(&self) -> usize {
         let len = self.len();
-        if len == 2 {
-            return len;
-        }
-
         let remaining_len_size = len_len(len);
 
         1 + remaining_len_size + len
@@ -310,6 +302,11 @@ impl Disconnect {
 
         let reason_code = read_u8(&mut bytes)?;
 
+        // No property length if remaining length == 1
+        if fixed_header.remaining_len < 2 {
+            return Ok(Self::new(reason_code.try_into()?));
+        }
+
         let disconnect = Self {
             reason_code: reason_code.try_into()?,
             properties: DisconnectProperties::extract(&mut bytes)?,
@@ -323,19 +320,16 @@ impl Disconnect {
 
         let length = self.len();
 
-        if length == 2 {
-            buffer.put_u8(0x00);
-            return Ok(length);
-        }
-
         let len_len = write_remaining_length(buffer, length)?;
 
+        if length == 0 {
+            return Ok(1 + len_len);
+        }
+
         buffer.put_u8(self.reason_code as u8);
 
         if let Some(properties) = &self.properties {
             properties.write(buffer)?;
-        } else {
-            write_remaining_length(buffer, 0)?;
         }
 
         Ok(1 + len_len + length)
-- 
2.43.0


From cd5c5cf55ffee8dcc4ce8bd5a8a304eb4ee40bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 3/7] fix: patch the connect flags inside the written packet

The position of the flags byte was computed from the start of the buffer, so
writing a connect packet after other data corrupted that data and left the
flags unset.
---
 src/connect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connect.rs b/src/connect.rs
index 0cfe773..de8597f 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -96,13 +96,14 @@ impl Connect {
         buffer: &mut BytesMut,
     ) -> Result<usize, Error> {
         let len = self.len(will, l);
+        let start = buffer.len();
 
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
         write_mqtt_string(buffer, &mqtt_string_new("MQTT"))?;
 
         buffer.put_u8(0x05);
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = start + 1 + count + 2 + 4 + 1;
 
         let mut connect_flags = 0;
         if self.clean_start {
-- 
2.43.0


From db7f39d8bcce33cd38b3d65e63623b371a9b6278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 4/7] fix: refuse connack return codes that v5 does not define

Writing a ConnAck with one of the three v3.1.1-only return codes panicked.
---
 src/connack.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/connack.rs b/src/connack.rs
index f9ace21..80c22b2 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -94,7 +94,7 @@ impl ConnAck {
 
         let count = write_remaining_length(buffer, len)?;
         buffer.put_u8(u8::from(self.session_present));
-        buffer.put_u8(connect_code(self.code));
+        buffer.put_u8(connect_code(self.code)?);
 
         if let Some(p) = &self.properties {
             p.write(buffer)?;
@@ -466,8 +466,8 @@ fn connect_return(num: u8) -> Result<ConnectReturnCode, Error> {
     Ok(code)
 }
 
-fn connect_code(return_code: ConnectReturnCode) -> u8 {
-    match return_code {
+fn connect_code(return_code: ConnectReturnCode) -> Result<u8, Error> {
+    let code = match return_code {
         ConnectReturnCode::Success => 0,
         ConnectReturnCode::UnspecifiedError => 128,
         ConnectReturnCode::MalformedPacket => 129,
@@ -490,8 +490,15 @@ fn connect_code(return_code: ConnectReturnCode) -> u8 {
         ConnectReturnCode::UseAnotherServer => 156,
         ConnectReturnCode::ServerMoved => 157,
         ConnectReturnCode::ConnectionRateExceeded => 159,
-        _ => unreachable!(),
-    }
+        // v3.1.1 return codes do not exist in v5
+        ConnectReturnCode::RefusedProtocolVersion => {
+            return Err(Error::InvalidConnectReturnCode(1))
+        }
+        ConnectReturnCode::BadClientId => return Err(Error::InvalidConnectReturnCode(2)),
+        ConnectReturnCode::ServiceUnavailable => return Err(Error::InvalidConnectReturnCode(3)),
+    };
+
+    Ok(code)
 }
 
 #[cfg(test)]
-- 
2.43.0


From e78b9d3919b991f177908de298c693be0d56a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 5/7] fix: reject properties that cross the end of the property
 section

A property whose value reached beyond the declared property length was
accepted and swallowed the bytes of the payload or of the following fields.
---
 src/connack.rs     |  5 +++++
 src/connect.rs     | 10 ++++++++++
 src/disconnect.rs  |  5 +++++
 src/puback.rs      |  5 +++++
 src/pubcomp.rs     |  5 +++++
 src/publish.rs     |  5 +++++
 src/pubrec.rs      |  5 +++++
 src/pubrel.rs      |  5 +++++
 src/suback.rs      |  5 +++++
 src/subscribe.rs   |  5 +++++
 src/unsuback.rs    |  5 +++++
 src/unsubscribe.rs |  5 +++++
 12 files changed, 65 insertions(+)

diff --git a/src/connack.rs b/src/connack.rs
index 80c22b2..d88a1f7 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -320,6 +320,11 @@ impl ConnAckProperties {
             }
         }
 
+        // the last property has to end where the property section ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnAckProperties {
             session_expiry_interval,
             receive_max,
diff --git a/src/connect.rs b/src/connect.rs
index de8597f..a800f4c 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -239,6 +239,11 @@ impl ConnectProperties {
             }
         }
 
+        // the last property has to end where the property section ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnectProperties {
             session_expiry_interval,
             receive_maximum,
@@ -533,6 +538,11 @@ impl LastWillProperties {
             }
         }
 
+        // the last property has to end where the property section ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(LastWillProperties {
             delay_interval,
             payload_format_indicator,
diff --git a/src/disconnect.rs b/src/disconnect.rs
index c1e4ea2..1e0c55a 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -208,6 +208,11 @@ impl DisconnectProperties {
             }
         }
 
+        // the last property has to end where the property section ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         let properties = Self {
             session_expiry_interval,
             reason_string,
diff --git a/src/puback.rs b/src/puback.rs
index bb7902f..288d1f6 100644
--- a/src/puback.rs
+++ b/src/puback.rs
@@ -179,6 +179,11 @@ impl PubAckProperties {
             }
         }
 
+        // the last property has to end where the property section ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/pubcomp.rs b/src/pubcomp.rs
index d3cc6f1..8a1364d 100644
--- a/src/pubcomp.rs
+++ b/src/pubcomp.rs
@@ -172,6 +172,11 @@ impl PubCompProperties {
             }
         }
 
+        // the last property has to end where the property section ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubCompProperties {
             reason_string,
             user_properties,
diff --git a/src/publish.rs b/src/publish.rs
index 2576c96..f6e861a 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -244,6 +244,11 @@ impl PublishProperties {
             }
         }
 
+        // the last property has to end where the property section ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PublishProperties {
             payload_format_indicator,
             message_expiry_interval,
diff --git a/src/pubrec.rs b/src/pubrec.rs
index 888a5af..ca105b2 100644
--- a/src/pubrec.rs
+++ b/src/pubrec.rs
@@ -174,6 +174,11 @@ impl PubRecProperties {
             }
         }
 
+        // the last property has to end where the property section ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRecProperties {
             reason_string,
             user_properties,
diff --git a/src/pubrel.rs b/src/pubrel.rs
index 70c4065..0dba585 100644
--- a/src/pubrel.rs
+++ b/src/pubrel.rs
@@ -173,6 +173,11 @@ impl PubRelProperties {
             }
         }
 
+        // the last property has to end where the property section ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRelProperties {
             reason_string,
             user_properties,
diff --git a/src/suback.rs b/src/suback.rs
index 8319041..d70a879 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -151,6 +151,11 @@ impl SubAckProperties {
             }
         }
 
+        // the last property has to end where the property section ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/subscribe.rs b/src/subscribe.rs
index ec8f7cf..6c53d93 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -256,6 +256,11 @@ impl SubscribeProperties {
             }
         }
 
+        // the last property has to end where the property section ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubscribeProperties {
             id,
             user_properties,
diff --git a/src/unsuback.rs b/src/unsuback.rs
index 76a7bbc..a654697 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -148,6 +148,11 @@ impl UnsubAckProperties {
             }
         }
 
+        // the last property has to end where the property section ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index cef2250..621f223 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -137,6 +137,11 @@ impl UnsubscribeProperties {
             }
         }
 
+        // the last property has to end where the property section ends
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubscribeProperties { user_properties }))
     }
 
-- 
2.43.0


From f5e5773bad956a906e677a9f7144415709cffe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 6/7] fix: do not report a complete malformed frame as
 incomplete

A property length cut off by the end of its frame surfaced as
InsufficientBytes although the frame had been consumed already, so callers
waited for more bytes and then continued in the middle of the stream.
---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7c80fe6..9b09f84 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -148,6 +148,15 @@ impl Packet {
 
         // Test with a stream with exactly the size to check border panics
         let packet = stream.split_to(fixed_header.frame_length());
+        match Self::read_frame(fixed_header, packet) {
+            // the frame is complete, more bytes can not help
+            Err(Error::InsufficientBytes(_)) => Err(Error::MalformedPacket),
+            result => result,
+        }
+    }
+
+    /// Reads a packet out of a complete frame
+    fn read_frame(fixed_header: FixedHeader, packet: BytesMut) -> Result<Packet, Error> {
         let packet_type = fixed_header.packet_type()?;
 
         if fixed_header.remaining_len == 0 && packet_type != PacketType::Disconnect {
-- 
2.43.0


From 3aadaaf878b5e0ec8257787f5f57737688a707b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 7/7] fix: leave the buffer untouched when a packet can not be
 written

A refused packet left its first bytes in the buffer, corrupting the stream
for every packet written after it.
---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9b09f84..b820b5d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -225,6 +225,17 @@ impl Packet {
     }
 
     pub fn write(&self, write: &mut BytesMut) -> Result<usize, Error> {
+        let start = write.len();
+        let result = self.write_frame(write);
+        if result.is_err() {
+            // do not leave a part of a frame in the stream
+            write.truncate(start);
+        }
+
+        result
+    }
+
+    fn write_frame(&self, write: &mut BytesMut) -> Result<usize, Error> {
         match self {
             Self::Publish(publish) => publish.write(write),
             Self::Subscribe(subscription) => subscription.write(write),
-- 
2.43.0

