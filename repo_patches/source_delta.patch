From beb306e24d199c5648ad312f0adde8ca67b39ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 1/8] fix: count the subscription identifier's own byte once

The property loop had already advanced its cursor past the identifier
byte, so each subscription identifier ended the loop one byte early and
the rest of the property block was taken for payload or filters.
---
 src/publish.rs   | 2 +-
 src/subscribe.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/publish.rs b/src/publish.rs
index 1536467..2576c96 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -231,7 +231,7 @@ impl PublishProperties {
                 }
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, id) = length(bytes.iter())?;
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
                 }
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 7c25bb5..2765996 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -241,8 +241,7 @@ impl SubscribeProperties {
             match property(prop)? {
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, sub_id) = length(bytes.iter())?;
-                    // TODO: Validate 1 +. Tests are working either way
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     id = Some(sub_id);
                 }
-- 
2.43.0


From abbd3cfffc3ce75b8e2567be3ab01caf54ce65c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 2/8] fix: write DISCONNECT with its real remaining length

Without properties the reason code and the property length were written
behind a remaining length of 1, and a packet whose body happens to be two
bytes long (any reason with empty properties) was written as E0 00, losing
the reason.
---
 src/disconnect.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 7931da4..7497a7a 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -260,19 +260,17 @@ impl Disconnect {
         if self.reason_code == DisconnectReasonCode::NormalDisconnection
             && self.properties.is_none()
         {
-            return 2; // Packet type + 0x00
+            return 0; // The reason code can be omitted
         }
 
-        let mut length = 0;
+        let mut length = 1; // Disconnect Reason Code
 
         if let Some(properties) = &self.properties {
-            length += 1; // Disconnect Reason Code
-
             let properties_len = properties.len();
             let properties_len_len = len_len(properties_len);
             length += properties_len_len + properties_len;
         } else {
-            length += 1;
+            length += 1; // Property length 0
         }
 
         length
@@ -281,10 +279,6 @@ impl Disconnect {
     #[must_use]
     pub fn size(&self) -> usize {
         let len = self.len();
-        if len == 2 {
-            return len;
-        }
-
         let remaining_len_size = len_len(len);
 
         1 + remaining_len_size + len
@@ -322,14 +316,12 @@ impl Disconnect {
         buffer.put_u8(0xE0);
 
         let length = self.len();
+        let len_len = write_remaining_length(buffer, length)?;
 
-        if length == 2 {
-            buffer.put_u8(0x00);
-            return Ok(length);
+        if length == 0 {
+            return Ok(1 + len_len);
         }
 
-        let len_len = write_remaining_length(buffer, length)?;
-
         buffer.put_u8(self.reason_code as u8);
 
         if let Some(properties) = &self.properties {
-- 
2.43.0


From 3ab71b7c7d32254638a7e91448998cf27d9df62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 3/8] fix: accept DISCONNECT without property length

MQTT 5 (3.14.2.2.1): if the remaining length is less than 2, a value of 0
is used for the property length.
---
 src/disconnect.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/disconnect.rs b/src/disconnect.rs
index 7497a7a..1631ca2 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -304,9 +304,18 @@ impl Disconnect {
 
         let reason_code = read_u8(&mut bytes)?;
 
+        let reason_code = reason_code.try_into()?;
+
+        // The property length can be omitted when there are no properties
+        let properties = if fixed_header.remaining_len < 2 {
+            None
+        } else {
+            DisconnectProperties::extract(&mut bytes)?
+        };
+
         let disconnect = Self {
-            reason_code: reason_code.try_into()?,
-            properties: DisconnectProperties::extract(&mut bytes)?,
+            reason_code,
+            properties,
         };
 
         Ok(disconnect)
-- 
2.43.0


From c6a2c7afa5fa0bc6cea612ffffc3604e22ad4668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 4/8] fix: patch the CONNECT flags of the packet being written

The flags byte was stored at an index counted from the beginning of the
buffer, overwriting earlier data and leaving the flags 0 whenever the
buffer was not empty.
---
 src/connect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connect.rs b/src/connect.rs
index 0cfe773..de8597f 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -96,13 +96,14 @@ impl Connect {
         buffer: &mut BytesMut,
     ) -> Result<usize, Error> {
         let len = self.len(will, l);
+        let start = buffer.len();
 
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
         write_mqtt_string(buffer, &mqtt_string_new("MQTT"))?;
 
         buffer.put_u8(0x05);
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = start + 1 + count + 2 + 4 + 1;
 
         let mut connect_flags = 0;
         if self.clean_start {
-- 
2.43.0


From f62579bbb38e7fa8a3a5b0747da0ab42b8e715f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 5/8] fix: return an error for CONNACK codes MQTT 5 does not
 define

Writing RefusedProtocolVersion, BadClientId or ServiceUnavailable hit
unreachable!().
---
 src/connack.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/connack.rs b/src/connack.rs
index f9ace21..8a3251e 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -90,11 +90,12 @@ impl ConnAck {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = Self::len(self);
+        let code = connect_code(self.code)?;
         buffer.put_u8(0x20);
 
         let count = write_remaining_length(buffer, len)?;
         buffer.put_u8(u8::from(self.session_present));
-        buffer.put_u8(connect_code(self.code));
+        buffer.put_u8(code);
 
         if let Some(p) = &self.properties {
             p.write(buffer)?;
@@ -466,8 +467,8 @@ fn connect_return(num: u8) -> Result<ConnectReturnCode, Error> {
     Ok(code)
 }
 
-fn connect_code(return_code: ConnectReturnCode) -> u8 {
-    match return_code {
+fn connect_code(return_code: ConnectReturnCode) -> Result<u8, Error> {
+    let code = match return_code {
         ConnectReturnCode::Success => 0,
         ConnectReturnCode::UnspecifiedError => 128,
         ConnectReturnCode::MalformedPacket => 129,
@@ -490,8 +491,15 @@ fn connect_code(return_code: ConnectReturnCode) -> u8 {
         ConnectReturnCode::UseAnotherServer => 156,
         ConnectReturnCode::ServerMoved => 157,
         ConnectReturnCode::ConnectionRateExceeded => 159,
-        _ => unreachable!(),
-    }
+        // MQTT 3.1.1 codes, not defined in MQTT 5
+        ConnectReturnCode::RefusedProtocolVersion => {
+            return Err(Error::InvalidConnectReturnCode(1))
+        }
+        ConnectReturnCode::BadClientId => return Err(Error::InvalidConnectReturnCode(2)),
+        ConnectReturnCode::ServiceUnavailable => return Err(Error::InvalidConnectReturnCode(3)),
+    };
+
+    Ok(code)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6e064ae8d9e570d1de07b4176f91d4de77ce006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 6/8] fix: do not ask for more bytes when a complete frame is
 malformed

A property length or subscription identifier cut off by the end of the
frame reported InsufficientBytes although the frame was complete and had
been consumed.
---
 src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7c80fe6..08c07bc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -428,7 +428,12 @@ pub(crate) fn parse_fixed_header(mut stream: Iter<u8>) -> Result<FixedHeader, Er
     }
 
     let byte1 = stream.next().unwrap();
-    let (len_len, len) = length(stream)?;
+    let (len_len, len) = length(stream).map_err(|e| match e {
+        // Not enough bytes to frame remaining length. wait for
+        // one more byte
+        Error::MalformedPacket => Error::InsufficientBytes(1),
+        e => e,
+    })?;
 
     Ok(FixedHeader::new(*byte1, len_len, len))
 }
@@ -466,10 +471,9 @@ fn length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
         }
     }
 
-    // Not enough bytes to frame remaining length. wait for
-    // one more byte
+    // The integer is not complete
     if !done {
-        return Err(Error::InsufficientBytes(1));
+        return Err(Error::MalformedPacket);
     }
 
     Ok((len_len, len))
-- 
2.43.0


From 604c9d983c430d30fdfb816d939b66256e687ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 7/8] fix: reject properties running past the property length

The last property could extend beyond the declared length of the property
block and swallow bytes of the payload or of the fields behind it.
---
 src/connack.rs     |  5 +++++
 src/connect.rs     | 10 ++++++++++
 src/disconnect.rs  |  5 +++++
 src/puback.rs      |  5 +++++
 src/pubcomp.rs     |  5 +++++
 src/publish.rs     |  5 +++++
 src/pubrec.rs      |  5 +++++
 src/pubrel.rs      |  5 +++++
 src/suback.rs      |  5 +++++
 src/subscribe.rs   |  5 +++++
 src/unsuback.rs    |  5 +++++
 src/unsubscribe.rs |  5 +++++
 12 files changed, 65 insertions(+)

diff --git a/src/connack.rs b/src/connack.rs
index 8a3251e..ba7fd8a 100644
--- a/src/connack.rs
+++ b/src/connack.rs
@@ -321,6 +321,11 @@ impl ConnAckProperties {
             }
         }
 
+        // The last property must end where the properties end
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnAckProperties {
             session_expiry_interval,
             receive_max,
diff --git a/src/connect.rs b/src/connect.rs
index de8597f..bf3e24d 100644
--- a/src/connect.rs
+++ b/src/connect.rs
@@ -239,6 +239,11 @@ impl ConnectProperties {
             }
         }
 
+        // The last property must end where the properties end
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnectProperties {
             session_expiry_interval,
             receive_maximum,
@@ -533,6 +538,11 @@ impl LastWillProperties {
             }
         }
 
+        // The last property must end where the properties end
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(LastWillProperties {
             delay_interval,
             payload_format_indicator,
diff --git a/src/disconnect.rs b/src/disconnect.rs
index 1631ca2..fe2d156 100644
--- a/src/disconnect.rs
+++ b/src/disconnect.rs
@@ -208,6 +208,11 @@ impl DisconnectProperties {
             }
         }
 
+        // The last property must end where the properties end
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         let properties = Self {
             session_expiry_interval,
             reason_string,
diff --git a/src/puback.rs b/src/puback.rs
index bb7902f..9e02038 100644
--- a/src/puback.rs
+++ b/src/puback.rs
@@ -179,6 +179,11 @@ impl PubAckProperties {
             }
         }
 
+        // The last property must end where the properties end
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/pubcomp.rs b/src/pubcomp.rs
index d3cc6f1..597cd00 100644
--- a/src/pubcomp.rs
+++ b/src/pubcomp.rs
@@ -172,6 +172,11 @@ impl PubCompProperties {
             }
         }
 
+        // The last property must end where the properties end
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubCompProperties {
             reason_string,
             user_properties,
diff --git a/src/publish.rs b/src/publish.rs
index 2576c96..ab83ddc 100644
--- a/src/publish.rs
+++ b/src/publish.rs
@@ -244,6 +244,11 @@ impl PublishProperties {
             }
         }
 
+        // The last property must end where the properties end
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PublishProperties {
             payload_format_indicator,
             message_expiry_interval,
diff --git a/src/pubrec.rs b/src/pubrec.rs
index 888a5af..daa89b2 100644
--- a/src/pubrec.rs
+++ b/src/pubrec.rs
@@ -174,6 +174,11 @@ impl PubRecProperties {
             }
         }
 
+        // The last property must end where the properties end
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRecProperties {
             reason_string,
             user_properties,
diff --git a/src/pubrel.rs b/src/pubrel.rs
index 70c4065..462463a 100644
--- a/src/pubrel.rs
+++ b/src/pubrel.rs
@@ -173,6 +173,11 @@ impl PubRelProperties {
             }
         }
 
+        // The last property must end where the properties end
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRelProperties {
             reason_string,
             user_properties,
diff --git a/src/suback.rs b/src/suback.rs
index 8319041..ec0f72f 100644
--- a/src/suback.rs
+++ b/src/suback.rs
@@ -151,6 +151,11 @@ impl SubAckProperties {
             }
         }
 
+        // The last property must end where the properties end
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/subscribe.rs b/src/subscribe.rs
index 2765996..83067cd 100644
--- a/src/subscribe.rs
+++ b/src/subscribe.rs
@@ -255,6 +255,11 @@ impl SubscribeProperties {
             }
         }
 
+        // The last property must end where the properties end
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubscribeProperties {
             id,
             user_properties,
diff --git a/src/unsuback.rs b/src/unsuback.rs
index 76a7bbc..495939b 100644
--- a/src/unsuback.rs
+++ b/src/unsuback.rs
@@ -148,6 +148,11 @@ impl UnsubAckProperties {
             }
         }
 
+        // The last property must end where the properties end
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/unsubscribe.rs b/src/unsubscribe.rs
index cef2250..0f1b0a5 100644
--- a/src/unsubscribe.rs
+++ b/src/unsubscribe.rs
@@ -137,6 +137,11 @@ impl UnsubscribeProperties {
             }
         }
 
+        // The last property must end where the properties end
+        if cursor > properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubscribeProperties { user_properties }))
     }
 
-- 
2.43.0


From b23b516961501525cd7174480ae99054bf624dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 8/8] fix: leave nothing behind when Packet::write fails

The part of the packet written before the error stayed in the output
buffer and corrupted the stream.
---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 08c07bc..79cb965 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -216,7 +216,8 @@ impl Packet {
     }
 
     pub fn write(&self, write: &mut BytesMut) -> Result<usize, Error> {
-        match self {
+        let start = write.len();
+        let result = match self {
             Self::Publish(publish) => publish.write(write),
             Self::Subscribe(subscription) => subscription.write(write),
             Self::Unsubscribe(unsubscribe) => unsubscribe.write(write),
@@ -231,7 +232,14 @@ impl Packet {
             Self::PingReq(_) => PingReq::write(write),
             Self::PingResp(_) => PingResp::write(write),
             Self::Disconnect(disconnect) => disconnect.write(write),
+        };
+
+        // Do not leave parts of a packet that can't be encoded
+        if result.is_err() {
+            write.truncate(start);
         }
+
+        result
     }
 }
 
-- 
2.43.0

