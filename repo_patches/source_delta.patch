From 8849bbb1c04e30c362a356a5ee74c1f4e39a1415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 01/30] Hooks for the verification harness, compiled only with
 --cfg vx_hooks

---
 src/lib.rs      |  5 ++++
 src/vx_hooks.rs | 66 +++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 71 insertions(+)
 create mode 100644 src/vx_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index c4996d0..a8bdea9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -18,3 +18,8 @@ pub use utils::crypt::PublicKey;
 #[cfg(feature = "tcpstream")]
 #[cfg_attr(doc, doc(cfg(feature = "tcpstream")))]
 pub use tokio::net::TcpStream;
+
+/// Entry points for the verification harness. Only compiled with `--cfg vx_hooks`.
+#[cfg(vx_hooks)]
+#[doc(hidden)]
+pub mod vx_hooks;
diff --git a/src/vx_hooks.rs b/src/vx_hooks.rs
new file mode 100644
index 0000000..206cfc6
--- /dev/null
+++ b/src/vx_hooks.rs
@@ -0,0 +1,66 @@
+//! Entry points for the verification harness, which lives outside of this crate.
+//! Nothing in here is compiled unless `--cfg vx_hooks` is given.
+
+use crate::{
+    connection::ParseBuf,
+    utils::{self, BufMutExt},
+};
+
+pub fn put_lenenc_int(buf: &mut Vec<u8>, n: u64) {
+    buf.put_lenenc_int(n)
+}
+
+pub fn put_lenenc_slice(buf: &mut Vec<u8>, s: &[u8]) {
+    buf.put_lenenc_slice(s)
+}
+
+pub fn lenenc_int_len(n: u64) -> u64 {
+    utils::lenenc_int_len(n)
+}
+
+pub fn lenenc_slice_len(s: &[u8]) -> u64 {
+    utils::lenenc_slice_len(s)
+}
+
+/// The number and how many bytes were consumed.
+pub fn checked_eat_lenenc_int(bytes: &[u8]) -> Option<(u64, usize)> {
+    let mut buf = ParseBuf(bytes);
+    let n = buf.checked_eat_lenenc_int().ok()?;
+    Some((n, bytes.len() - buf.len()))
+}
+
+pub fn eat_lenenc_int(bytes: &[u8]) -> (u64, usize) {
+    let mut buf = ParseBuf(bytes);
+    let n = buf.eat_lenenc_int();
+    (n, bytes.len() - buf.len())
+}
+
+pub fn checked_eat_lenenc_slice(bytes: &[u8]) -> Option<(&[u8], usize)> {
+    let mut buf = ParseBuf(bytes);
+    let s = buf.checked_eat_lenenc_slice().ok()?;
+    Some((s, bytes.len() - buf.len()))
+}
+
+pub fn checked_eat_lenenc_str(bytes: &[u8]) -> Option<(&str, usize)> {
+    let mut buf = ParseBuf(bytes);
+    let s = buf.checked_eat_lenenc_str().ok()?;
+    Some((s, bytes.len() - buf.len()))
+}
+
+#[cfg(feature = "caching-sha2-password")]
+pub fn oaep_pad<R: rand::Rng + rand::CryptoRng>(
+    rng: R,
+    data: &[u8],
+    n: usize,
+) -> Option<Vec<u8>> {
+    utils::OaepPadding::new(rng).pad(data, n).ok()
+}
+
+#[cfg(feature = "caching-sha2-password")]
+pub fn encrypt_padded<R: rand::Rng + rand::CryptoRng>(
+    key: &crate::PublicKey,
+    rng: R,
+    data: &[u8],
+) -> Option<Vec<u8>> {
+    key.encrypt_padded(data, utils::OaepPadding::new(rng)).ok()
+}
-- 
2.43.0


From 3c7ff345ead89f52b236c0bc0d8ff1b91ec8300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 02/30] fix: skip the header when reading an EOF packet

---
 src/connection/packets/ok.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/connection/packets/ok.rs b/src/connection/packets/ok.rs
index 087b086..5c2a280 100644
--- a/src/connection/packets/ok.rs
+++ b/src/connection/packets/ok.rs
@@ -83,6 +83,13 @@ impl OkPacket {
         capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
         let mut buf = ParseBuf(&packet);
+        if buf.checked_eat_u8()? != 0xFE {
+            return Err(ProtocolError::unexpected_packet(
+                buf.0.to_vec(),
+                Some("Eof Packet"),
+            ));
+        }
+
         // We need to skip affected_rows and insert_id here
         // because valid content of EOF packet includes
         // packet marker, server status and warning count only.
@@ -120,6 +127,13 @@ impl OkPacket {
         _capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
         let mut buf = ParseBuf(&packet);
+        if buf.checked_eat_u8()? != 0xFE {
+            return Err(ProtocolError::unexpected_packet(
+                buf.0.to_vec(),
+                Some("Eof Packet"),
+            ));
+        }
+
         // We assume that CLIENT_PROTOCOL_41 was set
         let warnings = buf.checked_eat_u16()?;
         let status = StatusFlags::from_bits_truncate(buf.checked_eat_u16()?);
-- 
2.43.0


From 487b0ff21f283bdc552b1eb2e6132e7898fb77c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 03/30] fix: do not panic on an empty packet inside a result
 set

---
 src/connection/result_set.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 76951a4..c3a6d78 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -74,9 +74,9 @@ where
             .capabilities
             .contains(CapabilityFlags::DEPRECATE_EOF)
         {
-            packet[0] == 0xFE && packet.len() < MAX_PAYLOAD_LEN
+            packet.first() == Some(&0xFE) && packet.len() < MAX_PAYLOAD_LEN
         } else {
-            packet[0] == 0xFE && packet.len() < 8
+            packet.first() == Some(&0xFE) && packet.len() < 8
         };
         if is_last_result_set_packet {
             self.ok_packet = Some(OkPacket::read_eof(packet, self.conn.data.capabilities)?);
@@ -155,9 +155,9 @@ impl Connection {
                     .capabilities
                     .contains(CapabilityFlags::DEPRECATE_EOF)
                 {
-                    packet[0] == 0xFE && packet.len() < MAX_PAYLOAD_LEN
+                    packet.first() == Some(&0xFE) && packet.len() < MAX_PAYLOAD_LEN
                 } else {
-                    packet[0] == 0xFE && packet.len() < 8
+                    packet.first() == Some(&0xFE) && packet.len() < 8
                 };
                 if is_last_result_set_packet {
                     self.pending_result = false;
-- 
2.43.0


From edf8139032e4dd0d30c762ef3d4745fed682993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 04/30] fix: read the EOF packets of servers without
 DEPRECATE_EOF

---
 src/connection/prepared_statement.rs | 12 ++++++++++-
 src/connection/result_set.rs         | 30 ++++++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index ef018c7..63f1432 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -1,6 +1,7 @@
 use {
     super::{types::BinaryProtocol, Command, Connection, ParseBuf, ResultSet},
     crate::{
+        bitflags::CapabilityFlags,
         error::{ProtocolError, RuntimeError},
         model::FromQueryResult,
         packets::{ErrPacket, OkPacket, Stmt, StmtExecuteRequest},
@@ -55,7 +56,16 @@ impl Connection {
             _ => return Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into()),
         };
 
-        for _ in 0..(stmt.params_len as usize + stmt.columns_len as usize) {
+        let mut definitions = stmt.params_len as usize + stmt.columns_len as usize;
+        if !self
+            .data
+            .capabilities
+            .contains(CapabilityFlags::DEPRECATE_EOF)
+        {
+            // each of the two lists is followed by an EOF packet unless it is empty
+            definitions += usize::from(stmt.params_len > 0) + usize::from(stmt.columns_len > 0);
+        }
+        for _ in 0..definitions {
             self.read_packet().await?;
         }
 
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index c3a6d78..ff0f32e 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -5,8 +5,10 @@ use {
     },
     crate::{
         bitflags::CapabilityFlags,
+        error::ProtocolError,
         model::{FromQueryResult, FromQueryResultMapping},
         packets::{ErrPacket, OkPacket},
+        pool::PoolItem,
         Deserialize, Error, ParseBuf,
     },
     std::marker::PhantomData,
@@ -47,6 +49,7 @@ where
                 conn.pending_result = true;
                 let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
                 let columns = conn.read_column_defs(columns_len as usize).await?;
+                conn.read_definitions_eof().await?;
                 Ok(ResultSet::new(columns, conn))
             }
         }
@@ -79,8 +82,8 @@ where
             packet.first() == Some(&0xFE) && packet.len() < 8
         };
         if is_last_result_set_packet {
-            self.ok_packet = Some(OkPacket::read_eof(packet, self.conn.data.capabilities)?);
             self.conn.pending_result = false;
+            self.ok_packet = Some(self.conn.decode_eof(packet)?);
             Ok(None)
         } else {
             let mut row = P::read_result_set_row(&packet, &self.columns)?;
@@ -146,6 +149,29 @@ where
 }
 
 impl Connection {
+    /// Decodes the packet that ends a result set.
+    fn decode_eof(&self, packet: PoolItem<'_, Vec<u8>>) -> Result<OkPacket, ProtocolError> {
+        let capabilities = self.data.capabilities;
+        if capabilities.contains(CapabilityFlags::DEPRECATE_EOF) {
+            OkPacket::read_eof(packet, capabilities)
+        } else {
+            OkPacket::read_old_eof(packet, capabilities)
+        }
+    }
+
+    /// Servers without `DEPRECATE_EOF` end a list of definitions with an EOF packet.
+    async fn read_definitions_eof(&mut self) -> Result<(), Error> {
+        if !self
+            .data
+            .capabilities
+            .contains(CapabilityFlags::DEPRECATE_EOF)
+        {
+            let packet = self.read_packet().await?;
+            OkPacket::read_old_eof(packet, self.data.capabilities)?;
+        }
+        Ok(())
+    }
+
     pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
         if self.pending_result {
             loop {
@@ -161,7 +187,7 @@ impl Connection {
                 };
                 if is_last_result_set_packet {
                     self.pending_result = false;
-                    return Ok(Some(OkPacket::read_eof(packet, self.data.capabilities)?));
+                    return Ok(Some(self.decode_eof(packet)?));
                 }
             }
         } else {
-- 
2.43.0


From 1457494a1da9f442e5f22f9f5c7ed7d628a24a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:00 +0000
Subject: [PATCH 05/30] fix: an error packet ends a result set

---
 src/connection/result_set.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index ff0f32e..f2f235b 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -67,10 +67,19 @@ where
     }
 
     pub async fn next(&mut self) -> Result<Option<R>, Error> {
-        if self.ok_packet.is_some() {
+        if self.ok_packet.is_some() || !self.conn.pending_result {
             return Ok(None);
         }
         let packet = self.conn.read_packet().await?;
+        if packet.first() == Some(&0xFF) {
+            // the server gave up on this result set
+            self.conn.pending_result = false;
+            return Err(ErrPacket::deserialize(
+                &mut ParseBuf(&packet),
+                self.conn.data.capabilities,
+            )?
+            .into());
+        }
         let is_last_result_set_packet = if self
             .conn
             .data
@@ -130,8 +139,8 @@ where
             Some(x) => Ok(x),
             None => {
                 while self.next().await?.is_some() {}
-                // Safety: `self.next()` only returns `None` if ok packet was read
-                Ok(self.ok_packet.unwrap())
+                // there is no ok packet if the result set ended with an error
+                Ok(self.ok_packet.ok_or_else(ProtocolError::eof)?)
             }
         }
     }
@@ -141,8 +150,9 @@ where
             Some(x) => Ok((x, self.columns, self.mapping)),
             None => {
                 while self.next().await?.is_some() {}
-                // Safety: `self.next() only returns `None` if ok packet was read
-                Ok((self.ok_packet.unwrap(), self.columns, self.mapping))
+                // there is no ok packet if the result set ended with an error
+                let ok_packet = self.ok_packet.ok_or_else(ProtocolError::eof)?;
+                Ok((ok_packet, self.columns, self.mapping))
             }
         }
     }
@@ -176,6 +186,11 @@ impl Connection {
         if self.pending_result {
             loop {
                 let packet = self.read_packet().await?;
+                if packet.first() == Some(&0xFF) {
+                    // the server gave up on this result set
+                    self.pending_result = false;
+                    return Ok(None);
+                }
                 let is_last_result_set_packet = if self
                     .data
                     .capabilities
-- 
2.43.0


From 85aa81bebab74ed339b3faafabb9c718b77b3d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 06/30] fix: refuse a local infile request instead of panicking

---
 src/connection/result_set.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index f2f235b..3babd30 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -39,7 +39,8 @@ where
                 res.ok_packet = Some(res.conn.decode_response(&packet).await??);
                 Ok(res)
             }
-            Some(0xFB) => unimplemented!("local infile"),
+            // local infile is not supported
+            Some(0xFB) => Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into()),
             Some(0xFF) => Err(ErrPacket::deserialize(
                 &mut ParseBuf(&packet),
                 conn.data().capabilities(),
-- 
2.43.0


From 0a685458d2b89690981a02c6f8008115ab633642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 07/30] fix: the strings of a column definition are
 length-encoded

---
 src/connection/packets/column_def.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/connection/packets/column_def.rs b/src/connection/packets/column_def.rs
index 26846b5..01fa44a 100644
--- a/src/connection/packets/column_def.rs
+++ b/src/connection/packets/column_def.rs
@@ -23,17 +23,17 @@ impl<'de> Deserialize<'de> for ColumnDef<'de> {
     type Ctx = ();
 
     fn deserialize(buf: &mut ParseBuf<'de>, _ctx: Self::Ctx) -> Result<Self, ProtocolError> {
-        if buf.checked_eat_u8_slice()? != b"def" {
+        if buf.checked_eat_lenenc_slice()? != b"def" {
             return Err(ProtocolError::unexpected_packet(
                 buf.0.to_vec(),
                 Some("Column Definition"),
             ));
         }
-        let db = buf.checked_eat_u8_str()?;
-        let table = buf.checked_eat_u8_str()?;
-        let org_table = buf.checked_eat_u8_str()?;
-        let name = buf.checked_eat_u8_str()?;
-        let org_name = buf.checked_eat_u8_str()?;
+        let db = buf.checked_eat_lenenc_str()?;
+        let table = buf.checked_eat_lenenc_str()?;
+        let org_table = buf.checked_eat_lenenc_str()?;
+        let name = buf.checked_eat_lenenc_str()?;
+        let org_name = buf.checked_eat_lenenc_str()?;
         buf.check_len(13)?;
         if buf.eat_u8() != 12 {
             return Err(ProtocolError::eof());
-- 
2.43.0


From d915c3bcca995556446c55db2179793c0cc2e1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 08/30] fix: do not reserve memory for as many columns as the
 server claims

---
 src/connection/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection/query.rs b/src/connection/query.rs
index 92fb477..bb3939c 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -39,7 +39,7 @@ impl Connection {
     }
 
     pub(super) async fn read_column_defs(&mut self, count: usize) -> Result<Vec<Column>, Error> {
-        let mut columns: Vec<Column> = Vec::with_capacity(count);
+        let mut columns: Vec<Column> = Vec::with_capacity(usize::min(count, 4096));
         for _ in 0..count {
             let packet = self.read_packet().await?;
             let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
-- 
2.43.0


From 7fa266a5363ee85e0a0e42642bf63f4d70aab8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 09/30] fix: check the length of the fraction of a time

---
 src/types/value/text.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 7b52306..c35ba88 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -215,11 +215,14 @@ impl Value {
         let seconds: u8 =
             btoi::btou(&value[first_colon + 4..first_colon + 6]).map_err(|_| invalid_value())?;
         let mut microseconds: u32 = 0;
-        if value.len() > first_colon + 6 + 1 {
+        if value.len() > first_colon + 6 {
             if value[first_colon + 6] != b'.' {
                 return Err(invalid_value().into());
             }
             let buf = &value[first_colon + 6 + 1..];
+            if buf.len() > 6 {
+                return Err(invalid_value().into());
+            }
             microseconds = btoi::btou(buf).map_err(|_| invalid_value())?;
             microseconds *= 10u32.pow(6 - buf.len() as u32);
         }
-- 
2.43.0


From 1b3c9d14afdcabe96fef20163655d1baa190a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 10/30] fix: refuse a datetime with a bad separator or more
 than 23 hours

---
 src/types/value/text.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index c35ba88..09bfcb0 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -276,12 +276,15 @@ impl Value {
         // possible range for datetime: 1000-01-01 00:00:00 to 9999-12-31 23:59:59
         // possible range for timestamp: 1970-01-01 00:00:01 to 2038-01-19 03:14:07
 
-        if value.len() < 19 {
+        if value.len() < 19 || value[10] != b' ' {
             return Err(ParseError::InvalidValue(ValueType::Date, value.to_vec()).into());
         }
         let (year, month, day) = Self::deserialize_date_text_inner(&value[0..10])?;
-        let (_, hour, minute, second, microsecond) =
+        let (days, hour, minute, second, microsecond) =
             Self::deserialize_time_text_inner(&value[11..])?;
+        if days != 0 {
+            return Err(ParseError::InvalidValue(ValueType::Datetime, value.to_vec()).into());
+        }
         Ok(Self::Datetime(
             year,
             month,
-- 
2.43.0


From f95bf389c63624c9d0f94a809255e66eadfd1aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 11/30] fix: report unsupported column types as errors instead
 of panicking

---
 src/types/value/bin.rs  | 4 ++--
 src/types/value/text.rs | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/types/value/bin.rs b/src/types/value/bin.rs
index 89d8461..e9a483c 100644
--- a/src/types/value/bin.rs
+++ b/src/types/value/bin.rs
@@ -3,7 +3,7 @@ use {
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::ProtocolError,
+        error::{InvalidFlags, ProtocolError},
         utils::{lenenc_slice_len, BufMutExt},
         ParseBuf, Serialize,
     },
@@ -249,7 +249,7 @@ impl Value {
             ColumnType::Timestamp | ColumnType::Datetime => Self::deserialize_datetime(buf),
             ColumnType::Time => Self::deserialize_time(buf),
             ColumnType::Null => Ok(Self::Null),
-            x => unimplemented!("Unsupported column type {:?}", x),
+            x => Err(InvalidFlags::ColumnType(x as u8).into()),
         }
     }
 }
diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 09bfcb0..4c4f300 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -3,7 +3,7 @@ use {
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::{ParseError, ProtocolError},
+        error::{InvalidFlags, ParseError, ProtocolError},
         ParseBuf,
     },
     std::{
@@ -373,6 +373,7 @@ impl Value {
                     | ColumnType::Blob
                     | ColumnType::TinyBlob
                     | ColumnType::MediumBlob
+                    | ColumnType::LongBlob
                     | ColumnType::Set
                     | ColumnType::Enum
                     | ColumnType::Decimal
@@ -385,7 +386,7 @@ impl Value {
                     }
                     ColumnType::Date => Self::deserialize_date_text(bytes),
                     ColumnType::Time => Self::deserialize_time_text(bytes),
-                    x => unimplemented!("Unsupported column type {:?}", x),
+                    x => Err(InvalidFlags::ColumnType(x as u8).into()),
                 }
             }
         }
-- 
2.43.0


From e558fe8409e295b8eec83d246053c01504d4c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 12/30] fix: consume all bytes of a binary date, time or
 datetime

---
 src/types/value/bin.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/types/value/bin.rs b/src/types/value/bin.rs
index e9a483c..bb59ef9 100644
--- a/src/types/value/bin.rs
+++ b/src/types/value/bin.rs
@@ -125,7 +125,8 @@ impl Value {
 
     fn deserialize_date(buf: &mut ParseBuf<'_>) -> Result<Self, ProtocolError> {
         let len = buf.checked_eat_u8()?;
-        buf.check_len(len as usize)?;
+        // whatever follows the known fields belongs to this value too
+        let mut buf = ParseBuf(buf.checked_eat(len as usize)?);
 
         let mut year = 0u16;
         let mut month = 0u8;
@@ -142,7 +143,8 @@ impl Value {
 
     fn deserialize_datetime(buf: &mut ParseBuf<'_>) -> Result<Self, ProtocolError> {
         let len = buf.checked_eat_u8()?;
-        buf.check_len(len as usize)?;
+        // whatever follows the known fields belongs to this value too
+        let mut buf = ParseBuf(buf.checked_eat(len as usize)?);
 
         let mut year = 0u16;
         let mut month = 0u8;
@@ -179,7 +181,8 @@ impl Value {
 
     fn deserialize_time(buf: &mut ParseBuf<'_>) -> Result<Self, ProtocolError> {
         let len = buf.checked_eat_u8()?;
-        buf.check_len(len as usize)?;
+        // whatever follows the known fields belongs to this value too
+        let mut buf = ParseBuf(buf.checked_eat(len as usize)?);
 
         let mut is_negative = false;
         let mut days = 0u32;
-- 
2.43.0


From fc3ba842d257246348df8c89a2b2c2c82be6859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 13/30] fix: write the zero date in the form bin_len announces

---
 src/types/value/bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/value/bin.rs b/src/types/value/bin.rs
index bb59ef9..68b7833 100644
--- a/src/types/value/bin.rs
+++ b/src/types/value/bin.rs
@@ -51,7 +51,7 @@ impl Serialize for Value {
             Self::Float(x) => buf.put_f32_le(*x),
             Self::Double(x) => buf.put_f64_le(*x),
             Self::Bytes(x) => buf.put_lenenc_slice(x),
-            Self::Datetime(0, 0, 0, 0, 0, 0, 0) => {
+            Self::Date(0, 0, 0) | Self::Datetime(0, 0, 0, 0, 0, 0, 0) => {
                 buf.put_u8(0);
             }
             Self::Date(year, month, day) | Self::Datetime(year, month, day, 0, 0, 0, 0) => {
-- 
2.43.0


From d3bf986193cae62a86262c6d28067689af6dea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 14/30] fix: do not overflow when formatting a time

---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 4c4f300..d209c21 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -142,7 +142,7 @@ impl fmt::Display for Value {
         }
         fn format_time(
             f: &mut fmt::Formatter<'_>,
-            hours: &u32,
+            hours: &u64,
             minutes: &u8,
             seconds: &u8,
             microseconds: &u32,
@@ -181,7 +181,7 @@ impl fmt::Display for Value {
                 }
                 format_time(
                     f,
-                    &(*days * 24 + *hours as u32),
+                    &(*days as u64 * 24 + *hours as u64),
                     minutes,
                     seconds,
                     microseconds,
@@ -192,7 +192,7 @@ impl fmt::Display for Value {
                 write!(f, "\"")?;
                 format_date(f, year, month, day)?;
                 write!(f, " ")?;
-                format_time(f, &(*hour as u32), minute, second, microsecond)?;
+                format_time(f, &(*hour as u64), minute, second, microsecond)?;
                 write!(f, "\"")
             }
         }
-- 
2.43.0


From ec011925ab64096323ddc641d2d58e0680a02c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 15/30] fix: look at the reply that follows a fast
 authentication

---
 src/connection/auth.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index 3ee6c11..1db8935 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -60,8 +60,7 @@ impl Connection {
             Some(0x01) => match packet.get(1) {
                 Some(0x03) => {
                     // auth ok
-                    self.read_packet().await?;
-                    Ok(())
+                    self.read_response().await?.map(|_| ()).map_err(Into::into)
                 }
                 Some(0x04) => {
                     let mut pass = super::BUFFER_POOL.get();
-- 
2.43.0


From f681cf289116ad95b9d25e6e7d92928c93e1fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 16/30] fix: do not divide by the length of an empty nonce

---
 src/connection/auth.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index 1db8935..8f9f373 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -101,6 +101,9 @@ impl Connection {
                                 }
                             }
                         };
+                        if self.data.nonce.is_empty() {
+                            return Err(ProtocolError::eof().into());
+                        }
                         for (i, byte) in pass.iter_mut().enumerate() {
                             *byte ^= self.data.nonce[i % self.data.nonce.len()];
                         }
-- 
2.43.0


From 84aace21b72d75f88aab69de605600035f9023c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 17/30] fix: report a malformed handshake instead of panicking

---
 src/connection/init.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index a023413..6816984 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -53,7 +53,7 @@ impl Connection {
         let mut packet = BUFFER_POOL.get();
         Self::read_packet_to_buf(stream, seq_id, packet.as_mut(), &sleep, options.timeout())
             .await?;
-        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(()).unwrap();
+        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(())?;
 
         let (version, is_mariadb) = handshake
             .parse_server_version()
-- 
2.43.0


From 5bd6946895edf3c566d99b2b983e7d2ec60b2563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 18/30] fix: do not overflow on long authentication data

---
 src/connection/packets/handshake.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index ec8253c..04c8f9a 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -44,7 +44,7 @@ impl<'de> Deserialize<'de> for HandshakePacket<'de> {
         let capabilities = CapabilityFlags::try_from(capabilities_bits_1 | capabilities_bits_2)?;
 
         if capabilities.contains(CapabilityFlags::SECURE_CONNECTION) {
-            let len = i8::max(13, auth_plugin_data_len as i8 - 8) as usize;
+            let len = u8::max(13, auth_plugin_data_len.saturating_sub(8)) as usize;
             nonce.extend_from_slice(buf.checked_eat(len)?);
         }
 
-- 
2.43.0


From 5297b10c3da053d067a56c7261ceac73699faeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 19/30] fix: do not panic on a server version that is not ASCII

---
 src/connection/packets/handshake.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index 04c8f9a..ee4ca1b 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -85,10 +85,12 @@ impl<'a> HandshakePacket<'a> {
     pub fn parse_server_version(&self) -> Option<((u16, u16, u16), bool)> {
         let mut server_version = self.server_version;
         fn eat_int(string: &mut &str) -> Option<u16> {
-            match string.chars().position(|x| !x.is_alphanumeric()) {
+            match string.find(|x: char| !x.is_alphanumeric()) {
                 Some(pos) => {
                     let value = u16::from_str(&string[..pos]).ok();
-                    *string = &string[pos + 1..];
+                    let mut rest = string[pos..].chars();
+                    rest.next();
+                    *string = rest.as_str();
                     value
                 }
                 None => {
-- 
2.43.0


From 08caac3aadf17629a4d57d7d375319784d293057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 20/30] fix: do not panic on hex text shorter than a prefix

---
 src/types/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/hex.rs b/src/types/hex.rs
index aeff5f2..3a64808 100644
--- a/src/types/hex.rs
+++ b/src/types/hex.rs
@@ -18,7 +18,7 @@ impl Hex {
 
     pub fn try_from_hex<T: AsRef<[u8]>>(data: T) -> Result<Self, hex::FromHexError> {
         let mut data: &[u8] = data.as_ref();
-        if data[..2] == *b"0x" || data[..2] == *b"0X" {
+        if data.len() >= 2 && (data[..2] == *b"0x" || data[..2] == *b"0X") {
             data = &data[2..];
         }
         hex::decode(data).map(Self)
-- 
2.43.0


From 1bee01c17d24fccdbe34e7950bcdf1be1b49fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 21/30] fix: keep the sign of durations shorter than a second

---
 src/types/value/conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/value/conversion.rs b/src/types/value/conversion.rs
index 8033391..857a5e9 100644
--- a/src/types/value/conversion.rs
+++ b/src/types/value/conversion.rs
@@ -172,7 +172,7 @@ impl From<Duration> for Value {
         let days = hours / 24;
 
         Value::Time(
-            value.num_seconds() < 0,
+            value < Duration::zero(),
             days as u32,
             (hours % 24) as u8,
             (minutes % 60) as u8,
-- 
2.43.0


From 8538ee1fed468ebc00bd0fbf1214629e9f503735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 22/30] fix: round the length of a public key up to whole bytes

---
 src/utils/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 4c86d67..23b9629 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -127,7 +127,7 @@ impl PublicKey {
     }
 
     pub fn num_octets(&self) -> usize {
-        (self.modulus().bits() as usize + 6) >> 3
+        (self.modulus().bits() as usize + 7) >> 3
     }
 
     pub fn modulus(&self) -> &BigUint {
-- 
2.43.0


From 7c9d1259a3d53580e3c0c324f91467f53b471b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 23/30] fix: accept the longest messages OAEP padding allows

---
 src/utils/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 23b9629..2b42b58 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -213,7 +213,7 @@ impl<R: Rng + CryptoRng> OaepPadding<R> {
     /// ```
     pub fn pad(&mut self, data: &[u8], n: usize) -> Result<Vec<u8>, Error> {
         let seed_len = Self::HASH_LEN;
-        if n < 1 + seed_len + Self::HASH_LEN + 2 + 1 + data.len() {
+        if n < 1 + seed_len + Self::HASH_LEN + 1 + data.len() {
             return Err(Error::MessageTooLong);
         }
 
-- 
2.43.0


From 9d235a627f6fc80c01633d660f08600ae67e1bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 24/30] fix: report truncated keys instead of panicking

---
 src/utils/crypt.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 2b42b58..9b6eab2 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -18,10 +18,13 @@ mod der {
     };
 
     fn eat_len(der: &mut &[u8]) -> Result<usize, Error> {
+        if der.is_empty() {
+            return Err(Error::InvalidPem);
+        }
         if der[0] & 0x80 == 0x80 {
             const BITS: usize = (usize::BITS / 8) as usize;
             let len = (der[0] & (!0x80)) as usize;
-            if len > BITS {
+            if len > BITS || der.len() <= len {
                 return Err(Error::InvalidPem);
             }
             let mut bytes = [0u8; BITS];
@@ -36,33 +39,42 @@ mod der {
     }
 
     fn eat_uint(der: &mut &[u8]) -> Result<BigUint, Error> {
-        if der[0] != 0x02 {
+        if der.is_empty() || der[0] != 0x02 {
             return Err(Error::InvalidPem);
         }
         *der = &der[1..];
         let len = eat_len(der)?;
+        if der.len() < len {
+            return Err(Error::InvalidPem);
+        }
         let uint = BigUint::from_bytes_be(&der[..len]);
         *der = &der[len..];
         Ok(uint)
     }
 
     fn eat_sequence<'a>(der: &mut &'a [u8]) -> Result<&'a [u8], Error> {
-        if der[0] != 0x30 {
+        if der.is_empty() || der[0] != 0x30 {
             return Err(Error::InvalidPem);
         }
         *der = &der[1..];
         let len = eat_len(der)?;
+        if der.len() < len {
+            return Err(Error::InvalidPem);
+        }
         let sequence = &der[..len];
         *der = &der[len..];
         Ok(sequence)
     }
 
     fn eat_bit_string<'a>(der: &mut &'a [u8]) -> Result<(u8, &'a [u8]), Error> {
-        if der[0] != 0x03 {
+        if der.is_empty() || der[0] != 0x03 {
             return Err(Error::InvalidPem);
         }
         *der = &der[1..];
         let len = eat_len(der)?;
+        if len == 0 || der.len() < len {
+            return Err(Error::InvalidPem);
+        }
         let unused_bits = der[0];
         let bit_string = &der[1..len];
         *der = &der[len..];
-- 
2.43.0


From 7f258d989ff70efb576e3765bbc48cc2e7c7ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 25/30] fix: do not panic on a key whose begin and end lines
 overlap

---
 src/utils/crypt.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 9b6eab2..13e8d0f 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -110,9 +110,16 @@ mod der {
                 .cloned()
                 .collect();
 
-            let (body, is_pkcs_1) = if pem.starts_with(PKCS1.0) && pem.ends_with(PKCS1.1) {
+            // the begin and end lines must not overlap
+            let (body, is_pkcs_1) = if pem.len() >= PKCS1.0.len() + PKCS1.1.len()
+                && pem.starts_with(PKCS1.0)
+                && pem.ends_with(PKCS1.1)
+            {
                 (&pem[PKCS1.0.len()..pem.len() - PKCS1.1.len()], true)
-            } else if pem.starts_with(PKCS8.0) && pem.ends_with(PKCS8.1) {
+            } else if pem.len() >= PKCS8.0.len() + PKCS8.1.len()
+                && pem.starts_with(PKCS8.0)
+                && pem.ends_with(PKCS8.1)
+            {
                 (&pem[PKCS8.0.len()..pem.len() - PKCS8.1.len()], false)
             } else {
                 return Err(Error::InvalidPem);
-- 
2.43.0


From 266d074d0d85c3b68ff58c8934a388d5df59d53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 26/30] fix: an identifier of only white space keeps none of it

---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index d209c21..526c8e6 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -89,15 +89,15 @@ impl fmt::Display for IdentifierEscape<'_> {
             ('\u{0001}'..='\u{FFFF}').contains(&char)
         }
 
-        let mut last_char = 0;
+        let mut last_char = None;
         for (i, char) in self.0.chars().enumerate() {
             if !char.is_whitespace() && char_valid(char) {
-                last_char = i;
+                last_char = Some(i);
             }
         }
 
         for (i, char) in self.0.chars().enumerate() {
-            if i <= last_char && char_valid(char) {
+            if last_char.is_some_and(|x| i <= x) && char_valid(char) {
                 if char == '`' {
                     f.write_char('`')?;
                 }
-- 
2.43.0


From ceb66c4edc9f3cdf3c2633c36e6dabd2b6d7f6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:37 +0000
Subject: [PATCH 27/30] fix: a failed or abandoned creation kept its place in
 AsyncPool

---
 src/pool/async_pool.rs | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 458dd43..86d282f 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -33,6 +33,12 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPool<T, C, N> {
             wakers: SegQueue::new(),
         }
     }
+
+    fn wake(&self) {
+        while let Some(waker) = self.wakers.pop() {
+            waker.wake();
+        }
+    }
 }
 
 impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<T, C, N> {
@@ -55,14 +61,33 @@ pub struct PoolTake<'a, T: AsyncPoolContent<C>, C, const N: usize> {
 
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
     fn poll_add(&mut self, cx: &mut task::Context<'_>) -> Option<Poll<<Self as Future>::Output>> {
-        self.add.as_mut().map(|add| {
-            add.as_mut().poll(cx).map(|res| {
-                res.map(|item| PoolItem {
-                    item: ManuallyDrop::new(item),
-                    pool: self.pool,
-                })
-            })
-        })
+        let res = match self.add.as_mut()?.as_mut().poll(cx) {
+            Poll::Ready(res) => res,
+            Poll::Pending => return Some(Poll::Pending),
+        };
+        if res.is_ok() {
+            self.add = None;
+        } else {
+            self.cancel_add();
+        }
+        Some(Poll::Ready(res.map(|item| PoolItem {
+            item: ManuallyDrop::new(item),
+            pool: self.pool,
+        })))
+    }
+
+    /// Gives the place of an item that won't be created to someone else
+    fn cancel_add(&mut self) {
+        if self.add.take().is_some() {
+            self.pool.items.fetch_sub(1, Ordering::SeqCst);
+            self.pool.wake();
+        }
+    }
+}
+
+impl<T: AsyncPoolContent<C>, C, const N: usize> Drop for PoolTake<'_, T, C, N> {
+    fn drop(&mut self) {
+        self.cancel_add();
     }
 }
 
-- 
2.43.0


From 0c244aa7186584297dd4fab9b5ddfb1708a9d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:39 +0000
Subject: [PATCH 28/30] fix: tasks waiting for an item of AsyncPool were not
 woken

---
 src/pool/async_pool.rs | 62 ++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 86d282f..1b6c5b2 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -21,6 +21,7 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> PoolPut<T> for AsyncPool<T, C, N
     fn put(&self, value: T) {
         // As we won't create too many items, the pool won't be full
         let _ = self.pool.push(value);
+        self.wake();
     }
 }
 
@@ -46,7 +47,6 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
         Box::pin(PoolTake {
             pool: self,
             add: None,
-            waker_added: false,
         })
     }
 }
@@ -56,7 +56,6 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
 pub struct PoolTake<'a, T: AsyncPoolContent<C>, C, const N: usize> {
     pool: &'a AsyncPool<T, C, N>,
     add: Option<Pin<Box<dyn Future<Output = Result<T, T::Error>> + 'a>>>,
-    waker_added: bool,
 }
 
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
@@ -100,38 +99,37 @@ impl<'a, T: AsyncPoolContent<C>, C, const N: usize> Future for PoolTake<'a, T, C
         if let Some(res) = this.poll_add(cx) {
             return res;
         }
-        match pool.pool.pop() {
-            Some(item) => Poll::Ready(Ok(PoolItem {
-                item: ManuallyDrop::new(item),
-                pool,
-            })),
-            None => {
-                let item_count = pool.items.load(Ordering::Relaxed);
-                if item_count < N {
-                    if pool
-                        .items
-                        .compare_exchange(
-                            item_count,
-                            item_count + 1,
-                            Ordering::Relaxed,
-                            Ordering::Relaxed,
-                        )
-                        .is_ok()
-                    {
-                        this.add = Some(Box::pin(T::new(&pool.ctx)));
-                        if let Some(res) = this.poll_add(cx) {
-                            return res;
-                        }
-                    } else {
-                        cx.waker().wake_by_ref();
+        let mut waker_added = false;
+        loop {
+            if let Some(item) = pool.pool.pop() {
+                return Poll::Ready(Ok(PoolItem {
+                    item: ManuallyDrop::new(item),
+                    pool,
+                }));
+            }
+            let item_count = pool.items.load(Ordering::SeqCst);
+            if item_count < N {
+                if pool
+                    .items
+                    .compare_exchange(
+                        item_count,
+                        item_count + 1,
+                        Ordering::SeqCst,
+                        Ordering::SeqCst,
+                    )
+                    .is_ok()
+                {
+                    this.add = Some(Box::pin(T::new(&pool.ctx)));
+                    if let Some(res) = this.poll_add(cx) {
+                        return res;
                     }
-                } else if !this.waker_added {
-                    this.waker_added = true;
-                    pool.wakers.push(cx.waker().clone());
-                    // wake for the rare case that an item was added after we tried to get one but before we registered the waker
-                    cx.waker().wake_by_ref();
                 }
-                Poll::Pending
+            } else if !waker_added {
+                // An item might be added after we tried to get one but before the waker is registered, so try again afterwards
+                pool.wakers.push(cx.waker().clone());
+                waker_added = true;
+            } else {
+                return Poll::Pending;
             }
         }
     }
-- 
2.43.0


From 109f7413560fb8d9e3d790868d8167e9b6de46e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:21 +0000
Subject: [PATCH 29/30] fix: a reference named like the model's own table took
 the model's columns

---
 macros/src/lib.rs              |  4 ++--
 src/model/from_query_result.rs | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index cf4aa48..4c55e41 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -147,9 +147,9 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
             set_child_mapping = quote! {
                 #set_child_mapping
                 #maybe_else if table == #name {
-                    self.#ident.set_mapping(column, "", index);
+                    self.#ident.set_mapping_inner(column, "", index);
                 } else if table.starts_with(#name_with_point) {
-                    self.#ident.set_mapping(column, &table[#len..], index);
+                    self.#ident.set_mapping_inner(column, &table[#len..], index);
                 }
             };
         }
diff --git a/src/model/from_query_result.rs b/src/model/from_query_result.rs
index 36dea75..ddbb5f1 100644
--- a/src/model/from_query_result.rs
+++ b/src/model/from_query_result.rs
@@ -4,13 +4,14 @@ pub trait FromQueryResultMapping<ModelData: super::ModelData>: Default {
     fn set_mapping_inner(&mut self, column: &Column, table: &str, index: usize);
 
     fn set_mapping(&mut self, column: &Column, table: &str, index: usize) {
-        self.set_mapping_inner(
-            column,
+        let table = if table == ModelData::TABLE {
+            ""
+        } else {
             table
                 .strip_prefix(ModelData::TABLE_WITH_POINT)
-                .unwrap_or(table),
-            index,
-        )
+                .unwrap_or(table)
+        };
+        self.set_mapping_inner(column, table, index)
     }
 
     fn from_columns(columns: &[Column]) -> Self {
-- 
2.43.0


From b01f91903ce98a1cdcc6ff89dbe4902c876e55a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:29 +0000
Subject: [PATCH 30/30] fix: the columns of fields with raw identifiers were
 named with r#

---
 macros/src/lib.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 4c55e41..156663c 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -8,7 +8,7 @@ use {
     proc_macro2::Span,
     quote::{format_ident, quote},
     std::fmt,
-    syn::{parse_macro_input, DeriveInput, Ident, LitStr, Type},
+    syn::{ext::IdentExt, parse_macro_input, DeriveInput, Ident, LitStr, Type},
 };
 
 struct Error(Option<syn::Error>);
@@ -38,6 +38,16 @@ impl Error {
     }
 }
 
+/// The name of a field's column: a raw identifier without `r#`.
+fn column_name(ident: &Ident) -> LitStr {
+    LitStr::new(&ident.unraw().to_string(), ident.span())
+}
+
+/// The name of the column for a member of a field's struct.
+fn struct_column_name(ident: &Ident, member: &Ident) -> LitStr {
+    LitStr::new(&format!("{}_{member}", ident.unraw()), ident.span())
+}
+
 #[proc_macro_derive(ModelData, attributes(mysql_connector))]
 pub fn derive_model_data(input: TokenStream) -> TokenStream {
     let mut error = Error::empty();
@@ -88,6 +98,7 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
         .filter(TypeComplexity::simple_ref)
         .map(|x| &x.ident)
         .collect();
+    let simple_columns = simple_field_names.iter().map(|x| column_name(x));
     let mut struct_field_names = Vec::new();
     let mut set_struct_fields = proc_macro2::TokenStream::new();
     for field in &fields {
@@ -139,7 +150,7 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
             .filter(TypeComplexity::complex_ref)
             .enumerate()
         {
-            let name = ident.to_string();
+            let name = column_name(ident).value();
             let name_with_point = name.clone() + ".";
             let len = name_with_point.as_bytes().len();
             let maybe_else = if i == 0 { None } else { Some(quote!(else)) };
@@ -156,7 +167,7 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
 
         let set_own_mapping = quote! {
             *match column.org_name() {
-                #(stringify!(#simple_field_names) => &mut self.#simple_field_names,)*
+                #(#simple_columns => &mut self.#simple_field_names,)*
                 #(stringify!(#struct_field_names) => &mut self.#struct_field_names,)*
                 _ => return,
             } = Some(index);
@@ -243,13 +254,13 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
             let names = r#struct
                 .fields
                 .iter()
-                .map(|(_, x)| format_ident!("{ident}_{x}"));
+                .map(|(_, x)| struct_column_name(ident, x));
             insert_struct_fields = quote! {
                 #insert_struct_fields
                 match self.#ident {
                     mysql_connector::model::ActiveValue::Unset =>(),
                     mysql_connector::model::ActiveValue::Set(value) => {
-                        #(values.push(mysql_connector::model::NamedValue(stringify!(#names), value.#idents.try_into().map_err(Into::<mysql_connector::error::SerializeError>::into)?));)*
+                        #(values.push(mysql_connector::model::NamedValue(#names, value.#idents.try_into().map_err(Into::<mysql_connector::error::SerializeError>::into)?));)*
                     }
                 }
             };
@@ -315,6 +326,9 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
         .map(|x| &x.ty)
         .collect();
 
+    let simple_columns = simple_field_names.iter().map(|x| column_name(x));
+    let complex_columns = complex_field_names.iter().map(|x| column_name(x));
+
     let ident = &input.ident;
     let model_ident = format_ident!("{ident}ActiveModel");
 
@@ -330,9 +344,9 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
             impl mysql_connector::model::ActiveModel<#ident> for #model_ident {
                 async fn into_values(self, conn: &mut mysql_connector::Connection) -> Result<Vec<mysql_connector::model::NamedValue>, mysql_connector::error::Error> {
                     let mut values = Vec::new();
-                    #(self.#simple_field_names.insert_named_value(&mut values, stringify!(#simple_field_names))?;)*
+                    #(self.#simple_field_names.insert_named_value(&mut values, #simple_columns)?;)*
                     #insert_struct_fields
-                    #(self.#complex_field_names.insert_named_value(&mut values, stringify!(#complex_field_names), conn).await?;)*
+                    #(self.#complex_field_names.insert_named_value(&mut values, #complex_columns, conn).await?;)*
                     Ok(values)
                 }
 
@@ -372,21 +386,21 @@ pub fn derive_into_query(input: TokenStream) -> TokenStream {
     let mut simple_field_names: Vec<LitStr> = fields
         .iter()
         .filter(TypeComplexity::simple_ref)
-        .map(|x| LitStr::new(&x.ident.to_string(), x.ident.span()))
+        .map(|x| column_name(&x.ident))
         .collect();
     for field in &fields {
         if let TypeComplexity::Struct(r#struct) = &field.complexity {
             let mapping_names = r#struct
                 .fields
                 .iter()
-                .map(|x| LitStr::new(&format!("{}_{}", field.ident, x.1), field.ident.span()));
+                .map(|x| struct_column_name(&field.ident, &x.1));
             simple_field_names.extend(mapping_names);
         }
     }
     let complex_field_names: &Vec<LitStr> = &fields
         .iter()
         .filter(TypeComplexity::complex_ref)
-        .map(|x| LitStr::new(&x.ident.to_string(), x.ident.span()))
+        .map(|x| column_name(&x.ident))
         .collect();
     let complex_field_types: &Vec<&Type> = &fields
         .iter()
-- 
2.43.0

