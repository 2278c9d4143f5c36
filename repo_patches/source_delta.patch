From a10734b099b802dcc896c8282ba0596efb8ea026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:14 +0000
Subject: [PATCH 01/36] fix: return an error instead of panicking if the
 handshake can't be parsed

---
 src/connection/init.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index a023413..29326ab 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -4,8 +4,9 @@ use {
         Stream, BUFFER_POOL, DEFAULT_MAX_ALLOWED_PACKET,
     },
     crate::{
-        packets::{HandshakePacket, HandshakeResponse},
-        ConnectionOptionsTrait, Error, Serialize, StreamRequirements,
+        bitflags::CapabilityFlags,
+        packets::{ErrPacket, HandshakePacket, HandshakeResponse},
+        ConnectionOptionsTrait, Deserialize, Error, Serialize, StreamRequirements,
     },
     std::sync::Arc,
 };
@@ -53,7 +54,15 @@ impl Connection {
         let mut packet = BUFFER_POOL.get();
         Self::read_packet_to_buf(stream, seq_id, packet.as_mut(), &sleep, options.timeout())
             .await?;
-        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(()).unwrap();
+        if packet.first() == Some(&0xFF) {
+            // The server only sends the SQL state if it already knows that the client supports it.
+            let capabilities = match packet.get(3) {
+                Some(b'#') => CapabilityFlags::PROTOCOL_41,
+                _ => CapabilityFlags::empty(),
+            };
+            return Err(ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?.into());
+        }
+        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(())?;
 
         let (version, is_mariadb) = handshake
             .parse_server_version()
-- 
2.43.0


From a57257279603dba7427e56866b81aabc3dbd4661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 02/36] fix: check the packet following a successful
 caching_sha2_password fast authentication

---
 src/connection/auth.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index 3ee6c11..33378ff 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -60,8 +60,7 @@ impl Connection {
             Some(0x01) => match packet.get(1) {
                 Some(0x03) => {
                     // auth ok
-                    self.read_packet().await?;
-                    Ok(())
+                    self.read_response().await?.map(|_| {}).map_err(Into::into)
                 }
                 Some(0x04) => {
                     let mut pass = super::BUFFER_POOL.get();
-- 
2.43.0


From 4d3c19ca7ccd92ad4e7588e908d10b0fbfcd9a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:22 +0000
Subject: [PATCH 03/36] fix: don't panic if the server sends an empty nonce in
 the auth switch request

---
 src/connection/auth.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index 33378ff..ac7f270 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -101,6 +101,9 @@ impl Connection {
                                 }
                             }
                         };
+                        if self.data.nonce.is_empty() {
+                            return Err(ProtocolError::eof().into());
+                        }
                         for (i, byte) in pass.iter_mut().enumerate() {
                             *byte ^= self.data.nonce[i % self.data.nonce.len()];
                         }
-- 
2.43.0


From bd43625508cf910b93b677254d921b09fa8eccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:27 +0000
Subject: [PATCH 04/36] fix: don't overflow if auth_plugin_data_len is greater
 than 127

---
 src/connection/packets/handshake.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index ec8253c..18b882b 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -44,7 +44,7 @@ impl<'de> Deserialize<'de> for HandshakePacket<'de> {
         let capabilities = CapabilityFlags::try_from(capabilities_bits_1 | capabilities_bits_2)?;
 
         if capabilities.contains(CapabilityFlags::SECURE_CONNECTION) {
-            let len = i8::max(13, auth_plugin_data_len as i8 - 8) as usize;
+            let len = usize::max(13, (auth_plugin_data_len as usize).saturating_sub(8));
             nonce.extend_from_slice(buf.checked_eat(len)?);
         }
 
-- 
2.43.0


From 9296e39c6ee25141a22801d6c424841b26b690ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:31 +0000
Subject: [PATCH 05/36] fix: don't mix char and byte positions when parsing the
 server version

---
 src/connection/packets/handshake.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index 18b882b..825e1c6 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -85,10 +85,10 @@ impl<'a> HandshakePacket<'a> {
     pub fn parse_server_version(&self) -> Option<((u16, u16, u16), bool)> {
         let mut server_version = self.server_version;
         fn eat_int(string: &mut &str) -> Option<u16> {
-            match string.chars().position(|x| !x.is_alphanumeric()) {
-                Some(pos) => {
-                    let value = u16::from_str(&string[..pos]).ok();
-                    *string = &string[pos + 1..];
+            match string.split_once(|x: char| !x.is_alphanumeric()) {
+                Some((left, right)) => {
+                    let value = u16::from_str(left).ok();
+                    *string = right;
                     value
                 }
                 None => {
-- 
2.43.0


From 71e596b8b332fbdc5803e91866a2ce9cc03a150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:35 +0000
Subject: [PATCH 06/36] fix: strings in column definitions are length-encoded

---
 src/connection/packets/column_def.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/connection/packets/column_def.rs b/src/connection/packets/column_def.rs
index 26846b5..01fa44a 100644
--- a/src/connection/packets/column_def.rs
+++ b/src/connection/packets/column_def.rs
@@ -23,17 +23,17 @@ impl<'de> Deserialize<'de> for ColumnDef<'de> {
     type Ctx = ();
 
     fn deserialize(buf: &mut ParseBuf<'de>, _ctx: Self::Ctx) -> Result<Self, ProtocolError> {
-        if buf.checked_eat_u8_slice()? != b"def" {
+        if buf.checked_eat_lenenc_slice()? != b"def" {
             return Err(ProtocolError::unexpected_packet(
                 buf.0.to_vec(),
                 Some("Column Definition"),
             ));
         }
-        let db = buf.checked_eat_u8_str()?;
-        let table = buf.checked_eat_u8_str()?;
-        let org_table = buf.checked_eat_u8_str()?;
-        let name = buf.checked_eat_u8_str()?;
-        let org_name = buf.checked_eat_u8_str()?;
+        let db = buf.checked_eat_lenenc_str()?;
+        let table = buf.checked_eat_lenenc_str()?;
+        let org_table = buf.checked_eat_lenenc_str()?;
+        let name = buf.checked_eat_lenenc_str()?;
+        let org_name = buf.checked_eat_lenenc_str()?;
         buf.check_len(13)?;
         if buf.eat_u8() != 12 {
             return Err(ProtocolError::eof());
-- 
2.43.0


From d1a1a4aacae50e26007cc6231e6ea874b71adc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:40 +0000
Subject: [PATCH 07/36] fix: don't allocate memory based on the column count
 sent by the server

---
 src/connection/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection/query.rs b/src/connection/query.rs
index 92fb477..ece3360 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -39,7 +39,7 @@ impl Connection {
     }
 
     pub(super) async fn read_column_defs(&mut self, count: usize) -> Result<Vec<Column>, Error> {
-        let mut columns: Vec<Column> = Vec::with_capacity(count);
+        let mut columns: Vec<Column> = Vec::new();
         for _ in 0..count {
             let packet = self.read_packet().await?;
             let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
-- 
2.43.0


From 8a675564dbabe75ac480592e2b44462cd4a26929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:48 +0000
Subject: [PATCH 08/36] fix: skip the header when decoding eof packets

---
 src/connection/packets/ok.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connection/packets/ok.rs b/src/connection/packets/ok.rs
index 087b086..ade7672 100644
--- a/src/connection/packets/ok.rs
+++ b/src/connection/packets/ok.rs
@@ -83,6 +83,8 @@ impl OkPacket {
         capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
         let mut buf = ParseBuf(&packet);
+        // header
+        let _ = buf.checked_eat_u8()?;
         // We need to skip affected_rows and insert_id here
         // because valid content of EOF packet includes
         // packet marker, server status and warning count only.
@@ -120,6 +122,8 @@ impl OkPacket {
         _capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
         let mut buf = ParseBuf(&packet);
+        // header
+        let _ = buf.checked_eat_u8()?;
         // We assume that CLIENT_PROTOCOL_41 was set
         let warnings = buf.checked_eat_u16()?;
         let status = StatusFlags::from_bits_truncate(buf.checked_eat_u16()?);
-- 
2.43.0


From fbfb813f759a0fc873bafaedd4e532dc48314921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:52 +0000
Subject: [PATCH 09/36] fix: use the old eof packet layout if DEPRECATE_EOF
 wasn't negotiated

---
 src/connection/packets/ok.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connection/packets/ok.rs b/src/connection/packets/ok.rs
index ade7672..6388945 100644
--- a/src/connection/packets/ok.rs
+++ b/src/connection/packets/ok.rs
@@ -82,6 +82,10 @@ impl OkPacket {
         packet: PoolItem<'_, Vec<u8>>,
         capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
+        if !capabilities.contains(CapabilityFlags::DEPRECATE_EOF) {
+            return Self::read_old_eof(packet, capabilities);
+        }
+
         let mut buf = ParseBuf(&packet);
         // header
         let _ = buf.checked_eat_u8()?;
-- 
2.43.0


From 32cbf45a7fde47c7e4ce35fc89f93c4ff6ba81f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:13 +0000
Subject: [PATCH 10/36] fix: read the eof packet after column definitions if
 DEPRECATE_EOF wasn't negotiated

---
 src/connection/prepared_statement.rs |  9 +++++++--
 src/connection/query.rs              | 16 ++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index ef018c7..3dbeac9 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -55,8 +55,13 @@ impl Connection {
             _ => return Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into()),
         };
 
-        for _ in 0..(stmt.params_len as usize + stmt.columns_len as usize) {
-            self.read_packet().await?;
+        for count in [stmt.params_len, stmt.columns_len] {
+            for _ in 0..count {
+                self.read_packet().await?;
+            }
+            if count != 0 {
+                self.read_column_defs_eof().await?;
+            }
         }
 
         Ok(PreparedStatement {
diff --git a/src/connection/query.rs b/src/connection/query.rs
index ece3360..fe424f9 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -4,6 +4,7 @@ use {
         Command, Connection, ParseBuf, ResultSet, BUFFER_POOL,
     },
     crate::{
+        bitflags::CapabilityFlags,
         model::FromQueryResult,
         packets::{ColumnDef, OkPacket},
         types::Value,
@@ -45,9 +46,24 @@ impl Connection {
             let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
             columns.push(def.try_into()?);
         }
+        if count != 0 {
+            self.read_column_defs_eof().await?;
+        }
         Ok(columns)
     }
 
+    /// Reads the eof packet following column definitions if `DEPRECATE_EOF` wasn't negotiated.
+    pub(super) async fn read_column_defs_eof(&mut self) -> Result<(), Error> {
+        if !self
+            .data
+            .capabilities
+            .contains(CapabilityFlags::DEPRECATE_EOF)
+        {
+            self.read_packet().await?;
+        }
+        Ok(())
+    }
+
     pub(super) async fn read_settings(&mut self) -> Result<(), Error> {
         if self.options.max_allowed_packet().is_none() {
             let mut res = self
-- 
2.43.0


From 44b84be4d2ecf67055b86b0e2d3b24ad25e780a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:17 +0000
Subject: [PATCH 11/36] fix: read all column definitions even if one is invalid

---
 src/connection/query.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/connection/query.rs b/src/connection/query.rs
index fe424f9..bd80913 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -40,16 +40,26 @@ impl Connection {
     }
 
     pub(super) async fn read_column_defs(&mut self, count: usize) -> Result<Vec<Column>, Error> {
-        let mut columns: Vec<Column> = Vec::new();
+        let mut columns: Result<Vec<Column>, Error> = Ok(Vec::new());
         for _ in 0..count {
             let packet = self.read_packet().await?;
-            let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
-            columns.push(def.try_into()?);
+            // The remaining packets have to be read even if a column definition is invalid.
+            if let Ok(list) = &mut columns {
+                match Self::parse_column_def(&packet) {
+                    Ok(column) => list.push(column),
+                    Err(err) => columns = Err(err),
+                }
+            }
         }
         if count != 0 {
             self.read_column_defs_eof().await?;
         }
-        Ok(columns)
+        columns
+    }
+
+    fn parse_column_def(packet: &[u8]) -> Result<Column, Error> {
+        let def = ColumnDef::deserialize(&mut ParseBuf(packet), ())?;
+        Ok(def.try_into()?)
     }
 
     /// Reads the eof packet following column definitions if `DEPRECATE_EOF` wasn't negotiated.
-- 
2.43.0


From b0ab2c457dc938d8e029fb1e84935525a525fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:31 +0000
Subject: [PATCH 12/36] fix: handle error and empty packets while reading
 result set rows

---
 src/connection/result_set.rs | 40 +++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 76951a4..7543890 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -5,6 +5,7 @@ use {
     },
     crate::{
         bitflags::CapabilityFlags,
+        error::ProtocolError,
         model::{FromQueryResult, FromQueryResultMapping},
         packets::{ErrPacket, OkPacket},
         Deserialize, Error, ParseBuf,
@@ -64,23 +65,31 @@ where
     }
 
     pub async fn next(&mut self) -> Result<Option<R>, Error> {
-        if self.ok_packet.is_some() {
+        if self.ok_packet.is_some() || !self.conn.pending_result {
             return Ok(None);
         }
         let packet = self.conn.read_packet().await?;
+        let header = *packet.first().ok_or_else(ProtocolError::eof)?;
+        if header == 0xFF {
+            // The server sends an error packet instead of the remaining rows.
+            self.conn.pending_result = false;
+            return Err(
+                ErrPacket::deserialize(&mut ParseBuf(&packet), self.conn.data.capabilities)?.into(),
+            );
+        }
         let is_last_result_set_packet = if self
             .conn
             .data
             .capabilities
             .contains(CapabilityFlags::DEPRECATE_EOF)
         {
-            packet[0] == 0xFE && packet.len() < MAX_PAYLOAD_LEN
+            header == 0xFE && packet.len() < MAX_PAYLOAD_LEN
         } else {
-            packet[0] == 0xFE && packet.len() < 8
+            header == 0xFE && packet.len() < 8
         };
         if is_last_result_set_packet {
-            self.ok_packet = Some(OkPacket::read_eof(packet, self.conn.data.capabilities)?);
             self.conn.pending_result = false;
+            self.ok_packet = Some(OkPacket::read_eof(packet, self.conn.data.capabilities)?);
             Ok(None)
         } else {
             let mut row = P::read_result_set_row(&packet, &self.columns)?;
@@ -127,8 +136,8 @@ where
             Some(x) => Ok(x),
             None => {
                 while self.next().await?.is_some() {}
-                // Safety: `self.next()` only returns `None` if ok packet was read
-                Ok(self.ok_packet.unwrap())
+                // There is no ok packet if the result set was terminated by an error packet.
+                self.ok_packet.ok_or_else(|| ProtocolError::eof().into())
             }
         }
     }
@@ -138,8 +147,9 @@ where
             Some(x) => Ok((x, self.columns, self.mapping)),
             None => {
                 while self.next().await?.is_some() {}
-                // Safety: `self.next() only returns `None` if ok packet was read
-                Ok((self.ok_packet.unwrap(), self.columns, self.mapping))
+                // There is no ok packet if the result set was terminated by an error packet.
+                let ok_packet = self.ok_packet.ok_or_else(ProtocolError::eof)?;
+                Ok((ok_packet, self.columns, self.mapping))
             }
         }
     }
@@ -150,14 +160,24 @@ impl Connection {
         if self.pending_result {
             loop {
                 let packet = self.read_packet().await?;
+                let header = *packet.first().ok_or_else(ProtocolError::eof)?;
+                if header == 0xFF {
+                    // The server sends an error packet instead of the remaining rows.
+                    self.pending_result = false;
+                    return Err(ErrPacket::deserialize(
+                        &mut ParseBuf(&packet),
+                        self.data.capabilities,
+                    )?
+                    .into());
+                }
                 let is_last_result_set_packet = if self
                     .data
                     .capabilities
                     .contains(CapabilityFlags::DEPRECATE_EOF)
                 {
-                    packet[0] == 0xFE && packet.len() < MAX_PAYLOAD_LEN
+                    header == 0xFE && packet.len() < MAX_PAYLOAD_LEN
                 } else {
-                    packet[0] == 0xFE && packet.len() < 8
+                    header == 0xFE && packet.len() < 8
                 };
                 if is_last_result_set_packet {
                     self.pending_result = false;
-- 
2.43.0


From 6564d102c9b3810221f0f891c02abbe3f73fd143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:35 +0000
Subject: [PATCH 13/36] fix: handle error packets while reading column
 definitions

---
 src/connection/prepared_statement.rs |  9 ++++++++-
 src/connection/query.rs              | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index 3dbeac9..e25c5ff 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -57,7 +57,14 @@ impl Connection {
 
         for count in [stmt.params_len, stmt.columns_len] {
             for _ in 0..count {
-                self.read_packet().await?;
+                let packet = self.read_packet().await?;
+                if packet.first() == Some(&0xFF) {
+                    return Err(ErrPacket::deserialize(
+                        &mut ParseBuf(&packet),
+                        self.data.capabilities,
+                    )?
+                    .into());
+                }
             }
             if count != 0 {
                 self.read_column_defs_eof().await?;
diff --git a/src/connection/query.rs b/src/connection/query.rs
index bd80913..bf587f1 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -6,7 +6,7 @@ use {
     crate::{
         bitflags::CapabilityFlags,
         model::FromQueryResult,
-        packets::{ColumnDef, OkPacket},
+        packets::{ColumnDef, ErrPacket, OkPacket},
         types::Value,
         Deserialize, Error,
     },
@@ -43,6 +43,12 @@ impl Connection {
         let mut columns: Result<Vec<Column>, Error> = Ok(Vec::new());
         for _ in 0..count {
             let packet = self.read_packet().await?;
+            if packet.first() == Some(&0xFF) {
+                self.pending_result = false;
+                return Err(
+                    ErrPacket::deserialize(&mut ParseBuf(&packet), self.data.capabilities)?.into(),
+                );
+            }
             // The remaining packets have to be read even if a column definition is invalid.
             if let Ok(list) = &mut columns {
                 match Self::parse_column_def(&packet) {
@@ -69,7 +75,13 @@ impl Connection {
             .capabilities
             .contains(CapabilityFlags::DEPRECATE_EOF)
         {
-            self.read_packet().await?;
+            let packet = self.read_packet().await?;
+            if packet.first() == Some(&0xFF) {
+                self.pending_result = false;
+                return Err(
+                    ErrPacket::deserialize(&mut ParseBuf(&packet), self.data.capabilities)?.into(),
+                );
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 940f6b155e8d487cb69ec6960d8f2709510f9776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:39 +0000
Subject: [PATCH 14/36] fix: flush the stream after writing a packet

---
 src/connection/io.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 986ab5b..839a0f0 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -135,6 +135,13 @@ impl Connection {
             .await??;
             self.seq_id = self.seq_id.wrapping_add(1);
         }
+
+        Timeout::new(
+            self.stream.flush(),
+            self.data.sleep,
+            self.options.timeout(),
+        )
+        .await??;
         Ok(())
     }
 
-- 
2.43.0


From 5a88d8272a1ef387c188408c6f3015859ff654ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:29 +0000
Subject: [PATCH 15/36] fix: don't continue using a connection after an
 interrupted packet transfer

---
 src/connection/init.rs |  1 +
 src/connection/io.rs   | 13 +++++++++++++
 src/connection/mod.rs  |  2 ++
 3 files changed, 16 insertions(+)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index 29326ab..cac7fe7 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -23,6 +23,7 @@ impl Connection {
             data,
             options,
             pending_result: false,
+            out_of_sync: false,
         };
         this.do_handshake_response().await?;
         this.continue_auth::<T>().await?;
diff --git a/src/connection/io.rs b/src/connection/io.rs
index 839a0f0..a6e2d11 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -93,6 +93,7 @@ impl Connection {
 
     pub(super) async fn read_packet<'b>(&mut self) -> Result<PoolItem<'b, Vec<u8>>, Error> {
         let mut decode_buf = BUFFER_POOL.get();
+        self.begin_transfer()?;
         Self::read_packet_to_buf(
             &mut self.stream,
             &mut self.seq_id,
@@ -101,10 +102,21 @@ impl Connection {
             self.options.timeout(),
         )
         .await?;
+        self.out_of_sync = false;
         Ok(decode_buf)
     }
 
+    /// Refuses to transfer packets if a previous transfer failed or wasn't completed.
+    fn begin_transfer(&mut self) -> Result<(), Error> {
+        if self.out_of_sync {
+            return Err(Error::Protocol(ProtocolError::OutOfSync));
+        }
+        self.out_of_sync = true;
+        Ok(())
+    }
+
     pub(super) async fn write_packet(&mut self, mut bytes: &[u8]) -> Result<(), Error> {
+        self.begin_transfer()?;
         let extra_packet = bytes.remaining() % MAX_PAYLOAD_LEN == 0;
 
         while bytes.has_remaining() {
@@ -142,6 +154,7 @@ impl Connection {
             self.options.timeout(),
         )
         .await??;
+        self.out_of_sync = false;
         Ok(())
     }
 
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 318a9ee..54a3f51 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -53,6 +53,8 @@ pub struct Connection {
     data: ConnectionData,
     options: Arc<dyn ConnectionOptionsTrait>,
     pending_result: bool,
+    /// Set while a packet is transferred and if the exchange can't be continued after an error.
+    out_of_sync: bool,
 }
 
 impl Connection {
-- 
2.43.0


From 36ef5414c6c406eaa3c44e065eeb7dddba907ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:59 +0000
Subject: [PATCH 16/36] fix: don't continue using a connection after an
 unexpected response

---
 src/connection/io.rs                 | 11 ++++++++---
 src/connection/prepared_statement.rs | 14 ++++++++++++--
 src/connection/result_set.rs         |  6 +++++-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index a6e2d11..0f519c1 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -184,9 +184,14 @@ impl Connection {
                 &mut ParseBuf(packet),
                 capabilities,
             )?)),
-            _ => Err(
-                ProtocolError::unexpected_packet(packet.to_vec(), Some("Ok or Err Packet")).into(),
-            ),
+            _ => {
+                // It's unknown how many packets will follow.
+                self.out_of_sync = true;
+                Err(
+                    ProtocolError::unexpected_packet(packet.to_vec(), Some("Ok or Err Packet"))
+                        .into(),
+                )
+            }
         }
     }
 
diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index e25c5ff..9af4873 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -46,13 +46,23 @@ impl Connection {
         self.execute_command(Command::StmtPrepare, stmt).await?;
         let packet = self.read_packet().await?;
         let stmt = match packet.first() {
-            Some(0x00) => Stmt::deserialize(&mut ParseBuf(&packet), ())?,
+            Some(0x00) => match Stmt::deserialize(&mut ParseBuf(&packet), ()) {
+                Ok(stmt) => stmt,
+                Err(err) => {
+                    // It's unknown how many packets will follow.
+                    self.out_of_sync = true;
+                    return Err(err.into());
+                }
+            },
             Some(0xFF) => {
                 return Err(
                     ErrPacket::deserialize(&mut ParseBuf(&packet), self.data.capabilities)?.into(),
                 )
             }
-            _ => return Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into()),
+            _ => {
+                self.out_of_sync = true;
+                return Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into());
+            }
         };
 
         for count in [stmt.params_len, stmt.columns_len] {
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 7543890..a207a60 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -38,7 +38,11 @@ where
                 res.ok_packet = Some(res.conn.decode_response(&packet).await??);
                 Ok(res)
             }
-            Some(0xFB) => unimplemented!("local infile"),
+            Some(0xFB) => {
+                // The server waits for the content of a local file, which isn't supported.
+                conn.out_of_sync = true;
+                Err(ProtocolError::unexpected_packet(packet.to_vec(), Some("Result set")).into())
+            }
             Some(0xFF) => Err(ErrPacket::deserialize(
                 &mut ParseBuf(&packet),
                 conn.data().capabilities(),
-- 
2.43.0


From ad6c63b40512bc3d8dcf0d7cf199d1a12cedb950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:03 +0000
Subject: [PATCH 17/36] fix: decode long blobs in the text protocol

---
 src/types/value/text.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 7b52306..831bb7d 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -367,6 +367,7 @@ impl Value {
                     | ColumnType::Blob
                     | ColumnType::TinyBlob
                     | ColumnType::MediumBlob
+                    | ColumnType::LongBlob
                     | ColumnType::Set
                     | ColumnType::Enum
                     | ColumnType::Decimal
-- 
2.43.0


From 9ce56d085a2e6fbab6493b1da637409d3d7fb707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:44 +0000
Subject: [PATCH 18/36] fix: return an error instead of panicking for
 unsupported column types

---
 src/types/value/bin.rs  | 4 ++--
 src/types/value/text.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/types/value/bin.rs b/src/types/value/bin.rs
index 89d8461..e9a483c 100644
--- a/src/types/value/bin.rs
+++ b/src/types/value/bin.rs
@@ -3,7 +3,7 @@ use {
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::ProtocolError,
+        error::{InvalidFlags, ProtocolError},
         utils::{lenenc_slice_len, BufMutExt},
         ParseBuf, Serialize,
     },
@@ -249,7 +249,7 @@ impl Value {
             ColumnType::Timestamp | ColumnType::Datetime => Self::deserialize_datetime(buf),
             ColumnType::Time => Self::deserialize_time(buf),
             ColumnType::Null => Ok(Self::Null),
-            x => unimplemented!("Unsupported column type {:?}", x),
+            x => Err(InvalidFlags::ColumnType(x as u8).into()),
         }
     }
 }
diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 831bb7d..06c4680 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -3,7 +3,7 @@ use {
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::{ParseError, ProtocolError},
+        error::{InvalidFlags, ParseError, ProtocolError},
         ParseBuf,
     },
     std::{
@@ -380,7 +380,7 @@ impl Value {
                     }
                     ColumnType::Date => Self::deserialize_date_text(bytes),
                     ColumnType::Time => Self::deserialize_time_text(bytes),
-                    x => unimplemented!("Unsupported column type {:?}", x),
+                    x => Err(InvalidFlags::ColumnType(x as u8).into()),
                 }
             }
         }
-- 
2.43.0


From 9506f7b9891d3ae0f9ea1e93e14ac3098c1d26c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:48 +0000
Subject: [PATCH 19/36] fix: don't overflow if a time has too many fractional
 digits

---
 src/types/value/text.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 06c4680..5e8f9b2 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -220,6 +220,9 @@ impl Value {
                 return Err(invalid_value().into());
             }
             let buf = &value[first_colon + 6 + 1..];
+            if buf.len() > 6 {
+                return Err(invalid_value().into());
+            }
             microseconds = btoi::btou(buf).map_err(|_| invalid_value())?;
             microseconds *= 10u32.pow(6 - buf.len() as u32);
         }
-- 
2.43.0


From f0cc1a28c15095fa4761a877e928d2ad98e9d4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:52 +0000
Subject: [PATCH 20/36] fix: don't overflow when formatting times

---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 5e8f9b2..7ea1776 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -142,7 +142,7 @@ impl fmt::Display for Value {
         }
         fn format_time(
             f: &mut fmt::Formatter<'_>,
-            hours: &u32,
+            hours: &u64,
             minutes: &u8,
             seconds: &u8,
             microseconds: &u32,
@@ -181,7 +181,7 @@ impl fmt::Display for Value {
                 }
                 format_time(
                     f,
-                    &(*days * 24 + *hours as u32),
+                    &(*days as u64 * 24 + *hours as u64),
                     minutes,
                     seconds,
                     microseconds,
@@ -192,7 +192,7 @@ impl fmt::Display for Value {
                 write!(f, "\"")?;
                 format_date(f, year, month, day)?;
                 write!(f, " ")?;
-                format_time(f, &(*hour as u32), minute, second, microsecond)?;
+                format_time(f, &(*hour as u64), minute, second, microsecond)?;
                 write!(f, "\"")
             }
         }
-- 
2.43.0


From c7f0d0e2705ba3302e19e7ab3514ca958a0a9d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:55 +0000
Subject: [PATCH 21/36] fix: don't panic if hex data is shorter than the prefix

---
 src/types/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/hex.rs b/src/types/hex.rs
index aeff5f2..0d8d59d 100644
--- a/src/types/hex.rs
+++ b/src/types/hex.rs
@@ -18,7 +18,7 @@ impl Hex {
 
     pub fn try_from_hex<T: AsRef<[u8]>>(data: T) -> Result<Self, hex::FromHexError> {
         let mut data: &[u8] = data.as_ref();
-        if data[..2] == *b"0x" || data[..2] == *b"0X" {
+        if data.starts_with(b"0x") || data.starts_with(b"0X") {
             data = &data[2..];
         }
         hex::decode(data).map(Self)
-- 
2.43.0


From 0d45808fb1c0b070e1fdadc5f84ad782461df298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:59 +0000
Subject: [PATCH 22/36] fix: drop the elements of a recycled Vec

---
 src/pool/sync_pool.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pool/sync_pool.rs b/src/pool/sync_pool.rs
index baa3d0a..e142ca8 100644
--- a/src/pool/sync_pool.rs
+++ b/src/pool/sync_pool.rs
@@ -54,9 +54,7 @@ impl<T> SyncPoolContent for Vec<T> {
     }
 
     fn reset(&mut self, ctx: &Self::Ctx) {
-        unsafe {
-            self.set_len(0);
-        }
+        self.clear();
         self.shrink_to(ctx.size_cap);
     }
 }
-- 
2.43.0


From 846edd92668f42ac46907504ac9bb394bac0f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:02 +0000
Subject: [PATCH 23/36] fix: trim identifiers consisting of whitespace only

---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 7ea1776..791bdf9 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -89,15 +89,15 @@ impl fmt::Display for IdentifierEscape<'_> {
             ('\u{0001}'..='\u{FFFF}').contains(&char)
         }
 
-        let mut last_char = 0;
+        let mut len = 0;
         for (i, char) in self.0.chars().enumerate() {
             if !char.is_whitespace() && char_valid(char) {
-                last_char = i;
+                len = i + 1;
             }
         }
 
         for (i, char) in self.0.chars().enumerate() {
-            if i <= last_char && char_valid(char) {
+            if i < len && char_valid(char) {
                 if char == '`' {
                     f.write_char('`')?;
                 }
-- 
2.43.0


From 6e0bf55b85dbfa64c4d9ba418a004018bb5143ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:06 +0000
Subject: [PATCH 24/36] fix: serialize zero dates with the length returned by
 bin_len

---
 src/types/value/bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/value/bin.rs b/src/types/value/bin.rs
index e9a483c..1cf8989 100644
--- a/src/types/value/bin.rs
+++ b/src/types/value/bin.rs
@@ -51,7 +51,7 @@ impl Serialize for Value {
             Self::Float(x) => buf.put_f32_le(*x),
             Self::Double(x) => buf.put_f64_le(*x),
             Self::Bytes(x) => buf.put_lenenc_slice(x),
-            Self::Datetime(0, 0, 0, 0, 0, 0, 0) => {
+            Self::Date(0, 0, 0) | Self::Datetime(0, 0, 0, 0, 0, 0, 0) => {
                 buf.put_u8(0);
             }
             Self::Date(year, month, day) | Self::Datetime(year, month, day, 0, 0, 0, 0) => {
-- 
2.43.0


From b642c8b625beff770586c845afa63dcc5a02bb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:09 +0000
Subject: [PATCH 25/36] fix: keep the sign of durations between -1 and 0
 seconds

---
 src/types/value/conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/value/conversion.rs b/src/types/value/conversion.rs
index 8033391..857a5e9 100644
--- a/src/types/value/conversion.rs
+++ b/src/types/value/conversion.rs
@@ -172,7 +172,7 @@ impl From<Duration> for Value {
         let days = hours / 24;
 
         Value::Time(
-            value.num_seconds() < 0,
+            value < Duration::zero(),
             days as u32,
             (hours % 24) as u8,
             (minutes % 60) as u8,
-- 
2.43.0


From 2d2db14e3fc40dbdaa9029d91a75c03ed43a54cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:13 +0000
Subject: [PATCH 26/36] fix: reject leap seconds when converting NaiveDateTime
 to Value

---
 src/types/value/conversion.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/types/value/conversion.rs b/src/types/value/conversion.rs
index 857a5e9..b48a2ff 100644
--- a/src/types/value/conversion.rs
+++ b/src/types/value/conversion.rs
@@ -115,6 +115,13 @@ impl TryFrom<NaiveDateTime> for Value {
     type Error = SerializeError;
 
     fn try_from(value: NaiveDateTime) -> Result<Self, Self::Error> {
+        // MySQL doesn't support leap seconds
+        if value.nanosecond() >= 1_000_000_000 {
+            return Err(SerializeError::InvalidValue(
+                ValueType::Datetime,
+                Box::new(value),
+            ));
+        }
         Ok(Value::Datetime(
             value
                 .year()
-- 
2.43.0


From cb37e62418fa819b6f5bf9e879bb6a6b16071d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:15 +0000
Subject: [PATCH 27/36] fix: round up the octets of the RSA modulus

---
 src/utils/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 4c86d67..23b9629 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -127,7 +127,7 @@ impl PublicKey {
     }
 
     pub fn num_octets(&self) -> usize {
-        (self.modulus().bits() as usize + 6) >> 3
+        (self.modulus().bits() as usize + 7) >> 3
     }
 
     pub fn modulus(&self) -> &BigUint {
-- 
2.43.0


From 357383c7dcfb217505039fca9f7d496d3aa32227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:18 +0000
Subject: [PATCH 28/36] fix: don't include the password in the debug output of
 ConnectionOptions

---
 src/connection/options.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/connection/options.rs b/src/connection/options.rs
index 2a0154d..405d5c2 100644
--- a/src/connection/options.rs
+++ b/src/connection/options.rs
@@ -121,7 +121,6 @@ impl<T: Stream> fmt::Debug for ConnectionOptions<T> {
         let mut debug = f.debug_struct("ConnectionOptions");
         debug
             .field("user", &self.user)
-            .field("password", &self.password)
             .field("db_name", &self.db_name)
             .field("connection", &self.connection)
             .field("max_allowed_packet", &self.max_allowed_packet)
-- 
2.43.0


From 919523c834b428882751382a2df7730d66858ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:22 +0000
Subject: [PATCH 29/36] fix: escape migration names

---
 src/migrator/migrator_inner.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/migrator/migrator_inner.rs b/src/migrator/migrator_inner.rs
index 4e855ac..73c6737 100644
--- a/src/migrator/migrator_inner.rs
+++ b/src/migrator/migrator_inner.rs
@@ -1,7 +1,8 @@
 use {
     super::{MigrationList, Version},
     crate::{
-        error::Error, migrator::model::MigrationModel, pool::AsyncPoolTrait, types::Value,
+        error::Error, migrator::model::MigrationModel, pool::AsyncPoolTrait,
+        types::{StringEscape, Value},
         Connection,
     },
     std::collections::HashMap,
@@ -113,7 +114,7 @@ impl<'a> Migrator<'a> {
                                 migration_list.version,
                                 migration.name().to_owned(),
                             );
-                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\")", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, {})", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                         }
                     }
                 }
@@ -133,7 +134,7 @@ impl<'a> Migrator<'a> {
                     ) {
                         migration.down(self.pool).await?;
                         applied.swap_remove(index);
-                        self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                        self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                     }
                 }
             }
@@ -155,7 +156,7 @@ impl<'a> Migrator<'a> {
                 {
                     migration.down(self.pool).await?;
                     applied.swap_remove(index);
-                    self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                    self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                     return Ok(true);
                 }
             }
-- 
2.43.0


From e8ee33ec5cfe52000c4a65b1ba5ad5943ea5ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:02 +0000
Subject: [PATCH 30/36] fix: update the applied migrations only after the
 change was recorded

---
 src/migrator/migrator_inner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/migrator/migrator_inner.rs b/src/migrator/migrator_inner.rs
index 73c6737..bba5bb3 100644
--- a/src/migrator/migrator_inner.rs
+++ b/src/migrator/migrator_inner.rs
@@ -109,12 +109,12 @@ impl<'a> Migrator<'a> {
                         .is_none()
                         {
                             migration.up(self.pool).await?;
+                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, {})", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                             Self::insert_applied(
                                 &mut self.applied,
                                 migration_list.version,
                                 migration.name().to_owned(),
                             );
-                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, {})", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
                         }
                     }
                 }
@@ -133,8 +133,8 @@ impl<'a> Migrator<'a> {
                         migration.name(),
                     ) {
                         migration.down(self.pool).await?;
-                        applied.swap_remove(index);
                         self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
+                        applied.swap_remove(index);
                     }
                 }
             }
@@ -155,8 +155,8 @@ impl<'a> Migrator<'a> {
                     Self::get_applied(&mut self.applied, &migration_list.version, migration.name())
                 {
                     migration.down(self.pool).await?;
-                    applied.swap_remove(index);
                     self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = {}", migration_list.version.0, migration_list.version.1, migration_list.version.2, StringEscape(migration.name()))).await?;
+                    applied.swap_remove(index);
                     return Ok(true);
                 }
             }
-- 
2.43.0


From 65904674ee80b14844175e0a71c2a2789f2ad1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:05 +0000
Subject: [PATCH 31/36] fix: don't panic if a public key is malformed

---
 src/utils/crypt.rs | 60 ++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 23b9629..6c9c1b7 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -17,55 +17,58 @@ mod der {
         num::BigUint,
     };
 
+    fn eat<'a>(der: &mut &'a [u8], len: usize) -> Result<&'a [u8], Error> {
+        if der.len() < len {
+            return Err(Error::InvalidPem);
+        }
+        let (left, right) = der.split_at(len);
+        *der = right;
+        Ok(left)
+    }
+
+    fn eat_u8(der: &mut &[u8]) -> Result<u8, Error> {
+        eat(der, 1).map(|x| x[0])
+    }
+
     fn eat_len(der: &mut &[u8]) -> Result<usize, Error> {
-        if der[0] & 0x80 == 0x80 {
+        let first = eat_u8(der)?;
+        if first & 0x80 == 0x80 {
             const BITS: usize = (usize::BITS / 8) as usize;
-            let len = (der[0] & (!0x80)) as usize;
+            let len = (first & (!0x80)) as usize;
             if len > BITS {
                 return Err(Error::InvalidPem);
             }
             let mut bytes = [0u8; BITS];
-            bytes[BITS - len..].copy_from_slice(&der[1..=len]);
-            *der = &der[len + 1..];
+            bytes[BITS - len..].copy_from_slice(eat(der, len)?);
             Ok(usize::from_be_bytes(bytes))
         } else {
-            let len = der[0] as usize;
-            *der = &der[1..];
-            Ok(len)
+            Ok(first as usize)
         }
     }
 
     fn eat_uint(der: &mut &[u8]) -> Result<BigUint, Error> {
-        if der[0] != 0x02 {
+        if eat_u8(der)? != 0x02 {
             return Err(Error::InvalidPem);
         }
-        *der = &der[1..];
         let len = eat_len(der)?;
-        let uint = BigUint::from_bytes_be(&der[..len]);
-        *der = &der[len..];
-        Ok(uint)
+        Ok(BigUint::from_bytes_be(eat(der, len)?))
     }
 
     fn eat_sequence<'a>(der: &mut &'a [u8]) -> Result<&'a [u8], Error> {
-        if der[0] != 0x30 {
+        if eat_u8(der)? != 0x30 {
             return Err(Error::InvalidPem);
         }
-        *der = &der[1..];
         let len = eat_len(der)?;
-        let sequence = &der[..len];
-        *der = &der[len..];
-        Ok(sequence)
+        eat(der, len)
     }
 
     fn eat_bit_string<'a>(der: &mut &'a [u8]) -> Result<(u8, &'a [u8]), Error> {
-        if der[0] != 0x03 {
+        if eat_u8(der)? != 0x03 {
             return Err(Error::InvalidPem);
         }
-        *der = &der[1..];
         let len = eat_len(der)?;
-        let unused_bits = der[0];
-        let bit_string = &der[1..len];
-        *der = &der[len..];
+        let mut bit_string = eat(der, len)?;
+        let unused_bits = eat_u8(&mut bit_string)?;
         Ok((unused_bits, bit_string))
     }
 
@@ -98,10 +101,15 @@ mod der {
                 .cloned()
                 .collect();
 
-            let (body, is_pkcs_1) = if pem.starts_with(PKCS1.0) && pem.ends_with(PKCS1.1) {
-                (&pem[PKCS1.0.len()..pem.len() - PKCS1.1.len()], true)
-            } else if pem.starts_with(PKCS8.0) && pem.ends_with(PKCS8.1) {
-                (&pem[PKCS8.0.len()..pem.len() - PKCS8.1.len()], false)
+            let body = |(begin, end): (&[u8], &[u8])| {
+                pem.strip_prefix(begin)
+                    .and_then(|pem| pem.strip_suffix(end))
+            };
+
+            let (body, is_pkcs_1) = if let Some(body) = body(PKCS1) {
+                (body, true)
+            } else if let Some(body) = body(PKCS8) {
+                (body, false)
             } else {
                 return Err(Error::InvalidPem);
             };
-- 
2.43.0


From a3a2c9338850d3ccf3f67b383f107e1f0e4ae804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:06 +0000
Subject: [PATCH 32/36] fix: wake tasks waiting for a pool item

---
 src/pool/async_pool.rs | 67 +++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 34 deletions(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 458dd43..44e5cd4 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -21,6 +21,7 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> PoolPut<T> for AsyncPool<T, C, N
     fn put(&self, value: T) {
         // As we won't create too many items, the pool won't be full
         let _ = self.pool.push(value);
+        self.wake();
     }
 }
 
@@ -33,6 +34,21 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPool<T, C, N> {
             wakers: SegQueue::new(),
         }
     }
+
+    /// Returns whether a new item may be created.
+    fn reserve(&self) -> bool {
+        self.items
+            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |items| {
+                (items < N).then_some(items + 1)
+            })
+            .is_ok()
+    }
+
+    fn wake(&self) {
+        while let Some(waker) = self.wakers.pop() {
+            waker.wake();
+        }
+    }
 }
 
 impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<T, C, N> {
@@ -40,7 +56,6 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
         Box::pin(PoolTake {
             pool: self,
             add: None,
-            waker_added: false,
         })
     }
 }
@@ -50,7 +65,6 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
 pub struct PoolTake<'a, T: AsyncPoolContent<C>, C, const N: usize> {
     pool: &'a AsyncPool<T, C, N>,
     add: Option<Pin<Box<dyn Future<Output = Result<T, T::Error>> + 'a>>>,
-    waker_added: bool,
 }
 
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
@@ -75,39 +89,24 @@ impl<'a, T: AsyncPoolContent<C>, C, const N: usize> Future for PoolTake<'a, T, C
         if let Some(res) = this.poll_add(cx) {
             return res;
         }
-        match pool.pool.pop() {
-            Some(item) => Poll::Ready(Ok(PoolItem {
-                item: ManuallyDrop::new(item),
-                pool,
-            })),
-            None => {
-                let item_count = pool.items.load(Ordering::Relaxed);
-                if item_count < N {
-                    if pool
-                        .items
-                        .compare_exchange(
-                            item_count,
-                            item_count + 1,
-                            Ordering::Relaxed,
-                            Ordering::Relaxed,
-                        )
-                        .is_ok()
-                    {
-                        this.add = Some(Box::pin(T::new(&pool.ctx)));
-                        if let Some(res) = this.poll_add(cx) {
-                            return res;
-                        }
-                    } else {
-                        cx.waker().wake_by_ref();
-                    }
-                } else if !this.waker_added {
-                    this.waker_added = true;
-                    pool.wakers.push(cx.waker().clone());
-                    // wake for the rare case that an item was added after we tried to get one but before we registered the waker
-                    cx.waker().wake_by_ref();
-                }
-                Poll::Pending
+        let mut waker_added = false;
+        loop {
+            if let Some(item) = pool.pool.pop() {
+                return Poll::Ready(Ok(PoolItem {
+                    item: ManuallyDrop::new(item),
+                    pool,
+                }));
+            }
+            if pool.reserve() {
+                this.add = Some(Box::pin(T::new(&pool.ctx)));
+                return this.poll_add(cx).unwrap_or(Poll::Pending);
+            }
+            if waker_added {
+                return Poll::Pending;
             }
+            // Try again after adding the waker, as an item could have been added in the meantime.
+            waker_added = true;
+            pool.wakers.push(cx.waker().clone());
         }
     }
 }
-- 
2.43.0


From c1f0c0d688e601ef87837ac9a5d032b0b1a49227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:11 +0000
Subject: [PATCH 33/36] fix: allow creating another pool item if creating one
 failed or was cancelled

---
 src/pool/async_pool.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 44e5cd4..717c9d1 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -44,6 +44,12 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPool<T, C, N> {
             .is_ok()
     }
 
+    /// Allows creating another item.
+    fn release(&self) {
+        self.items.fetch_sub(1, Ordering::SeqCst);
+        self.wake();
+    }
+
     fn wake(&self) {
         while let Some(waker) = self.wakers.pop() {
             waker.wake();
@@ -69,14 +75,27 @@ pub struct PoolTake<'a, T: AsyncPoolContent<C>, C, const N: usize> {
 
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
     fn poll_add(&mut self, cx: &mut task::Context<'_>) -> Option<Poll<<Self as Future>::Output>> {
-        self.add.as_mut().map(|add| {
-            add.as_mut().poll(cx).map(|res| {
-                res.map(|item| PoolItem {
-                    item: ManuallyDrop::new(item),
-                    pool: self.pool,
-                })
+        let res = self.add.as_mut()?.as_mut().poll(cx);
+        if let Poll::Ready(res) = &res {
+            self.add = None;
+            if res.is_err() {
+                self.pool.release();
+            }
+        }
+        Some(res.map(|res| {
+            res.map(|item| PoolItem {
+                item: ManuallyDrop::new(item),
+                pool: self.pool,
             })
-        })
+        }))
+    }
+}
+
+impl<T: AsyncPoolContent<C>, C, const N: usize> Drop for PoolTake<'_, T, C, N> {
+    fn drop(&mut self) {
+        if self.add.take().is_some() {
+            self.pool.release();
+        }
     }
 }
 
-- 
2.43.0


From 43c1d123aaea564d6cc724096118ef197df55e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:15 +0000
Subject: [PATCH 34/36] fix: don't return connections to the pool after an
 interrupted packet transfer

---
 src/connection/mod.rs  | 4 ++++
 src/pool/async_pool.rs | 5 +++++
 src/pool/mod.rs        | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 54a3f51..1e82923 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -107,6 +107,10 @@ impl<T: Stream> AsyncPoolContent<T> for Connection {
     ) -> std::pin::Pin<Box<dyn std::future::Future<Output = Result<Self, Self::Error>> + 'a>> {
         Box::pin(Self::connect(Arc::clone(ctx)))
     }
+
+    fn is_reusable(&self) -> bool {
+        !self.out_of_sync
+    }
 }
 
 #[cfg(feature = "tcpstream")]
diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 717c9d1..c3c1b11 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -19,6 +19,11 @@ pub struct AsyncPool<T: AsyncPoolContent<C>, C, const N: usize> {
 
 impl<T: AsyncPoolContent<C>, C, const N: usize> PoolPut<T> for AsyncPool<T, C, N> {
     fn put(&self, value: T) {
+        if !value.is_reusable() {
+            drop(value);
+            self.release();
+            return;
+        }
         // As we won't create too many items, the pool won't be full
         let _ = self.pool.push(value);
         self.wake();
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 69048a8..36f353c 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -21,6 +21,11 @@ pub trait AsyncPoolContent<T>: AsyncPoolContentError + Sized + 'static {
     type Ctx: fmt::Debug;
     fn new<'a>(ctx: &'a Self::Ctx)
         -> Pin<Box<dyn Future<Output = Result<Self, Self::Error>> + 'a>>;
+
+    /// Items which can't be reused are dropped instead of being returned to the pool.
+    fn is_reusable(&self) -> bool {
+        true
+    }
 }
 
 pub trait AsyncPoolContentError: 'static {
-- 
2.43.0


From 2460515ecb79cef3044303538ea03caa4927b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:36 +0000
Subject: [PATCH 35/36] fix: return the error of a failed transfer in
 ResultSet::one

---
 src/connection/result_set.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index a207a60..8c19842 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -111,7 +111,10 @@ where
 
     pub async fn one(&mut self) -> Result<Option<R>, Error> {
         let res = self.next().await;
-        while self.next().await?.is_some() {}
+        // Nothing more can be read after a failed transfer.
+        if !self.conn.out_of_sync {
+            while self.next().await?.is_some() {}
+        }
         res
     }
 
-- 
2.43.0


From 85c284f46448be10516583e525fc22e90f2d5b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:08 +0000
Subject: [PATCH 36/36] fix: render empty bytes as a valid literal

---
 src/types/value/text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 791bdf9..537b1b8 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -165,6 +165,8 @@ impl fmt::Display for Value {
             Value::ULong(x) => x.fmt(f),
             Value::Float(x) => x.fmt(f),
             Value::Double(x) => x.fmt(f),
+            // "0x" without digits is an identifier
+            Value::Bytes(x) if x.is_empty() => f.write_str("X''"),
             Value::Bytes(x) => {
                 f.write_str("0x")?;
                 hex::encode(x).fmt(f)
-- 
2.43.0

