From 4cbea393b1e5f420665a40af7b440bd91d737714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 01/24] fix: read every byte asked for, whatever pieces the
 source delivers

Read::read may return fewer bytes than requested; the rest of the buffer was
then taken as zeroes and logged as header bytes. A block size was also
allocated before knowing that the data is there.
---
 src/format/kdb2_reader.rs | 13 ++++++++-----
 src/io/log_reader.rs      |  6 +++---
 src/types/database.rs     |  4 ++--
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index 1977442..ec5cce8 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -35,7 +35,7 @@ use crate::types::TransformedKey;
 use crate::types::Version;
 use crate::types::XmlData;
 use byteorder::{LittleEndian, ReadBytesExt};
-use std::io::{Cursor, Read};
+use std::io::{self, Cursor, Read};
 
 /// Attempts to read the database content from the reader.
 pub fn read<R>(reader: &mut R, composite_key: &CompositeKey) -> Result<(MetaData, XmlData)>
@@ -346,19 +346,22 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
     let mut data = [0; 16];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_32<R: Read>(reader: &mut R) -> Result<[u8; 32]> {
     let mut data = [0; 32];
-    reader.read(&mut data)?;
+    reader.read_exact(&mut data)?;
     Ok(data)
 }
 
 fn read_bytes_size<R: Read>(reader: &mut R, size: &usize) -> Result<Vec<u8>> {
-    let mut data = vec![0; *size];
-    reader.read(&mut data)?;
+    let mut data = Vec::new();
+    reader.by_ref().take(*size as u64).read_to_end(&mut data)?;
+    if data.len() != *size {
+        return Err(Error::Io(io::Error::from(io::ErrorKind::UnexpectedEof)));
+    }
     Ok(data)
 }
 
diff --git a/src/io/log_reader.rs b/src/io/log_reader.rs
index c219110..40c86ca 100644
--- a/src/io/log_reader.rs
+++ b/src/io/log_reader.rs
@@ -47,11 +47,11 @@ impl<R> Log for LogReader<R> {
 
 impl<R: Read> Read for LogReader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
-        let result = self.inner.read(buf);
+        let size = self.inner.read(buf)?;
         if self.is_logging {
-            self.log_data.extend_from_slice(&buf);
+            self.log_data.extend_from_slice(&buf[..size]);
         }
-        result
+        Ok(size)
     }
 }
 
diff --git a/src/types/database.rs b/src/types/database.rs
index cf720c4..1f2756d 100644
--- a/src/types/database.rs
+++ b/src/types/database.rs
@@ -438,12 +438,12 @@ impl Database {
         let mut reader = LogReader::new(reader);
         let mut buffer = [0u8; 4];
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer != common::DB_SIGNATURE {
             return Err(Error::InvalidDbSignature(buffer));
         }
 
-        reader.read(&mut buffer)?;
+        reader.read_exact(&mut buffer)?;
         if buffer == common::KDB1_SIGNATURE {
             return Err(Error::UnhandledDbType(buffer));
         } else if buffer == common::KDB2_SIGNATURE {
-- 
2.43.0


From 91710a0500ebb3761fbd70c269b4aaf30bab0b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 02/24] fix: write every byte of a file, whatever pieces the
 sink takes

Write::write may accept fewer bytes than offered; the rest was dropped and the
save reported as successful.
---
 src/format/kdb2_writer.rs | 16 ++++++++--------
 src/format/kf_writer.rs   |  4 ++--
 src/io/log_writer.rs      |  6 +++---
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 2953fc2..56ddbc4 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -71,35 +71,35 @@ pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
     kdb2_xml_writer::write(&mut xml, db, &hash, &stream_key)?;
 
     let mut payload = Vec::new();
-    payload.write(&stream_start_bytes.0)?;
+    payload.write_all(&stream_start_bytes.0)?;
 
     let compressed = compress(&db.compression, &xml)?;
     write_block(&mut payload, 0, &compressed)?;
     write_block_final(&mut payload, 1)?;
 
     let encrypted = aes256::encrypt(&master_key, &master_iv, &payload)?;
-    writer.write(&encrypted)?;
+    writer.write_all(&encrypted)?;
 
     Ok(())
 }
 
 fn write_block<W: Write>(writer: &mut W, id: u32, data: &[u8]) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&sha256::hash(&[data]))?;
+    writer.write_all(&sha256::hash(&[data]))?;
     writer.write_u32::<LittleEndian>(data.len() as u32)?;
-    writer.write(data)?;
+    writer.write_all(data)?;
     Ok(())
 }
 
 fn write_block_final<W: Write>(writer: &mut W, id: u32) -> Result<()> {
     writer.write_u32::<LittleEndian>(id)?;
-    writer.write(&kdb2::FINAL_BLOCK_HASH)?;
+    writer.write_all(&kdb2::FINAL_BLOCK_HASH)?;
     writer.write_u32::<LittleEndian>(0)?;
     Ok(())
 }
 
 fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
-    writer.write(bytes)?;
+    writer.write_all(bytes)?;
     Ok(())
 }
 
@@ -173,12 +173,12 @@ fn write_protected_stream_key<W: Write>(writer: &mut W, key: &ProtectedStreamKey
 }
 
 fn write_sig_1<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::DB_SIGNATURE)?;
+    writer.write_all(&common::DB_SIGNATURE)?;
     Ok(())
 }
 
 fn write_sig_2<W: Write>(writer: &mut W) -> Result<()> {
-    writer.write(&common::KDB2_SIGNATURE)?;
+    writer.write_all(&common::KDB2_SIGNATURE)?;
     Ok(())
 }
 
diff --git a/src/format/kf_writer.rs b/src/format/kf_writer.rs
index 51ec05d..7386e42 100644
--- a/src/format/kf_writer.rs
+++ b/src/format/kf_writer.rs
@@ -23,13 +23,13 @@ pub fn write<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
 }
 
 fn write_binary<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
-    writer.write(key.key.unsecure())?;
+    writer.write_all(key.key.unsecure())?;
     Ok(())
 }
 
 fn write_hex<W: Write>(writer: &mut W, key: &KeyFile) -> Result<()> {
     let hex = hex::encode(key.key.unsecure());
-    writer.write(&hex.into_bytes())?;
+    writer.write_all(&hex.into_bytes())?;
     Ok(())
 }
 
diff --git a/src/io/log_writer.rs b/src/io/log_writer.rs
index d6c3440..fd21435 100644
--- a/src/io/log_writer.rs
+++ b/src/io/log_writer.rs
@@ -47,11 +47,11 @@ impl<W> Log for LogWriter<W> {
 
 impl<W: Write> Write for LogWriter<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
-        let result = self.inner.write(buf);
+        let size = self.inner.write(buf)?;
         if self.is_logging {
-            self.log_data.extend_from_slice(buf);
+            self.log_data.extend_from_slice(&buf[..size]);
         }
-        result
+        Ok(size)
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From 0cae62b293fcc7701912bf788eaef922f095458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 03/24] fix: report wrong padding as an error instead of
 panicking

---
 src/crypto/aes256.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/crypto/aes256.rs b/src/crypto/aes256.rs
index 6e6c541..be3deb5 100644
--- a/src/crypto/aes256.rs
+++ b/src/crypto/aes256.rs
@@ -7,15 +7,16 @@
 // except according to those terms.
 
 use crate::rust_crypto::aes::{self, KeySize};
-use crate::rust_crypto::blockmodes::PkcsPadding;
+use crate::rust_crypto::blockmodes::{NoPadding, PkcsPadding};
 use crate::rust_crypto::buffer::{
     BufferResult, ReadBuffer, RefReadBuffer, RefWriteBuffer, WriteBuffer,
 };
-use crate::types::{MasterIV, MasterKey, Result};
+use crate::rust_crypto::symmetriccipher::SymmetricCipherError;
+use crate::types::{Error, MasterIV, MasterKey, Result};
 
 /// Decrypt the input using the key and initialization vector.
 pub fn decrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>> {
-    let mut cipher = aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, PkcsPadding);
+    let mut cipher = aes::cbc_decryptor(KeySize::KeySize256, &key.unsecure(), &iv.0, NoPadding);
     let mut output = Vec::new();
     let mut read_buffer = RefReadBuffer::new(input);
     let mut buffer = [0; 4096];
@@ -36,7 +37,7 @@ pub fn decrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>>
         }
     }
 
-    Ok(output)
+    strip_padding(output)
 }
 
 /// Encrypt the input using the key and initialization vector.
@@ -65,6 +66,24 @@ pub fn encrypt(key: &MasterKey, iv: &MasterIV, input: &[u8]) -> Result<Vec<u8>>
     Ok(output)
 }
 
+/// Remove the PKCS #7 padding, checking all of it. No data has no padding: that is what encrypt
+/// produces for it.
+fn strip_padding(mut data: Vec<u8>) -> Result<Vec<u8>> {
+    let size = match data.last() {
+        Some(&byte) => byte as usize,
+        None => return Ok(data),
+    };
+    if size == 0 || size > 16 || size > data.len() {
+        return Err(Error::CryptoError(SymmetricCipherError::InvalidPadding));
+    }
+    let start = data.len() - size;
+    if data[start..].iter().any(|&byte| byte as usize != size) {
+        return Err(Error::CryptoError(SymmetricCipherError::InvalidPadding));
+    }
+    data.truncate(start);
+    Ok(data)
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From 471a4306cdfd5e7031383eaa8b04bbc7c45b2989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 04/24] fix: report a payload shorter than the start bytes as
 an invalid key

---
 src/format/kdb2_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index ec5cce8..f0313a6 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -127,7 +127,7 @@ where
     let encrypted = read_enc_payload(reader)?;
     let payload = aes256::decrypt(&master_key, &master_iv, &encrypted)?;
 
-    if payload[0..32] != stream_start_bytes.0 {
+    if !payload.starts_with(&stream_start_bytes.0) {
         return Err(Error::InvalidKey);
     }
 
-- 
2.43.0


From 1c7d9800eebc459e805100246a39d664e9d5f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 05/24] fix: reject colors with characters that are no hex
 digits

---
 src/types/color.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/types/color.rs b/src/types/color.rs
index 652ee3f..550a473 100644
--- a/src/types/color.rs
+++ b/src/types/color.rs
@@ -138,25 +138,25 @@ impl error::Error for ColorError {
     }
 }
 
-fn from_hex_string_blue(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[5..7], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidBlueValue),
+fn from_hex_digits(digits: Option<&str>) -> Option<u8> {
+    let digits = digits?;
+    if digits.bytes().all(|byte| byte.is_ascii_hexdigit()) {
+        u8::from_str_radix(digits, 16).ok()
+    } else {
+        None
     }
 }
 
+fn from_hex_string_blue(hex_str: &str) -> Result<u8, ColorError> {
+    from_hex_digits(hex_str.get(5..7)).ok_or(ColorError::InvalidBlueValue)
+}
+
 fn from_hex_string_green(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[3..5], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidGreenValue),
-    }
+    from_hex_digits(hex_str.get(3..5)).ok_or(ColorError::InvalidGreenValue)
 }
 
 fn from_hex_string_red(hex_str: &str) -> Result<u8, ColorError> {
-    match u8::from_str_radix(&hex_str[1..3], 16) {
-        Ok(val) => Ok(val),
-        Err(_) => Err(ColorError::InvalidRedValue),
-    }
+    from_hex_digits(hex_str.get(1..3)).ok_or(ColorError::InvalidRedValue)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 86fcd0921e39fea88d0a1b1baa554bbf23c9cd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 06/24] fix: refuse to write a comment too long for its size
 field

---
 src/format/kdb2_writer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/format/kdb2_writer.rs b/src/format/kdb2_writer.rs
index 56ddbc4..7f66e05 100644
--- a/src/format/kdb2_writer.rs
+++ b/src/format/kdb2_writer.rs
@@ -33,7 +33,8 @@ use crate::types::TransformSeed;
 use crate::types::TransformedKey;
 use crate::types::Version;
 use byteorder::{LittleEndian, WriteBytesExt};
-use std::io::Write;
+use std::convert::TryFrom;
+use std::io::{self, Write};
 
 /// Attempts to write the database content to the writer.
 pub fn write<W: Log + Write>(writer: &mut W, db: &Database) -> Result<()> {
@@ -106,8 +107,10 @@ fn write_bytes<W: Write>(writer: &mut W, bytes: &[u8]) -> Result<()> {
 fn write_comment<W: Write>(writer: &mut W, opt: &Option<Comment>) -> Result<()> {
     match *opt {
         Some(ref comment) => {
+            let size = u16::try_from(comment.0.len())
+                .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "Comment too long"))?;
             write_header_id(writer, kdb2::COMMENT_HID)?;
-            write_header_size(writer, comment.0.len() as u16)?;
+            write_header_size(writer, size)?;
             write_bytes(writer, &comment.0)?;
             Ok(())
         }
-- 
2.43.0


From be9ede4eeddec86bf26012b39cd1862dabb7c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 07/24] fix: decompress the payload as a whole, not each block
 by itself

---
 src/format/kdb2_reader.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index f0313a6..bf7ab42 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -312,13 +312,13 @@ fn read_version<R: Read>(reader: &mut R) -> Result<Version> {
 
 fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>> {
     let mut reader = Cursor::new(payload);
-    let mut xml = Vec::new();
+    let mut content = Vec::new();
 
     for block_id in 0..u32::max_value() {
         let id = reader.read_u32::<LittleEndian>()?;
         let hash = read_bytes_32(&mut reader)?;
         let size = reader.read_u32::<LittleEndian>()? as usize;
-        let raw_data = read_bytes_size(&mut reader, &size)?;
+        let mut raw_data = read_bytes_size(&mut reader, &size)?;
 
         if id != block_id {
             return Err(Error::InvalidBlockId(id));
@@ -337,11 +337,10 @@ fn read_xml_bytes(compression: &Compression, payload: &[u8]) -> Result<Vec<u8>>
             return Err(Error::InvalidBlockHash);
         }
 
-        let mut block_data = decompress(compression, &raw_data)?;
-        xml.append(&mut block_data);
+        content.append(&mut raw_data);
     }
 
-    Ok(xml)
+    decompress(compression, &content)
 }
 
 fn read_bytes_16<R: Read>(reader: &mut R) -> Result<[u8; 16]> {
-- 
2.43.0


From 7f33d41d74f8ac1f6fd4bf85ec327ff03f7cb874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 08/24] fix: skip unknown elements together with everything in
 them

---
 src/format/kdb2_xml_reader.rs | 36 ++++++++++++++++++-----------------
 src/format/kf_reader.rs       |  8 ++++++++
 src/format/xml.rs             | 16 ++++++++++++++++
 3 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index a57b0ee..f3e281b 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -75,7 +75,7 @@ fn read_kee_pass_file<R: Read>(
                 kdb2::ROOT_TAG => {
                     read_root(reader, data, cipher)?;
                 }
-                _ => {}
+                _ => xml::skip(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -174,7 +174,7 @@ fn read_meta<R: Read>(reader: &mut EventReader<R>, data: &mut XmlData) -> Result
                 kdb2::RECYCLE_BIN_UUID_TAG => {
                     data.recycle_bin_uuid = GroupUuid(xml::read_uuid(reader)?);
                 }
-                _ => {}
+                _ => xml::skip(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -202,7 +202,7 @@ fn read_root<R: Read>(
                 kdb2::GROUP_TAG => {
                     data.root_group = Some(read_group(reader, cipher, GroupUuid::nil())?);
                 }
-                _ => {}
+                _ => xml::skip(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -236,7 +236,7 @@ fn read_binaries<R: Read>(reader: &mut EventReader<R>) -> Result<BinariesMap> {
                     };
                     map.insert(id, bytes);
                 }
-                _ => {}
+                _ => xml::skip(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -262,7 +262,7 @@ fn read_custom_data<R: Read>(reader: &mut EventReader<R>) -> Result<CustomDataMa
                     let (key, value) = read_custom_data_item(reader)?;
                     map.insert(key, value);
                 }
-                _ => {}
+                _ => xml::skip(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -291,7 +291,7 @@ fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String
                 kdb2::VALUE_TAG => {
                     value = xml::read_string_opt(reader)?;
                 }
-                _ => {}
+                _ => xml::skip(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -327,7 +327,7 @@ fn read_custom_icons<R: Read>(reader: &mut EventReader<R>) -> Result<CustomIcons
                     let (uuid, data) = read_custom_icon(reader)?;
                     map.insert(uuid, data);
                 }
-                _ => {}
+                _ => xml::skip(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -356,7 +356,7 @@ fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconU
                 kdb2::UUID_TAG => {
                     uuid = xml::read_custom_icon_uuid_opt(reader)?;
                 }
-                _ => {}
+                _ => xml::skip(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -402,7 +402,7 @@ fn read_memory_protection<R: Read>(reader: &mut EventReader<R>, data: &mut XmlDa
                 kdb2::PROTECT_USERNAME_TAG => {
                     data.protect_username = xml::read_bool(reader)?;
                 }
-                _ => {}
+                _ => xml::skip(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -474,7 +474,7 @@ fn read_group<R: Read>(
                 kdb2::UUID_TAG => {
                     node.uuid = GroupUuid(xml::read_uuid(reader)?);
                 }
-                _ => {}
+                _ => xml::skip(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -532,6 +532,8 @@ fn read_entry<R: Read>(
                         if state == EntryState::Active {
                             node.history
                                 .append(&mut read_history(reader, cipher, parent.clone())?);
+                        } else {
+                            xml::skip(reader)?;
                         }
                     }
                     kdb2::ICON_ID_TAG => {
@@ -553,7 +555,7 @@ fn read_entry<R: Read>(
                     kdb2::UUID_TAG => {
                         node.uuid = EntryUuid(xml::read_uuid(reader)?);
                     }
-                    _ => {}
+                    _ => xml::skip(reader)?,
                 }
             }
 
@@ -591,7 +593,7 @@ fn read_auto_type<R: Read>(reader: &mut EventReader<R>, node: &mut Entry) -> Res
                     kdb2::ENABLED_TAG => {
                         node.auto_type_enabled = xml::read_bool(reader)?;
                     }
-                    _ => {}
+                    _ => xml::skip(reader)?,
                 }
             }
 
@@ -620,7 +622,7 @@ fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association>
                 kdb2::WINDOW_TAG => {
                     window = xml::read_string_opt(reader)?;
                 }
-                _ => {}
+                _ => xml::skip(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -667,7 +669,7 @@ fn read_binary<R: Read>(
                 kdb2::VALUE_TAG => {
                     value = xml::read_binary_value_opt(reader, cipher, &attributes)?;
                 }
-                _ => {}
+                _ => xml::skip(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -706,7 +708,7 @@ fn read_history<R: Read>(
                 kdb2::ENTRY_TAG => {
                     list.push(read_entry(reader, cipher, EntryState::History, parent)?);
                 }
-                _ => {}
+                _ => xml::skip(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -740,7 +742,7 @@ fn read_string<R: Read>(
                 kdb2::VALUE_TAG => {
                     value = xml::read_string_value_opt(reader, cipher, &attributes)?;
                 }
-                _ => {}
+                _ => xml::skip(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
@@ -796,7 +798,7 @@ where
                 kdb2::USAGE_COUNT_TAG => {
                     node.set_usage_count(xml::read_i32(reader)?);
                 }
-                _ => {}
+                _ => xml::skip(reader)?,
             },
 
             XmlEvent::EndElement { name, .. } => {
diff --git a/src/format/kf_reader.rs b/src/format/kf_reader.rs
index 0819578..09c79ee 100644
--- a/src/format/kf_reader.rs
+++ b/src/format/kf_reader.rs
@@ -52,6 +52,8 @@ fn read_xml<R: Read>(reader: &mut R) -> Result<KeyFile> {
             XmlEvent::StartElement { name, .. } => {
                 if name.local_name == kf::KEY_FILE_TAG {
                     opt_key = Some(read_xml_key_file(&mut reader)?);
+                } else {
+                    xml::skip(&mut reader)?;
                 }
             }
             XmlEvent::EndDocument { .. } => {
@@ -80,6 +82,8 @@ fn read_xml_key_file<R: Read>(reader: &mut EventReader<R>) -> Result<SecStr> {
                     opt_key = Some(read_xml_key(reader)?);
                 } else if name.local_name == kf::META_TAG {
                     read_xml_meta(reader)?;
+                } else {
+                    xml::skip(reader)?;
                 }
             }
             XmlEvent::EndElement { name, .. } => {
@@ -107,6 +111,8 @@ fn read_xml_meta<R: Read>(reader: &mut EventReader<R>) -> Result<()> {
                     if version != kf::XML_KEY_FILE_VERSION {
                         return xml::read_err(reader, "Unsupported key file version");
                     }
+                } else {
+                    xml::skip(reader)?;
                 }
             }
             XmlEvent::EndElement { name, .. } => {
@@ -129,6 +135,8 @@ fn read_xml_key<R: Read>(reader: &mut EventReader<R>) -> Result<SecStr> {
             XmlEvent::StartElement { name, .. } => {
                 if name.local_name == kf::DATA_TAG {
                     opt_key = Some(SecStr::new(xml::read_binary(reader)?));
+                } else {
+                    xml::skip(reader)?;
                 }
             }
             XmlEvent::EndElement { name, .. } => {
diff --git a/src/format/xml.rs b/src/format/xml.rs
index eef0494..555e2d1 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -296,6 +296,22 @@ pub fn search_attr_value(attrs: &Vec<OwnedAttribute>, name: &str) -> Option<Stri
     None
 }
 
+/// Skips the rest of the current element, including all the elements in it.
+pub fn skip<R: Read>(reader: &mut EventReader<R>) -> Result<()> {
+    let mut depth = 1;
+    while depth > 0 {
+        match reader.next()? {
+            reader::XmlEvent::StartElement { .. } => depth += 1,
+            reader::XmlEvent::EndElement { .. } => depth -= 1,
+            reader::XmlEvent::EndDocument => {
+                return read_err(reader, "Unexpected end of document");
+            }
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 /// Attempts to write binary data.
 pub fn write_binary<W: Write>(writer: &mut EventWriter<W>, data: &[u8]) -> Result<()> {
     write_string(writer, &general_purpose::STANDARD.encode(&data))
-- 
2.43.0


From 60cbfb3bd4dd39aad202650520c8b56d26b52a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 09/24] fix: read the whole text of an element, white space and
 CDATA included

---
 src/format/kdb2_xml_reader.rs | 10 ++---
 src/format/kf_reader.rs       |  2 +-
 src/format/xml.rs             | 74 ++++++++++++++++++++++-------------
 3 files changed, 52 insertions(+), 34 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index f3e281b..28a2892 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -286,10 +286,10 @@ fn read_custom_data_item<R: Read>(reader: &mut EventReader<R>) -> Result<(String
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEY_TAG => {
-                    key = xml::read_string_opt(reader)?;
+                    key = Some(xml::read_string(reader)?);
                 }
                 kdb2::VALUE_TAG => {
-                    value = xml::read_string_opt(reader)?;
+                    value = Some(xml::read_string(reader)?);
                 }
                 _ => xml::skip(reader)?,
             },
@@ -351,7 +351,7 @@ fn read_custom_icon<R: Read>(reader: &mut EventReader<R>) -> Result<(CustomIconU
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::DATA_TAG => {
-                    data = xml::read_binary_opt(reader)?;
+                    data = Some(xml::read_binary(reader)?);
                 }
                 kdb2::UUID_TAG => {
                     uuid = xml::read_custom_icon_uuid_opt(reader)?;
@@ -617,10 +617,10 @@ fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association>
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::KEYSTROKE_SEQUENCE_TAG => {
-                    keystroke = xml::read_string_opt(reader)?;
+                    keystroke = Some(xml::read_string(reader)?);
                 }
                 kdb2::WINDOW_TAG => {
-                    window = xml::read_string_opt(reader)?;
+                    window = Some(xml::read_string(reader)?);
                 }
                 _ => xml::skip(reader)?,
             },
diff --git a/src/format/kf_reader.rs b/src/format/kf_reader.rs
index 09c79ee..8c0b577 100644
--- a/src/format/kf_reader.rs
+++ b/src/format/kf_reader.rs
@@ -108,7 +108,7 @@ fn read_xml_meta<R: Read>(reader: &mut EventReader<R>) -> Result<()> {
             XmlEvent::StartElement { name, .. } => {
                 if name.local_name == kf::VERSION_TAG {
                     let version = xml::read_string(reader)?;
-                    if version != kf::XML_KEY_FILE_VERSION {
+                    if version.trim() != kf::XML_KEY_FILE_VERSION {
                         return xml::read_err(reader, "Unsupported key file version");
                     }
                 } else {
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 555e2d1..18e3984 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -41,19 +41,20 @@ pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
 
 /// Attempts to read an optional binary key.
 pub fn read_binary_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<BinaryKey>> {
-    match read_string_opt(reader)? {
-        Some(string) => Ok(Some(BinaryKey(string))),
-        None => Ok(None),
-    }
+    Ok(Some(BinaryKey(read_string(reader)?)))
 }
 
 /// Attempts to read optional binary data.
 pub fn read_binary_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Vec<u8>>> {
     match read_string_opt(reader)? {
-        Some(string) => match general_purpose::STANDARD.decode(&string) {
-            Ok(bin) => Ok(Some(bin)),
-            Err(err) => read_err(reader, format!("Base64 {}", err)),
-        },
+        Some(mut string) => {
+            string.retain(|c| !c.is_whitespace());
+            match general_purpose::STANDARD.decode(&string) {
+                Ok(bin) if bin.is_empty() => Ok(None),
+                Ok(bin) => Ok(Some(bin)),
+                Err(err) => read_err(reader, format!("Base64 {}", err)),
+            }
+        }
         None => Ok(None),
     }
 }
@@ -67,7 +68,10 @@ pub fn read_binary_value_opt<R: Read>(
     let ref_value = search_attr_value(attrs, "ref");
     let protected = get_protected_attr_value(reader, attrs)?;
     match ref_value {
-        Some(string) => Ok(Some(BinaryValue::Ref(BinaryId(string)))),
+        Some(string) => {
+            skip(reader)?;
+            Ok(Some(BinaryValue::Ref(BinaryId(string))))
+        }
         None => match read_binary_opt(reader)? {
             Some(bytes) => {
                 if protected {
@@ -99,7 +103,7 @@ pub fn read_bool<R: Read>(reader: &mut EventReader<R>) -> Result<bool> {
 
 /// Attempts to read an optional boolean.
 pub fn read_bool_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<bool>> {
-    match read_string_opt(reader)? {
+    match read_word_opt(reader)? {
         Some(string) => match string.to_lowercase().as_str() {
             "false" => Ok(Some(false)),
             "null" => Ok(None),
@@ -112,7 +116,7 @@ pub fn read_bool_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<bool
 
 /// Attempts to read an optional color.
 pub fn read_color_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Color>> {
-    match read_string_opt(reader)? {
+    match read_word_opt(reader)? {
         Some(string) => match Color::from_hex_string(&string) {
             Ok(color) => Ok(Some(color)),
             Err(err) => read_err(reader, format!("Color {}", err)),
@@ -133,7 +137,7 @@ pub fn read_custom_icon_uuid_opt<R: Read>(
 
 /// Attempts to read a date and time.
 pub fn read_datetime<R: Read>(reader: &mut EventReader<R>) -> Result<DateTime<Utc>> {
-    match read_string_opt(reader)? {
+    match read_word_opt(reader)? {
         Some(string) => match string.parse::<DateTime<Utc>>() {
             Ok(datetime) => Ok(datetime),
             Err(err) => read_err(reader, format!("DateTime {}", err)),
@@ -175,7 +179,7 @@ pub fn read_i32<R: Read>(reader: &mut EventReader<R>) -> Result<i32> {
 
 /// Attempts to read an optional i32.
 pub fn read_i32_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<i32>> {
-    match read_string_opt(reader)? {
+    match read_word_opt(reader)? {
         Some(string) => match string.parse::<i32>() {
             Ok(num) => Ok(Some(num)),
             Err(err) => read_err(reader, format!("Number {}", err)),
@@ -216,27 +220,41 @@ pub fn read_string<R: Read>(reader: &mut EventReader<R>) -> Result<String> {
 
 /// Attempts to read an optional string key
 pub fn read_string_key_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<StringKey>> {
-    match read_string_opt(reader)? {
-        Some(string) => Ok(Some(StringKey::from_string(&string))),
-        None => Ok(None),
-    }
+    Ok(Some(StringKey::from_string(&read_string(reader)?)))
 }
 
 /// Attempts to read an optional string.
 pub fn read_string_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<String>> {
-    let event = reader.next()?;
-    match event {
-        reader::XmlEvent::Characters(val) => Ok(Some(val)),
-        reader::XmlEvent::EndElement { .. } => Ok(None),
-        _ => {
-            let _: Result<Option<String>> =
-                read_err(reader, "No characters found").map_err(|err| {
-                    eprintln!("{}", err);
-                    err
-                });
-            Ok(None)
+    let mut string = String::new();
+    loop {
+        match reader.next()? {
+            reader::XmlEvent::Characters(val)
+            | reader::XmlEvent::CData(val)
+            | reader::XmlEvent::Whitespace(val) => string.push_str(&val),
+            reader::XmlEvent::StartElement { .. } => skip(reader)?,
+            reader::XmlEvent::EndElement { .. } => break,
+            reader::XmlEvent::EndDocument => {
+                return read_err(reader, "Unexpected end of document");
+            }
+            _ => {}
         }
     }
+    if string.is_empty() {
+        Ok(None)
+    } else {
+        Ok(Some(string))
+    }
+}
+
+/// Attempts to read an optional word: a string in which the white space around it has no meaning.
+pub fn read_word_opt<R: Read>(reader: &mut EventReader<R>) -> Result<Option<String>> {
+    match read_string_opt(reader)? {
+        Some(string) => match string.trim() {
+            "" => Ok(None),
+            word => Ok(Some(String::from(word))),
+        },
+        None => Ok(None),
+    }
 }
 
 /// Attempts to read an optional string value.
-- 
2.43.0


From 146dac9755bdbf0f89dc0acc53353fcc8356dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 10/24] fix: write the custom icon of groups

---
 src/format/kdb2_xml_writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 7666e5f..abb5c7f 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -211,6 +211,7 @@ fn write_group_section<W: Write>(
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::GROUP_TAG)?;
     xml::write_uuid_tag(writer, kdb2::UUID_TAG, &group.uuid.0)?;
+    xml::write_custom_icon_uuid_tag(writer, kdb2::CUSTOM_ICON_UUID_TAG, &group.custom_icon_uuid)?;
     xml::write_string_tag(
         writer,
         kdb2::DEFAULT_AUTO_TYPE_SEQUENCE_TAG,
-- 
2.43.0


From 4e8a6e605b16cedcfd743e460f5a508fb3aecda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 11/24] fix: write booleans the way KeePass reads them

---
 src/format/xml.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index 18e3984..f667931 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -359,7 +359,10 @@ pub fn write_bool_opt_tag<W: Write>(
 
 /// Attempts to write a tag that contains boolean data.
 pub fn write_bool_tag<W: Write>(writer: &mut EventWriter<W>, tag: &str, value: bool) -> Result<()> {
-    write_bool_opt_tag(writer, tag, &Some(value))
+    match value {
+        false => write_string_tag(writer, tag, &String::from("False")),
+        true => write_string_tag(writer, tag, &String::from("True")),
+    }
 }
 
 /// Attempts to write a tag that contains an optional color.
-- 
2.43.0


From 015d3909ad2e12d15f7fab5419de5d0dac86755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 12/24] fix: refuse to write text with characters XML cannot
 represent

---
 src/format/kdb2_xml_writer.rs |  2 ++
 src/format/xml.rs             | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index abb5c7f..4202e02 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -104,6 +104,7 @@ fn write_binary_section<W: Write>(
             xml::write_end_tag(writer)?;
         }
         BinaryValue::Ref(ref binary_id) => {
+            xml::check_chars(&binary_id.0)?;
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Ref", binary_id.0.as_str());
             writer.write(tag)?;
@@ -119,6 +120,7 @@ fn write_binaries_section<W: Write>(
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::BINARIES_TAG)?;
     for (id, data) in binaries {
+        xml::check_chars(&id.0)?;
         let tag = XmlEvent::start_element(kdb2::BINARY_TAG);
         let tag = tag.attr("ID", id.0.as_str());
         let tag = tag.attr("Compressed", "True");
diff --git a/src/format/xml.rs b/src/format/xml.rs
index f667931..c9175a5 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -27,10 +27,18 @@ use secstr::SecStr;
 use std::io::{Read, Write};
 use uuid::Uuid;
 use xml::attribute::OwnedAttribute;
-use xml::common::Position;
+use xml::common::{is_xml10_char, Position};
 use xml::reader::{self, EventReader};
 use xml::writer::{self, EventWriter};
 
+/// Checks that XML can represent all the characters of the string.
+pub fn check_chars(value: &str) -> Result<()> {
+    match value.chars().find(|&c| !is_xml10_char(c)) {
+        Some(c) => Err(Error::XmlError(format!("Character not allowed in XML: {:?}", c))),
+        None => Ok(()),
+    }
+}
+
 /// Attempts to read binary data.
 pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
     match read_binary_opt(reader)? {
@@ -430,6 +438,7 @@ pub fn write_start_tag<W: Write>(writer: &mut EventWriter<W>, tag: &str) -> Resu
 
 /// Attempts to write string data.
 pub fn write_string<W: Write>(writer: &mut EventWriter<W>, value: &String) -> Result<()> {
+    check_chars(value)?;
     writer.write(value.as_str())?;
     Ok(())
 }
-- 
2.43.0


From cc8266ea67b0337306911f5c7a417daf2f7418b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 13/24] fix: escape carriage returns in text

---
 src/format/xml.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index c9175a5..e28d04c 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -439,7 +439,13 @@ pub fn write_start_tag<W: Write>(writer: &mut EventWriter<W>, tag: &str) -> Resu
 /// Attempts to write string data.
 pub fn write_string<W: Write>(writer: &mut EventWriter<W>, value: &String) -> Result<()> {
     check_chars(value)?;
-    writer.write(value.as_str())?;
+    for (index, part) in value.split('\r').enumerate() {
+        if index > 0 {
+            // As it is, it would be read as a line feed.
+            writer.inner_mut().write_all(b"&#xD;")?;
+        }
+        writer.write(part)?;
+    }
     Ok(())
 }
 
-- 
2.43.0


From 962d34bb66631f77c0629e92c22508ce8c883616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 14/24] fix: refuse to write protected strings that cannot be
 read again

---
 src/format/kdb2_xml_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 4202e02..02e40d3 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -21,6 +21,7 @@ use crate::types::CustomIconsMap;
 use crate::types::Database;
 use crate::types::Entry;
 use crate::types::EntryState;
+use crate::types::Error;
 use crate::types::Group;
 use crate::types::HeaderHash;
 use crate::types::Result;
@@ -344,6 +345,9 @@ fn write_string_section<W: Write>(
             xml::write_string_tag(writer, kdb2::VALUE_TAG, string)?;
         }
         StringValue::Protected(ref sec) => {
+            if std::str::from_utf8(sec.unsecure()).is_err() {
+                return Err(Error::XmlError(String::from("Protected string not valid UTF-8")));
+            }
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Protected", "True");
             writer.write(tag)?;
-- 
2.43.0


From e01993f28b801dc019c5030864ff9a4f21cb6fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 15/24] fix: limit the nesting of groups instead of exhausting
 the stack

---
 src/format/kdb2.rs            | 3 +++
 src/format/kdb2_xml_reader.rs | 8 ++++++--
 src/format/kdb2_xml_writer.rs | 8 ++++++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/format/kdb2.rs b/src/format/kdb2.rs
index dbfd03c..35b1193 100644
--- a/src/format/kdb2.rs
+++ b/src/format/kdb2.rs
@@ -16,6 +16,9 @@ pub const AES_CIPHER_ID: [u8; 16] = [
 /// The hash of the final block.
 pub const FINAL_BLOCK_HASH: [u8; 32] = [0; 32];
 
+/// The number of levels groups may be nested, so that handling them does not exhaust the stack.
+pub const MAX_GROUP_DEPTH: usize = 256;
+
 /// The identifier of the comment header.
 pub const COMMENT_HID: u8 = 1;
 
diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 28a2892..064d7cc 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -200,7 +200,7 @@ fn read_root<R: Read>(
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::GROUP_TAG => {
-                    data.root_group = Some(read_group(reader, cipher, GroupUuid::nil())?);
+                    data.root_group = Some(read_group(reader, cipher, GroupUuid::nil(), 1)?);
                 }
                 _ => xml::skip(reader)?,
             },
@@ -422,7 +422,11 @@ fn read_group<R: Read>(
     reader: &mut EventReader<R>,
     cipher: &mut Salsa20,
     parent: GroupUuid,
+    depth: usize,
 ) -> Result<Group> {
+    if depth > kdb2::MAX_GROUP_DEPTH {
+        return xml::read_err(reader, "Groups nested too deeply");
+    }
     let mut node = Group::default();
     node.parent = parent;
     loop {
@@ -451,7 +455,7 @@ fn read_group<R: Read>(
                 }
                 kdb2::GROUP_TAG => {
                     node.groups
-                        .push(read_group(reader, cipher, GroupUuid::nil())?);
+                        .push(read_group(reader, cipher, GroupUuid::nil(), depth + 1)?);
                 }
                 kdb2::ICON_ID_TAG => {
                     node.icon = xml::read_icon(reader)?;
diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 02e40d3..019e988 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -211,7 +211,11 @@ fn write_group_section<W: Write>(
     writer: &mut EventWriter<W>,
     cipher: &mut Salsa20,
     group: &Group,
+    depth: usize,
 ) -> Result<()> {
+    if depth > kdb2::MAX_GROUP_DEPTH {
+        return Err(Error::XmlError(String::from("Groups nested too deeply")));
+    }
     xml::write_start_tag(writer, kdb2::GROUP_TAG)?;
     xml::write_uuid_tag(writer, kdb2::UUID_TAG, &group.uuid.0)?;
     xml::write_custom_icon_uuid_tag(writer, kdb2::CUSTOM_ICON_UUID_TAG, &group.custom_icon_uuid)?;
@@ -234,7 +238,7 @@ fn write_group_section<W: Write>(
     }
 
     for subgroup in &group.groups {
-        write_group_section(writer, cipher, subgroup)?;
+        write_group_section(writer, cipher, subgroup, depth + 1)?;
     }
 
     xml::write_end_tag(writer)
@@ -327,7 +331,7 @@ fn write_root_section<W: Write>(
     cipher: &mut Salsa20,
 ) -> Result<()> {
     xml::write_start_tag(writer, kdb2::ROOT_TAG)?;
-    write_group_section(writer, cipher, &db.root_group)?;
+    write_group_section(writer, cipher, &db.root_group, 1)?;
     xml::write_end_tag(writer)
 }
 
-- 
2.43.0


From 3fcb1a31219d2e45ccdd4645a874de313a55aaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 16/24] fix: read line ends of other programs' files as line
 feeds

---
 src/format/kdb2_reader.rs |  2 ++
 src/format/xml.rs         | 17 +++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/format/kdb2_reader.rs b/src/format/kdb2_reader.rs
index bf7ab42..3dc01c1 100644
--- a/src/format/kdb2_reader.rs
+++ b/src/format/kdb2_reader.rs
@@ -10,6 +10,7 @@
 
 use super::kdb2;
 use super::kdb2_xml_reader;
+use super::xml;
 use crate::compression::gzip;
 use crate::crypto::aes256;
 use crate::crypto::sha256;
@@ -132,6 +133,7 @@ where
     }
 
     let xml_bytes = read_xml_bytes(&compression, &payload[32..])?;
+    let xml_bytes = xml::normalize_line_ends(&xml_bytes);
     let xml_data = kdb2_xml_reader::read(&mut Cursor::new(xml_bytes), &stream_key)?;
     let meta_data = MetaData {
         comment: comment,
diff --git a/src/format/xml.rs b/src/format/xml.rs
index e28d04c..a0b850d 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -39,6 +39,23 @@ pub fn check_chars(value: &str) -> Result<()> {
     }
 }
 
+/// Turns all line ends into line feeds, as XML prescribes before parsing a document.
+pub fn normalize_line_ends(bytes: &[u8]) -> Vec<u8> {
+    let mut result = Vec::with_capacity(bytes.len());
+    let mut iter = bytes.iter().peekable();
+    while let Some(&byte) = iter.next() {
+        if byte == b'\r' {
+            if iter.peek() == Some(&&b'\n') {
+                iter.next();
+            }
+            result.push(b'\n');
+        } else {
+            result.push(byte);
+        }
+    }
+    result
+}
+
 /// Attempts to read binary data.
 pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
     match read_binary_opt(reader)? {
-- 
2.43.0


From 1cd225f2589aa59fdd4a955d3c8d3613702da2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 17/24] fix: limit the nesting of skipped elements, whose cost
 grows with its square

---
 src/format/xml.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/format/xml.rs b/src/format/xml.rs
index a0b850d..6609ec6 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -31,6 +31,9 @@ use xml::common::{is_xml10_char, Position};
 use xml::reader::{self, EventReader};
 use xml::writer::{self, EventWriter};
 
+/// The maximum nesting of elements that are skipped.
+const MAX_SKIP_DEPTH: usize = 1000;
+
 /// Checks that XML can represent all the characters of the string.
 pub fn check_chars(value: &str) -> Result<()> {
     match value.chars().find(|&c| !is_xml10_char(c)) {
@@ -340,10 +343,16 @@ pub fn search_attr_value(attrs: &Vec<OwnedAttribute>, name: &str) -> Option<Stri
 }
 
 /// Skips the rest of the current element, including all the elements in it.
+///
+/// The XML parser's work per element grows with the number of open elements, so the nesting is
+/// limited to keep the time proportional to the size of the document.
 pub fn skip<R: Read>(reader: &mut EventReader<R>) -> Result<()> {
     let mut depth = 1;
     while depth > 0 {
         match reader.next()? {
+            reader::XmlEvent::StartElement { .. } if depth == MAX_SKIP_DEPTH => {
+                return read_err(reader, "Elements nested too deeply");
+            }
             reader::XmlEvent::StartElement { .. } => depth += 1,
             reader::XmlEvent::EndElement { .. } => depth -= 1,
             reader::XmlEvent::EndDocument => {
-- 
2.43.0


From 7126acf8ecfbab580f0a3388b47543e66e42f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 18/24] fix: find text that ends in a capital sigma

---
 src/types/database.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/types/database.rs b/src/types/database.rs
index 1f2756d..b1a8052 100644
--- a/src/types/database.rs
+++ b/src/types/database.rs
@@ -229,7 +229,7 @@ impl Database {
     /// ```
     pub fn find_entries<'a, S: Into<String>>(&'a self, text: S) -> Vec<&'a Entry> {
         let mut list = Vec::new();
-        let text = &text.into().to_lowercase();
+        let text = &fold_case(&text.into());
         for group in self.root_group.iter() {
             for entry in group.entries.iter() {
                 if entry_contains_string(entry, text) {
@@ -264,7 +264,7 @@ impl Database {
     /// ```
     pub fn find_entries_mut<'a, S: Into<String>>(&'a mut self, text: S) -> Vec<&'a mut Entry> {
         let mut list = Vec::new();
-        let text = &text.into().to_lowercase();
+        let text = &fold_case(&text.into());
         for group in self.root_group.iter_mut() {
             for entry in group.entries.iter_mut() {
                 if entry_contains_string(entry, text) {
@@ -294,10 +294,10 @@ impl Database {
     /// assert_eq!(result.len(), 0);
     /// ```
     pub fn find_groups<'a, S: Into<String>>(&'a self, name: S) -> Vec<&'a Group> {
-        let name = &name.into().to_lowercase();
+        let name = &fold_case(&name.into());
         self.root_group
             .iter()
-            .filter(|g| g.name.to_lowercase().contains(name))
+            .filter(|g| fold_case(&g.name).contains(name))
             .collect::<Vec<&'a Group>>()
     }
 
@@ -317,10 +317,10 @@ impl Database {
     /// assert_eq!(result.len(), 1);
     /// ```
     pub fn find_groups_mut<'a, S: Into<String>>(&'a mut self, name: S) -> Vec<&'a mut Group> {
-        let name = &name.into().to_lowercase();
+        let name = &fold_case(&name.into());
         self.root_group
             .iter_mut()
-            .filter(|g| g.name.to_lowercase().contains(name))
+            .filter(|g| fold_case(&g.name).contains(name))
             .collect::<Vec<&'a mut Group>>()
     }
 
@@ -541,11 +541,17 @@ impl Database {
     }
 }
 
+/// Maps text to the form in which it is compared ignoring case. The lower case of a capital sigma
+/// depends on its place in a word, so both of its forms are treated as one.
+fn fold_case(text: &str) -> String {
+    text.to_lowercase().replace('ς', "σ")
+}
+
 fn entry_contains_string(entry: &Entry, name: &String) -> bool {
     for value in entry.strings.values() {
         match *value {
             StringValue::Plain(ref string) => {
-                if string.to_lowercase().contains(name) {
+                if fold_case(string).contains(name) {
                     return true;
                 }
             }
-- 
2.43.0


From 02065e4ff79dca0daa73b697bb584d8f44ba11d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:47 +0000
Subject: [PATCH 19/24] fix: decrypt protected attachments of the binaries pool
 when reading

Other programs write attachments that are protected in memory with
Protected="True", encrypted with the inner stream. They were read without
decryption, and every protected value after them came out as garbage.
---
 src/format/kdb2_xml_reader.rs | 20 +++++++++++++++-----
 src/format/xml.rs             |  3 ++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 064d7cc..e57a642 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -70,7 +70,7 @@ fn read_kee_pass_file<R: Read>(
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::META_TAG => {
-                    read_meta(reader, data)?;
+                    read_meta(reader, data, cipher)?;
                 }
                 kdb2::ROOT_TAG => {
                     read_root(reader, data, cipher)?;
@@ -91,13 +91,17 @@ fn read_kee_pass_file<R: Read>(
     Ok(())
 }
 
-fn read_meta<R: Read>(reader: &mut EventReader<R>, data: &mut XmlData) -> Result<()> {
+fn read_meta<R: Read>(
+    reader: &mut EventReader<R>,
+    data: &mut XmlData,
+    cipher: &mut Salsa20,
+) -> Result<()> {
     loop {
         let event = reader.next()?;
         match event {
             XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
                 kdb2::BINARIES_TAG => {
-                    data.binaries = read_binaries(reader)?;
+                    data.binaries = read_binaries(reader, cipher)?;
                 }
                 kdb2::COLOR_TAG => {
                     data.color = xml::read_color_opt(reader)?;
@@ -218,7 +222,10 @@ fn read_root<R: Read>(
     Ok(())
 }
 
-fn read_binaries<R: Read>(reader: &mut EventReader<R>) -> Result<BinariesMap> {
+fn read_binaries<R: Read>(
+    reader: &mut EventReader<R>,
+    cipher: &mut Salsa20,
+) -> Result<BinariesMap> {
     let mut map = BinariesMap::new();
     loop {
         let event = reader.next()?;
@@ -229,7 +236,10 @@ fn read_binaries<R: Read>(reader: &mut EventReader<R>) -> Result<BinariesMap> {
                 kdb2::BINARY_TAG => {
                     let id = BinaryId(get_id_attr_value(reader, &attributes)?);
                     let compressed = get_compressed_attr_value(reader, &attributes)?;
-                    let bytes = if compressed {
+                    let protected = xml::get_protected_attr_value(reader, &attributes)?;
+                    let bytes = if protected {
+                        salsa20::decrypt(cipher, &xml::read_binary(reader)?)
+                    } else if compressed {
                         xml::read_gzip(reader)?
                     } else {
                         xml::read_binary(reader)?
diff --git a/src/format/xml.rs b/src/format/xml.rs
index 6609ec6..d5dfe77 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -505,7 +505,8 @@ fn get_protect_in_memory_attr_value<R: Read>(
     }
 }
 
-fn get_protected_attr_value<R: Read>(
+/// Gets the value of the Protected attribute.
+pub fn get_protected_attr_value<R: Read>(
     reader: &mut EventReader<R>,
     attrs: &Vec<OwnedAttribute>,
 ) -> Result<bool> {
-- 
2.43.0


From 2a7f5e69bc56a7387f36eb9fcea0988e87db207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:10 +0000
Subject: [PATCH 20/24] fix: read attachments compressed inside their entry

The Compressed attribute was only looked at in the binaries pool, though other
programs use it on values within entries as well; the compressed bytes were
taken for the attachment.
---
 src/format/kdb2_xml_reader.rs | 15 +--------------
 src/format/xml.rs             | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index e57a642..f4edd0e 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -235,7 +235,7 @@ fn read_binaries<R: Read>(
             } => match name.local_name.as_str() {
                 kdb2::BINARY_TAG => {
                     let id = BinaryId(get_id_attr_value(reader, &attributes)?);
-                    let compressed = get_compressed_attr_value(reader, &attributes)?;
+                    let compressed = xml::get_compressed_attr_value(reader, &attributes)?;
                     let protected = xml::get_protected_attr_value(reader, &attributes)?;
                     let bytes = if protected {
                         salsa20::decrypt(cipher, &xml::read_binary(reader)?)
@@ -828,19 +828,6 @@ where
     Ok(())
 }
 
-fn get_compressed_attr_value<R: Read>(
-    reader: &mut EventReader<R>,
-    attrs: &Vec<OwnedAttribute>,
-) -> Result<bool> {
-    match xml::search_attr_value(attrs, "compressed") {
-        Some(val) => match val.to_lowercase().parse::<bool>() {
-            Ok(val) => Ok(val),
-            Err(_) => xml::read_err(reader, "Attribute Compressed invalid value"),
-        },
-        None => Ok(false),
-    }
-}
-
 fn get_id_attr_value<R: Read>(
     reader: &mut EventReader<R>,
     attrs: &Vec<OwnedAttribute>,
diff --git a/src/format/xml.rs b/src/format/xml.rs
index d5dfe77..dd7dfe8 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -94,12 +94,14 @@ pub fn read_binary_value_opt<R: Read>(
     attrs: &Vec<OwnedAttribute>,
 ) -> Result<Option<BinaryValue>> {
     let ref_value = search_attr_value(attrs, "ref");
+    let compressed = get_compressed_attr_value(reader, attrs)?;
     let protected = get_protected_attr_value(reader, attrs)?;
     match ref_value {
         Some(string) => {
             skip(reader)?;
             Ok(Some(BinaryValue::Ref(BinaryId(string))))
         }
+        None if compressed && !protected => Ok(Some(BinaryValue::Plain(read_gzip(reader)?))),
         None => match read_binary_opt(reader)? {
             Some(bytes) => {
                 if protected {
@@ -505,6 +507,20 @@ fn get_protect_in_memory_attr_value<R: Read>(
     }
 }
 
+/// Gets the value of the Compressed attribute.
+pub fn get_compressed_attr_value<R: Read>(
+    reader: &mut EventReader<R>,
+    attrs: &Vec<OwnedAttribute>,
+) -> Result<bool> {
+    match search_attr_value(attrs, "compressed") {
+        Some(val) => match val.to_lowercase().parse::<bool>() {
+            Ok(val) => Ok(val),
+            Err(_) => read_err(reader, "Attribute Compressed invalid value"),
+        },
+        None => Ok(false),
+    }
+}
+
 /// Gets the value of the Protected attribute.
 pub fn get_protected_attr_value<R: Read>(
     reader: &mut EventReader<R>,
-- 
2.43.0


From 3ab3e24cc0b4e55a334dfbb5cdb668232bcf79f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:17 +0000
Subject: [PATCH 21/24] fix: refuse XML documents with more than one root
 element

---
 src/format/kdb2_xml_reader.rs | 2 +-
 src/format/kf_reader.rs       | 2 +-
 src/format/xml.rs             | 9 ++++++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index f4edd0e..65ba4e7 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -37,7 +37,7 @@ use std::io::Read;
 /// Attempts to read the XML data from the reader.
 pub fn read<R: Read>(reader: &mut R, stream_key: &StreamKey) -> Result<XmlData> {
     let mut data = XmlData::default();
-    let mut reader = EventReader::new(reader);
+    let mut reader = xml::new_reader(reader);
     let mut cipher = salsa20::new_cipher(stream_key);
     loop {
         let event = reader.next()?;
diff --git a/src/format/kf_reader.rs b/src/format/kf_reader.rs
index 8c0b577..409a674 100644
--- a/src/format/kf_reader.rs
+++ b/src/format/kf_reader.rs
@@ -45,7 +45,7 @@ fn read_hex(data: Vec<u8>) -> Result<KeyFile> {
 
 fn read_xml<R: Read>(reader: &mut R) -> Result<KeyFile> {
     let mut opt_key: Option<SecStr> = None;
-    let mut reader = EventReader::new(reader);
+    let mut reader = xml::new_reader(reader);
     loop {
         let event = reader.next()?;
         match event {
diff --git a/src/format/xml.rs b/src/format/xml.rs
index dd7dfe8..7417045 100644
--- a/src/format/xml.rs
+++ b/src/format/xml.rs
@@ -28,7 +28,7 @@ use std::io::{Read, Write};
 use uuid::Uuid;
 use xml::attribute::OwnedAttribute;
 use xml::common::{is_xml10_char, Position};
-use xml::reader::{self, EventReader};
+use xml::reader::{self, EventReader, ParserConfig};
 use xml::writer::{self, EventWriter};
 
 /// The maximum nesting of elements that are skipped.
@@ -59,6 +59,13 @@ pub fn normalize_line_ends(bytes: &[u8]) -> Vec<u8> {
     result
 }
 
+/// Creates a new XML reader that accepts a single root element only.
+pub fn new_reader<R: Read>(source: R) -> EventReader<R> {
+    ParserConfig::new()
+        .allow_multiple_root_elements(false)
+        .create_reader(source)
+}
+
 /// Attempts to read binary data.
 pub fn read_binary<R: Read>(reader: &mut EventReader<R>) -> Result<Vec<u8>> {
     match read_binary_opt(reader)? {
-- 
2.43.0


From c646e84fc0d5143f81e2111b3e67b0872e5233b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:33 +0000
Subject: [PATCH 22/24] fix: read all members of gzip compressed data

---
 src/compression/gzip.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compression/gzip.rs b/src/compression/gzip.rs
index d3b74be..9fae941 100644
--- a/src/compression/gzip.rs
+++ b/src/compression/gzip.rs
@@ -7,7 +7,7 @@
 // except according to those terms.
 
 use crate::types::Result;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use flate2::write::GzEncoder;
 use flate2::Compression;
 use std::io::{Read, Write};
@@ -15,7 +15,7 @@ use std::io::{Read, Write};
 /// Decode (decompress) the input using GZip.
 pub fn decode(input: &[u8]) -> Result<Vec<u8>> {
     let mut output = Vec::new();
-    let mut decoder = GzDecoder::new(input);
+    let mut decoder = MultiGzDecoder::new(input);
     decoder.read_to_end(&mut output)?;
     Ok(output)
 }
-- 
2.43.0


From 5c904b15f5942bb955711c40499db47e5eeddf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:22 +0000
Subject: [PATCH 23/24] fix: pass on errors inside auto-type associations

---
 src/format/kdb2_xml_reader.rs | 66 +++++++++++++++++------------------
 1 file changed, 32 insertions(+), 34 deletions(-)

diff --git a/src/format/kdb2_xml_reader.rs b/src/format/kdb2_xml_reader.rs
index 65ba4e7..8ce60ce 100644
--- a/src/format/kdb2_xml_reader.rs
+++ b/src/format/kdb2_xml_reader.rs
@@ -31,6 +31,7 @@ use crate::types::StringValue;
 use crate::types::Times;
 use crate::types::XmlData;
 use rust_xml::attribute::OwnedAttribute;
+use rust_xml::common::Position;
 use rust_xml::reader::{EventReader, XmlEvent};
 use std::io::Read;
 
@@ -589,27 +590,23 @@ fn read_auto_type<R: Read>(reader: &mut EventReader<R>, node: &mut Entry) -> Res
     loop {
         let event = reader.next()?;
         match event {
-            XmlEvent::StartElement { name, .. } =>
-            {
-                #[allow(unused_must_use)]
-                match name.local_name.as_str() {
-                    kdb2::ASSOCIATION_TAG => {
-                        read_association(reader)
-                            .map(|x| node.associations.push(x))
-                            .map_err(|err| eprintln!("{}", err));
-                    }
-                    kdb2::DATA_TRANSFER_OBFUSCATION_TAG => {
-                        node.auto_type_obfuscation = xml::read_obfuscation(reader)?;
-                    }
-                    kdb2::DEFAULT_SEQUENCE_TAG => {
-                        node.auto_type_def_sequence = xml::read_string(reader)?;
-                    }
-                    kdb2::ENABLED_TAG => {
-                        node.auto_type_enabled = xml::read_bool(reader)?;
+            XmlEvent::StartElement { name, .. } => match name.local_name.as_str() {
+                kdb2::ASSOCIATION_TAG => {
+                    if let Some(association) = read_association(reader)? {
+                        node.associations.push(association);
                     }
-                    _ => xml::skip(reader)?,
                 }
-            }
+                kdb2::DATA_TRANSFER_OBFUSCATION_TAG => {
+                    node.auto_type_obfuscation = xml::read_obfuscation(reader)?;
+                }
+                kdb2::DEFAULT_SEQUENCE_TAG => {
+                    node.auto_type_def_sequence = xml::read_string(reader)?;
+                }
+                kdb2::ENABLED_TAG => {
+                    node.auto_type_enabled = xml::read_bool(reader)?;
+                }
+                _ => xml::skip(reader)?,
+            },
 
             XmlEvent::EndElement { name, .. } => {
                 if name.local_name == kdb2::AUTO_TYPE_TAG {
@@ -623,7 +620,8 @@ fn read_auto_type<R: Read>(reader: &mut EventReader<R>, node: &mut Entry) -> Res
     Ok(())
 }
 
-fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association> {
+/// Attempts to read an association, None if a part of it is missing.
+fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Option<Association>> {
     let mut keystroke: Option<String> = None;
     let mut window: Option<String> = None;
     loop {
@@ -649,20 +647,20 @@ fn read_association<R: Read>(reader: &mut EventReader<R>) -> Result<Association>
         }
     }
 
-    let keystroke = match keystroke {
-        Some(k) => k,
-        None => return xml::read_err(reader, "KeystrokeSequence element not found"),
-    };
-
-    let window = match window {
-        Some(w) => w,
-        None => return xml::read_err(reader, "Window element not found"),
-    };
-
-    Ok(Association {
-        keystroke_sequence: keystroke,
-        window: window,
-    })
+    match (keystroke, window) {
+        (Some(keystroke), Some(window)) => Ok(Some(Association {
+            keystroke_sequence: keystroke,
+            window: window,
+        })),
+        (None, _) => {
+            eprintln!("{} KeystrokeSequence element not found", reader.position());
+            Ok(None)
+        }
+        (_, None) => {
+            eprintln!("{} Window element not found", reader.position());
+            Ok(None)
+        }
+    }
 }
 
 fn read_binary<R: Read>(
-- 
2.43.0


From 1f537a2c0ca2f99c97293dec82d7d39bc571c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:14 +0000
Subject: [PATCH 24/24] fix: leave no copy of a protected value behind when
 saving

---
 src/crypto/salsa20.rs         | 4 ++--
 src/format/kdb2_xml_writer.rs | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/crypto/salsa20.rs b/src/crypto/salsa20.rs
index ab61351..72c1f08 100644
--- a/src/crypto/salsa20.rs
+++ b/src/crypto/salsa20.rs
@@ -19,7 +19,7 @@ pub fn decrypt(cipher: &mut Salsa20, input: &Vec<u8>) -> Vec<u8> {
 }
 
 /// Encrypt the input using the Salsa20 stream cipher.
-pub fn encrypt(cipher: &mut Salsa20, input: &Vec<u8>) -> Vec<u8> {
+pub fn encrypt(cipher: &mut Salsa20, input: &[u8]) -> Vec<u8> {
     process(cipher, input)
 }
 
@@ -28,7 +28,7 @@ pub fn new_cipher(key: &StreamKey) -> Salsa20 {
     Salsa20::new(&key.unpack(), &SALSA20_NOUNCE)
 }
 
-fn process(cipher: &mut Salsa20, input: &Vec<u8>) -> Vec<u8> {
+fn process(cipher: &mut Salsa20, input: &[u8]) -> Vec<u8> {
     let mut output = vec![0; input.len()];
     cipher.process(input, &mut output);
     output
diff --git a/src/format/kdb2_xml_writer.rs b/src/format/kdb2_xml_writer.rs
index 019e988..c22607b 100644
--- a/src/format/kdb2_xml_writer.rs
+++ b/src/format/kdb2_xml_writer.rs
@@ -99,8 +99,7 @@ fn write_binary_section<W: Write>(
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Protected", "True");
             writer.write(tag)?;
-            let plain = sec.unsecure().to_vec();
-            let encrypted = salsa20::encrypt(cipher, &plain);
+            let encrypted = salsa20::encrypt(cipher, sec.unsecure());
             xml::write_binary(writer, encrypted.as_slice())?;
             xml::write_end_tag(writer)?;
         }
@@ -355,8 +354,7 @@ fn write_string_section<W: Write>(
             let tag = XmlEvent::start_element(kdb2::VALUE_TAG);
             let tag = tag.attr("Protected", "True");
             writer.write(tag)?;
-            let plain = sec.unsecure().to_vec();
-            let encrypted = salsa20::encrypt(cipher, &plain);
+            let encrypted = salsa20::encrypt(cipher, sec.unsecure());
             xml::write_binary(writer, encrypted.as_slice())?;
             xml::write_end_tag(writer)?;
         }
-- 
2.43.0

