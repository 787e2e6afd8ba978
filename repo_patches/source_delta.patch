From 8e3057f946f156d59cde780f304d9a811101f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:18:51 +0000
Subject: [PATCH 01/34] fix: record only the header bytes a short read returned

A reader that returns fewer bytes than asked for (a pipe or socket) made
the header cache also record the unread part of the buffer. The header
checksum then failed on an intact file.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9098635..54a2eff 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -49,7 +49,7 @@ where
 impl<'a, I: io::Read> io::Read for CachingReader<'a, I> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let size = self.inner.read(buf)?;
-        self.data.extend(buf.iter().cloned());
+        self.data.extend_from_slice(&buf[..size]);
         Ok(size)
     }
 }
-- 
2.43.0


From 88a606b6d0142a91806a09d3fcefe2dcca270127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:18:51 +0000
Subject: [PATCH 02/34] fix: write databases whose ciphertext fills an HMAC
 block exactly

When the block buffer was exactly full the next write accepted zero
bytes. Callers treat that as a failed write, so no database over 1 MiB
could be saved with a block cipher.
---
 src/stream/hmac.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index a7ea352..297986f 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -121,6 +121,10 @@ where
 
 impl<'a, W: 'a + io::Write> io::Write for HmacWriter<'a, W> {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        if self.buffer.len() == HMAC_WRITE_BLOCK_SIZE {
+            // Internal buffer full, write it out
+            self.write_block()?;
+        }
         let space_in_buffer = HMAC_WRITE_BLOCK_SIZE - self.buffer.len();
         let write_size = usize::min(buf.len(), space_in_buffer);
         self.buffer.extend_from_slice(&buf[0..write_size]);
-- 
2.43.0


From 4a8793cca0d0fe5c2ec5f5d1d8c86915b349b9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:18:52 +0000
Subject: [PATCH 03/34] fix: do not end the HMAC block stream on an empty flush

The gzip encoder flushes its output about every MiB of input. A flush
with nothing buffered wrote an empty block, which marks the end of the
stream, so the saved database could not be read back.
---
 src/stream/hmac.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index 297986f..cec1404 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -137,7 +137,10 @@ impl<'a, W: 'a + io::Write> io::Write for HmacWriter<'a, W> {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.write_block()?;
+        // An empty block marks the end of the stream, so never flush one
+        if !self.buffer.is_empty() {
+            self.write_block()?;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 3b3de624b22862e34f2ddcf7ba77fb169056615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:06 +0000
Subject: [PATCH 04/34] fix: stop reading CBC data at the start of the padding

Once the last block was partly consumed the reader went on to return its
padding bytes as data. The decrypted XML of an uncompressed database
ended in padding.
---
 src/stream/block_cipher.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stream/block_cipher.rs b/src/stream/block_cipher.rs
index 3fc9e8a..9d9b084 100644
--- a/src/stream/block_cipher.rs
+++ b/src/stream/block_cipher.rs
@@ -19,6 +19,7 @@ where
     inner: R,
     buffer: GenericArray<u8, C::BlockSize>,
     buf_idx: usize,
+    buf_len: usize,
     cipher: cbc::Decryptor<C>,
     first_read: bool,
     peek_byte: Option<u8>,
@@ -39,6 +40,7 @@ where
             cipher: cbc::Decryptor::new_from_slices(&key.0, iv)?,
             buffer: GenericArray::default(),
             buf_idx: 0,
+            buf_len: 0,
             first_read: true,
             peek_byte: None,
         })
@@ -107,10 +109,11 @@ where
     C: BlockCipher + BlockDecryptMut,
 {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        let mut remaining_in_buffer = self.buffer.len() - self.buf_idx;
+        let mut remaining_in_buffer = self.buf_len - self.buf_idx;
 
-        if remaining_in_buffer == 0 || self.first_read {
+        if remaining_in_buffer == 0 {
             remaining_in_buffer = self.buffer_next_block()?;
+            self.buf_len = remaining_in_buffer;
         }
         let copy_len = usize::min(remaining_in_buffer, buf.len());
         for (i, byte) in buf.iter_mut().enumerate().take(copy_len) {
-- 
2.43.0


From ff7a2d330a906e6ae00bb00080837a605724fafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:34 +0000
Subject: [PATCH 05/34] fix: refuse to derive a key for an unknown KDF

An unknown KDF produced an empty master key whatever the credentials
were. Such a database could be unlocked with any password, and saving one
encrypted it under a key anyone can compute.
---
 src/crypto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 0870566..3b2a6b0 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -107,7 +107,9 @@ impl ComposedKey {
 
                 Ok(MasterKey(transformed))
             }
-            _ => Ok(MasterKey(Vec::new())),
+            binary::KdfParams::Unknown { .. } => Err(KeyGenerationError::UnimplementedKdfOptions(
+                kdf_options.clone(),
+            )),
         }
     }
 }
-- 
2.43.0


From f2e37827ac90d19249e826f0cc8e09e779505740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:35 +0000
Subject: [PATCH 06/34] fix: reject Argon2 costs that do not fit the
 implementation

Memory and iteration counts above 32 bits were truncated. The key was
then derived with a much lower cost than the header states.
---
 src/crypto.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 3b2a6b0..158b67b 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -79,8 +79,10 @@ impl ComposedKey {
                     version: argon2::Version::from_u32(*version)
                         .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
                     lanes: *lanes,
-                    mem_cost: (memory_bytes / 1024) as u32,
-                    time_cost: *iterations as u32,
+                    mem_cost: u32::try_from(memory_bytes / 1024)
+                        .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
+                    time_cost: u32::try_from(*iterations)
+                        .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?,
                     ..Default::default()
                 };
                 let hash = argon2::hash_raw(&self.0, salt, &config)
-- 
2.43.0


From bddadb5e5900f80c1465aec67dcb2e236881650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:35 +0000
Subject: [PATCH 07/34] fix: report an AES KDF seed of the wrong length

A seed that is not 32 bytes long made unlocking panic.
---
 src/crypto.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 158b67b..3568f7e 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -92,7 +92,8 @@ impl ComposedKey {
             }
             binary::KdfParams::Aes { rounds, salt } => {
                 use cipher::KeyInit;
-                let mut cipher = Aes256::new_from_slice(salt).unwrap();
+                let mut cipher = Aes256::new_from_slice(salt)
+                    .map_err(|e| KeyGenerationError::KeyGeneration(e.to_string()))?;
                 let chunked: Vec<GenericArray<u8, _>> = self
                     .0
                     .chunks_exact(16)
-- 
2.43.0


From 0da1479ad9e83a21f74dfdf327c996210fc6e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:36 +0000
Subject: [PATCH 08/34] fix: report a ChaCha20 IV of the wrong length

An IV that is not 12 bytes long made unlocking and writing panic. The
default header has a 16 byte IV, so only changing its cipher was enough.
---
 src/stream/pipeline.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index 0d5981f..cbcea31 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -51,7 +51,12 @@ pub(crate) fn decryption_stream<'a, R: io::Read + 'a>(
             inner, cipher_key, iv,
         )?),
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).map_err(|_| {
+                io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    "Invalid cipher params - Could not create ChaCha20 stream",
+                )
+            })?;
             Box::new(super::StreamCipherReader::new(inner, cipher))
         }
         _ => {
@@ -243,7 +248,12 @@ pub(crate) fn kdbx4_write_stream<'a, W: 'a + io::Write>(
             block_cipher_write_stream::<Twofish, _>(verified, cipher_key, iv)?
         }
         binary::Cipher::ChaCha20 => {
-            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).unwrap();
+            let cipher = ChaCha20::new_from_slices(&cipher_key.0, iv).map_err(|_| {
+                io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    "Invalid cipher params - Could not create ChaCha20 stream",
+                )
+            })?;
             EncryptWrite::Stream(Box::new(super::StreamCipherWriter::new(verified, cipher)))
         }
         _ => {
-- 
2.43.0


From 3321213f2b100d93bb73474979a43d1ade02cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:36 +0000
Subject: [PATCH 09/34] fix: report a short transform rounds header

A KDBX 3 transform rounds field of fewer than 8 bytes made opening the
file panic.
---
 src/binary/header.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index 4de6ceb..2cf1824 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -266,34 +266,36 @@ impl KdbxHeaderBuilder {
         Ok(())
     }
 
-    fn get_kdf_params(&mut self) -> Option<header_fields::KdfParams> {
+    fn get_kdf_params(&mut self) -> Result<Option<header_fields::KdfParams>> {
         if self.kdf_params.is_some() {
-            self.kdf_params.take()
+            Ok(self.kdf_params.take())
         } else {
             let rounds = self
                 .other_headers
                 .iter()
                 .find(|h| h.ty == OuterHeaderId::LegacyTransformRounds)
                 .map(|h| {
-                    let mut buf = [0u8; 8];
-                    buf.clone_from_slice(&h.data[0..8]);
-                    u64::from_le_bytes(buf)
-                });
+                    let bytes = h.data.get(0..8).and_then(|d| d.try_into().ok());
+                    bytes.map(u64::from_le_bytes).ok_or_else(|| {
+                        Error::MalformedField(h.ty, "Wrong size for transform rounds".into())
+                    })
+                })
+                .transpose()?;
             let seed = self
                 .other_headers
                 .iter()
                 .find(|h| h.ty == OuterHeaderId::LegacyTransformSeed)
                 .map(|h| h.data.clone());
 
-            match (rounds, seed) {
+            Ok(match (rounds, seed) {
                 (Some(r), Some(s)) => Some(header_fields::KdfParams::Aes { rounds: r, salt: s }),
                 _ => None,
-            }
+            })
         }
     }
 
     fn build(mut self) -> Result<KdbxHeader> {
-        let kdf_params = self.get_kdf_params();
+        let kdf_params = self.get_kdf_params()?;
         Ok(KdbxHeader {
             cipher: self
                 .cipher
-- 
2.43.0


From 6af93f0503787df72ef6cd93ff0455cf67636b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:37 +0000
Subject: [PATCH 10/34] fix: report a short inner stream cipher ID

An inner stream cipher ID of fewer than 4 bytes made unlocking panic, in
both the KDBX 4 inner header and the KDBX 3 outer header.
---
 src/binary/header.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index 2cf1824..75d1d9c 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -435,6 +435,16 @@ impl KdbxHeader {
     }
 }
 
+fn inner_stream_cipher_id(data: &[u8]) -> Result<u32> {
+    let bytes = data.get(0..4).and_then(|d| d.try_into().ok());
+    bytes.map(u32::from_le_bytes).ok_or_else(|| {
+        Error::MalformedField(
+            OuterHeaderId::InnerRandomStreamId,
+            "Wrong size for inner stream cipher ID".into(),
+        )
+    })
+}
+
 #[derive(Default)]
 pub struct KdbxInnerHeaderBuilder {
     pub inner_stream_cipher: Option<header_fields::InnerStreamCipherAlgorithm>,
@@ -447,9 +457,7 @@ impl KdbxInnerHeaderBuilder {
     fn add_header(&mut self, header: HeaderField<InnerHeaderId>) -> Result<()> {
         match header.ty {
             InnerHeaderId::InnerRandomStreamCipherId => {
-                let d = header.data;
-                self.inner_stream_cipher =
-                    Some(u32::from_le_bytes([d[0], d[1], d[2], d[3]]).into());
+                self.inner_stream_cipher = Some(inner_stream_cipher_id(&header.data)?.into());
             }
             InnerHeaderId::InnerRandomStreamKey => self.inner_stream_key = Some(header.data),
             _ => self.other_headers.push(header),
@@ -503,9 +511,7 @@ impl KdbxInnerHeader {
             ))?
             .data
             .clone();
-        let mut cipher_id_buf = [0u8; 4];
-        cipher_id_buf.clone_from_slice(&cipher[0..4]);
-        let cipher_id = u32::from_le_bytes(cipher_id_buf);
+        let cipher_id = inner_stream_cipher_id(cipher)?;
 
         Ok(KdbxInnerHeader {
             inner_stream_cipher: cipher_id.into(),
-- 
2.43.0


From 195c10c402342e71debcf862556f39cf32b6acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:19:37 +0000
Subject: [PATCH 11/34] fix: report missing KDBX 3 stream start bytes

A KDBX 3 header without stream start bytes made unlocking panic.
---
 src/binary/kdbx.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 6059ae6..2c1ca77 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -343,7 +343,9 @@ impl Kdbx<Locked> {
             self.state.header.cipher,
             &self.state.header.encryption_iv,
             self.state.header.compression_type,
-            self.header().stream_start_bytes.as_ref().unwrap(),
+            self.header().stream_start_bytes.as_ref().ok_or(
+                errors::HeaderError::MissingRequiredField(header::OuterHeaderId::StreamStartBytes),
+            )?,
         )?;
         let inner_header = header::KdbxInnerHeader::from_legacy_fields(&self.state.header)?;
         let mut output_buffer = Vec::new();
-- 
2.43.0


From 273d9462923debee97fc28c45c3e539da5d9d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:00 +0000
Subject: [PATCH 12/34] fix: do not allocate memory for data that is not in the
 file

Field, dictionary and block lengths were trusted before the data was
read. A file of a few bytes could ask for 4 GiB, and a negative
dictionary length panicked.
---
 src/binary/header.rs       |  8 ++------
 src/binary/variant_dict.rs | 15 +++++----------
 src/stream/hmac.rs         |  8 ++++----
 src/stream/kdbx3.rs        |  8 ++++----
 src/utils.rs               | 15 ++++++++++++++-
 5 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index 75d1d9c..bbc94f7 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -184,13 +184,9 @@ where
             self.reader.read_exact(&mut len_buffer)?;
             u16::from_le_bytes(len_buffer) as u32
         };
-        let mut header_buffer = utils::buffer(len as usize);
-        self.reader.read_exact(&mut header_buffer)?;
+        let data = utils::read_vec(self.reader, len)?;
 
-        Ok(HeaderField {
-            ty,
-            data: header_buffer,
-        })
+        Ok(HeaderField { ty, data })
     }
 
     pub(crate) fn read_all_headers(&mut self, major_version: u16) -> Result<Vec<HeaderField<T>>> {
diff --git a/src/binary/variant_dict.rs b/src/binary/variant_dict.rs
index 7e4e078..f5b6c03 100644
--- a/src/binary/variant_dict.rs
+++ b/src/binary/variant_dict.rs
@@ -1,4 +1,4 @@
-use crate::utils::buffer;
+use crate::utils::read_vec;
 use derive_more::TryInto;
 use std::collections::HashMap;
 use std::io::{self, Read};
@@ -150,17 +150,12 @@ fn parse_variant_dict_entry<T: Read>(ty: u8, input: &mut T) -> Result<(String, V
     let mut length_buffer = [0u8; 4];
 
     input.read_exact(&mut length_buffer)?;
-    let key_length = i32::from_le_bytes(length_buffer);
-    let mut key_buffer: Vec<u8> = buffer(key_length as usize);
-    input.read_exact(&mut key_buffer)?;
-    let key = String::from_utf8(key_buffer)?;
+    let key_length = u32::from_le_bytes(length_buffer);
+    let key = String::from_utf8(read_vec(input, key_length)?)?;
 
     input.read_exact(&mut length_buffer)?;
-    let value_length = i32::from_le_bytes(length_buffer);
-    let mut value_buffer: Vec<u8> = buffer(value_length as usize);
-    input.read_exact(&mut value_buffer)?;
-
-    let value = Value::from_bytes(ty, value_buffer)?;
+    let value_length = u32::from_le_bytes(length_buffer);
+    let value = Value::from_bytes(ty, read_vec(input, value_length)?)?;
 
     Ok((key, value))
 }
diff --git a/src/stream/hmac.rs b/src/stream/hmac.rs
index cec1404..d37638e 100644
--- a/src/stream/hmac.rs
+++ b/src/stream/hmac.rs
@@ -1,6 +1,7 @@
 pub const HMAC_WRITE_BLOCK_SIZE: usize = 1024 * 1024;
 
 use crate::crypto::HmacKey;
+use crate::utils::read_vec;
 use std::io::{self, Read, Write};
 
 pub(crate) struct HMacReader<R>
@@ -30,9 +31,8 @@ impl<R: io::Read> HMacReader<R> {
         self.inner.read_exact(&mut hmac)?;
         let mut len_buffer = [0u8; 4];
         self.inner.read_exact(&mut len_buffer)?;
-        let len = u32::from_le_bytes(len_buffer) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
+        let len = u32::from_le_bytes(len_buffer);
+        self.buffer = read_vec(&mut self.inner, len)?;
         if !self
             .hmac_key
             .block_key(self.block_idx)
@@ -45,7 +45,7 @@ impl<R: io::Read> HMacReader<R> {
         }
         self.buf_idx = 0;
         self.block_idx += 1;
-        Ok(len)
+        Ok(len as usize)
     }
 }
 
diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index 3d256cc..c2df89a 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -1,4 +1,5 @@
 use crate::crypto;
+use crate::utils::read_vec;
 use std::io::{self, Read};
 
 pub struct HashedBlockReader<R>
@@ -29,12 +30,11 @@ where
         self.inner.read_exact(&mut hash_buf)?;
         let mut len_buf = [0u8; 4];
         self.inner.read_exact(&mut len_buf)?;
-        let len = u32::from_le_bytes(len_buf) as usize;
-        self.buffer.resize_with(len, Default::default);
-        self.inner.read_exact(&mut self.buffer)?;
+        let len = u32::from_le_bytes(len_buf);
+        self.buffer = read_vec(&mut self.inner, len)?;
         self.buf_idx = 0;
         if crypto::verify_sha256(&self.buffer, &hash_buf) {
-            Ok(len)
+            Ok(len as usize)
         } else {
             Err(io::Error::new(
                 io::ErrorKind::InvalidData,
diff --git a/src/utils.rs b/src/utils.rs
index 54a2eff..41d2d3f 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,7 +1,7 @@
 //! Utilities to help working with kdbx-rs
 
 use std::fmt::Write;
-use std::io;
+use std::io::{self, Read};
 use uuid::Uuid;
 
 use crate::binary::KdfAlgorithm;
@@ -38,6 +38,19 @@ pub(crate) fn buffer(len: usize) -> Vec<u8> {
     v
 }
 
+/// Read exactly `len` bytes
+///
+/// The length usually comes from the input, so memory is only allocated for
+/// data that is really there.
+pub(crate) fn read_vec<R: io::Read>(input: &mut R, len: u32) -> io::Result<Vec<u8>> {
+    let mut data = Vec::new();
+    input.take(len.into()).read_to_end(&mut data)?;
+    if data.len() < len as usize {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
+    Ok(data)
+}
+
 pub(crate) struct CachingReader<'a, I>
 where
     I: io::Read,
-- 
2.43.0


From fb57ad8e2a7df0c9d67e17e6a8d1bc6611df3e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:59 +0000
Subject: [PATCH 13/34] fix: keep the header bytes when writing a locked
 archive

Writing a locked archive put its header fields in a different order, but
kept the HMAC of the original bytes, so the copy could never be unlocked.
Copies of KDBX 3 archives had a broken header. The original bytes are now
written. A header changed while locked cannot be signed, so writing it
reports the missing key.
---
 src/binary/header.rs |  9 +++++++++
 src/binary/kdbx.rs   | 17 ++++++++---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/binary/header.rs b/src/binary/header.rs
index bbc94f7..57d7d03 100644
--- a/src/binary/header.rs
+++ b/src/binary/header.rs
@@ -374,6 +374,15 @@ impl KdbxHeader {
         }
     }
 
+    /// Parse just the header fields, without verifying a checksum
+    pub(crate) fn parse<R: Read>(mut input: R, major_version: u16) -> Result<KdbxHeader> {
+        let mut header_builder = KdbxHeaderBuilder::default();
+        for header in HeaderParser::new(&mut input).read_all_headers(major_version)? {
+            header_builder.add_header(header)?;
+        }
+        header_builder.build()
+    }
+
     pub(crate) fn read<R: Read>(
         mut caching_reader: utils::CachingReader<R>,
         major_version: u16,
diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 2c1ca77..1588992 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -281,16 +281,15 @@ impl KdbxState for Locked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
-        let mut header_buf = Vec::new();
-        let header_writer = &mut header_buf as &mut dyn Write;
-        header_writer.write_all(&super::KEEPASS_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&super::KDBX_MAGIC_NUMBER.to_le_bytes())?;
-        header_writer.write_all(&self.minor_version.to_le_bytes())?;
-        header_writer.write_all(&self.major_version.to_le_bytes())?;
-        self.header.write(&mut header_buf)?;
-        output.write_all(&header_buf)?;
+        // The HMAC covers the exact bytes of the header. A changed header
+        // needs a new HMAC, which cannot be calculated without the key.
+        let original = header::KdbxHeader::parse(&self.header_data[12..], self.major_version);
+        if !matches!(original, Ok(header) if header == self.header) {
+            return Err(errors::WriteError::MissingKeys);
+        }
+        output.write_all(&self.header_data)?;
         if self.major_version >= 4 {
-            output.write_all(&crypto::sha256(&header_buf))?;
+            output.write_all(&crypto::sha256(&self.header_data))?;
             output.write_all(self.hmac.as_ref().unwrap())?;
         }
         output.write_all(&self.encrypted_data)?;
-- 
2.43.0


From 76599492c8cf23612bc622d7cbabdf924e2fe0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:59 +0000
Subject: [PATCH 14/34] fix: refuse to write unlocked KDBX 3 archives

KDBX 3 is supported for reading only. Writing an unlocked KDBX 3 archive
reported success, but put KDBX 4 data behind a KDBX 3 version number, and
the result could not be opened.
---
 src/binary/kdbx.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index 1588992..c5bb73c 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -141,6 +141,12 @@ impl KdbxState for Unlocked {
     }
 
     fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
+        if self.major_version < 4 {
+            return Err(errors::WriteError::Io(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "Writing kdbx 3 archives is not supported",
+            )));
+        }
         let master_key = self
             .master_key
             .as_ref()
-- 
2.43.0


From b0100e95f175fe8af1f026cf7e58e9c892be89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:59 +0000
Subject: [PATCH 15/34] fix: derive the key again when the KDF options changed

The master key was derived once, when the key was set or the archive
unlocked. Changing the KDF options in the header after that saved an
archive that its own credentials could not unlock. A failed set_key also
left the old and the new key mixed.
---
 src/binary/kdbx.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index c5bb73c..ef10723 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -90,6 +90,8 @@ pub struct Unlocked {
     pub(crate) composed_key: Option<crypto::ComposedKey>,
     /// Master key used to derive other keys
     pub(crate) master_key: Option<crypto::MasterKey>,
+    /// KDF options the master key was generated with
+    pub(crate) master_key_params: Option<super::KdfParams>,
     /// Unencrypted unparsed XML data
     pub(crate) xml_data: Option<Vec<u8>>,
     /// Actual password database data
@@ -147,10 +149,18 @@ impl KdbxState for Unlocked {
                 "Writing kdbx 3 archives is not supported",
             )));
         }
-        let master_key = self
-            .master_key
-            .as_ref()
-            .ok_or(errors::WriteError::MissingKeys)?;
+        let composed_key = self.composed_key.as_ref();
+        let rederived_key;
+        let master_key = match self.master_key.as_ref() {
+            Some(key) if self.master_key_params.as_ref() == Some(&self.header.kdf_params) => key,
+            _ => {
+                rederived_key = composed_key
+                    .ok_or(errors::WriteError::MissingKeys)?
+                    .master_key(&self.header.kdf_params)
+                    .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidInput, e))?;
+                &rederived_key
+            }
+        };
         let mut header_buf = Vec::new();
         let header_writer = &mut header_buf as &mut dyn Write;
         header_writer.write_all(&super::KEEPASS_MAGIC_NUMBER.to_le_bytes())?;
@@ -188,9 +198,11 @@ impl Kdbx<Unlocked> {
         &mut self,
         key: crypto::CompositeKey,
     ) -> Result<(), crate::errors::KeyGenerationError> {
-        self.state.composed_key = Some(key.composed());
-        let composed_key = self.state.composed_key.as_ref().unwrap();
-        self.state.master_key = Some(composed_key.master_key(&self.header().kdf_params)?);
+        let composed_key = key.composed();
+        let kdf_params = self.header().kdf_params.clone();
+        self.state.master_key = Some(composed_key.master_key(&kdf_params)?);
+        self.state.composed_key = Some(composed_key);
+        self.state.master_key_params = Some(kdf_params);
 
         Ok(())
     }
@@ -232,6 +244,7 @@ impl Kdbx<Unlocked> {
             xml_data: None,
             composed_key: None,
             master_key: None,
+            master_key_params: None,
             database,
         };
         Kdbx { state: unlocked }
@@ -379,6 +392,7 @@ impl Kdbx<Locked> {
             Ok((inner_header, data, db)) => Ok(Kdbx {
                 state: Unlocked {
                     inner_header,
+                    master_key_params: Some(self.state.header.kdf_params.clone()),
                     header: self.state.header,
                     major_version: self.state.major_version,
                     minor_version: self.state.minor_version,
@@ -419,6 +433,7 @@ impl Kdbx<Locked> {
                 Ok((inner_header, data, db)) => Ok(Kdbx {
                     state: Unlocked {
                         inner_header,
+                        master_key_params: Some(self.state.header.kdf_params.clone()),
                         header: self.state.header,
                         major_version: self.state.major_version,
                         minor_version: self.state.minor_version,
-- 
2.43.0


From bd5adb694698ca9e17fe77f64960c6d3cb7f26b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:00 +0000
Subject: [PATCH 16/34] fix: refuse to derive a key for Argon2i

KDBX has no identifier for Argon2i. Setting it as the KDF variant was
accepted, and writing the archive then panicked.
---
 src/crypto.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/crypto.rs b/src/crypto.rs
index 3568f7e..66fd39a 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -66,6 +66,13 @@ impl ComposedKey {
         kdf_options: &binary::KdfParams,
     ) -> Result<MasterKey, KeyGenerationError> {
         match kdf_options {
+            binary::KdfParams::Argon2 {
+                variant: argon2::Variant::Argon2i,
+                ..
+            }
+            | binary::KdfParams::Unknown { .. } => Err(
+                KeyGenerationError::UnimplementedKdfOptions(kdf_options.clone()),
+            ),
             binary::KdfParams::Argon2 {
                 variant,
                 memory_bytes,
@@ -110,9 +117,6 @@ impl ComposedKey {
 
                 Ok(MasterKey(transformed))
             }
-            binary::KdfParams::Unknown { .. } => Err(KeyGenerationError::UnimplementedKdfOptions(
-                kdf_options.clone(),
-            )),
         }
     }
 }
-- 
2.43.0


From 0fd20b8ca1b0a47cf196540697c29679779129de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:23:52 +0000
Subject: [PATCH 17/34] fix: read the OTP period from the period parameter

Otp::period() parsed the secret as a number, so it returned nothing for
almost every one time password.
---
 src/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/database.rs b/src/database.rs
index 9bc2c4b..acfd3f0 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -908,7 +908,7 @@ impl<'a> Otp<'a> {
 
     /// Return the period for which passwords are valid
     pub fn period(&self) -> Option<u32> {
-        self.find_url_param("secret").and_then(|p| p.parse().ok())
+        self.find_url_param("period").and_then(|p| p.parse().ok())
     }
 
     /// Return the number of digits in the resulting code
-- 
2.43.0


From ca2109215d105070a4fb8062f68325ec83e2c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:23:53 +0000
Subject: [PATCH 18/34] fix: report out of range timestamps instead of
 panicking

A base64 encoded time with a very large number of seconds panicked while
parsing the database XML.
---
 src/xml/decoders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml/decoders.rs b/src/xml/decoders.rs
index 376a303..f125f7c 100644
--- a/src/xml/decoders.rs
+++ b/src/xml/decoders.rs
@@ -22,7 +22,7 @@ pub(crate) fn decode_datetime_b64(b64date: &str) -> Option<NaiveDateTime> {
     let mut bytes = [0u8; 8];
     let copy_size = usize::min(bytes.len(), decoded.len());
     bytes[..copy_size].copy_from_slice(&decoded[..copy_size]);
-    let timestamp = Duration::seconds(i64::from_le_bytes(bytes));
+    let timestamp = Duration::try_seconds(i64::from_le_bytes(bytes))?;
 
     keepass_epoch().checked_add_signed(timestamp)
 }
-- 
2.43.0


From 777d3e303230a72c00e420f354476e97ef793004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:23:53 +0000
Subject: [PATCH 19/34] fix: keep the protection of empty fields

Clearing a protected field dropped its protection, so the next value was
stored in the clear. The protection of an empty field was also lost when
the database was saved and loaded.
---
 src/database.rs      | 2 +-
 src/xml/parse.rs     | 2 ++
 src/xml/serialize.rs | 6 +++++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index acfd3f0..0620443 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -178,7 +178,7 @@ impl Field {
     /// Note: This is instructional for official clients, this library does not
     /// support memory protection
     pub fn protected(&self) -> bool {
-        matches!(self.value, Value::Protected(_))
+        matches!(self.value, Value::Protected(_) | Value::ProtectEmpty)
     }
 
     /// Set whether memory protection and extra encryption should be applied
diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index b4f9f6c..1f2c132 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -134,6 +134,8 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     } else {
                         Value::Standard(contents)
                     }
+                } else if protected {
+                    Value::ProtectEmpty
                 } else {
                     Value::Empty
                 }
diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index f021aa7..53deb17 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -58,7 +58,11 @@ fn write_field<W: Write, S: StreamCipher + ?Sized>(
             writer.write(XmlEvent::end_element())?;
         }
         Value::Standard(v) => write_string_tag(writer, "Value", v)?,
-        Value::Empty | Value::ProtectEmpty => {
+        Value::ProtectEmpty => {
+            writer.write(XmlEvent::start_element("Value").attr("Protected", "True"))?;
+            writer.write(XmlEvent::end_element())?;
+        }
+        Value::Empty => {
             writer.write(XmlEvent::start_element("Value"))?;
             writer.write(XmlEvent::end_element())?;
         }
-- 
2.43.0


From ba0b90c2a36c22db174f9e7762366b2afb6b0107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:23:53 +0000
Subject: [PATCH 20/34] fix: keep the protection of the title, username and URL

Setting one of these on an entry that stores it protected replaced it
with an unprotected value.
---
 src/database.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index 0620443..d5817a2 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -364,7 +364,7 @@ impl Entry {
     pub fn set_title<S: ToString>(&mut self, title: S) {
         let title = title.to_string();
         match self.find_mut("Title") {
-            Some(f) => f.value = Value::Standard(title),
+            Some(f) => f.set_value(&title),
             None => self.fields.push(Field::new("Title", &title)),
         }
     }
@@ -378,7 +378,7 @@ impl Entry {
     pub fn set_username<S: ToString>(&mut self, username: S) {
         let username = username.to_string();
         match self.find_mut("UserName") {
-            Some(f) => f.value = Value::Standard(username),
+            Some(f) => f.set_value(&username),
             None => self.fields.push(Field::new("UserName", &username)),
         }
     }
@@ -392,7 +392,7 @@ impl Entry {
     pub fn set_url<S: ToString>(&mut self, url: S) {
         let url = url.to_string();
         match self.find_mut("URL") {
-            Some(f) => f.value = Value::Standard(url),
+            Some(f) => f.set_value(&url),
             None => self.fields.push(Field::new("URL", &url)),
         }
     }
-- 
2.43.0


From d5294eb8cc6b9f577bd3eb914affb1a4b1537813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:23:54 +0000
Subject: [PATCH 21/34] fix: report XML that is not a KeePass database

Parsing a document without a KeePassFile element never returned.
---
 src/xml/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 1f2c132..139af26 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -355,6 +355,9 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "KeePassFile" => break,
+            XmlEvent::EndDocument => {
+                return Err(Error::Xml("No KeePassFile element found".to_string()))
+            }
             _ => {}
         }
     }
-- 
2.43.0


From b0d04cb87ed39931748ad8ca69222e0f314e2786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:23:54 +0000
Subject: [PATCH 22/34] fix: keep a root group when the XML has none

A database with an empty Root element was loaded without any group, and
accessing its root group panicked.
---
 src/xml/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 139af26..ad01fd2 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -349,7 +349,10 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Root" => {
-                db.groups = parse_root(xml_event_reader, stream_cipher)?;
+                let groups = parse_root(xml_event_reader, stream_cipher)?;
+                if !groups.is_empty() {
+                    db.groups = groups;
+                }
             }
             XmlEvent::StartElement { name, .. } if &name.local_name == "Meta" => {
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
-- 
2.43.0


From 57b12009c12dbbf984568ce8c359b14199d124d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:23:54 +0000
Subject: [PATCH 23/34] fix: keep whitespace around text values

Leading and trailing whitespace of names and unprotected values was lost
when loading a database, and values of only whitespace became empty.
---
 src/xml/parse.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index ad01fd2..355afde 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -65,7 +65,7 @@ macro_rules! parse_numeric_type {
     ($name:ident, $ty:ty) => {
         fn $name<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option<$ty>> {
             parse_string(xml_event_reader)?
-                .map(|num| num.parse())
+                .map(|num| num.trim().parse())
                 .transpose()
                 .map_err(|_| Error::InvalidNumber)
         }
@@ -76,19 +76,19 @@ parse_numeric_type!(parse_u32, u32);
 
 fn parse_uuid<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Uuid> {
     parse_string(xml_event_reader)?
-        .and_then(|uuid| decode_uuid(&uuid))
+        .and_then(|uuid| decode_uuid(uuid.trim()))
         .ok_or(Error::InvalidUuid)
 }
 
 fn parse_datetime<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<NaiveDateTime> {
     parse_string(xml_event_reader)?
-        .and_then(|dt| decode_datetime(&dt))
+        .and_then(|dt| decode_datetime(dt.trim()))
         .ok_or(Error::InvalidDatetime)
 }
 
 fn parse_bool<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<bool> {
     Ok(parse_string(xml_event_reader)?
-        .map(|b| b.to_lowercase() == "true")
+        .map(|b| b.trim().to_lowercase() == "true")
         .unwrap_or_default())
 }
 
@@ -115,7 +115,7 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     if protected {
                         // Would be nice to avoid the clone but it gets moved into the map_err closure
                         let key_clone = field.key.clone();
-                        match BASE64_STANDARD.decode(&contents) {
+                        match BASE64_STANDARD.decode(contents.trim()) {
                             Ok(mut decoded) => {
                                 stream_cipher
                                     .try_apply_keystream(decoded.as_mut())
@@ -378,7 +378,8 @@ pub fn parse_xml<R: Read, S: StreamCipher + ?Sized>(
     stream_cipher: &mut S,
 ) -> Result<Database> {
     let xml_config = xml::ParserConfig::new()
-        .trim_whitespace(true)
+        .trim_whitespace(false)
+        .whitespace_to_characters(true)
         .cdata_to_characters(true);
     let mut xml_event_reader = EventReader::new_with_config(xml_data, xml_config);
     parse_file(&mut xml_event_reader, stream_cipher)
-- 
2.43.0


From d7903e278eebef25b35c045fd2afbc9a91f135e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:24:25 +0000
Subject: [PATCH 24/34] fix: refuse to write text that XML cannot represent

A control character in an unprotected value or a name was written as is,
and the saved database could not be parsed again.
---
 src/xml/serialize.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index 53deb17..7ca07e1 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -27,11 +27,23 @@ fn write_bool_tag<W: Write>(writer: &mut XmlWriter<W>, name: &str, value: bool)
     Ok(())
 }
 
+fn is_xml_char(c: char) -> bool {
+    matches!(c, '\u{09}' | '\u{0A}' | '\u{0D}' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..)
+}
+
+fn invalid_data(message: &str) -> Error {
+    let error = std::io::Error::new(std::io::ErrorKind::InvalidData, message);
+    Error::Xml(error.into())
+}
+
 fn write_string_tag<W: Write, S: AsRef<str>>(
     writer: &mut XmlWriter<W>,
     name: &str,
     value: S,
 ) -> Result<()> {
+    if !value.as_ref().chars().all(is_xml_char) {
+        return Err(invalid_data("Text has a character not allowed in XML"));
+    }
     writer.write(XmlEvent::start_element(name))?;
     writer.write(XmlEvent::characters(value.as_ref()))?;
     writer.write(XmlEvent::end_element())?;
-- 
2.43.0


From a45918cdba15b4759efed92d64fca25d93aadb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:24:26 +0000
Subject: [PATCH 25/34] fix: refuse to write fields with an empty name

The parser rejects fields with an empty name, so a database saved with
such a field could not be opened again.
---
 src/xml/serialize.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index 7ca07e1..f3ca948 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -56,6 +56,9 @@ fn write_field<W: Write, S: StreamCipher + ?Sized>(
     field: &Field,
     stream_cipher: &mut S,
 ) -> Result<()> {
+    if field.key.is_empty() {
+        return Err(invalid_data("A field has an empty name"));
+    }
     writer.write(XmlEvent::start_element(wrapper))?;
     write_string_tag(writer, "Key", &field.key)?;
     match &field.value {
-- 
2.43.0


From 2e30c24175633dc1020a5f17814d5d4af5a814a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:24:26 +0000
Subject: [PATCH 26/34] fix: skip unsupported XML elements as a whole

Protected values in elements this library does not support, such as the
attachments of a KDBX 3 database, did not use up their part of the inner
stream. Every protected value after them was decrypted to garbage.
Elements nested in an unsupported element were also taken for elements of
the enclosing one.
---
 src/xml/parse.rs | 106 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 91 insertions(+), 15 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 355afde..2a5d467 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -8,6 +8,7 @@ use cipher::StreamCipher;
 use std::io::Read;
 use thiserror::Error;
 use uuid::Uuid;
+use xml::attribute::OwnedAttribute;
 use xml::reader::{EventReader, XmlEvent};
 
 #[derive(Debug, Error)]
@@ -61,6 +62,46 @@ fn parse_string<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option
     Ok(content)
 }
 
+fn is_protected(attributes: &[OwnedAttribute]) -> bool {
+    attributes
+        .iter()
+        .any(|attr| attr.name.local_name == "Protected" && attr.value.to_lowercase() == "true")
+}
+
+/// Skip the rest of an unsupported element and everything in it
+///
+/// Protected values in it still use up their part of the inner stream
+fn skip_element<R: Read, S: StreamCipher + ?Sized>(
+    xml_event_reader: &mut EventReader<R>,
+    attributes: &[OwnedAttribute],
+    stream_cipher: &mut S,
+) -> Result<()> {
+    let mut open_elements = vec![(is_protected(attributes), String::new())];
+    while let Some((protected, contents)) = open_elements.last_mut() {
+        match xml_event_reader.next()? {
+            XmlEvent::StartElement { attributes, .. } => {
+                open_elements.push((is_protected(&attributes), String::new()));
+            }
+            XmlEvent::Characters(chardata) if *protected => contents.push_str(&chardata),
+            XmlEvent::EndElement { .. } => {
+                if *protected {
+                    let mut decoded = BASE64_STANDARD
+                        .decode(contents.trim())
+                        .map_err(|_| Error::DecryptFailed("unsupported element".to_string()))?;
+                    stream_cipher
+                        .try_apply_keystream(&mut decoded)
+                        .map_err(|e| {
+                            Error::DecryptFailed(format!("Failed to apply stream cipher: {}", e))
+                        })?;
+                }
+                open_elements.pop();
+            }
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 macro_rules! parse_numeric_type {
     ($name:ident, $ty:ty) => {
         fn $name<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option<$ty>> {
@@ -108,9 +149,7 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement {
                 name, attributes, ..
             } if &name.local_name == "Value" => {
-                let protected = attributes.iter().any(|attr| {
-                    attr.name.local_name == "Protected" && attr.value.to_lowercase() == "true"
-                });
+                let protected = is_protected(&attributes);
                 field.value = if let Some(contents) = parse_string(xml_event_reader)? {
                     if protected {
                         // Would be nice to avoid the clone but it gets moved into the map_err closure
@@ -140,6 +179,9 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                     Value::Empty
                 }
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if name.local_name == tag_name => break,
             _ => {}
         }
@@ -157,6 +199,9 @@ fn parse_history<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Entry" => {
                 history.push(parse_entry(xml_event_reader, stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "History" => break,
             _ => {}
         }
@@ -164,11 +209,16 @@ fn parse_history<R: Read, S: StreamCipher + ?Sized>(
     Ok(history)
 }
 
-fn parse_times<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Times> {
+fn parse_times<R: Read, S: StreamCipher + ?Sized>(
+    xml_event_reader: &mut EventReader<R>,
+    stream_cipher: &mut S,
+) -> Result<Times> {
     let mut times = Times::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "LastModificationTime" {
                     times.last_modification_time = parse_datetime(xml_event_reader)?;
                 } else if &name.local_name == "LastAccessTime" {
@@ -183,6 +233,8 @@ fn parse_times<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Times>
                     times.expires = parse_bool(xml_event_reader)?;
                 } else if &name.local_name == "UsageCount" {
                     times.usage_count = parse_u32(xml_event_reader)?.unwrap_or_default();
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Times" => break,
@@ -199,7 +251,9 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
     let mut entry = Entry::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "History" {
                     entry.history = parse_history(xml_event_reader, stream_cipher)?;
                 } else if &name.local_name == "String" {
@@ -207,7 +261,9 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
                 } else if &name.local_name == "UUID" {
                     entry.set_uuid(parse_uuid(xml_event_reader)?);
                 } else if &name.local_name == "Times" {
-                    entry.times = parse_times(xml_event_reader)?;
+                    entry.times = parse_times(xml_event_reader, stream_cipher)?;
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Entry" => break,
@@ -224,7 +280,9 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
     let mut group = Group::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => {
                 if &name.local_name == "Group" {
                     group.add_group(parse_group(xml_event_reader, stream_cipher)?);
                 } else if &name.local_name == "Entry" {
@@ -234,7 +292,9 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
                 } else if &name.local_name == "Name" {
                     group.set_name(parse_string(xml_event_reader)?.unwrap_or_default());
                 } else if &name.local_name == "Times" {
-                    group.times = parse_times(xml_event_reader)?;
+                    group.times = parse_times(xml_event_reader, stream_cipher)?;
+                } else {
+                    skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
             }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Group" => break,
@@ -254,6 +314,9 @@ fn parse_root<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Group" => {
                 groups.push(parse_group(xml_event_reader, stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "Root" => break,
             _ => {}
         }
@@ -271,6 +334,9 @@ fn parse_custom_data<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Item" => {
                 fields.push(parse_field(xml_event_reader, "Item", stream_cipher)?);
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "CustomData" => break,
             _ => {}
         }
@@ -278,13 +344,16 @@ fn parse_custom_data<R: Read, S: StreamCipher + ?Sized>(
     Ok(fields)
 }
 
-fn parse_memory_protection<R: Read>(
+fn parse_memory_protection<R: Read, S: StreamCipher + ?Sized>(
     xml_event_reader: &mut EventReader<R>,
+    stream_cipher: &mut S,
 ) -> Result<MemoryProtection> {
     let mut protection = MemoryProtection::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_ref() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_ref() {
                 "ProtectTitle" => {
                     protection.protect_title = parse_bool(xml_event_reader)?;
                 }
@@ -300,7 +369,7 @@ fn parse_memory_protection<R: Read>(
                 "ProtectNotes" => {
                     protection.protect_notes = parse_bool(xml_event_reader)?;
                 }
-                _ => {}
+                _ => skip_element(xml_event_reader, &attributes, stream_cipher)?,
             },
             XmlEvent::EndElement { name, .. } if &name.local_name == "MemoryProtection" => break,
             _ => {}
@@ -316,7 +385,9 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
     let mut meta = Meta::default();
     loop {
         match xml_event_reader.next()? {
-            XmlEvent::StartElement { name, .. } => match name.local_name.as_ref() {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => match name.local_name.as_ref() {
                 "Generator" => {
                     meta.generator = parse_string(xml_event_reader)?.unwrap_or_default();
                 }
@@ -330,9 +401,10 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
                     meta.custom_data = parse_custom_data(xml_event_reader, stream_cipher)?;
                 }
                 "MemoryProtection" => {
-                    meta.memory_protection = parse_memory_protection(xml_event_reader)?;
+                    meta.memory_protection =
+                        parse_memory_protection(xml_event_reader, stream_cipher)?;
                 }
-                _ => {}
+                _ => skip_element(xml_event_reader, &attributes, stream_cipher)?,
             },
             XmlEvent::EndElement { name, .. } if &name.local_name == "Meta" => break,
             _ => {}
@@ -357,6 +429,10 @@ fn parse_file<R: Read, S: StreamCipher + ?Sized>(
             XmlEvent::StartElement { name, .. } if &name.local_name == "Meta" => {
                 db.meta = parse_meta(xml_event_reader, stream_cipher)?;
             }
+            XmlEvent::StartElement { name, .. } if &name.local_name == "KeePassFile" => {}
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { name, .. } if &name.local_name == "KeePassFile" => break,
             XmlEvent::EndDocument => {
                 return Err(Error::Xml("No KeePassFile element found".to_string()))
-- 
2.43.0


From 878c69e46a606792b5be1544ed74c13d8f2619e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:28:45 +0000
Subject: [PATCH 27/34] fix: accept the final block of uncompressed KDBX 3
 archives

The last block of a KDBX 3 archive is empty and has a hash of all zeroes.
That hash was compared with the SHA-256 of no data, so every archive
without compression failed to unlock.
---
 src/stream/kdbx3.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/kdbx3.rs b/src/stream/kdbx3.rs
index c2df89a..1606d38 100644
--- a/src/stream/kdbx3.rs
+++ b/src/stream/kdbx3.rs
@@ -33,7 +33,9 @@ where
         let len = u32::from_le_bytes(len_buf);
         self.buffer = read_vec(&mut self.inner, len)?;
         self.buf_idx = 0;
-        if crypto::verify_sha256(&self.buffer, &hash_buf) {
+        // The final block is empty, with a hash of all zeroes
+        let is_final = len == 0 && hash_buf == [0u8; 32];
+        if is_final || crypto::verify_sha256(&self.buffer, &hash_buf) {
             Ok(len as usize)
         } else {
             Err(io::Error::new(
-- 
2.43.0


From e0f8dc5d767a634a3c08fc9a19096db5facf7006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:37 +0000
Subject: [PATCH 28/34] fix: write carriage returns in text as character
 references

An XML reader turns a literal carriage return into a line feed, so text
with carriage returns changed when another program read the file.
---
 src/xml/serialize.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/xml/serialize.rs b/src/xml/serialize.rs
index f3ca948..9858c2e 100644
--- a/src/xml/serialize.rs
+++ b/src/xml/serialize.rs
@@ -4,6 +4,7 @@ use base64::prelude::{Engine, BASE64_STANDARD};
 use cipher::StreamCipher;
 use std::io::Write;
 use thiserror::Error;
+use xml::escape::escape_str_pcdata;
 use xml::writer::events::XmlEvent;
 use xml::writer::EventWriter as XmlWriter;
 
@@ -44,8 +45,10 @@ fn write_string_tag<W: Write, S: AsRef<str>>(
     if !value.as_ref().chars().all(is_xml_char) {
         return Err(invalid_data("Text has a character not allowed in XML"));
     }
+    // A literal carriage return would be read back as a line feed
+    let escaped = escape_str_pcdata(value.as_ref()).replace('\r', "&#xD;");
     writer.write(XmlEvent::start_element(name))?;
-    writer.write(XmlEvent::characters(value.as_ref()))?;
+    writer.write(XmlEvent::characters(&escaped))?;
     writer.write(XmlEvent::end_element())?;
     Ok(())
 }
@@ -196,9 +199,11 @@ pub fn write_xml<W: Write, S: StreamCipher + ?Sized>(
     database: &Database,
     stream_cipher: &mut S,
 ) -> Result<()> {
-    let config = xml::EmitterConfig::default()
+    let mut config = xml::EmitterConfig::default()
         .perform_indent(true)
         .indent_string("\t");
+    // Text is escaped in write_string_tag
+    config.perform_escaping = false;
     let mut writer = xml::EventWriter::new_with_config(output, config);
     writer.write(XmlEvent::start_element("KeePassFile"))?;
     write_meta(&mut writer, &database.meta, stream_cipher)?;
-- 
2.43.0


From f12fdac83c92a857bad3e42c4bab07f0adccbf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:56 +0000
Subject: [PATCH 29/34] fix: ignore elements nested in text elements when
 reading XML

Reading a text element stopped at the end tag of the first element inside
it and took over that element's text.
---
 src/xml/parse.rs | 83 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 29 deletions(-)

diff --git a/src/xml/parse.rs b/src/xml/parse.rs
index 2a5d467..e8be47f 100644
--- a/src/xml/parse.rs
+++ b/src/xml/parse.rs
@@ -42,7 +42,10 @@ impl From<xml::reader::Error> for Error {
     }
 }
 
-fn parse_string<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option<String>> {
+fn parse_string<R: Read, S: StreamCipher + ?Sized>(
+    xml_event_reader: &mut EventReader<R>,
+    stream_cipher: &mut S,
+) -> Result<Option<String>> {
     let mut content = None;
     loop {
         match xml_event_reader.next()? {
@@ -55,6 +58,9 @@ fn parse_string<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option
                     },
                 )
             }
+            XmlEvent::StartElement { attributes, .. } => {
+                skip_element(xml_event_reader, &attributes, stream_cipher)?;
+            }
             XmlEvent::EndElement { .. } => break,
             _ => {}
         }
@@ -104,8 +110,11 @@ fn skip_element<R: Read, S: StreamCipher + ?Sized>(
 
 macro_rules! parse_numeric_type {
     ($name:ident, $ty:ty) => {
-        fn $name<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Option<$ty>> {
-            parse_string(xml_event_reader)?
+        fn $name<R: Read, S: StreamCipher + ?Sized>(
+            xml_event_reader: &mut EventReader<R>,
+            stream_cipher: &mut S,
+        ) -> Result<Option<$ty>> {
+            parse_string(xml_event_reader, stream_cipher)?
                 .map(|num| num.trim().parse())
                 .transpose()
                 .map_err(|_| Error::InvalidNumber)
@@ -115,20 +124,29 @@ macro_rules! parse_numeric_type {
 
 parse_numeric_type!(parse_u32, u32);
 
-fn parse_uuid<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<Uuid> {
-    parse_string(xml_event_reader)?
+fn parse_uuid<R: Read, S: StreamCipher + ?Sized>(
+    xml_event_reader: &mut EventReader<R>,
+    stream_cipher: &mut S,
+) -> Result<Uuid> {
+    parse_string(xml_event_reader, stream_cipher)?
         .and_then(|uuid| decode_uuid(uuid.trim()))
         .ok_or(Error::InvalidUuid)
 }
 
-fn parse_datetime<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<NaiveDateTime> {
-    parse_string(xml_event_reader)?
+fn parse_datetime<R: Read, S: StreamCipher + ?Sized>(
+    xml_event_reader: &mut EventReader<R>,
+    stream_cipher: &mut S,
+) -> Result<NaiveDateTime> {
+    parse_string(xml_event_reader, stream_cipher)?
         .and_then(|dt| decode_datetime(dt.trim()))
         .ok_or(Error::InvalidDatetime)
 }
 
-fn parse_bool<R: Read>(xml_event_reader: &mut EventReader<R>) -> Result<bool> {
-    Ok(parse_string(xml_event_reader)?
+fn parse_bool<R: Read, S: StreamCipher + ?Sized>(
+    xml_event_reader: &mut EventReader<R>,
+    stream_cipher: &mut S,
+) -> Result<bool> {
+    Ok(parse_string(xml_event_reader, stream_cipher)?
         .map(|b| b.trim().to_lowercase() == "true")
         .unwrap_or_default())
 }
@@ -142,7 +160,7 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
     loop {
         match xml_event_reader.next()? {
             XmlEvent::StartElement { name, .. } if &name.local_name == "Key" => {
-                let parse_result = parse_string(xml_event_reader)?;
+                let parse_result = parse_string(xml_event_reader, stream_cipher)?;
                 let val = parse_result.ok_or(Error::KeyEmptyName)?;
                 field.key = val;
             }
@@ -150,7 +168,8 @@ fn parse_field<R: Read, S: StreamCipher + ?Sized>(
                 name, attributes, ..
             } if &name.local_name == "Value" => {
                 let protected = is_protected(&attributes);
-                field.value = if let Some(contents) = parse_string(xml_event_reader)? {
+                field.value = if let Some(contents) = parse_string(xml_event_reader, stream_cipher)?
+                {
                     if protected {
                         // Would be nice to avoid the clone but it gets moved into the map_err closure
                         let key_clone = field.key.clone();
@@ -220,19 +239,20 @@ fn parse_times<R: Read, S: StreamCipher + ?Sized>(
                 name, attributes, ..
             } => {
                 if &name.local_name == "LastModificationTime" {
-                    times.last_modification_time = parse_datetime(xml_event_reader)?;
+                    times.last_modification_time = parse_datetime(xml_event_reader, stream_cipher)?;
                 } else if &name.local_name == "LastAccessTime" {
-                    times.last_access_time = parse_datetime(xml_event_reader)?;
+                    times.last_access_time = parse_datetime(xml_event_reader, stream_cipher)?;
                 } else if &name.local_name == "CreationTime" {
-                    times.creation_time = parse_datetime(xml_event_reader)?;
+                    times.creation_time = parse_datetime(xml_event_reader, stream_cipher)?;
                 } else if &name.local_name == "ExpiryTime" {
-                    times.expiry_time = parse_datetime(xml_event_reader)?;
+                    times.expiry_time = parse_datetime(xml_event_reader, stream_cipher)?;
                 } else if &name.local_name == "LocationChanged" {
-                    times.location_changed = parse_datetime(xml_event_reader)?;
+                    times.location_changed = parse_datetime(xml_event_reader, stream_cipher)?;
                 } else if &name.local_name == "Expires" {
-                    times.expires = parse_bool(xml_event_reader)?;
+                    times.expires = parse_bool(xml_event_reader, stream_cipher)?;
                 } else if &name.local_name == "UsageCount" {
-                    times.usage_count = parse_u32(xml_event_reader)?.unwrap_or_default();
+                    times.usage_count =
+                        parse_u32(xml_event_reader, stream_cipher)?.unwrap_or_default();
                 } else {
                     skip_element(xml_event_reader, &attributes, stream_cipher)?;
                 }
@@ -259,7 +279,7 @@ fn parse_entry<R: Read, S: StreamCipher + ?Sized>(
                 } else if &name.local_name == "String" {
                     entry.add_field(parse_field(xml_event_reader, "String", stream_cipher)?);
                 } else if &name.local_name == "UUID" {
-                    entry.set_uuid(parse_uuid(xml_event_reader)?);
+                    entry.set_uuid(parse_uuid(xml_event_reader, stream_cipher)?);
                 } else if &name.local_name == "Times" {
                     entry.times = parse_times(xml_event_reader, stream_cipher)?;
                 } else {
@@ -288,9 +308,11 @@ fn parse_group<R: Read, S: StreamCipher + ?Sized>(
                 } else if &name.local_name == "Entry" {
                     group.add_entry(parse_entry(xml_event_reader, stream_cipher)?);
                 } else if &name.local_name == "UUID" {
-                    group.set_uuid(parse_uuid(xml_event_reader)?);
+                    group.set_uuid(parse_uuid(xml_event_reader, stream_cipher)?);
                 } else if &name.local_name == "Name" {
-                    group.set_name(parse_string(xml_event_reader)?.unwrap_or_default());
+                    group.set_name(
+                        parse_string(xml_event_reader, stream_cipher)?.unwrap_or_default(),
+                    );
                 } else if &name.local_name == "Times" {
                     group.times = parse_times(xml_event_reader, stream_cipher)?;
                 } else {
@@ -355,19 +377,19 @@ fn parse_memory_protection<R: Read, S: StreamCipher + ?Sized>(
                 name, attributes, ..
             } => match name.local_name.as_ref() {
                 "ProtectTitle" => {
-                    protection.protect_title = parse_bool(xml_event_reader)?;
+                    protection.protect_title = parse_bool(xml_event_reader, stream_cipher)?;
                 }
                 "ProtectUserName" => {
-                    protection.protect_user_name = parse_bool(xml_event_reader)?;
+                    protection.protect_user_name = parse_bool(xml_event_reader, stream_cipher)?;
                 }
                 "ProtectPassword" => {
-                    protection.protect_password = parse_bool(xml_event_reader)?;
+                    protection.protect_password = parse_bool(xml_event_reader, stream_cipher)?;
                 }
                 "ProtectURL" => {
-                    protection.protect_url = parse_bool(xml_event_reader)?;
+                    protection.protect_url = parse_bool(xml_event_reader, stream_cipher)?;
                 }
                 "ProtectNotes" => {
-                    protection.protect_notes = parse_bool(xml_event_reader)?;
+                    protection.protect_notes = parse_bool(xml_event_reader, stream_cipher)?;
                 }
                 _ => skip_element(xml_event_reader, &attributes, stream_cipher)?,
             },
@@ -389,13 +411,16 @@ fn parse_meta<R: Read, S: StreamCipher + ?Sized>(
                 name, attributes, ..
             } => match name.local_name.as_ref() {
                 "Generator" => {
-                    meta.generator = parse_string(xml_event_reader)?.unwrap_or_default();
+                    meta.generator =
+                        parse_string(xml_event_reader, stream_cipher)?.unwrap_or_default();
                 }
                 "DatabaseName" => {
-                    meta.database_name = parse_string(xml_event_reader)?.unwrap_or_default();
+                    meta.database_name =
+                        parse_string(xml_event_reader, stream_cipher)?.unwrap_or_default();
                 }
                 "DatabaseDescription" => {
-                    meta.database_description = parse_string(xml_event_reader)?.unwrap_or_default();
+                    meta.database_description =
+                        parse_string(xml_event_reader, stream_cipher)?.unwrap_or_default();
                 }
                 "CustomData" => {
                     meta.custom_data = parse_custom_data(xml_event_reader, stream_cipher)?;
-- 
2.43.0


From 55d0fc756d2daa15413db9f4a38c19cd76c8a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:01 +0000
Subject: [PATCH 30/34] fix: flush the output at the end of a save

A buffered writer handed over to a save was only flushed when dropped, so
an error writing the last bytes went unnoticed.
---
 src/binary/kdbx.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/binary/kdbx.rs b/src/binary/kdbx.rs
index ef10723..6123c80 100644
--- a/src/binary/kdbx.rs
+++ b/src/binary/kdbx.rs
@@ -52,8 +52,10 @@ impl<T: KdbxState> Kdbx<T> {
     }
 
     /// Write this archive to the given output stream
-    pub fn write<W: Write>(&self, output: W) -> Result<(), errors::WriteError> {
-        self.state.write(output)?;
+    pub fn write<W: Write>(&self, mut output: W) -> Result<(), errors::WriteError> {
+        self.state.write(&mut output)?;
+        // A buffering output may only fail once it is flushed
+        output.flush()?;
         Ok(())
     }
 }
-- 
2.43.0


From e3a43f75aa878b3115f80168a863270f49005142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:16 +0000
Subject: [PATCH 31/34] fix: keep '=' and '?' in the parameters of one-time
 password URLs

A parameter value was cut at the second '=', so a padded base32 secret
lost its padding. Split each parameter at its first '=' and the URL at
its first '?'.
---
 src/database.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index d5817a2..a2dfcd3 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -886,16 +886,14 @@ impl<'a> Otp<'a> {
     }
 
     fn find_url_param(&self, key: &str) -> Option<&str> {
-        let mut parts = self.url.split('?');
-        let _path = parts.next()?;
-        let params = parts.next()?;
+        let (_path, params) = self.url.split_once('?')?;
         let params = params.split('&');
 
         for param in params {
-            let mut param_parts = param.split('=');
-            let pkey = param_parts.next()?;
-            if pkey == key {
-                return param_parts.next();
+            if let Some((pkey, value)) = param.split_once('=') {
+                if pkey == key {
+                    return Some(value);
+                }
             }
         }
         None
-- 
2.43.0


From ffc40d85967653f0dc6de9175fa70341169c71d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:58 +0000
Subject: [PATCH 32/34] fix: print usage instead of panicking when a tool gets
 no arguments

The command-line tools tested for an empty argument list, but the list
always starts with the program name. Running them without arguments
therefore panicked on a missing index. kdbx-parse also named the wrong
tool in its usage line.
---
 src/bin/kdbx_decrypt.rs     | 3 ++-
 src/bin/kdbx_dump_header.rs | 3 ++-
 src/bin/kdbx_parse.rs       | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bin/kdbx_decrypt.rs b/src/bin/kdbx_decrypt.rs
index 87c47f9..8524d8e 100644
--- a/src/bin/kdbx_decrypt.rs
+++ b/src/bin/kdbx_decrypt.rs
@@ -5,8 +5,9 @@
 
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
-    if args.is_empty() {
+    if args.len() < 2 {
         println!("Usage: kdbx-decrypt <path to kdbx file> <password>");
+        std::process::exit(2);
     }
     let kdbx = kdbx_rs::open(&args[1])?;
     let key = kdbx_rs::CompositeKey::from_password(args.get(2).unwrap_or(&"kdbxrs".to_string()));
diff --git a/src/bin/kdbx_dump_header.rs b/src/bin/kdbx_dump_header.rs
index 5582ac6..ae40d6c 100644
--- a/src/bin/kdbx_dump_header.rs
+++ b/src/bin/kdbx_dump_header.rs
@@ -39,8 +39,9 @@ fn print_kdf(params: &kdbx_rs::binary::KdfParams) {
 
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
-    if args.is_empty() {
+    if args.len() < 2 {
         println!("Usage: kdbx-dump-header <path to kdbx file>");
+        std::process::exit(2);
     }
     let kdbx = kdbx_rs::open(&args[1])?;
     let header = kdbx.header();
diff --git a/src/bin/kdbx_parse.rs b/src/bin/kdbx_parse.rs
index 4e1e525..d289312 100644
--- a/src/bin/kdbx_parse.rs
+++ b/src/bin/kdbx_parse.rs
@@ -5,8 +5,9 @@
 
 fn main() -> Result<(), kdbx_rs::Error> {
     let args: Vec<String> = std::env::args().collect();
-    if args.is_empty() {
-        println!("Usage: kdbx-decrypt <path to kdbx file> <password>");
+    if args.len() < 2 {
+        println!("Usage: kdbx-parse <path to kdbx file> <password>");
+        std::process::exit(2);
     }
     let kdbx = kdbx_rs::open(&args[1])?;
     let key = kdbx_rs::CompositeKey::from_password(args.get(2).unwrap_or(&"kdbxrs".to_string()));
-- 
2.43.0


From f43da75852ce9f71e910abb3f01417f05ead07c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:46 +0000
Subject: [PATCH 33/34] fix: stamp new items with UTC instead of local time

---
 src/database.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/database.rs b/src/database.rs
index a2dfcd3..74daac0 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -752,10 +752,8 @@ pub struct Times {
 
 impl Default for Times {
     fn default() -> Times {
-        let now = chrono::Local::now()
-            .naive_local()
-            .with_nanosecond(0)
-            .unwrap();
+        // Times in a database are UTC
+        let now = chrono::Utc::now().naive_utc().with_nanosecond(0).unwrap();
         Times {
             expires: false,
             usage_count: 0,
-- 
2.43.0


From 2391e2a55745792d3f6bf951a8d8570d8b312f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:46 +0000
Subject: [PATCH 34/34] fix: report wrong KDBX 3 credentials as
 StartBytesInvalid

---
 src/stream/pipeline.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/stream/pipeline.rs b/src/stream/pipeline.rs
index cbcea31..d8b5df0 100644
--- a/src/stream/pipeline.rs
+++ b/src/stream/pipeline.rs
@@ -1,5 +1,6 @@
 use crate::binary;
 use crate::crypto;
+use crate::errors::UnlockError;
 use std::io;
 
 use aes::{Aes128, Aes256};
@@ -77,16 +78,13 @@ pub(crate) fn kdbx3_read_stream<'a, R: io::Read + 'a>(
     iv: &[u8],
     compression: binary::CompressionType,
     expected_start_bytes: &[u8],
-) -> io::Result<Box<dyn io::Read + 'a>> {
+) -> Result<Box<dyn io::Read + 'a>, UnlockError> {
     let buffered = io::BufReader::new(inner);
     let mut decrypted = decryption_stream(buffered, cipher_key, cipher, iv)?;
     let mut start_bytes = [0u8; 32];
     decrypted.read_exact(&mut start_bytes)?;
     if start_bytes != expected_start_bytes {
-        return Err(io::Error::new(
-            io::ErrorKind::InvalidData,
-            "Could not validate start bytes",
-        ));
+        return Err(UnlockError::StartBytesInvalid);
     }
     let verified = HashedBlockReader::new(decrypted);
     let decompressed: Box<dyn io::Read> = match compression {
@@ -96,7 +94,8 @@ pub(crate) fn kdbx3_read_stream<'a, R: io::Read + 'a>(
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
                 format!("Unsupported compression type {:?}", compression),
-            ))
+            )
+            .into())
         }
     };
 
-- 
2.43.0

