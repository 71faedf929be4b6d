From 7281aeb381cd66d6e07e8e10a9e03a8904643ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 01/42] fix: ChaCha20 left the last block in the clear when the
 length is a multiple of 64

The length of the last block was computed as len % 64, which is 0 for a full
block. Also compute the number of blocks with integers: f32 loses precision
for inputs longer than 2^24 bytes.
---
 anothertls/src/crypto/chacha20/cipher.rs   | 4 ++--
 anothertls/src/crypto/chacha20/poly1305.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/crypto/chacha20/cipher.rs b/anothertls/src/crypto/chacha20/cipher.rs
index 007c158..b35b705 100644
--- a/anothertls/src/crypto/chacha20/cipher.rs
+++ b/anothertls/src/crypto/chacha20/cipher.rs
@@ -91,13 +91,13 @@ impl ChaCha20 {
     pub fn encrypt(input: &[u8], key: &[u8], iv: &[u8], counter: usize) -> Option<Vec<u8>> {
         let mut output = input.to_vec();
         let chacha20 = ChaCha20Block::init(key, iv, 0);
-        let blocks_len = (input.len() as f32 / 64.0).ceil() as usize;
+        let blocks_len = (input.len() + 63) / 64;
         for j in 0..blocks_len {
             let mut current_block = chacha20.clone()?;
             current_block.set_counter((counter + j) as u32);
             let key_stream = current_block.get_block();
             let mut count = key_stream.len();
-            if (j * 64) + 64 >= input.len() {
+            if (j * 64) + 64 > input.len() {
                 count = input.len() % 64;
             }
             for i in 0..count {
diff --git a/anothertls/src/crypto/chacha20/poly1305.rs b/anothertls/src/crypto/chacha20/poly1305.rs
index 16bf986..35d2c06 100644
--- a/anothertls/src/crypto/chacha20/poly1305.rs
+++ b/anothertls/src/crypto/chacha20/poly1305.rs
@@ -29,7 +29,7 @@ impl Poly1305 {
         let mut a = ibig!(0);
         let p = ibig!(_3fffffffffffffffffffffffffffffffb base 16);
 
-        for i in 1..=(msg.len() as f32 / 16.0).ceil() as usize {
+        for i in 1..=((msg.len() + 15) / 16) {
             let n = if i * 16 > msg.len() {
                 let mut buf = vec![];
                 buf.extend_from_slice(&msg[(i - 1) * 16..]);
-- 
2.43.0


From 54c02ccf3cdbd96fd5a168a445e899742170f731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 02/42] fix: HMAC-SHA384 hashed keys of 65 to 128 bytes

RFC 2104: only keys longer than the block size (128 bytes for SHA-384) are
hashed first.
---
 anothertls/src/hash/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/hash/hmac.rs b/anothertls/src/hash/hmac.rs
index a88ea8d..1304f07 100644
--- a/anothertls/src/hash/hmac.rs
+++ b/anothertls/src/hash/hmac.rs
@@ -38,7 +38,7 @@ impl<'a> Hmac<'a> {
 
         let hashed_key;
 
-        let key = if self.key.len() > 64 {
+        let key = if self.key.len() > size {
             hashed_key = match self.hash {
                 HashType::SHA256 => sha256(self.key),
                 HashType::SHA384 => sha384(self.key),
-- 
2.43.0


From f4f9b80f72801624d87cadb0590296bb38e6c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 03/42] fix: GCM counter of a non 96 bit IV overflowed into the
 upper 96 bits

SP 800-38D inc32 wraps within the rightmost 32 bits. The old addition carried
into the upper bits (and panicked when the counter block was near 2^128).
---
 anothertls/src/crypto/aes/gcm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/crypto/aes/gcm.rs b/anothertls/src/crypto/aes/gcm.rs
index 90ddb61..c8e7f21 100644
--- a/anothertls/src/crypto/aes/gcm.rs
+++ b/anothertls/src/crypto/aes/gcm.rs
@@ -90,7 +90,8 @@ impl Gcm {
             counter = (counter + 1) % 0x100000000; // 2^32
 
             let Yi = if (iv.len() * 8) != 96 {
-                Yi + counter
+                // inc32: only the rightmost 32 bits are incremented
+                (Yi & !0xFFFFFFFF) | (Yi.wrapping_add(counter) & 0xFFFFFFFF)
             } else {
                 (Yi & !0xFFFFFFFF) | counter
             };
-- 
2.43.0


From 9e1bf94959e25c63eac407fe1eb2da5782c0de33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 04/42] fix: DER encoding of ECDSA signatures with r or s
 shorter than 32 bytes

ibig_to_32bytes left-aligns short numbers, so about 1 of 128 signatures was
encoded with a wrong r or s and rejected by the peer.
---
 anothertls/src/crypto/ellipticcurve/signature.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/signature.rs b/anothertls/src/crypto/ellipticcurve/signature.rs
index e903fc5..1fc884d 100644
--- a/anothertls/src/crypto/ellipticcurve/signature.rs
+++ b/anothertls/src/crypto/ellipticcurve/signature.rs
@@ -60,8 +60,9 @@ impl Signature {
 
     pub fn to_der(&self) -> Vec<u8> {
         // https://www.rfc-editor.org/rfc/rfc3279#page-7
-        let s = bytes::ibig_to_32bytes(self.s.clone(), bytes::ByteOrder::Big);
-        let r = bytes::ibig_to_32bytes(self.r.clone(), bytes::ByteOrder::Big);
+        // DER integers have no leading zero bytes, except the one for the sign
+        let s = bytes::ibig_to_vec(self.s.clone(), bytes::ByteOrder::Big);
+        let r = bytes::ibig_to_vec(self.r.clone(), bytes::ByteOrder::Big);
 
         let integer_type = 0x02;
         let sequence_type = 0x30;
-- 
2.43.0


From 2e8731c35cfee704bac80d1847b4be60330038be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 05/42] fix: X25519 key exchange with leading zero bytes, wrong
 sizes and all-zero secrets

The peer's key share and the shared secret were passed through big integers,
which dropped leading zero bytes of the wire representation (1 of 128
handshakes failed). Key shares that are not 32 bytes long were used anyway, and
the all-zero shared secret of a low order point was accepted (RFC 8446 7.4.2).
---
 anothertls/src/crypto/ellipticcurve/math.rs |  5 +++++
 anothertls/src/net/key_schedule.rs          | 20 ++++++++++++--------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/math.rs b/anothertls/src/crypto/ellipticcurve/math.rs
index 0a94613..a69de25 100644
--- a/anothertls/src/crypto/ellipticcurve/math.rs
+++ b/anothertls/src/crypto/ellipticcurve/math.rs
@@ -95,6 +95,11 @@ pub fn add(p: Point, q: Point, curve: &Curve) -> Point {
     }
 }
 
+/// X25519 (RFC 7748) on the wire representation of the u-coordinate
+pub fn x25519(u: [u8; 32], scalar: &[u8; 32]) -> [u8; 32] {
+    curve25519::scalarmult(u, scalar)
+}
+
 pub fn multiply(p: &Point, n: IBig, curve: &Curve) -> Point {
     match curve.equation {
         Equation::Montgomery => {
diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 8c5d5c7..fdd3a96 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -7,12 +7,11 @@ use crate::crypto::ellipticcurve::PrivateKey;
 use crate::crypto::CipherSuite;
 use crate::hash::{sha_x, HashType, TranscriptHash};
 use crate::{
-    crypto::ellipticcurve::{math, Point},
+    crypto::ellipticcurve::math,
     hash::hkdf::Hkdf,
     net::{alert::TlsError, extensions::NamedGroup},
     utils::bytes,
 };
-use ibig::ibig;
 
 use super::extensions::KeyShareEntry;
 use core::result::Result;
@@ -135,14 +134,19 @@ impl KeySchedule {
             return Err(TlsError::HandshakeFailure);
         }
 
-        let client_public_key = bytes::to_ibig_be(&key_share_entry.opaque);
-        let client_public_key = Point::new(client_public_key, ibig!(0));
+        let peer_public_key: [u8; 32] = match key_share_entry.opaque.as_slice().try_into() {
+            Ok(a) => a,
+            Err(_) => return Err(TlsError::IllegalParameter),
+        };
 
-        let server_private_key = private_key.secret.clone();
-        let curve = &private_key.curve;
+        let scalar = bytes::ibig_to_32bytes(private_key.secret.clone(), bytes::ByteOrder::Big);
+        let shared_secret = math::x25519(peer_public_key, &scalar);
 
-        let shared_secret = math::multiply(&client_public_key, server_private_key, curve);
-        let shared_secret = bytes::ibig_to_32bytes(shared_secret.x, bytes::ByteOrder::Big);
+        // 7.4.2. For X25519, implementations MUST check whether the computed
+        // Diffie-Hellman shared secret is the all-zero value and abort if so.
+        if shared_secret == [0; 32] {
+            return Err(TlsError::IllegalParameter);
+        }
 
         match Self::do_key_schedule(tshash.get_type(), &tshash.finalize(), &shared_secret) {
             Some(keys) => Ok(keys),
-- 
2.43.0


From 098566703fb8f62e9f6c3dfb4925ba94a7bf60e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 06/42] fix: alert codes of decode_error, decrypt_error and
 bad_record_mac

decode_error is 50 and decrypt_error 51 (RFC 8446 B.2), bad_record_mac was sent
as close_notify, a record that fails authentication is a bad_record_mac and an
unknown record type an unexpected_message.
---
 anothertls/src/net/alert.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index a190ec7..8e3c189 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -21,6 +21,7 @@ pub enum TlsError {
     CloseNotify = 0,
     UnexpectedMessage = 10,
     BadRecordMac = 20,
+    RecordOverflow = 22,
     HandshakeFailure = 40,
     BadCertificate = 42,
     UnsupportedCertificate = 43,
@@ -30,8 +31,8 @@ pub enum TlsError {
     IllegalParameter = 47,
     UnknownCa = 48,
     AccessDenied = 49,
-    DecryptError = 50,
-    DecodeError = 51,
+    DecodeError = 50,
+    DecryptError = 51,
     ProtocolVersion = 70,
     InsufficientSecurity = 71,
     InternalError = 80,
@@ -49,6 +50,8 @@ impl TlsError {
         match code {
             0 => TlsError::CloseNotify,
             10 => TlsError::UnexpectedMessage,
+            20 => TlsError::BadRecordMac,
+            22 => TlsError::RecordOverflow,
             40 => TlsError::HandshakeFailure,
             42 => TlsError::BadCertificate,
             43 => TlsError::UnsupportedCertificate,
@@ -58,8 +61,8 @@ impl TlsError {
             47 => TlsError::IllegalParameter,
             48 => TlsError::UnknownCa,
             49 => TlsError::AccessDenied,
-            50 => TlsError::DecryptError,
-            51 => TlsError::DecodeError,
+            50 => TlsError::DecodeError,
+            51 => TlsError::DecryptError,
             70 => TlsError::ProtocolVersion,
             71 => TlsError::InsufficientSecurity,
             80 => TlsError::InternalError,
@@ -78,6 +81,8 @@ impl TlsError {
         match self {
             TlsError::CloseNotify => 0,
             TlsError::UnexpectedMessage => 10,
+            TlsError::BadRecordMac => 20,
+            TlsError::RecordOverflow => 22,
             TlsError::HandshakeFailure => 40,
             TlsError::BadCertificate => 42,
             TlsError::UnsupportedCertificate => 43,
@@ -87,8 +92,8 @@ impl TlsError {
             TlsError::IllegalParameter => 47,
             TlsError::UnknownCa => 48,
             TlsError::AccessDenied => 49,
-            TlsError::DecryptError => 50,
-            TlsError::DecodeError => 51,
+            TlsError::DecodeError => 50,
+            TlsError::DecryptError => 51,
             TlsError::ProtocolVersion => 70,
             TlsError::InsufficientSecurity => 71,
             TlsError::InternalError => 80,
-- 
2.43.0


From db5227688e87c4e8fa880d29983454004dc818f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 07/42] fix: truncated records panicked instead of failing with
 an alert

A record shorter than its length field, or shorter than the AEAD tag, made the
slicing panic. A record that fails authentication is a bad_record_mac and an
unknown record type an unexpected_message.
---
 anothertls/src/net/record.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index a4c9736..da3d14e 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -27,7 +27,7 @@ impl RecordType {
             21 => RecordType::Alert,
             22 => RecordType::Handshake,
             23 => RecordType::ApplicationData,
-            _ => return Err(TlsError::DecodeError),
+            _ => return Err(TlsError::UnexpectedMessage),
         })
     }
 }
@@ -85,7 +85,7 @@ impl<'a> Record<'a> {
         let content_type = RecordType::new(buf[0])?;
         let version = ((buf[1] as u16) << 8) | buf[2] as u16;
         let len = (((buf[3] as u16) << 8) | buf[4] as u16) as usize;
-        if buf.len() < (2 + len) {
+        if buf.len() < (5 + len) {
             return Err(TlsError::DecodeError);
         }
         let consumed = 5 + len;
@@ -205,6 +205,9 @@ impl RecordPayloadProtection {
             &mut self.handshake_keys
         };
 
+        if record.fraqment.len() < 16 {
+            return Err(TlsError::BadRecordMac);
+        }
         let ciphertext = &record.fraqment.as_ref()[..record.fraqment.len() - 16]; // 1 = Inner ContentType
         let ahead = &record.fraqment.as_ref()[ciphertext.len()..];
 
@@ -219,7 +222,7 @@ impl RecordPayloadProtection {
             .decrypt(key, &nonce, ciphertext, &record.header, ahead)
         {
             Ok(e) => e,
-            Err(_) => return Err(TlsError::DecryptError),
+            Err(_) => return Err(TlsError::BadRecordMac),
         };
 
         // 5.4. Record Padding
-- 
2.43.0


From e295dc34c76113ce56aeedf89073e5f32a84b934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 08/42] fix: records were lost or rejected when TCP split or
 joined them

TCP is a byte stream: a read can return a part of a record or several records.
Split records failed the handshake or panicked, the bytes after the first
record of a segment were dropped, records over 4096 bytes could not be read and
records larger than the user's buffer panicked. Buffer what was received and
what was decrypted, and fragment writes that do not fit into one record.

After a record failed authentication, or after a partial write, the connection
can not be used any longer; a close_notify is reported as such.
---
 anothertls/src/net/client/connection.rs |  53 ++------
 anothertls/src/net/record.rs            |   5 +
 anothertls/src/net/server/connection.rs |  12 +-
 anothertls/src/net/stream.rs            | 166 ++++++++++++++++++------
 4 files changed, 142 insertions(+), 94 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 6109c45..c247e5f 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -14,7 +14,7 @@ use crate::net::extensions::{
 use crate::net::handshake::{
     get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake, HandshakeType,
 };
-use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
+use crate::net::record::{Record, RecordPayloadProtection, RecordType};
 use crate::net::server::ServerHello;
 use crate::net::{KeySchedule, TlsStream};
 use crate::rand::{RngCore, URandomRng};
@@ -102,45 +102,10 @@ impl<'a> ClientHandshake<'a> {
         self.send_client_hello()?;
         log::debug!("<-- ClientHello");
 
-        let mut defragmented = Vec::with_capacity(2048);
-        let mut rxbuf = [0; 2048];
-
         while self.state != ClientHsState::Ready {
-            let n = self.stream.tcp_read(&mut rxbuf)?;
-
-            if n == 0 {
-                log::error!("Got empty tcp");
-                return Err(TlsError::BrokenPipe);
-            }
-
-            let mut offset = 0;
-
-            if !defragmented.is_empty() {
-                defragmented.extend_from_slice(&rxbuf[..n]);
-            }
-
-            while offset < n || !defragmented.is_empty() {
-                let record_buf = if defragmented.is_empty() {
-                    &rxbuf[offset..n]
-                } else {
-                    &defragmented[offset..]
-                };
-
-                if let Ok((consumed, record)) = Record::from_raw(record_buf) {
-                    self.handle_handshake_record(record)?;
-                    offset += consumed;
-                    if offset == defragmented.len() {
-                        defragmented.clear();
-                        break;
-                    }
-                } else {
-                    if defragmented.is_empty() {
-                        defragmented.extend_from_slice(&rxbuf[offset..n]);
-                    }
-                    break;
-                }
-            }
-
+            let raw = self.stream.read_raw_record()?;
+            let (_consumed, record) = Record::from_raw(&raw)?;
+            self.handle_handshake_record(record)?;
             // send server handshake records to the client
             self.stream.flush()?;
         }
@@ -196,13 +161,11 @@ impl<'a> ClientHandshake<'a> {
         self.client_hello_random = Some(random);
         self.client_hello_bytes = Some(handshake_raw);
 
-        let record = Record::new(
+        self.stream.write_record(
             RecordType::Handshake,
-            Value::Ref(self.client_hello_bytes.as_ref().unwrap()),
-        );
-
-        self.stream.tcp_write(&record.as_bytes())?;
-        Ok(())
+            self.client_hello_bytes.as_ref().unwrap(),
+        )?;
+        self.stream.flush()
     }
 
     fn handle_handshake_record(&mut self, record: Record) -> Result<(), TlsError> {
diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index da3d14e..b471e78 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -7,6 +7,7 @@
 use crate::crypto::Cipher;
 use crate::hash::TranscriptHash;
 use crate::net::key_schedule::KeySchedule;
+use crate::net::stream::MAX_FRAGMENT_LEN;
 use crate::net::{alert::TlsError, key_schedule::WriteKeys};
 use std::sync::Arc;
 
@@ -229,6 +230,10 @@ impl RecordPayloadProtection {
         // The receiving implementation scans the field from the end toward the beginning until it
         // finds a non-zero octet. This non-zero octet is the content type of the message
 
+        if plaintext.len() > MAX_FRAGMENT_LEN + 1 {
+            return Err(TlsError::RecordOverflow);
+        }
+
         let mut content_type = RecordType::Invalid;
         let mut record_len = 0;
         for i in (0..plaintext.len()).rev() {
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 119853c..1b03dd1 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -106,16 +106,10 @@ impl<'a> ServerHandshake<'a> {
     }
 
     fn do_handshake(&mut self) -> Result<(), TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
-
         while self.state != ServerHsState::Ready {
-            let n = self.stream.tcp_read(&mut rx_buf)?;
-            let mut consumed_total = 0;
-            while consumed_total < n {
-                let (consumed, record) = Record::from_raw(&rx_buf[consumed_total..n])?;
-                consumed_total += consumed;
-                self.handle_handshake_record(record)?;
-            }
+            let raw = self.stream.read_raw_record()?;
+            let (_consumed, record) = Record::from_raw(&raw)?;
+            self.handle_handshake_record(record)?;
             // send server handshake records to the client
             self.stream.flush()?;
         }
diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 1e126f7..4cfd7c7 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -8,13 +8,24 @@ use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
 use crate::utils::log;
 
 use core::result::Result;
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 use std::net::TcpStream;
 
+/// Maximum length of the fragment of a TLSPlaintext record (RFC 8446 5.1)
+pub const MAX_FRAGMENT_LEN: usize = 1 << 14;
+/// Maximum length of the fragment of a TLSCiphertext record (RFC 8446 5.2)
+pub const MAX_CIPHERTEXT_LEN: usize = MAX_FRAGMENT_LEN + 256;
+
 pub struct TlsStream {
     stream: TcpStream,
     pub protection: Option<RecordPayloadProtection>,
     buffer: Vec<u8>,
+    /// Received from the socket, but not yet processed
+    rx_buffer: Vec<u8>,
+    /// Decrypted application data, which was not yet read by the user
+    plaintext: Vec<u8>,
+    /// Set when the peer closed the connection or after an fatal error
+    error: Option<TlsError>,
 }
 
 impl TlsStream {
@@ -23,6 +34,9 @@ impl TlsStream {
             stream,
             protection: None,
             buffer: Vec::with_capacity(2048),
+            rx_buffer: Vec::with_capacity(2048),
+            plaintext: vec![],
+            error: None,
         }
     }
 
@@ -30,12 +44,14 @@ impl TlsStream {
     /// This is useful in the handshake process, where multiple
     /// TLS records are send to the client.
     pub fn write_record(&mut self, typ: RecordType, data: &[u8]) -> Result<(), TlsError> {
-        let record = Record::new(typ, Value::Ref(data));
+        for fragment in data.chunks(MAX_FRAGMENT_LEN) {
+            let record = Record::new(typ, Value::Ref(fragment));
 
-        if let Some(protect) = self.protection.as_mut() {
-            self.buffer.append(&mut protect.encrypt(record)?);
-        } else {
-            self.buffer.append(&mut record.as_bytes());
+            if let Some(protect) = self.protection.as_mut() {
+                self.buffer.append(&mut protect.encrypt(record)?);
+            } else {
+                self.buffer.append(&mut record.as_bytes());
+            }
         }
 
         // TODO: Find a smart value
@@ -68,9 +84,36 @@ impl TlsStream {
 
     /// Read directly from the TCP socket
     pub fn tcp_read<'b>(&'b mut self, buf: &'b mut [u8]) -> Result<usize, TlsError> {
-        match self.stream.read(buf) {
-            Ok(n) if n != 0 => Ok(n),
-            _ => Err(TlsError::BrokenPipe),
+        loop {
+            return match self.stream.read(buf) {
+                Ok(n) if n != 0 => Ok(n),
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                _ => Err(TlsError::BrokenPipe),
+            };
+        }
+    }
+
+    /// Read the next record with its header from the TCP socket. TCP is a
+    /// stream, so a read can return a part of a record or more than one record.
+    pub fn read_raw_record(&mut self) -> Result<Vec<u8>, TlsError> {
+        let max_len = match self.protection {
+            Some(_) => MAX_CIPHERTEXT_LEN,
+            None => MAX_FRAGMENT_LEN,
+        };
+        loop {
+            if self.rx_buffer.len() >= 5 {
+                RecordType::new(self.rx_buffer[0])?;
+                let len = ((self.rx_buffer[3] as usize) << 8) | self.rx_buffer[4] as usize;
+                if len > max_len {
+                    return Err(TlsError::RecordOverflow);
+                }
+                if self.rx_buffer.len() >= 5 + len {
+                    return Ok(self.rx_buffer.drain(..5 + len).collect());
+                }
+            }
+            let mut buf: [u8; 4096] = [0; 4096];
+            let n = self.tcp_read(&mut buf)?;
+            self.rx_buffer.extend_from_slice(&buf[..n]);
         }
     }
 
@@ -93,41 +136,69 @@ impl TlsStream {
         Ok(())
     }
 
-    /// Read from the TLS stream.
+    /// Read from the TLS stream. Returns `TlsError::CloseNotify` if the peer
+    /// has closed the connection.
     pub fn tls_read<'b>(&'b mut self, buf: &'b mut [u8]) -> Result<usize, TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
+        if buf.is_empty() {
+            return Ok(0);
+        }
 
-        let n = self.tcp_read(&mut rx_buf)?;
+        while self.plaintext.is_empty() {
+            if let Some(err) = self.error {
+                return Err(err);
+            }
+            if let Err(mut err) = self.read_application_data() {
+                if err == TlsError::BrokenPipe {
+                    return Err(err);
+                }
+                if err < TlsError::NotOfficial {
+                    log::error!("<-- Alert ({err:?})");
+                    let _ = self.write_alert(err);
+                }
+                if let TlsError::GotAlert(err_code) = err {
+                    err = TlsError::new(err_code);
+                }
+                self.error = Some(err);
+            }
+        }
 
-        let (_consumed, mut record) = Record::from_raw(&rx_buf[..n])?;
+        let n = std::cmp::min(buf.len(), self.plaintext.len());
+        for (i, b) in self.plaintext.drain(..n).enumerate() {
+            buf[i] = b;
+        }
 
-        log::debug!("--> EncryptedData");
+        Ok(n)
+    }
 
-        if record.len != record.fraqment.len() {
-            // create internal buffer to store the decrypted TLS packages
-            todo!("Problem, when multiple TLS packages in one TCP package");
+    /// Read and decrypt one record and buffer the application data
+    fn read_application_data(&mut self) -> Result<(), TlsError> {
+        if self.protection.is_none() {
+            return Err(TlsError::InternalError);
         }
 
-        if let Some(protection) = self.protection.as_mut() {
-            let (typ, data) = protection.decrypt(record)?;
-            record = Record::new(typ, Value::Owned(data));
-            if record.content_type != RecordType::ApplicationData {
-                log::error!("Not yet implemented: Handle handshake messages");
-                return Err(TlsError::UnexpectedMessage);
-            }
-        } else if record.content_type != RecordType::Handshake {
+        let raw = self.read_raw_record()?;
+        let (_consumed, record) = Record::from_raw(&raw)?;
+
+        log::debug!("--> EncryptedData");
+
+        if record.content_type != RecordType::ApplicationData {
             return Err(TlsError::UnexpectedMessage);
         }
 
-        if record.len > buf.len() {
-            todo!("Handle records bigger than the buf.len()");
-        }
+        let (typ, data) = self.protection.as_mut().unwrap().decrypt(record)?;
 
-        for (i, b) in record.fraqment.as_ref().iter().enumerate() {
-            buf[i] = *b;
+        match typ {
+            RecordType::ApplicationData => {
+                self.plaintext.extend_from_slice(&data);
+                Ok(())
+            }
+            RecordType::Alert if data.len() == 2 => Err(TlsError::GotAlert(data[1])),
+            RecordType::Alert => Err(TlsError::DecodeError),
+            _ => {
+                log::error!("Not yet implemented: Handle handshake messages");
+                Err(TlsError::UnexpectedMessage)
+            }
         }
-
-        Ok(record.fraqment.len())
     }
 
     /// Write to the TLS stream.
@@ -138,15 +209,30 @@ impl TlsStream {
             return Err(TlsError::InternalError);
         }
 
-        let record = Record::new(RecordType::ApplicationData, Value::Ref(src));
-        let record = self.protection.as_mut().unwrap().encrypt(record)?;
-
-        log::debug!("<-- EncryptedData");
-        if self.stream.write_all(&record).is_err() {
-            return Err(TlsError::BrokenPipe);
-        };
+        match self.error {
+            // Each party can close its write side independently
+            None | Some(TlsError::CloseNotify) => (),
+            Some(err) => return Err(err),
+        }
 
-        Ok(())
+        let mut rest = src;
+        loop {
+            let (fragment, tail) = rest.split_at(std::cmp::min(rest.len(), MAX_FRAGMENT_LEN));
+            let record = Record::new(RecordType::ApplicationData, Value::Ref(fragment));
+            let record = self.protection.as_mut().unwrap().encrypt(record)?;
+
+            log::debug!("<-- EncryptedData");
+            if self.stream.write_all(&record).is_err() {
+                // It is unknown how much of the record was sent
+                self.error = Some(TlsError::BrokenPipe);
+                return Err(TlsError::BrokenPipe);
+            };
+
+            rest = tail;
+            if rest.is_empty() {
+                return Ok(());
+            }
+        }
     }
 }
 
-- 
2.43.0


From 49bbc2f8aa848619b1fd7e1426a0268a906aa3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 09/42] fix: coalesced or fragmented handshake messages failed
 the handshake

The server handled only the first message of a record, and a message split over
several records panicked on both sides (RFC 8446 5.1). Also reject the records
the RFC forbids there: empty handshake fragments, messages spanning a key
change, malformed alerts and change_cipher_spec and unprotected handshake
records after the keys were established.
---
 anothertls/src/net/client/connection.rs | 49 +++++++++++++++----
 anothertls/src/net/handshake/mod.rs     | 39 ++++++++++++++++
 anothertls/src/net/server/connection.rs | 62 +++++++++++++++++++------
 3 files changed, 127 insertions(+), 23 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index c247e5f..69cf8f5 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -12,9 +12,10 @@ use crate::net::extensions::{
     SignatureAlgorithms, SignatureScheme, SupportedGroups, SupportedVersions,
 };
 use crate::net::handshake::{
-    get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake, HandshakeType,
+    get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake, HandshakeBuffer,
+    HandshakeType,
 };
-use crate::net::record::{Record, RecordPayloadProtection, RecordType};
+use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
 use crate::net::server::ServerHello;
 use crate::net::{KeySchedule, TlsStream};
 use crate::rand::{RngCore, URandomRng};
@@ -54,6 +55,7 @@ pub struct ClientHandshake<'a> {
     stream: &'a mut TlsStream,
     config: &'a ClientConfig,
     state: ClientHsState,
+    hs_buffer: HandshakeBuffer,
     certificate_request: Option<Vec<u8>>,
     keylog: Option<KeyLog>,
     rng: Box<dyn RngCore<IBig>>,
@@ -74,6 +76,7 @@ impl<'a> ClientHandshake<'a> {
             stream,
             config,
             state: ClientHsState::ServerHello,
+            hs_buffer: HandshakeBuffer::default(),
             certificate_request: None,
             keylog: None,
             rng,
@@ -172,12 +175,18 @@ impl<'a> ClientHandshake<'a> {
         match record.content_type {
             RecordType::ChangeCipherSpec => {
                 log::debug!("--> ChangeCipherSpec");
-                if self.state == ClientHsState::ServerHello {
+                if self.state == ClientHsState::ServerHello
+                    || record.fraqment.as_ref() != [0x01]
+                    || !self.hs_buffer.is_empty()
+                {
                     return Err(TlsError::UnexpectedMessage);
                 }
                 return Ok(());
             }
             RecordType::Alert => {
+                if record.fraqment.len() != 2 {
+                    return Err(TlsError::DecodeError);
+                }
                 let alert_code = record.fraqment.as_ref()[1];
                 let alert = TlsError::new(alert_code);
                 log::debug!("--> Alert {alert:?}");
@@ -191,7 +200,17 @@ impl<'a> ClientHandshake<'a> {
                     if record.content_type != RecordType::Handshake {
                         return Err(TlsError::UnexpectedMessage);
                     }
-                    self.handle_server_hello(record)?;
+                    self.hs_buffer.push(record.fraqment.as_ref())?;
+                    if let Some(message) = self.hs_buffer.next_message()? {
+                        // Handshake messages must not span key changes
+                        if !self.hs_buffer.is_empty() {
+                            return Err(TlsError::UnexpectedMessage);
+                        }
+                        self.handle_server_hello(Record::new(
+                            RecordType::Handshake,
+                            Value::Owned(message),
+                        ))?;
+                    }
                 }
                 ClientHsState::EncryptedExtensions
                 | ClientHsState::ClientCertificateRequest
@@ -257,22 +276,28 @@ impl<'a> ClientHandshake<'a> {
 
     fn handle_handshake_encrypted_record(&mut self, record: Record) -> Result<(), TlsError> {
         // log::debug!("-> Encrypted");
+        if record.content_type != RecordType::ApplicationData {
+            return Err(TlsError::UnexpectedMessage);
+        }
+
         let (content_type, content) = self.stream.protection.as_mut().unwrap().decrypt(record)?;
 
-        let record = Record::new(content_type, crate::net::record::Value::Owned(content));
+        let record = Record::new(content_type, Value::Owned(content));
 
         if record.content_type != RecordType::Handshake {
             if record.content_type == RecordType::Alert {
+                if record.fraqment.len() != 2 {
+                    return Err(TlsError::DecodeError);
+                }
                 return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
             }
             return Err(TlsError::UnexpectedMessage);
         }
 
-        let mut consumed = 0;
+        self.hs_buffer.push(record.fraqment.as_ref())?;
 
-        while consumed < record.fraqment.len() {
-            let handshake = Handshake::from_raw(&record.fraqment.as_ref()[consumed..])?;
-            consumed += handshake.as_bytes().len();
+        while let Some(message) = self.hs_buffer.next_message()? {
+            let handshake = Handshake::from_raw(&message)?;
 
             match self.state {
                 ClientHsState::EncryptedExtensions => self.handle_encrypted_extension(handshake)?,
@@ -292,9 +317,13 @@ impl<'a> ClientHandshake<'a> {
                 ClientHsState::Finished | ClientHsState::FinishWithError(_) => {
                     self.handle_server_finish(handshake)?
                 }
-                _ => (),
+                _ => return Err(TlsError::UnexpectedMessage),
             }
         }
+
+        if self.state == ClientHsState::Ready && !self.hs_buffer.is_empty() {
+            return Err(TlsError::UnexpectedMessage);
+        }
         Ok(())
     }
     pub fn handle_encrypted_extension(&mut self, handshake: Handshake) -> Result<(), TlsError> {
diff --git a/anothertls/src/net/handshake/mod.rs b/anothertls/src/net/handshake/mod.rs
index a36218d..76966a2 100644
--- a/anothertls/src/net/handshake/mod.rs
+++ b/anothertls/src/net/handshake/mod.rs
@@ -46,6 +46,42 @@ impl HandshakeType {
     }
 }
 
+/// Upper bound for the size of a handshake message
+pub const MAX_HANDSHAKE_LEN: usize = 1 << 17;
+
+/// Handshake messages may be coalesced into one record or fragmented across
+/// several records (RFC 8446 5.1).
+#[derive(Default)]
+pub struct HandshakeBuffer(Vec<u8>);
+
+impl HandshakeBuffer {
+    pub fn push(&mut self, fraqment: &[u8]) -> Result<(), TlsError> {
+        if fraqment.is_empty() {
+            // Zero-length fragments of Handshake types are forbidden
+            return Err(TlsError::UnexpectedMessage);
+        }
+        self.0.extend_from_slice(fraqment);
+        Ok(())
+    }
+    pub fn is_empty(&self) -> bool {
+        self.0.is_empty()
+    }
+    /// Returns the next message, if it was received completely
+    pub fn next_message(&mut self) -> Result<Option<Vec<u8>>, TlsError> {
+        if self.0.len() < 4 {
+            return Ok(None);
+        }
+        let len = ((self.0[1] as usize) << 16) | ((self.0[2] as usize) << 8) | self.0[3] as usize;
+        if len > MAX_HANDSHAKE_LEN {
+            return Err(TlsError::DecodeError);
+        }
+        if self.0.len() < 4 + len {
+            return Ok(None);
+        }
+        Ok(Some(self.0.drain(..4 + len).collect()))
+    }
+}
+
 pub struct Handshake<'a> {
     pub handshake_type: HandshakeType,
     pub fraqment: &'a [u8],
@@ -63,6 +99,9 @@ impl<'a> Handshake<'a> {
         };
 
         let len = (((buf[1] as u32) << 16) | ((buf[2] as u32) << 8) | buf[3] as u32) as usize;
+        if buf.len() < 4 + len {
+            return Err(TlsError::DecodeError);
+        }
         Ok(Handshake {
             handshake_type,
             fraqment: &buf[4..(len + 4)],
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 1b03dd1..7593ecd 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -5,14 +5,15 @@
 
 use crate::crypto::ellipticcurve::Signature;
 use crate::hash::TranscriptHash;
-use crate::net::record::{Record, RecordPayloadProtection, RecordType};
+use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
 use crate::net::server::{ServerConfig, ServerHello};
 use crate::net::{
     alert::TlsError,
     client::ClientHello,
     extensions::{ServerExtensions, SignatureScheme},
     handshake::{
-        get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake, HandshakeType,
+        get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake,
+        HandshakeBuffer, HandshakeType,
     },
 };
 use crate::net::{KeySchedule, TlsStream};
@@ -66,6 +67,7 @@ struct ServerHandshake<'a> {
     stream: &'a mut TlsStream,
     config: &'a ServerConfig,
     state: ServerHsState,
+    hs_buffer: HandshakeBuffer,
     keylog: Option<KeyLog>,
     client_cert: Option<Certificate>,
     certificate_request_context: Option<Vec<u8>>,
@@ -80,6 +82,7 @@ impl<'a> ServerHandshake<'a> {
             stream,
             config,
             state: ServerHsState::ClientHello,
+            hs_buffer: HandshakeBuffer::default(),
             keylog: None,
             client_cert: None,
             certificate_request_context: None,
@@ -120,12 +123,18 @@ impl<'a> ServerHandshake<'a> {
         match record.content_type {
             RecordType::ChangeCipherSpec => {
                 log::debug!("--> ChangeCipherSpec");
-                if self.state == ServerHsState::ClientHello {
+                if self.state == ServerHsState::ClientHello
+                    || record.fraqment.as_ref() != [0x01]
+                    || !self.hs_buffer.is_empty()
+                {
                     return Err(TlsError::UnexpectedMessage);
                 }
                 return Ok(());
             }
             RecordType::Alert => {
+                if record.fraqment.len() != 2 {
+                    return Err(TlsError::DecodeError);
+                }
                 let alert_code = record.fraqment.as_ref()[1];
                 let alert = TlsError::new(alert_code);
                 log::debug!("--> Alert {alert:?}");
@@ -139,7 +148,17 @@ impl<'a> ServerHandshake<'a> {
                     if record.content_type != RecordType::Handshake {
                         return Err(TlsError::UnexpectedMessage);
                     }
-                    self.handle_client_hello(record)?;
+                    self.hs_buffer.push(record.fraqment.as_ref())?;
+                    if let Some(message) = self.hs_buffer.next_message()? {
+                        // Handshake messages must not span key changes
+                        if !self.hs_buffer.is_empty() {
+                            return Err(TlsError::UnexpectedMessage);
+                        }
+                        self.handle_client_hello(Record::new(
+                            RecordType::Handshake,
+                            Value::Owned(message),
+                        ))?;
+                    }
                 }
                 ServerHsState::ClientCertificate
                 | ServerHsState::ClientCertificateVerify
@@ -291,28 +310,45 @@ impl<'a> ServerHandshake<'a> {
     }
 
     fn handle_handshake_encrypted_record(&mut self, record: Record) -> Result<(), TlsError> {
+        if record.content_type != RecordType::ApplicationData {
+            return Err(TlsError::UnexpectedMessage);
+        }
+
         let (content_type, content) = self.stream.protection.as_mut().unwrap().decrypt(record)?;
 
-        let record = Record::new(content_type, crate::net::record::Value::Owned(content));
+        let record = Record::new(content_type, Value::Owned(content));
 
         if record.content_type != RecordType::Handshake
             || (self.config.client_cert_ca.is_some() && self.certificate_request_context.is_none())
         {
             if record.content_type == RecordType::Alert {
+                if record.fraqment.len() != 2 {
+                    return Err(TlsError::DecodeError);
+                }
                 return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
             }
             return Err(TlsError::UnexpectedMessage);
         }
 
-        match self.state {
-            ServerHsState::ClientCertificate => self.handle_client_certificate(record)?,
-            ServerHsState::ClientCertificateVerify => {
-                self.handle_client_certificate_verify(record)?
-            }
-            ServerHsState::ClientFinished | ServerHsState::FinishWithError(_) => {
-                self.handle_client_finish(record)?
+        self.hs_buffer.push(record.fraqment.as_ref())?;
+
+        while let Some(message) = self.hs_buffer.next_message()? {
+            let record = Record::new(RecordType::Handshake, Value::Owned(message));
+
+            match self.state {
+                ServerHsState::ClientCertificate => self.handle_client_certificate(record)?,
+                ServerHsState::ClientCertificateVerify => {
+                    self.handle_client_certificate_verify(record)?
+                }
+                ServerHsState::ClientFinished | ServerHsState::FinishWithError(_) => {
+                    self.handle_client_finish(record)?
+                }
+                _ => return Err(TlsError::UnexpectedMessage),
             }
-            _ => (),
+        }
+
+        if self.state == ServerHsState::Ready && !self.hs_buffer.is_empty() {
+            return Err(TlsError::UnexpectedMessage);
         }
         Ok(())
     }
-- 
2.43.0


From 862f0cae2f0d5732f0781aa46db92d5a76840940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 10/42] fix: malformed hellos panicked instead of failing with
 an alert

---
 anothertls/src/net/client/client_hello.rs     | 57 +++++++++--------
 .../src/net/extensions/certificate_request.rs | 28 +++++----
 anothertls/src/net/extensions/client.rs       | 48 +++++++--------
 anothertls/src/net/extensions/key_share.rs    | 52 +++++++---------
 anothertls/src/net/extensions/server.rs       | 42 ++++++-------
 anothertls/src/net/extensions/server_name.rs  | 30 ++++-----
 .../src/net/extensions/signature_algorithm.rs | 16 +++--
 .../src/net/extensions/supported_versions.rs  | 21 ++++---
 anothertls/src/net/server/server_hello.rs     | 61 ++++++++++++-------
 anothertls/src/utils/mod.rs                   |  1 +
 anothertls/src/utils/reader.rs                | 59 ++++++++++++++++++
 11 files changed, 248 insertions(+), 167 deletions(-)
 create mode 100644 anothertls/src/utils/reader.rs

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index ddb9232..7d7f3fc 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -10,7 +10,7 @@ use crate::{
         alert::TlsError,
         extensions::{ClientExtension, ClientExtensions, KeyShareEntry},
     },
-    utils::log,
+    utils::{log, reader::Reader},
 };
 use std::result::Result;
 
@@ -71,54 +71,53 @@ impl<'a> ClientHello<'a> {
         Ok(out)
     }
     pub fn from_raw(buf: &[u8]) -> Result<ClientHello, TlsError> {
-        if buf.len() < 45 {
-            // FIXME: make this dynamic -> extensions_len...
-            // 45 -> minimum handshake size (without session id, and extensions)
-            return Err(TlsError::IllegalParameter);
-        }
+        let mut reader = Reader::new(buf);
+
+        let legacy_version = reader.u16()?;
+        let random = reader.take(32)?;
+        let session_id = reader.vec_u8()?;
+        let cipher_suites_raw = reader.vec_u16()?;
+        let compression_methods = reader.vec_u8()?;
+        let extensions_raw = if reader.is_empty() {
+            // TLSv1.2 ClientHello without extensions
+            &[]
+        } else {
+            reader.vec_u16()?
+        };
+        reader.finish()?;
 
-        let legacy_version = ((buf[0] as u16) << 8) | buf[1] as u16;
         if legacy_version != 0x0303 {
             return Err(TlsError::ProtocolVersion);
         }
 
-        let random = buf[2..34].try_into().unwrap();
-        let session_id_length = buf[34];
-        let mut consumed = 35;
-        let mut legacy_session_id_echo = None;
+        if session_id.len() > 32 || cipher_suites_raw.is_empty() || cipher_suites_raw.len() % 2 != 0
+        {
+            return Err(TlsError::DecodeError);
+        }
 
-        if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+        let mut legacy_session_id_echo = None;
+        if !session_id.is_empty() {
+            legacy_session_id_echo = Some(session_id);
         }
 
         // Cipher Suites
-        let cipher_suites_len = ((buf[consumed] as u16) << 8) | (buf[consumed + 1] as u16);
-        if cipher_suites_len % 2 != 0 || buf.len() < (consumed + cipher_suites_len as usize) {
-            return Err(TlsError::IllegalParameter);
-        }
-        consumed += 2;
         let mut cipher_suites = vec![];
         log::debug!("Clients CipherSuites:");
-        for i in (consumed..(consumed + cipher_suites_len as usize)).step_by(2) {
-            let cs = CipherSuite::new(((buf[i] as u16) << 8) | (buf[i + 1] as u16));
+        for cs in cipher_suites_raw.chunks(2) {
+            let cs = CipherSuite::new(((cs[0] as u16) << 8) | (cs[1] as u16));
             if let Ok(cs) = cs {
                 log::debug!("  {cs:?}");
                 cipher_suites.push(cs);
             }
         }
 
-        consumed += cipher_suites_len as usize;
-
         // Compression Methode
         // TLS 1.3 no longer allows compression
-        consumed += 2;
-
-        let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
-        consumed += 2;
+        if compression_methods != [0x00] {
+            return Err(TlsError::IllegalParameter);
+        }
 
-        let extensions =
-            ClientExtension::from_client_hello(&buf[consumed..(consumed + extensions_len)])?;
+        let extensions = ClientExtension::from_client_hello(extensions_raw)?;
 
         Ok(ClientHello {
             random,
diff --git a/anothertls/src/net/extensions/certificate_request.rs b/anothertls/src/net/extensions/certificate_request.rs
index 4d67eaa..93e4a34 100644
--- a/anothertls/src/net/extensions/certificate_request.rs
+++ b/anothertls/src/net/extensions/certificate_request.rs
@@ -7,7 +7,7 @@ use crate::net::alert::TlsError;
 use crate::net::extensions::{
     Extension, ExtensionType, ExtensionWrapper, Extensions, SignatureAlgorithms,
 };
-use crate::utils::bytes;
+use crate::utils::reader::Reader;
 
 pub enum CertificateRequestExtension {
     SignatureAlgorithms(SignatureAlgorithms),
@@ -24,30 +24,32 @@ pub type CertificateRequestExtensions = Extensions<CertificateRequestExtension>;
 
 impl CertificateRequestExtensions {
     pub fn from_request(buf: &[u8]) -> Result<CertificateRequestExtensions, TlsError> {
-        let mut consumed = 0;
+        let mut reader = Reader::new(buf);
+        let mut seen = vec![];
         let mut extensions = Self::new();
         extensions.set_is_client();
 
-        while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
-            let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
-            consumed += 4;
-            if extension_type.is_none() {
-                consumed += size;
-                continue;
+        while !reader.is_empty() {
+            let extension_type = reader.u16()?;
+            let data = reader.vec_u16()?;
+            if seen.contains(&extension_type) {
+                // There MUST NOT be more than one extension of the same type
+                return Err(TlsError::IllegalParameter);
             }
-            let extension_type = extension_type.unwrap();
+            seen.push(extension_type);
+            let extension_type = match ExtensionType::new(extension_type) {
+                Some(e) => e,
+                None => continue,
+            };
 
             let extension = match extension_type {
                 ExtensionType::SignatureAlgorithms => {
                     CertificateRequestExtension::SignatureAlgorithms(
-                        SignatureAlgorithms::client_parse(&buf[consumed..])?,
+                        SignatureAlgorithms::client_parse(data)?,
                     )
                 }
                 _ => continue,
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/client.rs b/anothertls/src/net/extensions/client.rs
index f1362a5..d15991a 100644
--- a/anothertls/src/net/extensions/client.rs
+++ b/anothertls/src/net/extensions/client.rs
@@ -8,7 +8,7 @@ use crate::net::extensions::{
     Extension, ExtensionType, ExtensionWrapper, Extensions, KeyShare, ServerName,
     SignatureAlgorithms, SupportedGroups, SupportedVersions,
 };
-use crate::utils::bytes;
+use crate::utils::reader::Reader;
 
 pub type ClientExtensions = Extensions<ClientExtension>;
 
@@ -34,36 +34,36 @@ impl ExtensionWrapper for ClientExtension {
 }
 impl ClientExtension {
     pub fn from_client_hello(buf: &[u8]) -> Result<ClientExtensions, TlsError> {
-        let mut consumed = 0;
+        let mut reader = Reader::new(buf);
+        let mut seen = vec![];
         let mut extensions = ClientExtensions::new();
 
-        while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
-            let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
-            consumed += 4;
-            if extension_type.is_none() {
-                consumed += size;
-                continue;
+        while !reader.is_empty() {
+            let extension_type = reader.u16()?;
+            let data = reader.vec_u16()?;
+            if seen.contains(&extension_type) {
+                // There MUST NOT be more than one extension of the same type
+                return Err(TlsError::IllegalParameter);
             }
-            let extension_type = extension_type.unwrap();
+            seen.push(extension_type);
+            let extension_type = match ExtensionType::new(extension_type) {
+                Some(e) => e,
+                None => continue,
+            };
 
             let extension = match extension_type {
-                ExtensionType::ServerName => ClientExtension::ServerName(ServerName::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::KeyShare => ClientExtension::KeyShare(KeyShare::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::SupportedVersions => ClientExtension::SupportedVersion(
-                    SupportedVersions::server_parse(&buf[consumed..])?,
-                ),
-                ExtensionType::SignatureAlgorithms => ClientExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::server_parse(&buf[consumed..])?,
-                ),
+                ExtensionType::ServerName => {
+                    ClientExtension::ServerName(ServerName::server_parse(data)?)
+                }
+                ExtensionType::KeyShare => ClientExtension::KeyShare(KeyShare::server_parse(data)?),
+                ExtensionType::SupportedVersions => {
+                    ClientExtension::SupportedVersion(SupportedVersions::server_parse(data)?)
+                }
+                ExtensionType::SignatureAlgorithms => {
+                    ClientExtension::SignatureAlgorithms(SignatureAlgorithms::server_parse(data)?)
+                }
                 ExtensionType::SupportedGroups => continue,
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/key_share.rs b/anothertls/src/net/extensions/key_share.rs
index b7ec5ab..ff829dd 100644
--- a/anothertls/src/net/extensions/key_share.rs
+++ b/anothertls/src/net/extensions/key_share.rs
@@ -6,7 +6,7 @@
 use crate::net::alert::TlsError;
 use crate::net::extensions::shared::Extension;
 use crate::net::extensions::NamedGroup;
-use crate::utils::bytes;
+use crate::utils::reader::Reader;
 
 use super::ExtensionType;
 
@@ -19,20 +19,14 @@ impl KeyShareEntry {
     pub fn new(group: NamedGroup, opaque: Vec<u8>) -> KeyShareEntry {
         KeyShareEntry { group, opaque }
     }
-    fn parse(buf: &[u8]) -> Result<(usize, KeyShareEntry), TlsError> {
-        let group = bytes::to_u16(buf);
-        let group = match NamedGroup::new(group) {
-            Some(x) => x,
-            None => return Err(TlsError::IllegalParameter),
-        };
-        let public_key_len = bytes::to_u16(&buf[2..]);
-        Ok((
-            4 + public_key_len as usize,
-            KeyShareEntry {
-                group,
-                opaque: (buf[4..(public_key_len + 4) as usize]).to_vec(),
-            },
-        ))
+    /// Returns None for an unknown group
+    fn parse(reader: &mut Reader) -> Result<Option<KeyShareEntry>, TlsError> {
+        let group = NamedGroup::new(reader.u16()?);
+        let opaque = reader.vec_u16()?;
+        if opaque.is_empty() {
+            return Err(TlsError::DecodeError);
+        }
+        Ok(group.map(|group| KeyShareEntry::new(group, opaque.to_vec())))
     }
     fn as_bytes(&self) -> Vec<u8> {
         let mut out = vec![];
@@ -57,24 +51,22 @@ impl KeyShare {
     }
     fn parse(buf: &[u8], is_client: bool) -> Result<Self, TlsError> {
         let mut entries = vec![];
-        let mut len = 0;
-        let mut consumed = 0;
-        if !is_client {
-            len = bytes::to_u16(buf) as usize;
-            consumed += 2;
-        }
-        loop {
-            let (used, entry) = KeyShareEntry::parse(&buf[consumed..])?;
-            if used <= 7 {
-                break;
+        let mut reader = Reader::new(buf);
+        if is_client {
+            match KeyShareEntry::parse(&mut reader)? {
+                Some(entry) => entries.push(entry),
+                None => return Err(TlsError::IllegalParameter),
             }
-            entries.push(entry);
-            consumed += used;
-            // len is for server 0, so it should always break here
-            if consumed >= len {
-                break;
+        } else {
+            let mut list = Reader::new(reader.vec_u16()?);
+            while !list.is_empty() {
+                // Groups that are unknown (e.g. GREASE) must be ignored
+                if let Some(entry) = KeyShareEntry::parse(&mut list)? {
+                    entries.push(entry);
+                }
             }
         }
+        reader.finish()?;
         Ok(KeyShare(entries))
     }
 }
diff --git a/anothertls/src/net/extensions/server.rs b/anothertls/src/net/extensions/server.rs
index dab9dca..e364dee 100644
--- a/anothertls/src/net/extensions/server.rs
+++ b/anothertls/src/net/extensions/server.rs
@@ -9,7 +9,7 @@ use crate::net::extensions::{
     Extension, ExtensionType, ExtensionWrapper, Extensions, KeyShare, SignatureAlgorithms,
     SupportedVersions,
 };
-use crate::utils::bytes;
+use crate::utils::reader::Reader;
 
 pub enum ServerExtension {
     SupportedVersions(SupportedVersions),
@@ -31,34 +31,34 @@ pub type ServerExtensions = Extensions<ServerExtension>;
 
 impl ServerExtensions {
     pub fn from_server_hello(buf: &[u8]) -> Result<ServerExtensions, TlsError> {
-        let mut consumed = 0;
+        let mut reader = Reader::new(buf);
+        let mut seen = vec![];
         let mut extensions = ServerExtensions::new();
         extensions.set_is_client();
 
-        while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
-            let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
-            consumed += 4;
-            if extension_type.is_none() {
-                consumed += size;
-                continue;
+        while !reader.is_empty() {
+            let extension_type = reader.u16()?;
+            let data = reader.vec_u16()?;
+            if seen.contains(&extension_type) {
+                // There MUST NOT be more than one extension of the same type
+                return Err(TlsError::IllegalParameter);
             }
-            let extension_type = extension_type.unwrap();
+            seen.push(extension_type);
+            let extension_type = match ExtensionType::new(extension_type) {
+                Some(e) => e,
+                None => continue,
+            };
 
             let extension = match extension_type {
-                ExtensionType::KeyShare => ServerExtension::KeyShare(KeyShare::client_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::SupportedVersions => ServerExtension::SupportedVersions(
-                    SupportedVersions::client_parse(&buf[consumed..])?,
-                ),
-                ExtensionType::SignatureAlgorithms => ServerExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::client_parse(&buf[consumed..])?,
-                ), // ExtensionType::SupportedGroups => continue, // TODO
+                ExtensionType::KeyShare => ServerExtension::KeyShare(KeyShare::client_parse(data)?),
+                ExtensionType::SupportedVersions => {
+                    ServerExtension::SupportedVersions(SupportedVersions::client_parse(data)?)
+                }
+                ExtensionType::SignatureAlgorithms => {
+                    ServerExtension::SignatureAlgorithms(SignatureAlgorithms::client_parse(data)?)
+                } // ExtensionType::SupportedGroups => continue, // TODO
                 _ => continue, // ExtensionType::PSKKeyExchangeMode => continue, // TODO
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/server_name.rs b/anothertls/src/net/extensions/server_name.rs
index 6b524aa..dfcf89d 100644
--- a/anothertls/src/net/extensions/server_name.rs
+++ b/anothertls/src/net/extensions/server_name.rs
@@ -5,7 +5,7 @@
 
 use crate::net::alert::TlsError;
 use crate::net::extensions::{Extension, ExtensionType};
-use crate::utils::bytes;
+use crate::utils::reader::Reader;
 
 #[derive(Debug)]
 pub struct ServerName(String);
@@ -41,23 +41,19 @@ impl Extension for ServerName {
     where
         Self: Sized,
     {
-        let server_name_list_len = bytes::to_u16(buf);
-        let mut consumed = 2;
-        let mut server_name = String::new();
-        if server_name_list_len > 0 {
-            let name_type = buf[consumed];
-            consumed += 1;
-            if name_type != 0 {
-                return Err(TlsError::DecodeError);
-            }
-            let server_name_len = bytes::to_u16(&buf[consumed..]) as usize;
-            consumed += 2;
-            server_name =
-                match String::from_utf8(buf[consumed..server_name_len + consumed].to_vec()) {
-                    Ok(a) => a,
-                    Err(_) => return Err(TlsError::DecodeError),
-                };
+        let mut reader = Reader::new(buf);
+        let mut list = Reader::new(reader.vec_u16()?);
+        reader.finish()?;
+
+        let name_type = list.u8()?;
+        if name_type != 0 {
+            return Err(TlsError::DecodeError);
         }
+        let server_name = match String::from_utf8(list.vec_u16()?.to_vec()) {
+            Ok(a) => a,
+            Err(_) => return Err(TlsError::DecodeError),
+        };
+        list.finish()?;
         Ok(ServerName(server_name))
     }
 }
diff --git a/anothertls/src/net/extensions/signature_algorithm.rs b/anothertls/src/net/extensions/signature_algorithm.rs
index eb8a90d..4ee5848 100644
--- a/anothertls/src/net/extensions/signature_algorithm.rs
+++ b/anothertls/src/net/extensions/signature_algorithm.rs
@@ -7,6 +7,7 @@ use crate::net::alert::TlsError;
 use crate::net::extensions::shared::Extension;
 use crate::net::extensions::shared::ExtensionType;
 use crate::utils::bytes;
+use crate::utils::reader::Reader;
 
 #[derive(Clone, Copy, Debug)]
 #[allow(non_camel_case_types)]
@@ -96,12 +97,17 @@ impl Extension for SignatureAlgorithms {
     where
         Self: Sized,
     {
-        let len = bytes::to_u16(buf) as usize;
+        let mut reader = Reader::new(buf);
+        let list = reader.vec_u16()?;
+        reader.finish()?;
+        if list.is_empty() || list.len() % 2 != 0 {
+            return Err(TlsError::DecodeError);
+        }
         let mut out = vec![];
-        if len % 2 == 0 {
-            for i in (2..len).step_by(2) {
-                let tes = bytes::to_u16(&buf[i..(i + 2)]);
-                out.push(SignatureScheme::new(tes)?);
+        for scheme in list.chunks(2) {
+            // Unknown schemes must be ignored
+            if let Ok(scheme) = SignatureScheme::new(bytes::to_u16(scheme)) {
+                out.push(scheme);
             }
         }
         Ok(SignatureAlgorithms(out))
diff --git a/anothertls/src/net/extensions/supported_versions.rs b/anothertls/src/net/extensions/supported_versions.rs
index 8ce7fd1..3fef26f 100644
--- a/anothertls/src/net/extensions/supported_versions.rs
+++ b/anothertls/src/net/extensions/supported_versions.rs
@@ -6,6 +6,7 @@
 use crate::net::alert::TlsError;
 use crate::net::extensions::shared::Extension;
 use crate::utils::bytes;
+use crate::utils::reader::Reader;
 
 #[derive(Debug)]
 pub struct SupportedVersions(bool);
@@ -34,12 +35,15 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
-        let len = buf[0] as usize;
-        if len % 2 == 0 {
-            for i in (1..len + 1).step_by(2) {
-                if bytes::to_u16(&buf[i..(i + 2)]) == 0x0304 {
-                    return Ok(SupportedVersions::new(true));
-                }
+        let mut reader = Reader::new(buf);
+        let list = reader.vec_u8()?;
+        reader.finish()?;
+        if list.is_empty() || list.len() % 2 != 0 {
+            return Err(TlsError::DecodeError);
+        }
+        for version in list.chunks(2) {
+            if bytes::to_u16(version) == 0x0304 {
+                return Ok(SupportedVersions::new(true));
             }
         }
         Ok(SupportedVersions::new(false))
@@ -48,7 +52,10 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
-        if bytes::to_u16(&buf[0..2]) == 0x0304 {
+        if buf.len() != 2 {
+            return Err(TlsError::DecodeError);
+        }
+        if bytes::to_u16(buf) == 0x0304 {
             return Ok(SupportedVersions::new(true));
         }
         Ok(SupportedVersions::new(false))
diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 581e7c4..2cd962f 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -15,9 +15,16 @@ use crate::net::server::ServerConfig;
 use crate::rand::RngCore;
 use crate::utils::bytes::{self, ByteOrder};
 use crate::utils::log;
+use crate::utils::reader::Reader;
 use core::result::Result;
 use ibig::IBig;
 
+/// The random of a ServerHello which is a HelloRetryRequest (RFC 8446 4.1.3)
+const HELLO_RETRY_REQUEST_RANDOM: [u8; 32] = [
+    0xCF, 0x21, 0xAD, 0x74, 0xE5, 0x9A, 0x61, 0x11, 0xBE, 0x1D, 0x8C, 0x02, 0x1E, 0x65, 0xB8, 0x91,
+    0xC2, 0xA2, 0x11, 0x16, 0x7A, 0xBB, 0x8C, 0x5E, 0x07, 0x9E, 0x09, 0xE2, 0xC8, 0xA8, 0x33, 0x9C,
+];
+
 pub struct ServerHello<'a> {
     pub random: [u8; 32],
     pub legacy_session_id_echo: Option<&'a [u8]>,
@@ -27,35 +34,36 @@ pub struct ServerHello<'a> {
 
 impl<'a> ServerHello<'a> {
     pub fn from_raw(buf: &[u8]) -> Result<ServerHello, TlsError> {
-        if buf.len() < 36 {
-            return Err(TlsError::IllegalParameter);
-        }
+        let mut reader = Reader::new(buf);
+
+        let legacy_version = reader.u16()?;
+        let random: [u8; 32] = reader.take(32)?.try_into().unwrap();
+        let session_id = reader.vec_u8()?;
+        let cipher_suite = reader.u16()?;
+        let compression_method = reader.u8()?;
+        let extensions_raw = if reader.is_empty() {
+            // TLSv1.2 ServerHello without extensions
+            &[]
+        } else {
+            reader.vec_u16()?
+        };
+        reader.finish()?;
 
-        let legacy_version = ((buf[0] as u16) << 8) | buf[1] as u16;
         if legacy_version != 0x0303 {
             return Err(TlsError::ProtocolVersion);
         }
 
-        let random: [u8; 32] = buf[2..34].try_into().unwrap();
-        let session_id_length = buf[34];
-        let mut consumed = 35;
-        let mut legacy_session_id_echo = None;
-
-        if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+        if random == HELLO_RETRY_REQUEST_RANDOM {
+            log::error!("Not yet implemented: Hello Retry Request");
+            return Err(TlsError::HandshakeFailure);
         }
 
-        let cipher_suite =
-            CipherSuite::new(((buf[consumed] as u16) << 8) | (buf[consumed + 1] as u16))?;
-
-        consumed += 3; // CipherSuite + Compression Method
-
-        let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
-        consumed += 2;
+        let mut legacy_session_id_echo = None;
+        if !session_id.is_empty() {
+            legacy_session_id_echo = Some(session_id);
+        }
 
-        let extensions =
-            ServerExtensions::from_server_hello(&buf[consumed..(consumed + extensions_len)])?;
+        let extensions = ServerExtensions::from_server_hello(extensions_raw)?;
 
         let mut tls13_is_supported = false;
         for ext in extensions.as_vec().iter() {
@@ -71,6 +79,17 @@ impl<'a> ServerHello<'a> {
             return Err(TlsError::ProtocolVersion);
         }
 
+        let cipher_suite = match CipherSuite::new(cipher_suite) {
+            Ok(CipherSuite::TLS_EMPTY_RENEGOTIATION_INFO_SCSV) | Err(_) => {
+                return Err(TlsError::IllegalParameter)
+            }
+            Ok(cs) => cs,
+        };
+
+        if compression_method != 0 {
+            return Err(TlsError::IllegalParameter);
+        }
+
         Ok(ServerHello {
             random,
             legacy_session_id_echo,
diff --git a/anothertls/src/utils/mod.rs b/anothertls/src/utils/mod.rs
index 3146be0..f7bc3f0 100644
--- a/anothertls/src/utils/mod.rs
+++ b/anothertls/src/utils/mod.rs
@@ -9,6 +9,7 @@ pub mod der;
 pub mod error;
 pub mod keylog;
 pub mod pem;
+pub mod reader;
 
 #[macro_use]
 pub mod log;
diff --git a/anothertls/src/utils/reader.rs b/anothertls/src/utils/reader.rs
new file mode 100644
index 0000000..b4e5061
--- /dev/null
+++ b/anothertls/src/utils/reader.rs
@@ -0,0 +1,59 @@
+/*
+ * Copyright (c) 2023, Tobias Müller <git@tsmr.eu>
+ *
+ */
+
+use crate::net::alert::TlsError;
+
+/// Bounds-checked reader for the presentation language of TLS (RFC 8446 3.)
+pub struct Reader<'a>(&'a [u8]);
+
+impl<'a> Reader<'a> {
+    pub fn new(buf: &'a [u8]) -> Self {
+        Self(buf)
+    }
+    pub fn is_empty(&self) -> bool {
+        self.0.is_empty()
+    }
+    pub fn take(&mut self, len: usize) -> Result<&'a [u8], TlsError> {
+        if self.0.len() < len {
+            return Err(TlsError::DecodeError);
+        }
+        let (head, tail) = self.0.split_at(len);
+        self.0 = tail;
+        Ok(head)
+    }
+    pub fn u8(&mut self) -> Result<u8, TlsError> {
+        Ok(self.take(1)?[0])
+    }
+    pub fn u16(&mut self) -> Result<u16, TlsError> {
+        let b = self.take(2)?;
+        Ok(((b[0] as u16) << 8) | b[1] as u16)
+    }
+    pub fn u24(&mut self) -> Result<usize, TlsError> {
+        let b = self.take(3)?;
+        Ok(((b[0] as usize) << 16) | ((b[1] as usize) << 8) | b[2] as usize)
+    }
+    /// Vector with a length field of one byte
+    pub fn vec_u8(&mut self) -> Result<&'a [u8], TlsError> {
+        let len = self.u8()? as usize;
+        self.take(len)
+    }
+    /// Vector with a length field of two bytes
+    pub fn vec_u16(&mut self) -> Result<&'a [u8], TlsError> {
+        let len = self.u16()? as usize;
+        self.take(len)
+    }
+    /// Vector with a length field of three bytes
+    pub fn vec_u24(&mut self) -> Result<&'a [u8], TlsError> {
+        let len = self.u24()?;
+        self.take(len)
+    }
+    /// Nothing must be left
+    pub fn finish(&self) -> Result<(), TlsError> {
+        if !self.0.is_empty() {
+            return Err(TlsError::DecodeError);
+        }
+        Ok(())
+    }
+}
-- 
2.43.0


From d446fa5ee9ed58f417d2ac98d277df99534eefd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 11/42] fix: hellos without the required extensions were
 accepted or panicked

---
 anothertls/src/net/client/client_hello.rs     |  6 +--
 anothertls/src/net/client/connection.rs       |  7 +++
 anothertls/src/net/extensions/shared.rs       |  2 +-
 .../src/net/extensions/supported_groups.rs    |  2 +-
 anothertls/src/net/server/server_hello.rs     | 43 +++++++++++--------
 5 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index 7d7f3fc..c02e9af 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -8,7 +8,7 @@ use crate::{
     crypto::CipherSuite,
     net::{
         alert::TlsError,
-        extensions::{ClientExtension, ClientExtensions, KeyShareEntry},
+        extensions::{ClientExtension, ClientExtensions, KeyShareEntry, NamedGroup},
     },
     utils::{log, reader::Reader},
 };
@@ -130,9 +130,7 @@ impl<'a> ClientHello<'a> {
     pub fn get_public_key_share(&self) -> Option<&KeyShareEntry> {
         for ext in self.extensions.as_vec().iter() {
             if let ClientExtension::KeyShare(key_share) = ext {
-                if !key_share.0.is_empty() {
-                    return Some(&key_share.0[0]);
-                }
+                return key_share.0.iter().find(|e| e.group == NamedGroup::X25519);
             }
         }
         None
diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 69cf8f5..8ffb535 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -64,6 +64,7 @@ pub struct ClientHandshake<'a> {
     server_cert: Option<Certificate>,
     client_hello_bytes: Option<Vec<u8>>,
     client_hello_random: Option<Vec<u8>>,
+    session_id: Option<Vec<u8>>,
 }
 
 impl<'a> ClientHandshake<'a> {
@@ -85,6 +86,7 @@ impl<'a> ClientHandshake<'a> {
             private_key,
             client_hello_bytes: None,
             client_hello_random: None,
+            session_id: None,
         }
     }
 
@@ -162,6 +164,7 @@ impl<'a> ClientHandshake<'a> {
             Handshake::to_bytes(HandshakeType::ClientHello, client_hello.as_bytes()?);
 
         self.client_hello_random = Some(random);
+        self.session_id = Some(session_id);
         self.client_hello_bytes = Some(handshake_raw);
 
         self.stream.write_record(
@@ -234,6 +237,10 @@ impl<'a> ClientHandshake<'a> {
 
         let server_hello = ServerHello::from_raw(handshake.fraqment)?;
 
+        if server_hello.legacy_session_id_echo != self.session_id.as_deref() {
+            return Err(TlsError::IllegalParameter);
+        }
+
         let mut tshash = server_hello.cipher_suite.get_tshash()?;
 
         tshash.update(self.client_hello_bytes.as_ref().unwrap());
diff --git a/anothertls/src/net/extensions/shared.rs b/anothertls/src/net/extensions/shared.rs
index dc1e7fd..5b38efb 100644
--- a/anothertls/src/net/extensions/shared.rs
+++ b/anothertls/src/net/extensions/shared.rs
@@ -96,7 +96,7 @@ impl ExtensionType {
             // 0x23 => ExtensionType::SessionTicket,
             // 0x16 => ExtensionType::EncryptThenMac,
             // 0x17 => ExtensionType::ExtendedMasterSecret,
-            // 0x0d => ExtensionType::SignatureAlgorithms,
+            0x0d => ExtensionType::SignatureAlgorithms,
             0x2b => ExtensionType::SupportedVersions,
             // 0x2d => ExtensionType::PSKKeyExchangeMode,
             0x33 => ExtensionType::KeyShare,
diff --git a/anothertls/src/net/extensions/supported_groups.rs b/anothertls/src/net/extensions/supported_groups.rs
index 55f7709..7dd993a 100644
--- a/anothertls/src/net/extensions/supported_groups.rs
+++ b/anothertls/src/net/extensions/supported_groups.rs
@@ -13,7 +13,7 @@ use super::NamedGroup;
 pub struct SupportedGroups(Vec<NamedGroup>);
 impl SupportedGroups {
     pub fn supported() -> Self {
-        SupportedGroups(vec![NamedGroup::Secp256r1, NamedGroup::X25519])
+        SupportedGroups(vec![NamedGroup::X25519])
     }
 }
 impl Extension for SupportedGroups {
diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 2cd962f..cab8a7d 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -104,7 +104,8 @@ impl<'a> ServerHello<'a> {
     ) -> Result<(ServerHello<'a>, PrivateKey), TlsError> {
         let mut extensions = ServerExtensions::new();
         let mut private_key = None;
-        let mut named_group = None;
+        let mut has_key_share = false;
+        let mut has_signature_algorithms = false;
 
         let random: [u8; 32] = rng.bytes(32).try_into().unwrap();
 
@@ -116,14 +117,18 @@ impl<'a> ServerHello<'a> {
         //     random[(32 - 8) + i] = *b;
         // }
 
+        let tls13_is_supported = client_hello.extensions.as_vec().iter().any(
+            |ext| matches!(ext, ClientExtension::SupportedVersion(v) if v.is_tls13_supported()),
+        );
+        if !tls13_is_supported {
+            return Err(TlsError::ProtocolVersion);
+        }
+
         for ext in client_hello.extensions.as_vec().iter() {
             match ext {
-                ClientExtension::SupportedVersion(version) => {
-                    if !version.is_tls13_supported() {
-                        return Err(TlsError::InsufficientSecurity);
-                    }
-                }
+                ClientExtension::SupportedVersion(_) => (),
                 ClientExtension::KeyShare(key_share) => {
+                    has_key_share = true;
                     for key in key_share.0.iter() {
                         match key.group {
                             NamedGroup::X25519 => {
@@ -138,13 +143,9 @@ impl<'a> ServerHello<'a> {
                                 let kse =
                                     KeyShareEntry::new(NamedGroup::X25519, key_share_data.to_vec());
                                 extensions.push(ServerExtension::KeyShare(KeyShare::new(kse)));
-                                named_group = Some(NamedGroup::X25519);
                                 break;
                             }
-                            NamedGroup::Secp256r1 => {
-                                todo!("Add support for secp256 key exchange");
-                                // named_group = Some(NamedGroup::Secp256r1);
-                            }
+                            // TODO: Add support for secp256 key exchange
                             _ => {}
                         }
                     }
@@ -157,6 +158,7 @@ impl<'a> ServerHello<'a> {
                     }
                 }
                 ClientExtension::SignatureAlgorithms(sa) => {
+                    has_signature_algorithms = true;
                     let mut supported = false;
                     for sig_algo in sa.0.iter() {
                         if matches!(sig_algo, SignatureScheme::ecdsa_secp256r1_sha256) {
@@ -172,11 +174,19 @@ impl<'a> ServerHello<'a> {
             }
         }
 
-        if named_group.is_none() {
-            log::error!("No supported group -> Hello Retry Request");
-            return Err(TlsError::InsufficientSecurity);
+        // 9.2. Mandatory-to-Implement Extensions
+        if !has_key_share || !has_signature_algorithms {
+            return Err(TlsError::MissingExtension);
         }
 
+        let private_key = match private_key {
+            Some(pk) => pk,
+            None => {
+                log::error!("No supported group -> Hello Retry Request");
+                return Err(TlsError::InsufficientSecurity);
+            }
+        };
+
         extensions.push(ServerExtension::SupportedVersions(
             SupportedVersions::default(),
         ));
@@ -202,11 +212,6 @@ impl<'a> ServerHello<'a> {
             None => return Err(TlsError::HandshakeFailure),
         };
 
-        let private_key = match private_key {
-            Some(pk) => pk,
-            None => return Err(TlsError::HandshakeFailure),
-        };
-
         log::debug!("TLS connection using {cipher_suite:?}");
 
         Ok((
-- 
2.43.0


From 01c67f025a61004ab49102bf53383d0208826214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 12/42] fix: malformed DER and ECDSA signatures panicked or
 were accepted

---
 .../src/crypto/ellipticcurve/signature.rs     | 62 +++++++++++--------
 anothertls/src/utils/der.rs                   | 34 +++++-----
 2 files changed, 56 insertions(+), 40 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/signature.rs b/anothertls/src/crypto/ellipticcurve/signature.rs
index 1fc884d..cfc5a3d 100644
--- a/anothertls/src/crypto/ellipticcurve/signature.rs
+++ b/anothertls/src/crypto/ellipticcurve/signature.rs
@@ -23,39 +23,49 @@ impl Signature {
     }
 
     pub fn from_der(buf: &[u8]) -> Result<(Signature, usize), TlsError> {
-        let mut r = None;
-        let mut s = None;
         let mut consumed = 0;
 
-        for i in 0..3 {
-            let (size, der_type) = match der::der_parse(&mut consumed, buf) {
-                Ok(e) => e,
-                Err(e) => {
-                    log::debug!("Error parsing Signature: {e:?}");
-                    return Err(TlsError::BadCertificate);
-                }
-            };
-
-            if i == 0 {
-                if der_type != EncodedForm::Constructed(DerType::Sequence) {
-                    return Err(TlsError::BadCertificate);
-                }
-            } else {
-                let int = bytes::to_ibig_be(&buf[consumed..consumed + size]);
-                consumed += size;
-                if r.is_none() {
-                    r = Some(int);
-                } else {
-                    s = Some(int);
-                }
+        let size = Self::expect_der_type(
+            buf,
+            &mut consumed,
+            EncodedForm::Constructed(DerType::Sequence),
+        )?;
+        // Nothing but the two integers is in the sequence
+        let sequence = &buf[..consumed + size];
+
+        let r = Self::parse_integer(sequence, &mut consumed)?;
+        let s = Self::parse_integer(sequence, &mut consumed)?;
+
+        if consumed != sequence.len() {
+            return Err(TlsError::BadCertificate);
+        }
+
+        Ok((Signature::new(s, r), consumed))
+    }
+
+    fn expect_der_type(
+        buf: &[u8],
+        consumed: &mut usize,
+        expected: EncodedForm,
+    ) -> Result<usize, TlsError> {
+        match der::der_parse(consumed, buf) {
+            Ok((size, der_type)) if der_type == expected => Ok(size),
+            e => {
+                log::debug!("Error parsing Signature: {e:?}");
+                Err(TlsError::BadCertificate)
             }
         }
+    }
 
-        if s.is_none() {
+    fn parse_integer(buf: &[u8], consumed: &mut usize) -> Result<IBig, TlsError> {
+        let size = Self::expect_der_type(buf, consumed, EncodedForm::Primitive(DerType::Integer))?;
+        let integer = &buf[*consumed..*consumed + size];
+        // r and s are positive
+        if integer.is_empty() || integer[0] >> 7 == 1 {
             return Err(TlsError::BadCertificate);
         }
-
-        Ok((Signature::new(s.unwrap(), r.unwrap()), consumed))
+        *consumed += size;
+        Ok(bytes::to_ibig_be(integer))
     }
 
     pub fn to_der(&self) -> Vec<u8> {
diff --git a/anothertls/src/utils/der.rs b/anothertls/src/utils/der.rs
index a1083f3..c7ef46b 100644
--- a/anothertls/src/utils/der.rs
+++ b/anothertls/src/utils/der.rs
@@ -73,29 +73,35 @@ impl DerType {
     }
 }
 
+/// The content with the returned length starts at consumed and is within data
 pub fn der_parse(consumed: &mut usize, data: &[u8]) -> Result<(usize, EncodedForm), ParseError> {
-    let der_type = match DerType::from_u8(data[*consumed]) {
+    let tag = *data.get(*consumed).ok_or(ParseError::DerParseLen)?;
+    let der_type = match DerType::from_u8(tag) {
         Some(a) => a,
         None => return Err(ParseError::DerParseType),
     };
     *consumed += 1;
-    let size = get_len(data, consumed);
-    if size > data.len() {
+    let size = get_len(data, consumed)?;
+    if size > data.len() - *consumed {
         return Err(ParseError::DerParseLen);
     }
     Ok((size, der_type))
 }
 
-fn get_len(len: &[u8], consumed: &mut usize) -> usize {
-    let size;
-    if len[*consumed] >> 7 & 1 == 1 {
-        let consume_len = len[*consumed] & 0x7F;
-        *consumed += 1;
-        size = bytes::to_u128_be_fill(&len[*consumed..*consumed + consume_len as usize]) as usize;
-        *consumed += consume_len as usize;
-    } else {
-        size = len[*consumed] as usize;
-        *consumed += 1;
+fn get_len(data: &[u8], consumed: &mut usize) -> Result<usize, ParseError> {
+    let first = *data.get(*consumed).ok_or(ParseError::DerParseLen)?;
+    *consumed += 1;
+    if first >> 7 & 1 == 0 {
+        return Ok(first as usize);
+    }
+    let consume_len = (first & 0x7F) as usize;
+    // The indefinite form is not allowed in DER
+    if consume_len == 0 || consume_len > 4 {
+        return Err(ParseError::DerParseLen);
     }
-    size
+    let len = data
+        .get(*consumed..*consumed + consume_len)
+        .ok_or(ParseError::DerParseLen)?;
+    *consumed += consume_len;
+    Ok(bytes::to_u128_be_fill(len) as usize)
 }
-- 
2.43.0


From 7f8643dc6de53f1c7ec116876e8c05b33cf34c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 13/42] fix: malformed Certificate, CertificateVerify and
 CertificateRequest panicked

---
 anothertls/src/net/client/connection.rs     | 47 +++++++++------------
 anothertls/src/net/handshake/certificate.rs | 43 ++++++++-----------
 anothertls/src/net/server/connection.rs     | 33 +++++++--------
 3 files changed, 53 insertions(+), 70 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 8ffb535..12579a9 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -20,7 +20,7 @@ use crate::net::server::ServerHello;
 use crate::net::{KeySchedule, TlsStream};
 use crate::rand::{RngCore, URandomRng};
 use crate::utils::keylog::KeyLog;
-use crate::utils::{bytes, bytes::ByteOrder, log};
+use crate::utils::{bytes, bytes::ByteOrder, log, reader::Reader};
 use core::result::Result;
 use ibig::IBig;
 use std::net::TcpStream;
@@ -400,21 +400,25 @@ impl<'a> ClientHandshake<'a> {
 
         log::debug!("--> ServerCertificateVerify");
 
-        let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
+        let mut reader = Reader::new(handshake.fraqment);
+        let algo = SignatureScheme::new(reader.u16()?);
+        let raw_signature = reader.vec_u16()?;
+        reader.finish()?;
 
-        let mut consumed = 4; // algo and len
         match algo {
-            SignatureScheme::ecdsa_secp256r1_sha256 => {
-                let (signature, size) = match Signature::from_der(&handshake.fraqment[consumed..]) {
-                    Ok(e) => e,
+            Ok(SignatureScheme::ecdsa_secp256r1_sha256) => {
+                let signature = match Signature::from_der(raw_signature) {
+                    Ok((signature, size)) if size == raw_signature.len() => signature,
+                    Ok(_) => {
+                        self.state = ClientHsState::FinishWithError(TlsError::BadCertificate);
+                        return Ok(());
+                    }
                     Err(e) => {
                         self.state = ClientHsState::FinishWithError(e);
                         return Ok(());
                     }
                 };
 
-                consumed += size;
-
                 if !self.server_cert.as_ref().unwrap().is_certificate_valid(
                     signature,
                     self.tshash.as_ref().unwrap().as_ref(),
@@ -424,17 +428,12 @@ impl<'a> ClientHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for server cert not implemented yet"),
+            // The algorithm must be one that was offered in signature_algorithms
+            _ => return Err(TlsError::IllegalParameter),
         }
 
         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
-        let sign_len = bytes::to_u16(&handshake.fraqment[2..4]) as usize;
-        if sign_len != consumed - 4 {
-            self.state = ClientHsState::FinishWithError(TlsError::BadCertificate);
-            return Ok(());
-        }
-
         self.state = ClientHsState::Finished;
         Ok(())
     }
@@ -499,19 +498,15 @@ impl<'a> ClientHandshake<'a> {
     pub fn handle_certificate_request(&mut self) -> Result<(), TlsError> {
         let request = self.certificate_request.as_ref().unwrap();
 
-        let mut response: Vec<u8> = vec![request[0]];
-        let context_len = request[0] as usize;
+        let mut reader = Reader::new(request);
+        let context = reader.vec_u8()?;
+        let extensions = reader.vec_u16()?;
+        reader.finish()?;
 
-        let mut consumed = 1;
-        if context_len > 0 {
-            response.extend_from_slice(&request[1..context_len + 1]);
-            consumed += context_len;
-        }
+        let mut response: Vec<u8> = vec![context.len() as u8];
+        response.extend_from_slice(context);
 
-        let ext_len = bytes::to_u16(&request[consumed..]) as usize;
-        consumed += 2;
-        let _extensions =
-            CertificateRequestExtensions::from_request(&request[consumed..consumed + ext_len]);
+        let _extensions = CertificateRequestExtensions::from_request(extensions)?;
 
         if let Some(client_cert) = self.config.client_cert.as_ref() {
             response.extend_from_slice(&client_cert.get_certificate_for_handshake(vec![]));
diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 0b2c8e3..54ae72a 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -10,7 +10,7 @@ use crate::{
         alert::TlsError,
         extensions::{ServerExtension, ServerExtensions, SignatureAlgorithms, SignatureScheme},
     },
-    utils::{bytes, log, pem::get_pem_content_from_file, x509::X509},
+    utils::{log, pem::get_pem_content_from_file, reader::Reader, x509::X509},
 };
 
 pub struct Certificate {
@@ -50,34 +50,24 @@ impl Certificate {
     }
 
     pub fn from_hello(buf: &[u8]) -> Result<Vec<Certificate>, TlsError> {
-        let mut consumed = 1;
-        let cert_request_context_len = buf[0] as usize;
+        let mut reader = Reader::new(buf);
 
-        consumed += cert_request_context_len;
+        let _cert_request_context = reader.vec_u8()?;
+        let mut certs_list = Reader::new(reader.vec_u24()?);
+        reader.finish()?;
 
-        let certs_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
-        consumed += 3;
-
-        if certs_len == 0 {
+        if certs_list.is_empty() {
             log::debug!("Client send no certificate!");
             return Err(TlsError::CertificateRequired);
         }
 
         let mut certs = vec![];
 
-        let prev_len = consumed;
-
         #[allow(clippy::never_loop)]
-        while certs_len > (consumed - prev_len) {
-            let cert_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
-            consumed += 3;
-            let cert = Certificate::from_raw_x509(buf[consumed..consumed + cert_len].to_vec())?;
-            consumed += cert_len;
-            let cert_ext_len = bytes::to_u16(&buf[consumed..consumed + 2]);
-            consumed += 2;
-            if cert_ext_len > 0 {
+        while !certs_list.is_empty() {
+            let cert = Certificate::from_raw_x509(certs_list.vec_u24()?.to_vec())?;
+            if !certs_list.vec_u16()?.is_empty() {
                 log::error!("Certificate has Extensions");
-                consumed += cert_ext_len as usize;
             }
 
             if !cert
@@ -102,7 +92,7 @@ impl Certificate {
 
             certs.push(cert);
 
-            if certs_len > (consumed - prev_len) {
+            if !certs_list.is_empty() {
                 log::error!("More then one certificate. NOT YET IMPLEMENTED, so ignoring them!");
                 break;
             }
@@ -175,12 +165,13 @@ impl Certificate {
             return Err(TlsError::InternalError);
         }
 
-        let ca_public_key = self
-            .x509
-            .as_ref()
-            .unwrap()
-            .get_public_key()
-            .expect("CA for client certificate has no public key");
+        let ca_public_key = match self.x509.as_ref().unwrap().get_public_key() {
+            Some(e) => e,
+            None => {
+                log::error!("CA for client certificate has no (supported) public key");
+                return Err(TlsError::InternalError);
+            }
+        };
 
         let other_x509 = other.x509.as_ref().unwrap();
         let signature = match &other_x509.signature {
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 7593ecd..713be0c 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -18,7 +18,7 @@ use crate::net::{
 };
 use crate::net::{KeySchedule, TlsStream};
 use crate::rand::{RngCore, SeedableRng, SimpleRng, URandomRng, PRNG};
-use crate::utils::{bytes, keylog::KeyLog, log};
+use crate::utils::{keylog::KeyLog, log, reader::Reader};
 use core::result::Result;
 use ibig::{ibig, IBig};
 use std::net::SocketAddr;
@@ -371,8 +371,7 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificate");
 
-        let cert_request_context_len = handshake.fraqment[0] as usize;
-        let cert_request_context = &handshake.fraqment[1..cert_request_context_len + 1];
+        let cert_request_context = Reader::new(handshake.fraqment).vec_u8()?;
 
         if cert_request_context != self.certificate_request_context.as_ref().unwrap() {
             return Err(TlsError::HandshakeFailure);
@@ -424,22 +423,25 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificateVerify");
 
-        let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
-
-        let mut consumed = 4; // algo and len
+        let mut reader = Reader::new(handshake.fraqment);
+        let algo = SignatureScheme::new(reader.u16()?);
+        let raw_signature = reader.vec_u16()?;
+        reader.finish()?;
 
         match algo {
-            SignatureScheme::ecdsa_secp256r1_sha256 => {
-                let (signature, size) = match Signature::from_der(&handshake.fraqment[consumed..]) {
-                    Ok(e) => e,
+            Ok(SignatureScheme::ecdsa_secp256r1_sha256) => {
+                let signature = match Signature::from_der(raw_signature) {
+                    Ok((signature, size)) if size == raw_signature.len() => signature,
+                    Ok(_) => {
+                        self.state = ServerHsState::FinishWithError(TlsError::BadCertificate);
+                        return Ok(());
+                    }
                     Err(e) => {
                         self.state = ServerHsState::FinishWithError(e);
                         return Ok(());
                     }
                 };
 
-                consumed += size;
-
                 if !self.client_cert.as_ref().unwrap().is_certificate_valid(
                     signature,
                     self.tshash.as_ref().unwrap().as_ref(),
@@ -449,13 +451,8 @@ impl<'a> ServerHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for client cert not implemented yet"),
-        }
-
-        let sign_len = bytes::to_u16(&handshake.fraqment[2..4]) as usize;
-        if sign_len != consumed - 4 {
-            self.state = ServerHsState::FinishWithError(TlsError::BadCertificate);
-            return Ok(());
+            // The algorithm must be one that was offered in signature_algorithms
+            _ => return Err(TlsError::IllegalParameter),
         }
 
         self.tshash
-- 
2.43.0


From 787e80f288ba44fe23b2335a5ed5b51193a5cd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 14/42] fix: X.509 fields were read from unsigned parts and
 malformed certificates panicked

---
 anothertls/src/net/handshake/certificate.rs |   5 +-
 anothertls/src/utils/x509.rs                | 214 +++++++++++++-------
 2 files changed, 141 insertions(+), 78 deletions(-)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 54ae72a..38d118f 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -179,7 +179,10 @@ impl Certificate {
             None => return Err(TlsError::DecryptError),
         };
 
-        let context = &other.raw[4..4 + other_x509.tbs_certificate_size];
+        let context = match &other_x509.tbs_certificate.raw_data {
+            Some(e) => e,
+            None => return Err(TlsError::InternalError),
+        };
 
         let hash = sha256(context);
 
diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index fca8476..997c970 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -31,6 +31,7 @@ pub enum ParseError {
     UTF8String,
     TimeStamp,
     MissingObjectIdentifier,
+    Signature,
     NotYetImplemented,
 }
 
@@ -194,13 +195,13 @@ impl SubjectPublicKeyInfoBuilder {
         }
     }
     fn build(self) -> Result<SubjectPublicKeyInfo, ParseError> {
-        if self.algorithm.is_none() {
-            return Err(ParseError::SubjectPublicKeyInfo);
+        match (self.algorithm, self.subject_public_key) {
+            (Some(algorithm), Some(subject_public_key)) => Ok(SubjectPublicKeyInfo {
+                algorithm,
+                subject_public_key,
+            }),
+            _ => Err(ParseError::SubjectPublicKeyInfo),
         }
-        Ok(SubjectPublicKeyInfo {
-            algorithm: self.algorithm.unwrap(),
-            subject_public_key: self.subject_public_key.unwrap(),
-        })
     }
 }
 fn parse_object_identifier(id: &[u8]) -> Result<String, ParseError> {
@@ -323,7 +324,11 @@ impl TBSCertificateBuilder {
         }
     }
     pub fn build(self) -> Result<TBSCertificate, ParseError> {
-        if self.serial_number.is_none() || self.signature.is_none() {
+        if self.serial_number.is_none()
+            || self.signature.is_none()
+            || self.validity.not_before.is_none()
+            || self.validity.not_after.is_none()
+        {
             return Err(ParseError::TBSBuilder);
         }
         Ok(TBSCertificate {
@@ -355,9 +360,56 @@ pub struct X509 {
 impl X509 {
     pub fn from_raw(data: &[u8]) -> Result<X509, ParseError> {
         let mut res = X509Builder::new();
-        let mut consumed = 0;
         log::debug!("Start parsing X509 certificate");
-        parse(&mut res, ParsingState::Init, data, &mut consumed)?;
+
+        // Certificate ::= SEQUENCE { tbsCertificate, signatureAlgorithm, signatureValue }
+        let mut consumed = 0;
+        let size = expect_der_type(data, &mut consumed, &SEQUENCE)?;
+        if consumed + size != data.len() {
+            return Err(ParseError::DerParseLen);
+        }
+
+        // Only the content of tbsCertificate is signed by the issuer
+        let tbs_start = consumed;
+        let size = expect_der_type(data, &mut consumed, &SEQUENCE)?;
+        let tbs_raw = &data[tbs_start..consumed + size];
+        parse(&mut res, ParsingState::Init, tbs_raw, &mut 0, 0)?;
+        res.tbs_certificate.raw_data = Some(tbs_raw.to_vec());
+        res.tbs_certificate_size = tbs_raw.len();
+        consumed += size;
+
+        let size = expect_der_type(data, &mut consumed, &SEQUENCE)?;
+        let algorithm = &data[consumed..consumed + size];
+        consumed += size;
+        let mut pos = 0;
+        let size = expect_der_type(
+            algorithm,
+            &mut pos,
+            &EncodedForm::Primitive(DerType::ObjectIdentifier),
+        )?;
+        let algorithm = Algorithms::new(&parse_object_identifier(&algorithm[pos..pos + size])?)?;
+
+        let size = expect_der_type(
+            data,
+            &mut consumed,
+            &EncodedForm::Primitive(DerType::BitString),
+        )?;
+        let signature = parse_bit_string(&data[consumed..consumed + size])?;
+        consumed += size;
+        if consumed != data.len() {
+            return Err(ParseError::DerParseLen);
+        }
+
+        if matches!(
+            algorithm,
+            Algorithms::EcdsaWithSha256 | Algorithms::EcdsaWithSha384
+        ) {
+            res.signature = match Signature::from_der(signature) {
+                Ok((sign, size)) if size == signature.len() => Some(sign),
+                _ => return Err(ParseError::Signature),
+            };
+        }
+        res.signature_algorithm = Some(algorithm);
         res.build()
     }
     pub fn get_public_key(&self) -> Option<PublicKey> {
@@ -389,8 +441,9 @@ impl X509 {
             .subject_public_key
             .as_slice();
 
-        if pubkey[0] != 0x4 {
-            todo!("Handle compressed points");
+        // TODO: Handle compressed points
+        if pubkey.len() != 65 || pubkey[0] != 0x4 {
+            return None;
         }
 
         let x = bytes::to_ibig_be(&pubkey[1..33]);
@@ -403,7 +456,7 @@ pub struct X509Builder {
     tbs_certificate: TBSCertificateBuilder,
     tbs_certificate_size: usize,
     signature_algorithm: Option<Algorithms>,
-    signature: (Option<IBig>, Option<IBig>),
+    signature: Option<Signature>,
 }
 impl X509Builder {
     fn new() -> X509Builder {
@@ -411,24 +464,20 @@ impl X509Builder {
             tbs_certificate: TBSCertificateBuilder::new(),
             tbs_certificate_size: 0,
             signature_algorithm: None,
-            signature: (None, None),
+            signature: None,
         }
     }
     fn build(self) -> Result<X509, ParseError> {
-        let mut signature = None;
-
-        if self.signature.0.is_some() && self.signature.1.is_some() {
-            signature = Some(Signature::new(
-                self.signature.1.unwrap(),
-                self.signature.0.unwrap(),
-            ));
-        }
+        let signature_algorithm = match self.signature_algorithm {
+            Some(e) => e,
+            None => return Err(ParseError::Algorithms),
+        };
 
         Ok(X509 {
             tbs_certificate: self.tbs_certificate.build()?,
             tbs_certificate_size: self.tbs_certificate_size,
-            signature_algorithm: self.signature_algorithm.unwrap(),
-            signature,
+            signature_algorithm,
+            signature: self.signature,
         })
     }
 }
@@ -436,10 +485,35 @@ impl X509Builder {
 #[derive(PartialEq, Debug, Clone)]
 enum ParsingState {
     Init,
-    InBitString,
     InSet,
 }
 
+const SEQUENCE: EncodedForm = EncodedForm::Constructed(DerType::Sequence);
+
+/// The names and keys of a certificate are nested less deeply
+const MAX_DEPTH: usize = 16;
+
+/// Parses the header of the expected type and returns the length of the content
+fn expect_der_type(
+    data: &[u8],
+    consumed: &mut usize,
+    expected: &EncodedForm,
+) -> Result<usize, ParseError> {
+    let (size, der_type) = der_parse(consumed, data)?;
+    if der_type != *expected {
+        return Err(ParseError::DerParseType);
+    }
+    Ok(size)
+}
+
+/// Returns the content of a BIT STRING which has no unused bits
+fn parse_bit_string(body: &[u8]) -> Result<&[u8], ParseError> {
+    match body.split_first() {
+        Some((0, bits)) => Ok(bits),
+        _ => Err(ParseError::NotYetImplemented),
+    }
+}
+
 #[derive(Debug, Clone)]
 pub enum Version {
     V1 = 0,
@@ -464,52 +538,62 @@ fn parse(
     state: ParsingState,
     data: &[u8],
     consumed: &mut usize,
+    depth: usize,
 ) -> Result<(), ParseError> {
+    if depth > MAX_DEPTH {
+        return Err(ParseError::NotYetImplemented);
+    }
     let (size, der) = der_parse(consumed, data)?;
     let body = &data[*consumed..*consumed + size];
 
     match der {
         EncodedForm::Constructed(cons) => match cons {
-            DerType::Sequence => {
-                if res.tbs_certificate_size == 0 {
-                    res.tbs_certificate_size = 1; // Size of tbs_certificate + signature_algorithm + signature
-                } else if res.tbs_certificate_size == 1 {
-                    res.tbs_certificate_size = size + 4;
-                }
+            DerType::Sequence | DerType::Set => {
+                let state = if cons == DerType::Set {
+                    ParsingState::InSet
+                } else {
+                    state
+                };
                 let size_should = size + *consumed;
                 while size_should > *consumed {
-                    parse(res, state.clone(), data, consumed)?;
+                    parse(
+                        res,
+                        state.clone(),
+                        &data[..size_should],
+                        consumed,
+                        depth + 1,
+                    )?;
                 }
             }
             DerType::ContextSpecific(tag) => {
                 match tag {
                     0x00 => {
-                        res.tbs_certificate.version = Some(Version::parse(&body[2..])?);
+                        let mut pos = 0;
+                        let size = expect_der_type(
+                            body,
+                            &mut pos,
+                            &EncodedForm::Primitive(DerType::Integer),
+                        )?;
+                        res.tbs_certificate.version = Some(Version::parse(&body[pos..pos + size])?);
                     }
                     0x03 => log::fixme!("TODO: certificate extenstions"),
                     _ => (),
                 }
                 *consumed += size;
             }
-            DerType::Set => {
-                parse(res, ParsingState::InSet, data, consumed)?;
-                // *consumed += size;
-            }
             _ => {
-                todo!("cons={cons:?}");
+                log::error!("not yet implemented: cons={cons:?}");
+                return Err(ParseError::NotYetImplemented);
             }
         },
         EncodedForm::Primitive(prim) => match prim {
             DerType::Integer => {
                 let int = bytes::to_ibig_be(body);
                 *consumed += size;
-                if res.tbs_certificate.serial_number.is_none() {
-                    res.tbs_certificate.serial_number = Some(int);
-                } else if res.signature.0.is_none() {
-                    res.signature.0 = Some(int);
-                } else {
-                    res.signature.1 = Some(int);
+                if res.tbs_certificate.serial_number.is_some() {
+                    return Err(ParseError::TBSBuilder);
                 }
+                res.tbs_certificate.serial_number = Some(int);
             }
             DerType::ObjectIdentifier => match state {
                 ParsingState::InSet => {
@@ -548,12 +632,9 @@ fn parse(
                             .as_mut()
                             .unwrap()
                             .parameters = Some(oji);
-                    } else if res.signature_algorithm.is_none() {
-                        res.signature_algorithm = Some(Algorithms::new(&oji)?);
                     }
                     *consumed += size;
                 }
-                _ => todo!("ObjectIdentifier {state:?}"),
             },
             DerType::PrintableString | DerType::UTF8String => {
                 let string = match String::from_utf8(body.to_vec()) {
@@ -567,10 +648,6 @@ fn parse(
                 }
                 *consumed += size;
             }
-            DerType::OctetString => {
-                *consumed += size;
-                todo!("GOT OctetString");
-            }
             DerType::UTCTime => {
                 let timestamp = match String::from_utf8(body.to_vec()) {
                     Ok(e) => e,
@@ -582,40 +659,23 @@ fn parse(
                 }
                 if res.tbs_certificate.validity.not_before.is_none() {
                     res.tbs_certificate.validity.not_before = timestamp;
-                } else {
+                } else if res.tbs_certificate.validity.not_after.is_none() {
                     res.tbs_certificate.validity.not_after = timestamp;
+                } else {
+                    return Err(ParseError::TimeStamp);
                 }
                 *consumed += size;
             }
             DerType::BitString => {
-                if data[*consumed + 1] == 0x30 {
-                    *consumed += 1;
-                    let size_should = size + *consumed - 1;
-                    while size_should > *consumed {
-                        parse(res, ParsingState::InBitString, data, consumed)?;
-                    }
-                } else {
-                    let number_of_unused_bits = data[*consumed];
-                    if number_of_unused_bits != 0 {
-                        todo!("Number of unused bits is not 0");
-                    }
-
-                    if res
-                        .tbs_certificate
-                        .subject_public_key_info
-                        .subject_public_key
-                        .is_none()
-                    {
-                        res.tbs_certificate
-                            .subject_public_key_info
-                            .subject_public_key = Some(BitString(body[1..].to_vec()));
-                    }
-                    *consumed += size;
+                let public_key = &mut res.tbs_certificate.subject_public_key_info;
+                if public_key.subject_public_key.is_some() {
+                    return Err(ParseError::SubjectPublicKeyInfo);
                 }
+                public_key.subject_public_key = Some(BitString(parse_bit_string(body)?.to_vec()));
+                *consumed += size;
             }
-            DerType::Null => {
-                todo!("Null");
-            }
+            // The parameters of the RSA algorithms
+            DerType::Null => *consumed += size,
             _ => {
                 log::error!("not yet implemented: prim={prim:?}");
                 return Err(ParseError::NotYetImplemented);
-- 
2.43.0


From dbb3f130b5270b3d80d9d7692e0c680822073a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 15/42] fix: UTCTime conversion of leap days, dates before 1970
 and invalid dates

---
 anothertls/src/utils/x509.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 997c970..3b54cd7 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -47,7 +47,8 @@ pub struct UtcTime {
 
 impl UtcTime {
     fn from_utc_timestamp(t: &str) -> Option<UtcTime> {
-        if t.len() < 12 {
+        // RFC 5280 4.1.2.5.1: YYMMDDHHMMSSZ
+        if t.len() != 13 || !t.ends_with('Z') || !t[..12].bytes().all(|b| b.is_ascii_digit()) {
             return None;
         }
         let (mut year, month, day, hour, minute, second) = (
@@ -63,6 +64,16 @@ impl UtcTime {
         } else {
             year += 1900;
         }
+        let days_of_month = match month {
+            2 if is_leap_year(year) => 29,
+            2 => 28,
+            4 | 6 | 9 | 11 => 30,
+            1..=12 => 31,
+            _ => return None,
+        };
+        if day < 1 || day > days_of_month || hour > 23 || minute > 59 || second > 59 {
+            return None;
+        }
         Some(UtcTime {
             year,
             month,
@@ -72,7 +83,11 @@ impl UtcTime {
             second,
         })
     }
+    /// Times before 1970 are returned as 0
     pub fn get_unix_timestamp(&self) -> u64 {
+        if self.year < 1970 {
+            return 0;
+        }
         let days_since_year_start = [0_u64, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
         let year = self.year as u64;
 
@@ -80,6 +95,9 @@ impl UtcTime {
             ((year - 1) - 1968) / 4 - ((year - 1) - 1900) / 100 + ((year - 1) - 1600) / 400;
         let mut days = (year - 1970) * 365 + leap_years;
         days += days_since_year_start[(self.month - 1) as usize];
+        if self.month > 2 && is_leap_year(self.year) {
+            days += 1;
+        }
         days += (self.day - 1) as u64;
 
         let mut res = 0;
@@ -90,6 +108,11 @@ impl UtcTime {
         res
     }
 }
+
+fn is_leap_year(year: u16) -> bool {
+    (year % 4 == 0 && year % 100 != 0) || year % 400 == 0
+}
+
 impl Display for UtcTime {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         // 1678989832
-- 
2.43.0


From 7b25faba3f0dbc532a84b6e64f578b79dfd4cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 16/42] fix: alerts after the server Finished were protected
 with the handshake keys

---
 anothertls/src/net/client/connection.rs |  1 +
 anothertls/src/net/record.rs            | 10 ++++++----
 anothertls/src/net/server/connection.rs | 21 +++++++++------------
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 12579a9..18e5607 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -486,6 +486,7 @@ impl<'a> ClientHandshake<'a> {
         // Derive-Secret: ClientHello..server Finished
         let protection = self.stream.protection.as_mut().unwrap();
         protection.generate_application_keys(application_tshash.as_ref())?;
+        protection.peer_finished = true;
 
         if let Some(k) = &self.keylog {
             k.append_from_record_payload_protection(protection);
diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index b471e78..95aa1be 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -121,6 +121,8 @@ pub struct RecordPayloadProtection {
     pub handshake_keys: WriteKeys,
     pub is_client: bool,
     pub application_keys: Option<WriteKeys>,
+    /// The peer uses the handshake keys until it has sent its Finished
+    pub peer_finished: bool,
 }
 
 impl RecordPayloadProtection {
@@ -133,6 +135,7 @@ impl RecordPayloadProtection {
             handshake_keys: WriteKeys::handshake_keys(&key_schedule, cipher.get_cipher_suite())?,
             // FIMXE: use application_keys
             application_keys: None,
+            peer_finished: false,
             cipher,
             // application_keys: WriteKeys::handshake_keys(&key_schedule)?,
             key_schedule,
@@ -200,10 +203,9 @@ impl RecordPayloadProtection {
 
     /// Returns Vec instead of a Record because of the borrow checker <3
     pub fn decrypt(&mut self, record: Record) -> Result<(RecordType, Vec<u8>), TlsError> {
-        let keys = if self.application_keys.is_some() {
-            self.application_keys.as_mut().unwrap()
-        } else {
-            &mut self.handshake_keys
+        let keys = match &mut self.application_keys {
+            Some(application_keys) if self.peer_finished => application_keys,
+            _ => &mut self.handshake_keys,
         };
 
         if record.fraqment.len() < 16 {
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 713be0c..e303621 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -73,7 +73,6 @@ struct ServerHandshake<'a> {
     certificate_request_context: Option<Vec<u8>>,
     rng: Box<dyn RngCore<IBig>>,
     tshash: Option<Box<dyn TranscriptHash>>,
-    tshash_clienthello_serverfinished: Option<Box<dyn TranscriptHash>>,
 }
 
 impl<'a> ServerHandshake<'a> {
@@ -91,7 +90,6 @@ impl<'a> ServerHandshake<'a> {
                 PRNG::URandom => Box::new(URandomRng::new()),
             },
             tshash: None,
-            tshash_clienthello_serverfinished: None,
         }
     }
     pub fn do_handshake_with_error(&mut self) -> Result<(), TlsError> {
@@ -299,6 +297,14 @@ impl<'a> ServerHandshake<'a> {
             .write_record(RecordType::Handshake, &handshake_raw)?;
         log::debug!("<-- ServerFinished");
 
+        // Derive-Secret: ClientHello..server Finished
+        // The server uses the application keys directly after its Finished
+        self.stream
+            .protection
+            .as_mut()
+            .unwrap()
+            .generate_application_keys(tshash.as_ref())?;
+
         self.state = if self.config.client_cert_ca.is_some() {
             ServerHsState::ClientCertificate
         } else {
@@ -362,8 +368,6 @@ impl<'a> ServerHandshake<'a> {
             return Err(TlsError::UnexpectedMessage);
         }
 
-        self.tshash_clienthello_serverfinished = Some((*self.tshash.as_ref().unwrap()).clone());
-
         self.tshash
             .as_mut()
             .unwrap()
@@ -488,14 +492,7 @@ impl<'a> ServerHandshake<'a> {
             return Err(TlsError::DecryptError);
         }
 
-        // Derive-Secret: ClientHello..server Finished
-        let tshash = if self.tshash_clienthello_serverfinished.is_some() {
-            self.tshash_clienthello_serverfinished.as_mut().unwrap()
-        } else {
-            self.tshash.as_mut().unwrap()
-        };
-
-        protection.generate_application_keys(tshash.as_ref())?;
+        protection.peer_finished = true;
 
         if let Some(k) = &self.keylog {
             k.append_from_record_payload_protection(protection);
-- 
2.43.0


From b613f4ede5251e301748becd1c58374e7112d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:14 +0000
Subject: [PATCH 17/42] fix: client sent a malformed empty Certificate and
 accepted a second CertificateRequest

---
 anothertls/src/net/client/connection.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 18e5607..c49b7ed 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -309,7 +309,9 @@ impl<'a> ClientHandshake<'a> {
             match self.state {
                 ClientHsState::EncryptedExtensions => self.handle_encrypted_extension(handshake)?,
                 ClientHsState::ServerCertificate | ClientHsState::ClientCertificateRequest => {
-                    if handshake.handshake_type == HandshakeType::CertificateRequest {
+                    if handshake.handshake_type == HandshakeType::CertificateRequest
+                        && self.state == ClientHsState::ClientCertificateRequest
+                    {
                         log::debug!("--> CertificateRequest");
                         self.certificate_request = Some(handshake.fraqment.to_vec());
                         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
@@ -512,8 +514,8 @@ impl<'a> ClientHandshake<'a> {
         if let Some(client_cert) = self.config.client_cert.as_ref() {
             response.extend_from_slice(&client_cert.get_certificate_for_handshake(vec![]));
         } else {
-            log::fixme!("Check if this works");
-            response.extend_from_slice(&[0x00, 0x00, 0x00, 0x02, 0x00, 0x00]);
+            // empty certificate_list
+            response.extend_from_slice(&[0x00, 0x00, 0x00]);
         }
 
         let handshake_raw = Handshake::to_bytes(HandshakeType::Certificate, response);
-- 
2.43.0


From cf78687c8827060d0beaa73d6c3ca48ebc8ed9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 18/42] fix: alerts skipped the sequence numbers of records
 that were not sent yet

---
 anothertls/src/net/stream.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 4cfd7c7..532a915 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -123,17 +123,14 @@ impl TlsStream {
 
         let record = Record::new(RecordType::Alert, Value::Owned(data));
 
-        let record_raw = if let Some(protect) = self.protection.as_mut() {
-            protect.encrypt(record)?
+        if let Some(protect) = self.protection.as_mut() {
+            // Records in the buffer have used a sequence number
+            self.buffer.append(&mut protect.encrypt(record)?);
         } else {
-            record.as_bytes()
+            self.buffer = record.as_bytes();
         };
 
-        if self.stream.write_all(&record_raw).is_err() {
-            return Err(TlsError::BrokenPipe);
-        };
-
-        Ok(())
+        self.flush()
     }
 
     /// Read from the TLS stream. Returns `TlsError::CloseNotify` if the peer
-- 
2.43.0


From 1c4fa6d304bc55dbb2117bd9459517d5036577bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 19/42] fix: client failed when the server sent a
 NewSessionTicket

---
 anothertls/src/net/stream.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 532a915..b33dbb0 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -4,6 +4,7 @@
  */
 
 use crate::net::alert::{AlertLevel, TlsError};
+use crate::net::handshake::{HandshakeBuffer, HandshakeType};
 use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
 use crate::utils::log;
 
@@ -24,6 +25,8 @@ pub struct TlsStream {
     rx_buffer: Vec<u8>,
     /// Decrypted application data, which was not yet read by the user
     plaintext: Vec<u8>,
+    /// Handshake messages received after the handshake
+    hs_buffer: HandshakeBuffer,
     /// Set when the peer closed the connection or after an fatal error
     error: Option<TlsError>,
 }
@@ -36,6 +39,7 @@ impl TlsStream {
             buffer: Vec::with_capacity(2048),
             rx_buffer: Vec::with_capacity(2048),
             plaintext: vec![],
+            hs_buffer: HandshakeBuffer::default(),
             error: None,
         }
     }
@@ -182,7 +186,13 @@ impl TlsStream {
             return Err(TlsError::UnexpectedMessage);
         }
 
-        let (typ, data) = self.protection.as_mut().unwrap().decrypt(record)?;
+        let protection = self.protection.as_mut().unwrap();
+        let is_client = protection.is_client;
+        let (typ, data) = protection.decrypt(record)?;
+
+        if typ != RecordType::Handshake && !self.hs_buffer.is_empty() {
+            return Err(TlsError::UnexpectedMessage);
+        }
 
         match typ {
             RecordType::ApplicationData => {
@@ -191,6 +201,17 @@ impl TlsStream {
             }
             RecordType::Alert if data.len() == 2 => Err(TlsError::GotAlert(data[1])),
             RecordType::Alert => Err(TlsError::DecodeError),
+            RecordType::Handshake if is_client => {
+                self.hs_buffer.push(&data)?;
+                while let Some(message) = self.hs_buffer.next_message()? {
+                    if message[0] != HandshakeType::NewSessionTicket as u8 {
+                        log::error!("Not yet implemented: Handle handshake messages");
+                        return Err(TlsError::UnexpectedMessage);
+                    }
+                    log::debug!("--> NewSessionTicket (resumption is not supported)");
+                }
+                Ok(())
+            }
             _ => {
                 log::error!("Not yet implemented: Handle handshake messages");
                 Err(TlsError::UnexpectedMessage)
-- 
2.43.0


From cb8ae0698fc42886e3f2f4b5bd12dc5c994de6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 20/42] fix: bytes() of the random number generators returned
 nothing or panicked

---
 anothertls/src/rand/simplerng.rs | 5 +++--
 anothertls/src/rand/urandom.rs   | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/rand/simplerng.rs b/anothertls/src/rand/simplerng.rs
index aaf7624..833393b 100644
--- a/anothertls/src/rand/simplerng.rs
+++ b/anothertls/src/rand/simplerng.rs
@@ -32,7 +32,7 @@ impl RngCore<u32> for SimpleRng<u32> {
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
         let mut res = vec![];
-        while res.len() >= size {
+        while res.len() < size {
             res.push(self.next() as u8)
         }
         res
@@ -61,12 +61,13 @@ impl RngCore<IBig> for SimpleRng<IBig> {
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
         let mut res = vec![];
-        while res.len() >= size {
+        while res.len() < size {
             res.extend_from_slice(&bytes::ibig_to_32bytes(
                 self.next(),
                 bytes::ByteOrder::Little,
             ));
         }
+        res.truncate(size);
         res
     }
 }
diff --git a/anothertls/src/rand/urandom.rs b/anothertls/src/rand/urandom.rs
index a2c14b3..c5297ae 100644
--- a/anothertls/src/rand/urandom.rs
+++ b/anothertls/src/rand/urandom.rs
@@ -48,7 +48,11 @@ impl RngCore<IBig> for URandomRng {
         self.next() % (max - min.clone()) + min
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
-        let rand_bytes = self.read_from_urandom();
-        rand_bytes[..size].to_owned()
+        let mut res = vec![];
+        while res.len() < size {
+            res.extend_from_slice(&self.read_from_urandom());
+        }
+        res.truncate(size);
+        res
     }
 }
-- 
2.43.0


From b60fd096a0c890c71deebb24c95981437231edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 21/42] fix: base64 decoding of invalid characters and padding

---
 anothertls/src/utils/base64.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/anothertls/src/utils/base64.rs b/anothertls/src/utils/base64.rs
index f20426a..3ce29fa 100644
--- a/anothertls/src/utils/base64.rs
+++ b/anothertls/src/utils/base64.rs
@@ -59,7 +59,7 @@ pub fn decode(input: &str) -> Option<Vec<u8>> {
         reverse_characters[c as usize] = i as u8;
     }
 
-    let mut input_iter = input.chars();
+    let mut input_iter = input.bytes();
     let mut out = vec![];
     let mut padding_len = 0;
 
@@ -67,14 +67,18 @@ pub fn decode(input: &str) -> Option<Vec<u8>> {
     while consumed < input.len() {
         consumed += 4;
         for (i, t) in tmp.iter_mut().enumerate() {
-            let idx = i + 1;
-            let ch = input_iter
-                .next()
-                .unwrap_or(if idx <= 2 { '=' } else { '\0' });
-            if ch == '=' {
+            let ch = input_iter.next()?;
+            if ch == b'=' {
+                // Only the last two characters can be padding
+                if consumed < input.len() || i < 2 {
+                    return None;
+                }
                 *t = 0;
                 padding_len += 1;
             } else {
+                if padding_len > 0 || !CHARS.as_bytes().contains(&ch) {
+                    return None;
+                }
                 *t = reverse_characters[ch as usize];
             }
         }
-- 
2.43.0


From 7c362a595a8de3813bc5b9e3dd03e6369e8d4ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 22/42] fix: PEM files with CRLF, chains and malformed files

---
 anothertls/src/crypto/ellipticcurve/privatekey.rs |  6 +++++-
 anothertls/src/utils/pem.rs                       | 10 ++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/privatekey.rs b/anothertls/src/crypto/ellipticcurve/privatekey.rs
index d2fe4ff..1150f65 100644
--- a/anothertls/src/crypto/ellipticcurve/privatekey.rs
+++ b/anothertls/src/crypto/ellipticcurve/privatekey.rs
@@ -19,7 +19,11 @@ impl PrivateKey {
     pub fn from_pem(filepath: String) -> Option<PrivateKey> {
         let raw = get_pem_content_from_file(filepath)?;
         let secret = raw.get("EC PRIVATE KEY")?;
-        let secret = bytes::to_ibig_be(&secret[7..39]);
+        // RFC 5915: SEQUENCE { INTEGER 1, OCTET STRING (32 bytes), ... }
+        if secret.first() != Some(&0x30) || secret.get(2..7) != Some(&[2, 1, 1, 4, 32]) {
+            return None;
+        }
+        let secret = bytes::to_ibig_be(secret.get(7..39)?);
         // FIXME: PARSE ASN1 OID
         Some(PrivateKey {
             curve: Curve::secp256r1(),
diff --git a/anothertls/src/utils/pem.rs b/anothertls/src/utils/pem.rs
index dc00b21..fa06d91 100644
--- a/anothertls/src/utils/pem.rs
+++ b/anothertls/src/utils/pem.rs
@@ -23,12 +23,14 @@ pub fn get_pem_content_from_file(filepath: String) -> Option<HashMap<String, Vec
     let mut state = PemState::Start;
     let mut current_title = String::new();
     let mut current_content = String::new();
-    for line in pem.split('\n') {
+    for line in pem.lines() {
+        let line = line.trim_end();
         match state {
             PemState::InContent => {
                 if line.starts_with("-----END") {
                     let raw = base64::decode(&current_content)?;
-                    content.insert(current_title.to_owned(), raw);
+                    // In a certificate chain the first one is the certificate of the owner
+                    content.entry(current_title.to_owned()).or_insert(raw);
                     state = PemState::End;
                     current_content.clear();
                 } else {
@@ -36,8 +38,8 @@ pub fn get_pem_content_from_file(filepath: String) -> Option<HashMap<String, Vec
                 }
             }
             PemState::End | PemState::Start => {
-                if line.starts_with("-----BEGIN") {
-                    current_title = line[11..(line.len() - 5)].to_string();
+                if let Some(title) = line.strip_prefix("-----BEGIN ") {
+                    current_title = title.strip_suffix("-----")?.to_string();
                     state = PemState::InContent;
                 }
             }
-- 
2.43.0


From dc683ea0f1fa33f6bc5e166559cc798531c968cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 23/42] fix: keylog lines of concurrent connections were mixed

---
 anothertls/src/utils/keylog.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/utils/keylog.rs b/anothertls/src/utils/keylog.rs
index 9d07c2e..631c9aa 100644
--- a/anothertls/src/utils/keylog.rs
+++ b/anothertls/src/utils/keylog.rs
@@ -49,6 +49,7 @@ impl KeyLog {
         content += &self.client_random;
         content += " ";
         content += &bytes::to_hex(client);
+        content += "\n";
         self.append_to_file(content)
     }
     pub fn append_handshake_traffic_secrets(&self, server: &[u8], client: &[u8]) {
@@ -63,18 +64,26 @@ impl KeyLog {
         content += &self.client_random;
         content += " ";
         content += &bytes::to_hex(client);
+        content += "\n";
         self.append_to_file(content)
     }
 
     fn append_to_file(&self, content: String) {
-        let mut file = OpenOptions::new()
+        let file = OpenOptions::new()
             .create(true)
-            .write(true)
             .append(true)
-            .open(&self.filepath)
-            .unwrap_or_else(|_| panic!("Couldn't open or create keylog file {}", self.filepath));
+            .open(&self.filepath);
+
+        let mut file = match file {
+            Ok(e) => e,
+            Err(e) => {
+                eprintln!("Couldn't open or create keylog file {}: {e}", self.filepath);
+                return;
+            }
+        };
 
-        if let Err(e) = writeln!(file, "{}", content) {
+        // One write, so the lines of concurrent connections are not mixed
+        if let Err(e) = file.write_all(content.as_bytes()) {
             eprintln!("Couldn't write to file: {}", e);
         }
     }
-- 
2.43.0


From 30389d86e1d6f826e1968608714c7611c805f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 24/42] fix: client config without the key of the certificate
 panicked

---
 anothertls/src/net/client/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/net/client/config.rs b/anothertls/src/net/client/config.rs
index ffa1da5..f6774db 100644
--- a/anothertls/src/net/client/config.rs
+++ b/anothertls/src/net/client/config.rs
@@ -69,7 +69,7 @@ impl ClientConfigBuilder {
     }
     pub fn build(self) -> core::result::Result<ClientConfig, String> {
         if self.client_cert.is_some() && self.client_key.is_none() {
-            panic!("No private key was set for the client certificate.")
+            return Err("No private key was set for the client certificate.".to_string());
         }
         Ok(ClientConfig {
             keylog: self.keylog,
-- 
2.43.0


From f066a0e41a72f806cfe3171de05814f80a8fcac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 25/42] fix: DER lengths and signature numbers in non-minimal
 encodings were accepted

---
 anothertls/src/crypto/ellipticcurve/signature.rs | 4 ++++
 anothertls/src/utils/der.rs                      | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/crypto/ellipticcurve/signature.rs b/anothertls/src/crypto/ellipticcurve/signature.rs
index cfc5a3d..a53c06d 100644
--- a/anothertls/src/crypto/ellipticcurve/signature.rs
+++ b/anothertls/src/crypto/ellipticcurve/signature.rs
@@ -64,6 +64,10 @@ impl Signature {
         if integer.is_empty() || integer[0] >> 7 == 1 {
             return Err(TlsError::BadCertificate);
         }
+        // A leading zero byte is there only if the number would be negative without it
+        if integer.len() > 1 && integer[0] == 0 && integer[1] >> 7 == 0 {
+            return Err(TlsError::BadCertificate);
+        }
         *consumed += size;
         Ok(bytes::to_ibig_be(integer))
     }
diff --git a/anothertls/src/utils/der.rs b/anothertls/src/utils/der.rs
index c7ef46b..e204ae4 100644
--- a/anothertls/src/utils/der.rs
+++ b/anothertls/src/utils/der.rs
@@ -103,5 +103,10 @@ fn get_len(data: &[u8], consumed: &mut usize) -> Result<usize, ParseError> {
         .get(*consumed..*consumed + consume_len)
         .ok_or(ParseError::DerParseLen)?;
     *consumed += consume_len;
-    Ok(bytes::to_u128_be_fill(len) as usize)
+    let size = bytes::to_u128_be_fill(len) as usize;
+    // DER has exactly one encoding of every length, the shortest
+    if size < 0x80 || len[0] == 0 {
+        return Err(ParseError::DerParseLen);
+    }
+    Ok(size)
 }
-- 
2.43.0


From 857c7f02697810db6fa90001a433f2f66db99219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 26/42] fix: DER tags of the application and private classes
 were taken for universal ones

---
 anothertls/src/utils/der.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anothertls/src/utils/der.rs b/anothertls/src/utils/der.rs
index e204ae4..b77616c 100644
--- a/anothertls/src/utils/der.rs
+++ b/anothertls/src/utils/der.rs
@@ -39,6 +39,8 @@ impl DerType {
         let der_type = if (tag >> 6 & 0x3) == 0x2 {
             // Context-specific
             DerType::ContextSpecific(tag & 0xf)
+        } else if tag >> 6 != 0 {
+            return None; // Application and private tags are not used
         } else {
             match content {
                 0x02 => DerType::Integer,
-- 
2.43.0


From 1a1aab1800f5dee916ffab7e988406eb37ab9e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:40 +0000
Subject: [PATCH 27/42] fix: certificates whose signature algorithm is not the
 signed one were accepted

---
 anothertls/src/utils/x509.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 3b54cd7..58ff141 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -423,6 +423,12 @@ impl X509 {
             return Err(ParseError::DerParseLen);
         }
 
+        // RFC 5280 4.1.1.2: must be the algorithm of the signed part
+        match &res.tbs_certificate.signature {
+            Some(signed) if signed.algorithm == algorithm => (),
+            _ => return Err(ParseError::Algorithms),
+        }
+
         if matches!(
             algorithm,
             Algorithms::EcdsaWithSha256 | Algorithms::EcdsaWithSha384
-- 
2.43.0


From 68f105be885be8965eee775a9ceb27a866c55e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:42 +0000
Subject: [PATCH 28/42] fix: client certificates signed with ecdsa-with-SHA384
 were refused

---
 anothertls/src/net/handshake/certificate.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 38d118f..a582b3c 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -5,12 +5,17 @@
 
 use crate::{
     crypto::ellipticcurve::{Ecdsa, PrivateKey, Signature},
-    hash::{sha256, TranscriptHash},
+    hash::{sha256, sha384, TranscriptHash},
     net::{
         alert::TlsError,
         extensions::{ServerExtension, ServerExtensions, SignatureAlgorithms, SignatureScheme},
     },
-    utils::{log, pem::get_pem_content_from_file, reader::Reader, x509::X509},
+    utils::{
+        log,
+        pem::get_pem_content_from_file,
+        reader::Reader,
+        x509::{Algorithms, X509},
+    },
 };
 
 pub struct Certificate {
@@ -184,7 +189,12 @@ impl Certificate {
             None => return Err(TlsError::InternalError),
         };
 
-        let hash = sha256(context);
+        let hash = match other_x509.signature_algorithm {
+            Algorithms::EcdsaWithSha256 => sha256(context),
+            // Only the leftmost bits, as many as the order of P-256 has
+            Algorithms::EcdsaWithSha384 => sha384(context)[..32].to_vec(),
+            _ => return Err(TlsError::DecryptError),
+        };
 
         if Ecdsa::verify(ca_public_key, signature, &hash) {
             return Ok(());
-- 
2.43.0


From 4011ec8e7d1810e34a7057e0158899726d57f217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:10 +0000
Subject: [PATCH 29/42] fix: an invalid CertificateVerify was reported as
 bad_certificate, not as decrypt_error

---
 anothertls/src/net/client/connection.rs | 4 ++--
 anothertls/src/net/server/connection.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index c49b7ed..9020796 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -412,7 +412,7 @@ impl<'a> ClientHandshake<'a> {
                 let signature = match Signature::from_der(raw_signature) {
                     Ok((signature, size)) if size == raw_signature.len() => signature,
                     Ok(_) => {
-                        self.state = ClientHsState::FinishWithError(TlsError::BadCertificate);
+                        self.state = ClientHsState::FinishWithError(TlsError::DecryptError);
                         return Ok(());
                     }
                     Err(e) => {
@@ -426,7 +426,7 @@ impl<'a> ClientHandshake<'a> {
                     self.tshash.as_ref().unwrap().as_ref(),
                     b"server",
                 ) {
-                    self.state = ClientHsState::FinishWithError(TlsError::BadCertificate);
+                    self.state = ClientHsState::FinishWithError(TlsError::DecryptError);
                     return Ok(());
                 }
             }
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index e303621..7500b9e 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -437,7 +437,7 @@ impl<'a> ServerHandshake<'a> {
                 let signature = match Signature::from_der(raw_signature) {
                     Ok((signature, size)) if size == raw_signature.len() => signature,
                     Ok(_) => {
-                        self.state = ServerHsState::FinishWithError(TlsError::BadCertificate);
+                        self.state = ServerHsState::FinishWithError(TlsError::DecryptError);
                         return Ok(());
                     }
                     Err(e) => {
@@ -451,7 +451,7 @@ impl<'a> ServerHandshake<'a> {
                     self.tshash.as_ref().unwrap().as_ref(),
                     b"client",
                 ) {
-                    self.state = ServerHsState::FinishWithError(TlsError::BadCertificate);
+                    self.state = ServerHsState::FinishWithError(TlsError::DecryptError);
                     return Ok(());
                 }
             }
-- 
2.43.0


From a986e2d7abda30f3ff7aeb893d49822f95fe08cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:39 +0000
Subject: [PATCH 30/42] fix: protected alert and handshake records without
 content were reported as decode_error or ignored

---
 anothertls/src/net/record.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 95aa1be..af5e343 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -246,6 +246,13 @@ impl RecordPayloadProtection {
             }
         }
 
+        // Zero-length fragments of Handshake and Alert types must not be sent
+        if record_len == 0
+            && (content_type == RecordType::Handshake || content_type == RecordType::Alert)
+        {
+            return Err(TlsError::UnexpectedMessage);
+        }
+
         Ok((content_type, plaintext[..record_len].to_vec()))
     }
 }
-- 
2.43.0


From c59b2e763f60adfb3dea42656cdb14cd8891d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:41 +0000
Subject: [PATCH 31/42] fix: a CertificateVerify with an undecodable signature
 was reported as bad_certificate

---
 anothertls/src/net/client/connection.rs | 6 +-----
 anothertls/src/net/server/connection.rs | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 9020796..73c5d3f 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -411,14 +411,10 @@ impl<'a> ClientHandshake<'a> {
             Ok(SignatureScheme::ecdsa_secp256r1_sha256) => {
                 let signature = match Signature::from_der(raw_signature) {
                     Ok((signature, size)) if size == raw_signature.len() => signature,
-                    Ok(_) => {
+                    _ => {
                         self.state = ClientHsState::FinishWithError(TlsError::DecryptError);
                         return Ok(());
                     }
-                    Err(e) => {
-                        self.state = ClientHsState::FinishWithError(e);
-                        return Ok(());
-                    }
                 };
 
                 if !self.server_cert.as_ref().unwrap().is_certificate_valid(
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 7500b9e..cd5aea6 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -436,14 +436,10 @@ impl<'a> ServerHandshake<'a> {
             Ok(SignatureScheme::ecdsa_secp256r1_sha256) => {
                 let signature = match Signature::from_der(raw_signature) {
                     Ok((signature, size)) if size == raw_signature.len() => signature,
-                    Ok(_) => {
+                    _ => {
                         self.state = ServerHsState::FinishWithError(TlsError::DecryptError);
                         return Ok(());
                     }
-                    Err(e) => {
-                        self.state = ServerHsState::FinishWithError(e);
-                        return Ok(());
-                    }
                 };
 
                 if !self.client_cert.as_ref().unwrap().is_certificate_valid(
-- 
2.43.0


From 3069f08558b080b4f09bf122caff5e5df74af9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:42 +0000
Subject: [PATCH 32/42] fix: an empty certificate list of the server was
 reported as certificate_required

---
 anothertls/src/net/client/connection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 73c5d3f..fc92972 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -360,6 +360,11 @@ impl<'a> ClientHandshake<'a> {
         let mut certs = match Certificate::from_hello(handshake.fraqment) {
             Ok(e) => e,
             Err(e) => {
+                // Only clients are allowed to send an empty certificate list
+                let e = match e {
+                    TlsError::CertificateRequired => TlsError::DecodeError,
+                    e => e,
+                };
                 self.state = ClientHsState::FinishWithError(e);
                 return Ok(());
             }
-- 
2.43.0


From 55ee182cf7910062b5d7d02917b78157468f3aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 33/42] fix: received alerts with other descriptions of RFC
 8446 were reported as decode_error

---
 anothertls/src/net/alert.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index 8e3c189..58076ac 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -36,9 +36,15 @@ pub enum TlsError {
     ProtocolVersion = 70,
     InsufficientSecurity = 71,
     InternalError = 80,
+    InappropriateFallback = 86,
+    UserCanceled = 90,
     MissingExtension = 109,
+    UnsupportedExtension = 110,
     UnrecognizedName = 112,
+    BadCertificateStatusResponse = 113,
+    UnknownPskIdentity = 115,
     CertificateRequired = 116,
+    NoApplicationProtocol = 120,
 
     NotOfficial = 250,
     GotAlert(u8) = 253, // Not official
@@ -66,9 +72,15 @@ impl TlsError {
             70 => TlsError::ProtocolVersion,
             71 => TlsError::InsufficientSecurity,
             80 => TlsError::InternalError,
+            86 => TlsError::InappropriateFallback,
+            90 => TlsError::UserCanceled,
             109 => TlsError::MissingExtension,
+            110 => TlsError::UnsupportedExtension,
             112 => TlsError::UnrecognizedName,
+            113 => TlsError::BadCertificateStatusResponse,
+            115 => TlsError::UnknownPskIdentity,
             116 => TlsError::CertificateRequired,
+            120 => TlsError::NoApplicationProtocol,
             250 => TlsError::NotOfficial,
             253 => TlsError::NotOfficial, // GotAlert has an associated value that we can't match here
             254 => TlsError::BrokenPipe,
@@ -97,9 +109,15 @@ impl TlsError {
             TlsError::ProtocolVersion => 70,
             TlsError::InsufficientSecurity => 71,
             TlsError::InternalError => 80,
+            TlsError::InappropriateFallback => 86,
+            TlsError::UserCanceled => 90,
             TlsError::MissingExtension => 109,
+            TlsError::UnsupportedExtension => 110,
             TlsError::UnrecognizedName => 112,
+            TlsError::BadCertificateStatusResponse => 113,
+            TlsError::UnknownPskIdentity => 115,
             TlsError::CertificateRequired => 116,
+            TlsError::NoApplicationProtocol => 120,
             TlsError::GotAlert(alert) => *alert,
             TlsError::BrokenPipe => 254,
             _ => 0,
-- 
2.43.0


From 59d303c99a9822e54e27409732a751b58203ed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:17 +0000
Subject: [PATCH 34/42] fix: received alerts with the codes of internal errors
 were reported as broken pipe

---
 anothertls/src/net/alert.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index 58076ac..08b3e92 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -81,9 +81,6 @@ impl TlsError {
             115 => TlsError::UnknownPskIdentity,
             116 => TlsError::CertificateRequired,
             120 => TlsError::NoApplicationProtocol,
-            250 => TlsError::NotOfficial,
-            253 => TlsError::NotOfficial, // GotAlert has an associated value that we can't match here
-            254 => TlsError::BrokenPipe,
             _ => TlsError::DecodeError,
         }
     }
-- 
2.43.0


From 796575fcda66a93f3d10942962106d4c7b71b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:19 +0000
Subject: [PATCH 35/42] fix: a ServerHello with a group that was not offered
 was refused with handshake_failure

---
 anothertls/src/net/extensions/key_share.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/extensions/key_share.rs b/anothertls/src/net/extensions/key_share.rs
index ff829dd..20f0ae9 100644
--- a/anothertls/src/net/extensions/key_share.rs
+++ b/anothertls/src/net/extensions/key_share.rs
@@ -54,8 +54,9 @@ impl KeyShare {
         let mut reader = Reader::new(buf);
         if is_client {
             match KeyShareEntry::parse(&mut reader)? {
-                Some(entry) => entries.push(entry),
-                None => return Err(TlsError::IllegalParameter),
+                // The only group that is offered in the ClientHello
+                Some(entry) if matches!(entry.group, NamedGroup::X25519) => entries.push(entry),
+                _ => return Err(TlsError::IllegalParameter),
             }
         } else {
             let mut list = Reader::new(reader.vec_u16()?);
-- 
2.43.0


From ed5a25d1c4d8d2b32340ecc21aaaf8bbfb74ea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:55 +0000
Subject: [PATCH 36/42] fix: certificates with misplaced, missing or doubled
 fields were accepted

---
 anothertls/src/utils/der.rs  |   2 +-
 anothertls/src/utils/x509.rs | 328 ++++++++++++++++-------------------
 2 files changed, 152 insertions(+), 178 deletions(-)

diff --git a/anothertls/src/utils/der.rs b/anothertls/src/utils/der.rs
index b77616c..3ab938d 100644
--- a/anothertls/src/utils/der.rs
+++ b/anothertls/src/utils/der.rs
@@ -38,7 +38,7 @@ impl DerType {
         let content = tag & 0x1F;
         let der_type = if (tag >> 6 & 0x3) == 0x2 {
             // Context-specific
-            DerType::ContextSpecific(tag & 0xf)
+            DerType::ContextSpecific(tag & 0x1f)
         } else if tag >> 6 != 0 {
             return None; // Application and private tags are not used
         } else {
diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 58ff141..6f09a26 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -228,23 +228,22 @@ impl SubjectPublicKeyInfoBuilder {
     }
 }
 fn parse_object_identifier(id: &[u8]) -> Result<String, ParseError> {
-    let id = bytes::to_u128_be_fill(id);
     Ok(match id {
-        0x550406 => "countryName".to_string(),
-        0x550408 => "stateOrProvinceName".to_string(),
-        0x55040a => "organizationName".to_string(),
-        0x550403 => "commonName".to_string(),
-        0x2a8648ce3d040302 => "ecdsaWithSHA256".to_string(),
-        0x2a8648ce3d040303 => "ecdsaWithSHA384".to_string(),
-        0x2a8648ce3d030107 => "prime256v1".to_string(),
-        0x2a8648ce3d0201 => "ecPublicKey".to_string(),
-        0x2a864886f70d010901 => "emailAddress".to_string(),
-        0x2a864886f70d01010b => "sha256WithRSAEncryption".to_string(),
-        0x2a864886f70d010101 => "sha256WithRSAEncryption".to_string(),
-        0x550407 => "localityName".to_string(),
-        0x55040B => "organizationalUnitName".to_string(),
+        [0x55, 0x04, 0x06] => "countryName".to_string(),
+        [0x55, 0x04, 0x08] => "stateOrProvinceName".to_string(),
+        [0x55, 0x04, 0x0a] => "organizationName".to_string(),
+        [0x55, 0x04, 0x03] => "commonName".to_string(),
+        [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x02] => "ecdsaWithSHA256".to_string(),
+        [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x03] => "ecdsaWithSHA384".to_string(),
+        [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07] => "prime256v1".to_string(),
+        [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x02, 0x01] => "ecPublicKey".to_string(),
+        [0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x09, 0x01] => "emailAddress".to_string(),
+        [0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b] => "sha256WithRSAEncryption".to_string(),
+        [0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01] => "sha256WithRSAEncryption".to_string(),
+        [0x55, 0x04, 0x07] => "localityName".to_string(),
+        [0x55, 0x04, 0x0b] => "organizationalUnitName".to_string(),
         _ => {
-            log::error!("Missing ObjectIdentifier: = {id:#x} (x509.rs)");
+            log::error!("Missing ObjectIdentifier: = {id:x?} (x509.rs)");
             "UNKOWN".to_string()
             // return Err(ParseError::MissingObjectIdentifier);
         }
@@ -396,21 +395,14 @@ impl X509 {
         let tbs_start = consumed;
         let size = expect_der_type(data, &mut consumed, &SEQUENCE)?;
         let tbs_raw = &data[tbs_start..consumed + size];
-        parse(&mut res, ParsingState::Init, tbs_raw, &mut 0, 0)?;
+        parse_tbs_certificate(&mut res.tbs_certificate, tbs_raw)?;
         res.tbs_certificate.raw_data = Some(tbs_raw.to_vec());
         res.tbs_certificate_size = tbs_raw.len();
         consumed += size;
 
         let size = expect_der_type(data, &mut consumed, &SEQUENCE)?;
-        let algorithm = &data[consumed..consumed + size];
+        let algorithm = parse_algorithm(&data[consumed..consumed + size])?.algorithm;
         consumed += size;
-        let mut pos = 0;
-        let size = expect_der_type(
-            algorithm,
-            &mut pos,
-            &EncodedForm::Primitive(DerType::ObjectIdentifier),
-        )?;
-        let algorithm = Algorithms::new(&parse_object_identifier(&algorithm[pos..pos + size])?)?;
 
         let size = expect_der_type(
             data,
@@ -511,16 +503,9 @@ impl X509Builder {
     }
 }
 
-#[derive(PartialEq, Debug, Clone)]
-enum ParsingState {
-    Init,
-    InSet,
-}
-
 const SEQUENCE: EncodedForm = EncodedForm::Constructed(DerType::Sequence);
-
-/// The names and keys of a certificate are nested less deeply
-const MAX_DEPTH: usize = 16;
+const INTEGER: EncodedForm = EncodedForm::Primitive(DerType::Integer);
+const OBJECT_IDENTIFIER: EncodedForm = EncodedForm::Primitive(DerType::ObjectIdentifier);
 
 /// Parses the header of the expected type and returns the length of the content
 fn expect_der_type(
@@ -562,158 +547,147 @@ impl Version {
         Err(ParseError::Version)
     }
 }
-fn parse(
-    res: &mut X509Builder,
-    state: ParsingState,
+/// Returns the content of the element at pos, which has to be of the expected type
+fn read<'a>(
+    data: &'a [u8],
+    pos: &mut usize,
+    expected: &EncodedForm,
+) -> Result<&'a [u8], ParseError> {
+    let size = expect_der_type(data, pos, expected)?;
+    let body = &data[*pos..*pos + size];
+    *pos += size;
+    Ok(body)
+}
+
+/// Like read, but None if there is another element, or no element, at pos
+fn read_optional<'a>(
+    data: &'a [u8],
+    pos: &mut usize,
+    expected: &EncodedForm,
+) -> Result<Option<&'a [u8]>, ParseError> {
+    if *pos == data.len() {
+        return Ok(None);
+    }
+    let (_, der_type) = der_parse(&mut pos.clone(), data)?;
+    if der_type != *expected {
+        return Ok(None);
+    }
+    Ok(Some(read(data, pos, expected)?))
+}
+
+/// Nothing may follow the last element
+fn expect_end(data: &[u8], pos: usize) -> Result<(), ParseError> {
+    if pos != data.len() {
+        return Err(ParseError::DerParseLen);
+    }
+    Ok(())
+}
+
+/// RFC 5280 4.1: TBSCertificate
+fn parse_tbs_certificate(
+    res: &mut TBSCertificateBuilder,
     data: &[u8],
-    consumed: &mut usize,
-    depth: usize,
 ) -> Result<(), ParseError> {
-    if depth > MAX_DEPTH {
-        return Err(ParseError::NotYetImplemented);
-    }
-    let (size, der) = der_parse(consumed, data)?;
-    let body = &data[*consumed..*consumed + size];
-
-    match der {
-        EncodedForm::Constructed(cons) => match cons {
-            DerType::Sequence | DerType::Set => {
-                let state = if cons == DerType::Set {
-                    ParsingState::InSet
-                } else {
-                    state
-                };
-                let size_should = size + *consumed;
-                while size_should > *consumed {
-                    parse(
-                        res,
-                        state.clone(),
-                        &data[..size_should],
-                        consumed,
-                        depth + 1,
-                    )?;
-                }
-            }
-            DerType::ContextSpecific(tag) => {
-                match tag {
-                    0x00 => {
-                        let mut pos = 0;
-                        let size = expect_der_type(
-                            body,
-                            &mut pos,
-                            &EncodedForm::Primitive(DerType::Integer),
-                        )?;
-                        res.tbs_certificate.version = Some(Version::parse(&body[pos..pos + size])?);
-                    }
-                    0x03 => log::fixme!("TODO: certificate extenstions"),
-                    _ => (),
-                }
-                *consumed += size;
-            }
-            _ => {
-                log::error!("not yet implemented: cons={cons:?}");
-                return Err(ParseError::NotYetImplemented);
-            }
-        },
-        EncodedForm::Primitive(prim) => match prim {
-            DerType::Integer => {
-                let int = bytes::to_ibig_be(body);
-                *consumed += size;
-                if res.tbs_certificate.serial_number.is_some() {
-                    return Err(ParseError::TBSBuilder);
-                }
-                res.tbs_certificate.serial_number = Some(int);
-            }
-            DerType::ObjectIdentifier => match state {
-                ParsingState::InSet => {
-                    if res.tbs_certificate.validity.not_after.is_none() {
-                        res.tbs_certificate.issuer.add_object_identifier(body)?;
-                    } else {
-                        res.tbs_certificate.subject.add_object_identifier(body)?;
-                    }
-                    *consumed += size;
-                }
-                ParsingState::Init => {
-                    let oji = parse_object_identifier(body)?;
-                    if res.tbs_certificate.signature.is_none() {
-                        res.tbs_certificate.signature =
-                            Some(AlgorithmIdentifier::new(Algorithms::new(&oji)?));
-                    } else if res
-                        .tbs_certificate
-                        .subject_public_key_info
-                        .algorithm
-                        .is_none()
-                    {
-                        res.tbs_certificate.subject_public_key_info.algorithm =
-                            Some(AlgorithmIdentifier::new(Algorithms::new(&oji)?));
-                    } else if res
-                        .tbs_certificate
-                        .subject_public_key_info
-                        .algorithm
-                        .as_ref()
-                        .unwrap()
-                        .parameters
-                        .is_none()
-                    {
-                        res.tbs_certificate
-                            .subject_public_key_info
-                            .algorithm
-                            .as_mut()
-                            .unwrap()
-                            .parameters = Some(oji);
-                    }
-                    *consumed += size;
-                }
-            },
-            DerType::PrintableString | DerType::UTF8String => {
-                let string = match String::from_utf8(body.to_vec()) {
-                    Ok(e) => e,
-                    Err(_) => return Err(ParseError::UTF8String),
-                };
-                if res.tbs_certificate.validity.not_after.is_none() {
-                    res.tbs_certificate.issuer.add_value(string)?;
-                } else {
-                    res.tbs_certificate.subject.add_value(string)?;
-                }
-                *consumed += size;
-            }
-            DerType::UTCTime => {
-                let timestamp = match String::from_utf8(body.to_vec()) {
-                    Ok(e) => e,
-                    Err(_) => return Err(ParseError::UTF8StringTimestamp),
-                };
-                let timestamp = UtcTime::from_utc_timestamp(&timestamp);
-                if timestamp.is_none() {
-                    return Err(ParseError::TimeStamp);
-                }
-                if res.tbs_certificate.validity.not_before.is_none() {
-                    res.tbs_certificate.validity.not_before = timestamp;
-                } else if res.tbs_certificate.validity.not_after.is_none() {
-                    res.tbs_certificate.validity.not_after = timestamp;
-                } else {
-                    return Err(ParseError::TimeStamp);
-                }
-                *consumed += size;
-            }
-            DerType::BitString => {
-                let public_key = &mut res.tbs_certificate.subject_public_key_info;
-                if public_key.subject_public_key.is_some() {
-                    return Err(ParseError::SubjectPublicKeyInfo);
-                }
-                public_key.subject_public_key = Some(BitString(parse_bit_string(body)?.to_vec()));
-                *consumed += size;
+    let mut pos = 0;
+    let body = read(data, &mut pos, &SEQUENCE)?;
+    expect_end(data, pos)?;
+    let context = DerType::ContextSpecific;
+
+    let mut pos = 0;
+    let version = EncodedForm::Constructed(context(0));
+    if let Some(version) = read_optional(body, &mut pos, &version)? {
+        let mut pos = 0;
+        let number = read(version, &mut pos, &INTEGER)?;
+        expect_end(version, pos)?;
+        res.version = Some(Version::parse(number)?);
+    }
+    let serial = read(body, &mut pos, &INTEGER)?;
+    match serial {
+        [] | [0, 0..=0x7f, ..] | [0xff, 0x80..=0xff, ..] => return Err(ParseError::TBSBuilder),
+        _ => res.serial_number = Some(bytes::to_ibig_be(serial)),
+    }
+    res.signature = Some(parse_algorithm(read(body, &mut pos, &SEQUENCE)?)?);
+    parse_name(&mut res.issuer, read(body, &mut pos, &SEQUENCE)?)?;
+    parse_validity(&mut res.validity, read(body, &mut pos, &SEQUENCE)?)?;
+    parse_name(&mut res.subject, read(body, &mut pos, &SEQUENCE)?)?;
+
+    let key_info = read(body, &mut pos, &SEQUENCE)?;
+    {
+        let mut pos = 0;
+        let key = &mut res.subject_public_key_info;
+        key.algorithm = Some(parse_algorithm(read(key_info, &mut pos, &SEQUENCE)?)?);
+        let bits = read(
+            key_info,
+            &mut pos,
+            &EncodedForm::Primitive(DerType::BitString),
+        )?;
+        key.subject_public_key = Some(BitString(parse_bit_string(bits)?.to_vec()));
+        expect_end(key_info, pos)?;
+    }
+
+    // issuerUniqueID, subjectUniqueID
+    read_optional(body, &mut pos, &EncodedForm::Primitive(context(1)))?;
+    read_optional(body, &mut pos, &EncodedForm::Primitive(context(2)))?;
+    let extensions = EncodedForm::Constructed(context(3));
+    if let Some(extensions) = read_optional(body, &mut pos, &extensions)? {
+        log::fixme!("TODO: certificate extenstions");
+        let mut pos = 0;
+        read(extensions, &mut pos, &SEQUENCE)?;
+        expect_end(extensions, pos)?;
+    }
+    expect_end(body, pos)
+}
+
+fn parse_algorithm(body: &[u8]) -> Result<AlgorithmIdentifier, ParseError> {
+    let mut pos = 0;
+    let id = read(body, &mut pos, &OBJECT_IDENTIFIER)?;
+    let mut algorithm = AlgorithmIdentifier::new(Algorithms::new(&parse_object_identifier(id)?)?);
+    if let Some(id) = read_optional(body, &mut pos, &OBJECT_IDENTIFIER)? {
+        algorithm.parameters = Some(parse_object_identifier(id)?);
+    } else {
+        // The parameters of the RSA algorithms
+        read_optional(body, &mut pos, &EncodedForm::Primitive(DerType::Null))?;
+    }
+    expect_end(body, pos)?;
+    Ok(algorithm)
+}
+
+fn parse_name(name: &mut Name, body: &[u8]) -> Result<(), ParseError> {
+    let mut pos = 0;
+    while pos < body.len() {
+        let set = read(body, &mut pos, &EncodedForm::Constructed(DerType::Set))?;
+        let mut pos = 0;
+        while pos < set.len() || set.is_empty() {
+            let attribute = read(set, &mut pos, &SEQUENCE)?;
+            let mut pos = 0;
+            name.add_object_identifier(read(attribute, &mut pos, &OBJECT_IDENTIFIER)?)?;
+            let (size, der_type) = der_parse(&mut pos, attribute)?;
+            match der_type {
+                EncodedForm::Primitive(DerType::PrintableString | DerType::UTF8String) => (),
+                _ => return Err(ParseError::NotYetImplemented),
             }
-            // The parameters of the RSA algorithms
-            DerType::Null => *consumed += size,
-            _ => {
-                log::error!("not yet implemented: prim={prim:?}");
-                return Err(ParseError::NotYetImplemented);
+            match String::from_utf8(attribute[pos..pos + size].to_vec()) {
+                Ok(value) => name.add_value(value)?,
+                Err(_) => return Err(ParseError::UTF8String),
             }
-        },
+            expect_end(attribute, pos + size)?;
+        }
     }
     Ok(())
 }
 
+fn parse_validity(validity: &mut Validity, body: &[u8]) -> Result<(), ParseError> {
+    let mut pos = 0;
+    let mut next = || {
+        let time = read(body, &mut pos, &EncodedForm::Primitive(DerType::UTCTime))?;
+        let time = std::str::from_utf8(time).map_err(|_| ParseError::UTF8StringTimestamp)?;
+        UtcTime::from_utc_timestamp(time).ok_or(ParseError::TimeStamp)
+    };
+    validity.not_before = Some(next()?);
+    validity.not_after = Some(next()?);
+    expect_end(body, pos)
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From 9e73a800233818c5c87b19b24c67324c8b03577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 37/42] fix: base64 texts with bits behind the last byte were
 decoded

---
 anothertls/src/utils/base64.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/utils/base64.rs b/anothertls/src/utils/base64.rs
index 3ce29fa..5ef60fe 100644
--- a/anothertls/src/utils/base64.rs
+++ b/anothertls/src/utils/base64.rs
@@ -89,7 +89,10 @@ pub fn decode(input: &str) -> Option<Vec<u8>> {
     }
 
     for _ in 0..padding_len {
-        out.pop();
+        // The bits which do not belong to a byte are always zero
+        if out.pop() != Some(0) {
+            return None;
+        }
     }
 
     Some(out)
-- 
2.43.0


From 410987a962a157bcf71bb702a51a1d6539c819d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 38/42] fix: PEM files with truncated END lines were accepted
 and with text that is not UTF-8 refused

---
 anothertls/src/utils/pem.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/utils/pem.rs b/anothertls/src/utils/pem.rs
index fa06d91..b5d60c6 100644
--- a/anothertls/src/utils/pem.rs
+++ b/anothertls/src/utils/pem.rs
@@ -15,10 +15,12 @@ enum PemState {
 }
 
 pub fn get_pem_content_from_file(filepath: String) -> Option<HashMap<String, Vec<u8>>> {
-    let pem = match fs::read_to_string(filepath) {
+    let pem = match fs::read(filepath) {
         Ok(e) => e,
         Err(_) => return None,
     };
+    // The text around the sections can have any encoding
+    let pem = String::from_utf8_lossy(&pem);
     let mut content = HashMap::new();
     let mut state = PemState::Start;
     let mut current_title = String::new();
@@ -27,7 +29,7 @@ pub fn get_pem_content_from_file(filepath: String) -> Option<HashMap<String, Vec
         let line = line.trim_end();
         match state {
             PemState::InContent => {
-                if line.starts_with("-----END") {
+                if line == format!("-----END {current_title}-----") {
                     let raw = base64::decode(&current_content)?;
                     // In a certificate chain the first one is the certificate of the owner
                     content.entry(current_title.to_owned()).or_insert(raw);
-- 
2.43.0


From a87ef2afe77311b235a1726dbf4d104e0470da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 39/42] fix: EC keys of other curves, out of range or malformed
 were taken for P-256 keys

---
 .../src/crypto/ellipticcurve/privatekey.rs    | 70 ++++++++++++++++---
 1 file changed, 59 insertions(+), 11 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/privatekey.rs b/anothertls/src/crypto/ellipticcurve/privatekey.rs
index 1150f65..6a8f7e8 100644
--- a/anothertls/src/crypto/ellipticcurve/privatekey.rs
+++ b/anothertls/src/crypto/ellipticcurve/privatekey.rs
@@ -4,8 +4,12 @@
  */
 
 use super::{curve::Curve, math, publickey::PublicKey};
-use crate::utils::{bytes, pem::get_pem_content_from_file};
-use ibig::IBig;
+use crate::utils::{
+    bytes,
+    der::{der_parse, DerType, EncodedForm},
+    pem::get_pem_content_from_file,
+};
+use ibig::{ibig, IBig};
 
 pub struct PrivateKey {
     pub curve: Curve,
@@ -18,20 +22,64 @@ impl PrivateKey {
     }
     pub fn from_pem(filepath: String) -> Option<PrivateKey> {
         let raw = get_pem_content_from_file(filepath)?;
-        let secret = raw.get("EC PRIVATE KEY")?;
-        // RFC 5915: SEQUENCE { INTEGER 1, OCTET STRING (32 bytes), ... }
-        if secret.first() != Some(&0x30) || secret.get(2..7) != Some(&[2, 1, 1, 4, 32]) {
+        PrivateKey::from_der(raw.get("EC PRIVATE KEY")?)
+    }
+    /// RFC 5915: SEQUENCE { INTEGER 1, OCTET STRING, [0] OID OPTIONAL, [1] BIT STRING OPTIONAL }
+    fn from_der(data: &[u8]) -> Option<PrivateKey> {
+        const VERSION: [u8; 1] = [1];
+        const PRIME256V1: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07];
+        let integer = EncodedForm::Primitive(DerType::Integer);
+        let octet_string = EncodedForm::Primitive(DerType::OctetString);
+        let oid = EncodedForm::Primitive(DerType::ObjectIdentifier);
+        let parameters = EncodedForm::Constructed(DerType::ContextSpecific(0));
+        let public_key = EncodedForm::Constructed(DerType::ContextSpecific(1));
+
+        let [(EncodedForm::Constructed(DerType::Sequence), key)] = &der_elements(data)?[..] else {
+            return None;
+        };
+        let mut fields = der_elements(key)?.into_iter();
+        if fields.next()? != (integer, &VERSION[..]) {
+            return None;
+        }
+        let (form, secret) = fields.next()?;
+        if form != octet_string || secret.len() != 32 {
             return None;
         }
-        let secret = bytes::to_ibig_be(secret.get(7..39)?);
-        // FIXME: PARSE ASN1 OID
-        Some(PrivateKey {
-            curve: Curve::secp256r1(),
-            secret,
-        })
+        let mut next = fields.next();
+        if let Some((_, body)) = next.as_ref().filter(|(form, _)| *form == parameters) {
+            if der_elements(body)? != [(oid, &PRIME256V1[..])] {
+                return None;
+            }
+            next = fields.next();
+        }
+        if next.as_ref().is_some_and(|(form, _)| *form == public_key) {
+            next = fields.next();
+        }
+        if next.is_some() {
+            return None;
+        }
+
+        let curve = Curve::secp256r1();
+        let secret = bytes::to_ibig_be(secret);
+        if secret == ibig!(0) || secret >= curve.n {
+            return None;
+        }
+        Some(PrivateKey { curve, secret })
     }
     pub fn get_public_key(&self) -> PublicKey {
         let point = math::multiply(&self.curve.g, self.secret.clone(), &self.curve);
         PublicKey::new(point, self.curve.clone())
     }
 }
+
+/// All elements in data, which must not end within one
+fn der_elements(data: &[u8]) -> Option<Vec<(EncodedForm, &[u8])>> {
+    let mut elements = vec![];
+    let mut pos = 0;
+    while pos < data.len() {
+        let (size, form) = der_parse(&mut pos, data).ok()?;
+        elements.push((form, &data[pos..pos + size]));
+        pos += size;
+    }
+    Some(elements)
+}
-- 
2.43.0


From 8ee07e0f4d6a3a315da677eafb6ce4b4065cdaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 40/42] fix: an empty certificate section was accepted as
 server certificate

---
 anothertls/src/net/handshake/certificate.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index a582b3c..ba013f3 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -48,10 +48,11 @@ impl Certificate {
     pub fn from_pem(filepath: String) -> Option<Self> {
         let raw = get_pem_content_from_file(filepath)?;
         // TODO: check if cert using the available algos
-        Some(Certificate {
-            raw: raw.get("CERTIFICATE")?.to_vec(),
-            x509: None,
-        })
+        let raw = raw.get("CERTIFICATE")?.to_vec();
+        if raw.is_empty() {
+            return None;
+        }
+        Some(Certificate { raw, x509: None })
     }
 
     pub fn from_hello(buf: &[u8]) -> Result<Vec<Certificate>, TlsError> {
-- 
2.43.0


From c2348b6e159d432d441c13a2aaeffeed702b3dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 41/42] fix: no output on stdout for a public key that is not
 on the curve

println! was left over from debugging: it writes to the standard output of
the application, and panics if that is closed, whenever a peer sends a
certificate with such a key. It is a message of the log now.
---
 anothertls/src/crypto/ellipticcurve/ecdsa.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/ecdsa.rs b/anothertls/src/crypto/ellipticcurve/ecdsa.rs
index 3b2a95e..4a3e255 100644
--- a/anothertls/src/crypto/ellipticcurve/ecdsa.rs
+++ b/anothertls/src/crypto/ellipticcurve/ecdsa.rs
@@ -3,7 +3,7 @@
  *
  */
 
-use crate::utils::bytes;
+use crate::utils::{bytes, log};
 use ibig::{ibig, IBig};
 
 use crate::rand::{RngCore, SeedableRng, SimpleRng, URandomRng};
@@ -78,7 +78,7 @@ impl Ecdsa {
         }
         // 2.
         if !pub_key.curve.contains(&pub_key.point) {
-            println!("not containes");
+            log::debug!("Public key is not a point of the curve");
             return false;
         }
         // 3. n * pub_key.point == 0
-- 
2.43.0


From 0a22387dcb217eec103d7b5361af4aaa1613a60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 42/42] fix: log::init does not panic for environment variables
 without UTF-8

env::vars() panics for any variable whose name or value is not valid
Unicode, although only RUST_LOG is of interest.
---
 anothertls/src/utils/log.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/anothertls/src/utils/log.rs b/anothertls/src/utils/log.rs
index 18c4579..fe58eef 100644
--- a/anothertls/src/utils/log.rs
+++ b/anothertls/src/utils/log.rs
@@ -21,15 +21,12 @@ pub fn check_log_level(level: LogLevel) -> bool {
 }
 
 pub fn init() {
-    for (key, value) in env::vars() {
-        if key == "RUST_LOG" {
-            match value.to_lowercase().as_str() {
-                "debug" => unsafe { LOG_LEVEL = LogLevel::Debug },
-                "error" => unsafe { LOG_LEVEL = LogLevel::Error },
-                "fixme" => unsafe { LOG_LEVEL = LogLevel::Fixme },
-                _ => (),
-            }
-            break;
+    if let Ok(value) = env::var("RUST_LOG") {
+        match value.to_lowercase().as_str() {
+            "debug" => unsafe { LOG_LEVEL = LogLevel::Debug },
+            "error" => unsafe { LOG_LEVEL = LogLevel::Error },
+            "fixme" => unsafe { LOG_LEVEL = LogLevel::Fixme },
+            _ => (),
         }
     }
 }
-- 
2.43.0

