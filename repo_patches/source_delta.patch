From 2d8cece69552a11c71887ea22e6550260ba3d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 01/31] fix: left-pad big-endian numbers to 32 bytes

ibig_to_32bytes() placed a big-endian number shorter than 32 bytes at the
most significant end, i.e. it multiplied it by a power of 256. About one in
128 X25519 exchanges derived a wrong shared secret and ECDSA signatures with
a short r or s were encoded wrong.
---
 anothertls/src/crypto/ellipticcurve/curve.rs | 19 ++++++++++++++-----
 anothertls/src/utils/bytes.rs                |  7 ++++++-
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/curve.rs b/anothertls/src/crypto/ellipticcurve/curve.rs
index 3f1bd22..6e0e48d 100644
--- a/anothertls/src/crypto/ellipticcurve/curve.rs
+++ b/anothertls/src/crypto/ellipticcurve/curve.rs
@@ -4,6 +4,7 @@
  */
 
 use super::Point;
+use crate::utils::bytes;
 use ibig::{ibig, IBig};
 
 #[derive(Clone, Debug)]
@@ -49,7 +50,8 @@ impl Curve {
             b: ibig!(1),
             n: ibig!(_1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed base 16),
             g: Point {
-                x: ibig!(9),
+                // u = 9 in the little-endian encoding used on the wire (RFC 7748)
+                x: ibig!(9) << 248,
                 y: ibig!(_20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9 base 16),
             },
         }
@@ -72,18 +74,25 @@ impl Curve {
     /// assert_eq!(curve.contains(&curve.g), true);
     /// ```
     pub fn contains(&self, p: &Point) -> bool {
-        if p.x >= self.p || p.y >= self.p {
+        let x = match self.equation {
+            Equation::ShortWeierstrass => p.x.clone(),
+            // The x coordinate is stored in the encoding used on the wire
+            Equation::Montgomery => bytes::to_ibig_le(&bytes::ibig_to_32bytes(
+                p.x.clone(),
+                bytes::ByteOrder::Big,
+            )),
+        };
+        if x >= self.p || p.y >= self.p {
             return false;
         }
         let a = self.a.clone();
         let b = self.b.clone();
-        let x = p.x.clone();
         let mut left = p.y.pow(2);
         let mut right = match self.equation {
-            Equation::ShortWeierstrass => p.x.pow(3) + a * x + b,
+            Equation::ShortWeierstrass => x.pow(3) + a * x + b,
             Equation::Montgomery => {
                 left *= b;
-                p.x.pow(3) + a * p.x.pow(2) + x
+                x.pow(3) + a * x.pow(2) + x
             }
         };
         left %= self.p.clone();
diff --git a/anothertls/src/utils/bytes.rs b/anothertls/src/utils/bytes.rs
index 3a56cb9..f2eb89e 100644
--- a/anothertls/src/utils/bytes.rs
+++ b/anothertls/src/utils/bytes.rs
@@ -33,7 +33,9 @@ pub fn ibig_to_vec(num: IBig, order: ByteOrder) -> Vec<u8> {
     }
 }
 pub fn ibig_to_32bytes(num: IBig, order: ByteOrder) -> [u8; 32] {
-    let b = ibig_to_vec(num, order);
+    // The number is always encoded with a fixed length of 32 bytes, therefore
+    // shorter numbers must be filled with zeros at the most significant end.
+    let b = ibig_to_vec(num, ByteOrder::Little);
     let mut c = [0; 32];
     for (i, d) in b.iter().enumerate() {
         if i >= 32 {
@@ -41,6 +43,9 @@ pub fn ibig_to_32bytes(num: IBig, order: ByteOrder) -> [u8; 32] {
         }
         c[i] = *d;
     }
+    if order == ByteOrder::Big {
+        c.reverse();
+    }
     c
 }
 pub fn u128_to_bytes_be(num: u128) -> [u8; 16] {
-- 
2.43.0


From 526145c04d92bb8d5f352b582b3b437d9cf08264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 02/31] fix: encode ECDSA signatures as minimal DER integers

Signature::to_der() wrote r and s with 32 bytes even if the leading bytes are
zero, which is not valid DER and is rejected by strict peers.
---
 anothertls/src/crypto/ellipticcurve/signature.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/signature.rs b/anothertls/src/crypto/ellipticcurve/signature.rs
index e903fc5..8a23249 100644
--- a/anothertls/src/crypto/ellipticcurve/signature.rs
+++ b/anothertls/src/crypto/ellipticcurve/signature.rs
@@ -60,8 +60,9 @@ impl Signature {
 
     pub fn to_der(&self) -> Vec<u8> {
         // https://www.rfc-editor.org/rfc/rfc3279#page-7
-        let s = bytes::ibig_to_32bytes(self.s.clone(), bytes::ByteOrder::Big);
-        let r = bytes::ibig_to_32bytes(self.r.clone(), bytes::ByteOrder::Big);
+        // DER: the content of an INTEGER must be as short as possible
+        let s = bytes::ibig_to_vec(self.s.clone(), bytes::ByteOrder::Big);
+        let r = bytes::ibig_to_vec(self.r.clone(), bytes::ByteOrder::Big);
 
         let integer_type = 0x02;
         let sequence_type = 0x30;
-- 
2.43.0


From 75ab78f968d5cba5aedff7a1643f0df4c10995a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 03/31] fix: encrypt the last ChaCha20 block if it is full

If the input length was a multiple of 64 the last block was left in
plaintext, because 'len % 64' key stream bytes were applied.
---
 anothertls/src/crypto/chacha20/cipher.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/crypto/chacha20/cipher.rs b/anothertls/src/crypto/chacha20/cipher.rs
index 007c158..4e47143 100644
--- a/anothertls/src/crypto/chacha20/cipher.rs
+++ b/anothertls/src/crypto/chacha20/cipher.rs
@@ -91,15 +91,12 @@ impl ChaCha20 {
     pub fn encrypt(input: &[u8], key: &[u8], iv: &[u8], counter: usize) -> Option<Vec<u8>> {
         let mut output = input.to_vec();
         let chacha20 = ChaCha20Block::init(key, iv, 0);
-        let blocks_len = (input.len() as f32 / 64.0).ceil() as usize;
+        let blocks_len = (input.len() + 63) / 64;
         for j in 0..blocks_len {
             let mut current_block = chacha20.clone()?;
             current_block.set_counter((counter + j) as u32);
             let key_stream = current_block.get_block();
-            let mut count = key_stream.len();
-            if (j * 64) + 64 >= input.len() {
-                count = input.len() % 64;
-            }
+            let count = core::cmp::min(key_stream.len(), input.len() - j * 64);
             for i in 0..count {
                 output[j * 64 + i] ^= key_stream[i];
             }
-- 
2.43.0


From 5d5706cf23f0baf98d4f95512d2e6313e7f7994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 04/31] fix: hash HMAC keys only if longer than the block size

The block size of SHA-384 is 128 bytes, so keys with 65 to 128 bytes must not
be hashed.
---
 anothertls/src/hash/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/hash/hmac.rs b/anothertls/src/hash/hmac.rs
index a88ea8d..1304f07 100644
--- a/anothertls/src/hash/hmac.rs
+++ b/anothertls/src/hash/hmac.rs
@@ -38,7 +38,7 @@ impl<'a> Hmac<'a> {
 
         let hashed_key;
 
-        let key = if self.key.len() > 64 {
+        let key = if self.key.len() > size {
             hashed_key = match self.hash {
                 HashType::SHA256 => sha256(self.key),
                 HashType::SHA384 => sha384(self.key),
-- 
2.43.0


From 29e7f04497d3e2708147a8ebb2041b8b373182ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 05/31] fix: use the alert codes of RFC 8446 for decode and
 decrypt errors

decode_error is 50 and decrypt_error is 51 (they were swapped), and
bad_record_mac (20) was sent as close_notify.
---
 anothertls/src/net/alert.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index a190ec7..bb7e9cb 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -30,8 +30,8 @@ pub enum TlsError {
     IllegalParameter = 47,
     UnknownCa = 48,
     AccessDenied = 49,
-    DecryptError = 50,
-    DecodeError = 51,
+    DecodeError = 50,
+    DecryptError = 51,
     ProtocolVersion = 70,
     InsufficientSecurity = 71,
     InternalError = 80,
@@ -49,6 +49,7 @@ impl TlsError {
         match code {
             0 => TlsError::CloseNotify,
             10 => TlsError::UnexpectedMessage,
+            20 => TlsError::BadRecordMac,
             40 => TlsError::HandshakeFailure,
             42 => TlsError::BadCertificate,
             43 => TlsError::UnsupportedCertificate,
@@ -58,8 +59,8 @@ impl TlsError {
             47 => TlsError::IllegalParameter,
             48 => TlsError::UnknownCa,
             49 => TlsError::AccessDenied,
-            50 => TlsError::DecryptError,
-            51 => TlsError::DecodeError,
+            50 => TlsError::DecodeError,
+            51 => TlsError::DecryptError,
             70 => TlsError::ProtocolVersion,
             71 => TlsError::InsufficientSecurity,
             80 => TlsError::InternalError,
@@ -78,6 +79,7 @@ impl TlsError {
         match self {
             TlsError::CloseNotify => 0,
             TlsError::UnexpectedMessage => 10,
+            TlsError::BadRecordMac => 20,
             TlsError::HandshakeFailure => 40,
             TlsError::BadCertificate => 42,
             TlsError::UnsupportedCertificate => 43,
@@ -87,8 +89,8 @@ impl TlsError {
             TlsError::IllegalParameter => 47,
             TlsError::UnknownCa => 48,
             TlsError::AccessDenied => 49,
-            TlsError::DecryptError => 50,
-            TlsError::DecodeError => 51,
+            TlsError::DecodeError => 50,
+            TlsError::DecryptError => 51,
             TlsError::ProtocolVersion => 70,
             TlsError::InsufficientSecurity => 71,
             TlsError::InternalError => 80,
-- 
2.43.0


From 70b795e5d68ece9df7d52e17460f0e92887aebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 06/31] fix: SimpleRng::bytes returns the requested number of
 bytes

The inverted loop condition returned an empty vector for every size but zero,
for which it never terminated; PRNG::Simple made every handshake panic.
---
 anothertls/src/rand/simplerng.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/rand/simplerng.rs b/anothertls/src/rand/simplerng.rs
index aaf7624..833393b 100644
--- a/anothertls/src/rand/simplerng.rs
+++ b/anothertls/src/rand/simplerng.rs
@@ -32,7 +32,7 @@ impl RngCore<u32> for SimpleRng<u32> {
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
         let mut res = vec![];
-        while res.len() >= size {
+        while res.len() < size {
             res.push(self.next() as u8)
         }
         res
@@ -61,12 +61,13 @@ impl RngCore<IBig> for SimpleRng<IBig> {
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
         let mut res = vec![];
-        while res.len() >= size {
+        while res.len() < size {
             res.extend_from_slice(&bytes::ibig_to_32bytes(
                 self.next(),
                 bytes::ByteOrder::Little,
             ));
         }
+        res.truncate(size);
         res
     }
 }
-- 
2.43.0


From 1d747271fbb3087878332f116fd39298d40332db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 07/31] fix: URandomRng::bytes panics for more than 100 bytes

---
 anothertls/src/rand/urandom.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/rand/urandom.rs b/anothertls/src/rand/urandom.rs
index a2c14b3..279b8ac 100644
--- a/anothertls/src/rand/urandom.rs
+++ b/anothertls/src/rand/urandom.rs
@@ -48,7 +48,12 @@ impl RngCore<IBig> for URandomRng {
         self.next() % (max - min.clone()) + min
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
-        let rand_bytes = self.read_from_urandom();
-        rand_bytes[..size].to_owned()
+        let mut res = Vec::with_capacity(size);
+        while res.len() < size {
+            let rand_bytes = self.read_from_urandom();
+            let needed = core::cmp::min(rand_bytes.len(), size - res.len());
+            res.extend_from_slice(&rand_bytes[..needed]);
+        }
+        res
     }
 }
-- 
2.43.0


From 9aca36717d8e1eb94c919658c84331354c06e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 08/31] fix: count the leap day of the current year in
 certificate dates

From March to December of a leap year the validity dates were one day early.
---
 anothertls/src/utils/x509.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index fca8476..30b2b6d 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -71,6 +71,9 @@ impl UtcTime {
             second,
         })
     }
+    fn is_leap_year(year: u16) -> bool {
+        (year % 4 == 0 && year % 100 != 0) || year % 400 == 0
+    }
     pub fn get_unix_timestamp(&self) -> u64 {
         let days_since_year_start = [0_u64, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
         let year = self.year as u64;
@@ -79,6 +82,9 @@ impl UtcTime {
             ((year - 1) - 1968) / 4 - ((year - 1) - 1900) / 100 + ((year - 1) - 1600) / 400;
         let mut days = (year - 1970) * 365 + leap_years;
         days += days_since_year_start[(self.month - 1) as usize];
+        if self.month > 2 && UtcTime::is_leap_year(self.year) {
+            days += 1;
+        }
         days += (self.day - 1) as u64;
 
         let mut res = 0;
-- 
2.43.0


From 196f068ef1a07855f6c1cd30962d2c486f38cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 09/31] fix: reject malformed UTCTime values instead of
 panicking

Month zero, years before 1970 and multi-byte characters made the parsing or
the validity check of a received certificate panic, other nonsense was read
as zero.
---
 anothertls/src/utils/x509.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 30b2b6d..8925ae6 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -46,7 +46,9 @@ pub struct UtcTime {
 
 impl UtcTime {
     fn from_utc_timestamp(t: &str) -> Option<UtcTime> {
-        if t.len() < 12 {
+        // RFC 5280 4.1.2.5.1: YYMMDDHHMMSSZ
+        let digits = t.strip_suffix('Z')?;
+        if digits.len() != 12 || !digits.bytes().all(|b| b.is_ascii_digit()) {
             return None;
         }
         let (mut year, month, day, hour, minute, second) = (
@@ -62,6 +64,20 @@ impl UtcTime {
         } else {
             year += 1900;
         }
+        let days_in_month = match month {
+            4 | 6 | 9 | 11 => 30,
+            2 if UtcTime::is_leap_year(year) => 29,
+            2 => 28,
+            _ => 31,
+        };
+        if !(1..=12).contains(&month)
+            || !(1..=days_in_month).contains(&day)
+            || hour > 23
+            || minute > 59
+            || second > 59
+        {
+            return None;
+        }
         Some(UtcTime {
             year,
             month,
@@ -78,6 +94,11 @@ impl UtcTime {
         let days_since_year_start = [0_u64, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
         let year = self.year as u64;
 
+        if year < 1970 {
+            // Not representable, but it is always in the past
+            return 0;
+        }
+
         let leap_years =
             ((year - 1) - 1968) / 4 - ((year - 1) - 1900) / 100 + ((year - 1) - 1600) / 400;
         let mut days = (year - 1970) * 365 + leap_years;
-- 
2.43.0


From 552fd3a3c8c9824d3a4bb5332b9377358a1be968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:57 +0000
Subject: [PATCH 10/31] fix: check the bounds of DER elements

A truncated element, an indefinite length or an element longer than the
remaining data made the parser panic, and Signature::from_der accepted any
primitive type with any sequence length.
---
 .../src/crypto/ellipticcurve/signature.rs     |  8 ++++-
 anothertls/src/utils/der.rs                   | 34 +++++++++++--------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/signature.rs b/anothertls/src/crypto/ellipticcurve/signature.rs
index 8a23249..804f3a1 100644
--- a/anothertls/src/crypto/ellipticcurve/signature.rs
+++ b/anothertls/src/crypto/ellipticcurve/signature.rs
@@ -26,6 +26,7 @@ impl Signature {
         let mut r = None;
         let mut s = None;
         let mut consumed = 0;
+        let mut sequence_end = 0;
 
         for i in 0..3 {
             let (size, der_type) = match der::der_parse(&mut consumed, buf) {
@@ -37,10 +38,15 @@ impl Signature {
             };
 
             if i == 0 {
+                // The sequence contains only the two integers
                 if der_type != EncodedForm::Constructed(DerType::Sequence) {
                     return Err(TlsError::BadCertificate);
                 }
+                sequence_end = consumed + size;
             } else {
+                if der_type != EncodedForm::Primitive(DerType::Integer) {
+                    return Err(TlsError::BadCertificate);
+                }
                 let int = bytes::to_ibig_be(&buf[consumed..consumed + size]);
                 consumed += size;
                 if r.is_none() {
@@ -51,7 +57,7 @@ impl Signature {
             }
         }
 
-        if s.is_none() {
+        if s.is_none() || consumed != sequence_end {
             return Err(TlsError::BadCertificate);
         }
 
diff --git a/anothertls/src/utils/der.rs b/anothertls/src/utils/der.rs
index a1083f3..c0d0348 100644
--- a/anothertls/src/utils/der.rs
+++ b/anothertls/src/utils/der.rs
@@ -74,28 +74,34 @@ impl DerType {
 }
 
 pub fn der_parse(consumed: &mut usize, data: &[u8]) -> Result<(usize, EncodedForm), ParseError> {
-    let der_type = match DerType::from_u8(data[*consumed]) {
+    let tag = *data.get(*consumed).ok_or(ParseError::DerParseLen)?;
+    let der_type = match DerType::from_u8(tag) {
         Some(a) => a,
         None => return Err(ParseError::DerParseType),
     };
     *consumed += 1;
-    let size = get_len(data, consumed);
-    if size > data.len() {
+    let size = get_len(data, consumed)?;
+    // The content must be completely available
+    if size > data.len() - *consumed {
         return Err(ParseError::DerParseLen);
     }
     Ok((size, der_type))
 }
 
-fn get_len(len: &[u8], consumed: &mut usize) -> usize {
-    let size;
-    if len[*consumed] >> 7 & 1 == 1 {
-        let consume_len = len[*consumed] & 0x7F;
-        *consumed += 1;
-        size = bytes::to_u128_be_fill(&len[*consumed..*consumed + consume_len as usize]) as usize;
-        *consumed += consume_len as usize;
-    } else {
-        size = len[*consumed] as usize;
-        *consumed += 1;
+fn get_len(len: &[u8], consumed: &mut usize) -> Result<usize, ParseError> {
+    let first = *len.get(*consumed).ok_or(ParseError::DerParseLen)?;
+    *consumed += 1;
+    if first >> 7 & 1 == 0 {
+        return Ok(first as usize);
+    }
+    let consume_len = (first & 0x7F) as usize;
+    if consume_len == 0 || consume_len > 4 {
+        // The indefinite form is not allowed in DER
+        return Err(ParseError::DerParseLen);
     }
-    size
+    let size = len
+        .get(*consumed..*consumed + consume_len)
+        .ok_or(ParseError::DerParseLen)?;
+    *consumed += consume_len;
+    Ok(bytes::to_u128_be_fill(size) as usize)
 }
-- 
2.43.0


From 26a28f90e90d2f4bfc598eb2d2b8b6e1221f6788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 11/31] fix: parse the parts of a certificate strictly by its
 structure

The parser assigned values by their order of appearance anywhere in the
certificate. An UTCTime, a name or an integer appended after the signed part
changed the validity, the subject or the signature of a certificate signed by
the CA. The signed bytes were assumed to start at offset four with a length
in two bytes, so certificates with another header size could not be verified.
Missing fields and unexpected types panicked, and only the first attribute
of a RelativeDistinguishedName was skipped correctly.
---
 anothertls/src/crypto/ellipticcurve/curve.rs |   7 +-
 anothertls/src/net/handshake/certificate.rs  |  13 +-
 anothertls/src/utils/x509.rs                 | 193 ++++++++++++-------
 3 files changed, 136 insertions(+), 77 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/curve.rs b/anothertls/src/crypto/ellipticcurve/curve.rs
index 6e0e48d..b6cc422 100644
--- a/anothertls/src/crypto/ellipticcurve/curve.rs
+++ b/anothertls/src/crypto/ellipticcurve/curve.rs
@@ -77,10 +77,9 @@ impl Curve {
         let x = match self.equation {
             Equation::ShortWeierstrass => p.x.clone(),
             // The x coordinate is stored in the encoding used on the wire
-            Equation::Montgomery => bytes::to_ibig_le(&bytes::ibig_to_32bytes(
-                p.x.clone(),
-                bytes::ByteOrder::Big,
-            )),
+            Equation::Montgomery => {
+                bytes::to_ibig_le(&bytes::ibig_to_32bytes(p.x.clone(), bytes::ByteOrder::Big))
+            }
         };
         if x >= self.p || p.y >= self.p {
             return false;
diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 0b2c8e3..4ebe62d 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -175,12 +175,10 @@ impl Certificate {
             return Err(TlsError::InternalError);
         }
 
-        let ca_public_key = self
-            .x509
-            .as_ref()
-            .unwrap()
-            .get_public_key()
-            .expect("CA for client certificate has no public key");
+        let ca_public_key = match self.x509.as_ref().unwrap().get_public_key() {
+            Some(e) => e,
+            None => return Err(TlsError::InternalError),
+        };
 
         let other_x509 = other.x509.as_ref().unwrap();
         let signature = match &other_x509.signature {
@@ -188,7 +186,8 @@ impl Certificate {
             None => return Err(TlsError::DecryptError),
         };
 
-        let context = &other.raw[4..4 + other_x509.tbs_certificate_size];
+        let tbs_start = other_x509.tbs_certificate_offset;
+        let context = &other.raw[tbs_start..tbs_start + other_x509.tbs_certificate_size];
 
         let hash = sha256(context);
 
diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index 8925ae6..af00453 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -226,7 +226,9 @@ impl SubjectPublicKeyInfoBuilder {
         }
         Ok(SubjectPublicKeyInfo {
             algorithm: self.algorithm.unwrap(),
-            subject_public_key: self.subject_public_key.unwrap(),
+            subject_public_key: self
+                .subject_public_key
+                .ok_or(ParseError::SubjectPublicKeyInfo)?,
         })
     }
 }
@@ -375,6 +377,7 @@ impl Default for TBSCertificateBuilder {
 
 pub struct X509 {
     pub tbs_certificate: TBSCertificate,
+    pub tbs_certificate_offset: usize,
     pub tbs_certificate_size: usize,
     pub signature_algorithm: Algorithms,
     pub signature: Option<Signature>,
@@ -384,7 +387,65 @@ impl X509 {
         let mut res = X509Builder::new();
         let mut consumed = 0;
         log::debug!("Start parsing X509 certificate");
-        parse(&mut res, ParsingState::Init, data, &mut consumed)?;
+
+        // Certificate  ::=  SEQUENCE  {
+        //      tbsCertificate       TBSCertificate,
+        //      signatureAlgorithm   AlgorithmIdentifier,
+        //      signatureValue       BIT STRING  }
+        let certificate = parse_element(
+            data,
+            &mut consumed,
+            EncodedForm::Constructed(DerType::Sequence),
+        )?;
+        if consumed != data.len() {
+            return Err(ParseError::DerParseLen);
+        }
+
+        consumed = 0;
+        parse_element(
+            certificate,
+            &mut consumed,
+            EncodedForm::Constructed(DerType::Sequence),
+        )?;
+        // The signature covers the DER encoding of the tbsCertificate
+        res.tbs_certificate_offset = data.len() - certificate.len();
+        res.tbs_certificate_size = consumed;
+        parse(
+            &mut res,
+            ParsingState::Init,
+            &certificate[..consumed],
+            &mut 0,
+            0,
+        )?;
+
+        // Everything after the tbsCertificate isn't signed, so it must not be
+        // able to change any of the values from the tbsCertificate.
+        let algorithm = parse_element(
+            certificate,
+            &mut consumed,
+            EncodedForm::Constructed(DerType::Sequence),
+        )?;
+        let algorithm = parse_element(
+            algorithm,
+            &mut 0,
+            EncodedForm::Primitive(DerType::ObjectIdentifier),
+        )?;
+        res.signature_algorithm = Some(Algorithms::new(&parse_object_identifier(algorithm)?)?);
+
+        let signature = parse_element(
+            certificate,
+            &mut consumed,
+            EncodedForm::Primitive(DerType::BitString),
+        )?;
+        if consumed != certificate.len() || signature.first() != Some(&0) {
+            return Err(ParseError::DerParseLen);
+        }
+        if let Ok((sign, size)) = Signature::from_der(&signature[1..]) {
+            if size == signature.len() - 1 {
+                res.signature = Some(sign);
+            }
+        }
+
         res.build()
     }
     pub fn get_public_key(&self) -> Option<PublicKey> {
@@ -416,8 +477,9 @@ impl X509 {
             .subject_public_key
             .as_slice();
 
-        if pubkey[0] != 0x4 {
-            todo!("Handle compressed points");
+        // TODO: Handle compressed points
+        if pubkey.len() != 65 || pubkey[0] != 0x4 {
+            return None;
         }
 
         let x = bytes::to_ibig_be(&pubkey[1..33]);
@@ -428,34 +490,28 @@ impl X509 {
 }
 pub struct X509Builder {
     tbs_certificate: TBSCertificateBuilder,
+    tbs_certificate_offset: usize,
     tbs_certificate_size: usize,
     signature_algorithm: Option<Algorithms>,
-    signature: (Option<IBig>, Option<IBig>),
+    signature: Option<Signature>,
 }
 impl X509Builder {
     fn new() -> X509Builder {
         X509Builder {
             tbs_certificate: TBSCertificateBuilder::new(),
+            tbs_certificate_offset: 0,
             tbs_certificate_size: 0,
             signature_algorithm: None,
-            signature: (None, None),
+            signature: None,
         }
     }
     fn build(self) -> Result<X509, ParseError> {
-        let mut signature = None;
-
-        if self.signature.0.is_some() && self.signature.1.is_some() {
-            signature = Some(Signature::new(
-                self.signature.1.unwrap(),
-                self.signature.0.unwrap(),
-            ));
-        }
-
         Ok(X509 {
             tbs_certificate: self.tbs_certificate.build()?,
+            tbs_certificate_offset: self.tbs_certificate_offset,
             tbs_certificate_size: self.tbs_certificate_size,
-            signature_algorithm: self.signature_algorithm.unwrap(),
-            signature,
+            signature_algorithm: self.signature_algorithm.ok_or(ParseError::Algorithms)?,
+            signature: self.signature,
         })
     }
 }
@@ -463,7 +519,6 @@ impl X509Builder {
 #[derive(PartialEq, Debug, Clone)]
 enum ParsingState {
     Init,
-    InBitString,
     InSet,
 }
 
@@ -486,32 +541,50 @@ impl Version {
         Err(ParseError::Version)
     }
 }
+/// Returns the content of the element with the expected type.
+fn parse_element<'a>(
+    data: &'a [u8],
+    consumed: &mut usize,
+    expected: EncodedForm,
+) -> Result<&'a [u8], ParseError> {
+    let (size, der) = der_parse(consumed, data)?;
+    if der != expected {
+        return Err(ParseError::DerParseType);
+    }
+    let body = &data[*consumed..*consumed + size];
+    *consumed += size;
+    Ok(body)
+}
+/// Limits the recursion, a TBSCertificate needs only five levels
+const MAX_DEPTH: usize = 16;
+
 fn parse(
     res: &mut X509Builder,
     state: ParsingState,
     data: &[u8],
     consumed: &mut usize,
+    depth: usize,
 ) -> Result<(), ParseError> {
+    if depth > MAX_DEPTH {
+        return Err(ParseError::NotYetImplemented);
+    }
     let (size, der) = der_parse(consumed, data)?;
-    let body = &data[*consumed..*consumed + size];
+    let body_end = *consumed + size;
+    let body = &data[*consumed..body_end];
 
     match der {
         EncodedForm::Constructed(cons) => match cons {
             DerType::Sequence => {
-                if res.tbs_certificate_size == 0 {
-                    res.tbs_certificate_size = 1; // Size of tbs_certificate + signature_algorithm + signature
-                } else if res.tbs_certificate_size == 1 {
-                    res.tbs_certificate_size = size + 4;
-                }
-                let size_should = size + *consumed;
-                while size_should > *consumed {
-                    parse(res, state.clone(), data, consumed)?;
+                while body_end > *consumed {
+                    parse(res, state.clone(), &data[..body_end], consumed, depth + 1)?;
                 }
             }
             DerType::ContextSpecific(tag) => {
                 match tag {
                     0x00 => {
-                        res.tbs_certificate.version = Some(Version::parse(&body[2..])?);
+                        let version =
+                            parse_element(body, &mut 0, EncodedForm::Primitive(DerType::Integer))?;
+                        res.tbs_certificate.version = Some(Version::parse(version)?);
                     }
                     0x03 => log::fixme!("TODO: certificate extenstions"),
                     _ => (),
@@ -519,11 +592,19 @@ fn parse(
                 *consumed += size;
             }
             DerType::Set => {
-                parse(res, ParsingState::InSet, data, consumed)?;
-                // *consumed += size;
+                while body_end > *consumed {
+                    parse(
+                        res,
+                        ParsingState::InSet,
+                        &data[..body_end],
+                        consumed,
+                        depth + 1,
+                    )?;
+                }
             }
             _ => {
-                todo!("cons={cons:?}");
+                log::error!("not yet implemented: cons={cons:?}");
+                return Err(ParseError::NotYetImplemented);
             }
         },
         EncodedForm::Primitive(prim) => match prim {
@@ -532,10 +613,6 @@ fn parse(
                 *consumed += size;
                 if res.tbs_certificate.serial_number.is_none() {
                     res.tbs_certificate.serial_number = Some(int);
-                } else if res.signature.0.is_none() {
-                    res.signature.0 = Some(int);
-                } else {
-                    res.signature.1 = Some(int);
                 }
             }
             DerType::ObjectIdentifier => match state {
@@ -575,12 +652,9 @@ fn parse(
                             .as_mut()
                             .unwrap()
                             .parameters = Some(oji);
-                    } else if res.signature_algorithm.is_none() {
-                        res.signature_algorithm = Some(Algorithms::new(&oji)?);
                     }
                     *consumed += size;
                 }
-                _ => todo!("ObjectIdentifier {state:?}"),
             },
             DerType::PrintableString | DerType::UTF8String => {
                 let string = match String::from_utf8(body.to_vec()) {
@@ -594,10 +668,6 @@ fn parse(
                 }
                 *consumed += size;
             }
-            DerType::OctetString => {
-                *consumed += size;
-                todo!("GOT OctetString");
-            }
             DerType::UTCTime => {
                 let timestamp = match String::from_utf8(body.to_vec()) {
                     Ok(e) => e,
@@ -615,34 +685,25 @@ fn parse(
                 *consumed += size;
             }
             DerType::BitString => {
-                if data[*consumed + 1] == 0x30 {
-                    *consumed += 1;
-                    let size_should = size + *consumed - 1;
-                    while size_should > *consumed {
-                        parse(res, ParsingState::InBitString, data, consumed)?;
-                    }
-                } else {
-                    let number_of_unused_bits = data[*consumed];
-                    if number_of_unused_bits != 0 {
-                        todo!("Number of unused bits is not 0");
-                    }
+                if body.first() != Some(&0) {
+                    log::error!("Number of unused bits is not 0");
+                    return Err(ParseError::NotYetImplemented);
+                }
 
-                    if res
-                        .tbs_certificate
+                if res
+                    .tbs_certificate
+                    .subject_public_key_info
+                    .subject_public_key
+                    .is_none()
+                {
+                    res.tbs_certificate
                         .subject_public_key_info
-                        .subject_public_key
-                        .is_none()
-                    {
-                        res.tbs_certificate
-                            .subject_public_key_info
-                            .subject_public_key = Some(BitString(body[1..].to_vec()));
-                    }
-                    *consumed += size;
+                        .subject_public_key = Some(BitString(body[1..].to_vec()));
                 }
+                *consumed += size;
             }
-            DerType::Null => {
-                todo!("Null");
-            }
+            // e.g. the parameters of rsaEncryption
+            DerType::Null => *consumed += size,
             _ => {
                 log::error!("not yet implemented: prim={prim:?}");
                 return Err(ParseError::NotYetImplemented);
-- 
2.43.0


From a0c56a1d95a5981ae83822d3984adf64e6d9a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 12/31] fix: reject invalid base64 and malformed PEM files

Characters outside of the alphabet were decoded as 'A' or panicked, padding
was accepted everywhere, a short BEGIN line panicked, files with CRLF line
endings could not be read and the last instead of the first block with the
same title was used.
---
 anothertls/src/utils/base64.rs | 20 ++++++++++----------
 anothertls/src/utils/pem.rs    |  8 +++++---
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/anothertls/src/utils/base64.rs b/anothertls/src/utils/base64.rs
index f20426a..037a172 100644
--- a/anothertls/src/utils/base64.rs
+++ b/anothertls/src/utils/base64.rs
@@ -53,29 +53,29 @@ pub fn decode(input: &str) -> Option<Vec<u8>> {
 
     let mut tmp = [0u8; 4];
 
-    let mut reverse_characters = [0u8; 'z' as usize + 1];
+    let mut reverse_characters = [None; u8::MAX as usize + 1];
 
     for (i, &c) in CHARS.as_bytes().iter().enumerate() {
-        reverse_characters[c as usize] = i as u8;
+        reverse_characters[c as usize] = Some(i as u8);
     }
 
-    let mut input_iter = input.chars();
+    let mut input_iter = input.bytes();
     let mut out = vec![];
     let mut padding_len = 0;
 
     let mut consumed = 0;
-    while consumed < input.len() {
+    while consumed < len {
         consumed += 4;
         for (i, t) in tmp.iter_mut().enumerate() {
-            let idx = i + 1;
-            let ch = input_iter
-                .next()
-                .unwrap_or(if idx <= 2 { '=' } else { '\0' });
-            if ch == '=' {
+            let ch = input_iter.next()?;
+            // Only the last two characters can be padding
+            if ch == b'=' && consumed == len && i >= 2 {
                 *t = 0;
                 padding_len += 1;
+            } else if padding_len == 0 {
+                *t = reverse_characters[ch as usize]?;
             } else {
-                *t = reverse_characters[ch as usize];
+                return None;
             }
         }
 
diff --git a/anothertls/src/utils/pem.rs b/anothertls/src/utils/pem.rs
index dc00b21..15cde09 100644
--- a/anothertls/src/utils/pem.rs
+++ b/anothertls/src/utils/pem.rs
@@ -24,11 +24,13 @@ pub fn get_pem_content_from_file(filepath: String) -> Option<HashMap<String, Vec
     let mut current_title = String::new();
     let mut current_content = String::new();
     for line in pem.split('\n') {
+        let line = line.trim_end();
         match state {
             PemState::InContent => {
                 if line.starts_with("-----END") {
                     let raw = base64::decode(&current_content)?;
-                    content.insert(current_title.to_owned(), raw);
+                    // The first one is e.g. the certificate of the server itself
+                    content.entry(current_title.to_owned()).or_insert(raw);
                     state = PemState::End;
                     current_content.clear();
                 } else {
@@ -36,8 +38,8 @@ pub fn get_pem_content_from_file(filepath: String) -> Option<HashMap<String, Vec
                 }
             }
             PemState::End | PemState::Start => {
-                if line.starts_with("-----BEGIN") {
-                    current_title = line[11..(line.len() - 5)].to_string();
+                if let Some(title) = line.strip_prefix("-----BEGIN ") {
+                    current_title = title.strip_suffix("-----")?.to_string();
                     state = PemState::InContent;
                 }
             }
-- 
2.43.0


From c43b0a9a45814642a8189cf2e1420aed9102f9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 13/31] fix: parse the EC private key instead of using fixed
 offsets

A key file with less than 39 bytes panicked and every other encoding or curve
was loaded as a wrong key.
---
 .../src/crypto/ellipticcurve/privatekey.rs    | 53 ++++++++++++++++---
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/privatekey.rs b/anothertls/src/crypto/ellipticcurve/privatekey.rs
index d2fe4ff..2b3e0fe 100644
--- a/anothertls/src/crypto/ellipticcurve/privatekey.rs
+++ b/anothertls/src/crypto/ellipticcurve/privatekey.rs
@@ -4,8 +4,12 @@
  */
 
 use super::{curve::Curve, math, publickey::PublicKey};
+use crate::utils::der::{der_parse, DerType, EncodedForm};
 use crate::utils::{bytes, pem::get_pem_content_from_file};
-use ibig::IBig;
+use ibig::{ibig, IBig};
+
+/// Encoded object identifier 1.2.840.10045.3.1.7
+const PRIME256V1: [u8; 10] = [0x06, 0x08, 0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07];
 
 pub struct PrivateKey {
     pub curve: Curve,
@@ -18,13 +22,46 @@ impl PrivateKey {
     }
     pub fn from_pem(filepath: String) -> Option<PrivateKey> {
         let raw = get_pem_content_from_file(filepath)?;
-        let secret = raw.get("EC PRIVATE KEY")?;
-        let secret = bytes::to_ibig_be(&secret[7..39]);
-        // FIXME: PARSE ASN1 OID
-        Some(PrivateKey {
-            curve: Curve::secp256r1(),
-            secret,
-        })
+        PrivateKey::from_der(raw.get("EC PRIVATE KEY")?)
+    }
+    /// RFC 5915
+    /// ECPrivateKey ::= SEQUENCE {
+    ///   version        INTEGER { ecPrivkeyVer1(1) },
+    ///   privateKey     OCTET STRING,
+    ///   parameters [0] ECParameters OPTIONAL,
+    ///   publicKey  [1] BIT STRING OPTIONAL }
+    fn from_der(der: &[u8]) -> Option<PrivateKey> {
+        let mut consumed = 0;
+        let (size, typ) = der_parse(&mut consumed, der).ok()?;
+        if typ != EncodedForm::Constructed(DerType::Sequence) || consumed + size != der.len() {
+            return None;
+        }
+        let (size, typ) = der_parse(&mut consumed, der).ok()?;
+        if typ != EncodedForm::Primitive(DerType::Integer) || der[consumed..consumed + size] != [1]
+        {
+            return None;
+        }
+        consumed += size;
+        let (size, typ) = der_parse(&mut consumed, der).ok()?;
+        if typ != EncodedForm::Primitive(DerType::OctetString) {
+            return None;
+        }
+        let secret = bytes::to_ibig_be(&der[consumed..consumed + size]);
+        consumed += size;
+        if consumed < der.len() {
+            let (size, typ) = der_parse(&mut consumed, der).ok()?;
+            // The only supported curve is prime256v1
+            if typ == EncodedForm::Constructed(DerType::ContextSpecific(0))
+                && der[consumed..consumed + size] != PRIME256V1
+            {
+                return None;
+            }
+        }
+        let curve = Curve::secp256r1();
+        if secret < ibig!(1) || secret >= curve.n {
+            return None;
+        }
+        Some(PrivateKey { curve, secret })
     }
     pub fn get_public_key(&self) -> PublicKey {
         let point = math::multiply(&self.curve.g, self.secret.clone(), &self.curve);
-- 
2.43.0


From d3347ef3f9605a566fe2a32d8c76c55c3a6c4517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:36 +0000
Subject: [PATCH 14/31] fix: check the bounds of all received messages and
 extensions

Truncated messages, session ids with other lengths than 0 or 32, wrong inner
lengths and signature schemes without implementation made the library panic.
Vectors of the peer are now taken with bytes::take_vec, which returns a
DecodeError if the data is not available.
---
 anothertls/src/net/client/client_hello.rs     | 47 +++++++---------
 anothertls/src/net/client/connection.rs       | 54 +++++++++----------
 .../src/net/extensions/certificate_request.rs | 18 +++----
 anothertls/src/net/extensions/client.rs       | 38 ++++++-------
 anothertls/src/net/extensions/key_share.rs    | 13 ++---
 anothertls/src/net/extensions/server.rs       | 32 +++++------
 anothertls/src/net/extensions/server_name.rs  | 22 ++++----
 .../src/net/extensions/signature_algorithm.rs |  9 ++--
 .../src/net/extensions/supported_versions.rs  | 10 ++--
 anothertls/src/net/handshake/certificate.rs   | 29 ++++------
 anothertls/src/net/handshake/mod.rs           |  8 +--
 anothertls/src/net/server/connection.rs       | 34 ++++++------
 anothertls/src/net/server/server_hello.rs     | 33 +++++-------
 anothertls/src/utils/bytes.rs                 | 20 +++++++
 14 files changed, 168 insertions(+), 199 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index ddb9232..73dbd5e 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -10,7 +10,7 @@ use crate::{
         alert::TlsError,
         extensions::{ClientExtension, ClientExtensions, KeyShareEntry},
     },
-    utils::log,
+    utils::{bytes, log},
 };
 use std::result::Result;
 
@@ -71,54 +71,43 @@ impl<'a> ClientHello<'a> {
         Ok(out)
     }
     pub fn from_raw(buf: &[u8]) -> Result<ClientHello, TlsError> {
-        if buf.len() < 45 {
-            // FIXME: make this dynamic -> extensions_len...
-            // 45 -> minimum handshake size (without session id, and extensions)
-            return Err(TlsError::IllegalParameter);
-        }
-
-        let legacy_version = ((buf[0] as u16) << 8) | buf[1] as u16;
+        let mut consumed = 0;
+        let legacy_version = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
         if legacy_version != 0x0303 {
             return Err(TlsError::ProtocolVersion);
         }
 
-        let random = buf[2..34].try_into().unwrap();
-        let session_id_length = buf[34];
-        let mut consumed = 35;
-        let mut legacy_session_id_echo = None;
-
-        if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+        let random = bytes::take(buf, &mut consumed, 32)?;
+        let session_id = bytes::take_vec(buf, &mut consumed, 1)?;
+        if session_id.len() > 32 {
+            return Err(TlsError::DecodeError);
         }
+        let legacy_session_id_echo = match session_id.is_empty() {
+            true => None,
+            false => Some(session_id),
+        };
 
         // Cipher Suites
-        let cipher_suites_len = ((buf[consumed] as u16) << 8) | (buf[consumed + 1] as u16);
-        if cipher_suites_len % 2 != 0 || buf.len() < (consumed + cipher_suites_len as usize) {
-            return Err(TlsError::IllegalParameter);
+        let cipher_suites_raw = bytes::take_vec(buf, &mut consumed, 2)?;
+        if cipher_suites_raw.len() % 2 != 0 {
+            return Err(TlsError::DecodeError);
         }
-        consumed += 2;
         let mut cipher_suites = vec![];
         log::debug!("Clients CipherSuites:");
-        for i in (consumed..(consumed + cipher_suites_len as usize)).step_by(2) {
-            let cs = CipherSuite::new(((buf[i] as u16) << 8) | (buf[i + 1] as u16));
+        for cs in cipher_suites_raw.chunks(2) {
+            let cs = CipherSuite::new(bytes::to_u16(cs));
             if let Ok(cs) = cs {
                 log::debug!("  {cs:?}");
                 cipher_suites.push(cs);
             }
         }
 
-        consumed += cipher_suites_len as usize;
-
         // Compression Methode
         // TLS 1.3 no longer allows compression
-        consumed += 2;
-
-        let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
-        consumed += 2;
+        bytes::take_vec(buf, &mut consumed, 1)?;
 
         let extensions =
-            ClientExtension::from_client_hello(&buf[consumed..(consumed + extensions_len)])?;
+            ClientExtension::from_client_hello(bytes::take_vec(buf, &mut consumed, 2)?)?;
 
         Ok(ClientHello {
             random,
diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 6109c45..e81d01f 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -215,7 +215,7 @@ impl<'a> ClientHandshake<'a> {
                 return Ok(());
             }
             RecordType::Alert => {
-                let alert_code = record.fraqment.as_ref()[1];
+                let alert_code = bytes::take(record.fraqment.as_ref(), &mut 1, 1)?[0];
                 let alert = TlsError::new(alert_code);
                 log::debug!("--> Alert {alert:?}");
                 if self.state != ClientHsState::Ready {
@@ -300,7 +300,8 @@ impl<'a> ClientHandshake<'a> {
 
         if record.content_type != RecordType::Handshake {
             if record.content_type == RecordType::Alert {
-                return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
+                let alert_code = bytes::take(record.fraqment.as_ref(), &mut 1, 1)?[0];
+                return Err(TlsError::GotAlert(alert_code));
             }
             return Err(TlsError::UnexpectedMessage);
         }
@@ -401,21 +402,21 @@ impl<'a> ClientHandshake<'a> {
 
         log::debug!("--> ServerCertificateVerify");
 
-        let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
+        let mut consumed = 0;
+        let algo = bytes::take(handshake.fraqment, &mut consumed, 2)?;
+        let algo = SignatureScheme::new(bytes::to_u16(algo))?;
+        let signature_raw = bytes::take_vec(handshake.fraqment, &mut consumed, 2)?;
 
-        let mut consumed = 4; // algo and len
         match algo {
             SignatureScheme::ecdsa_secp256r1_sha256 => {
-                let (signature, size) = match Signature::from_der(&handshake.fraqment[consumed..]) {
-                    Ok(e) => e,
-                    Err(e) => {
-                        self.state = ClientHsState::FinishWithError(e);
+                let signature = match Signature::from_der(signature_raw) {
+                    Ok((signature, size)) if size == signature_raw.len() => signature,
+                    _ => {
+                        self.state = ClientHsState::FinishWithError(TlsError::BadCertificate);
                         return Ok(());
                     }
                 };
 
-                consumed += size;
-
                 if !self.server_cert.as_ref().unwrap().is_certificate_valid(
                     signature,
                     self.tshash.as_ref().unwrap().as_ref(),
@@ -425,17 +426,16 @@ impl<'a> ClientHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for server cert not implemented yet"),
+            // TODO: implement the other signature schemes, they were not offered
+            _ => return Err(TlsError::IllegalParameter),
         }
 
-        self.tshash.as_mut().unwrap().update(handshake.as_bytes());
-
-        let sign_len = bytes::to_u16(&handshake.fraqment[2..4]) as usize;
-        if sign_len != consumed - 4 {
-            self.state = ClientHsState::FinishWithError(TlsError::BadCertificate);
-            return Ok(());
+        if consumed != handshake.fraqment.len() {
+            return Err(TlsError::DecodeError);
         }
 
+        self.tshash.as_mut().unwrap().update(handshake.as_bytes());
+
         self.state = ClientHsState::Finished;
         Ok(())
     }
@@ -500,19 +500,17 @@ impl<'a> ClientHandshake<'a> {
     pub fn handle_certificate_request(&mut self) -> Result<(), TlsError> {
         let request = self.certificate_request.as_ref().unwrap();
 
-        let mut response: Vec<u8> = vec![request[0]];
-        let context_len = request[0] as usize;
+        let mut consumed = 0;
+        let context = bytes::take_vec(request, &mut consumed, 1)?;
 
-        let mut consumed = 1;
-        if context_len > 0 {
-            response.extend_from_slice(&request[1..context_len + 1]);
-            consumed += context_len;
-        }
+        let mut response: Vec<u8> = vec![context.len() as u8];
+        response.extend_from_slice(context);
 
-        let ext_len = bytes::to_u16(&request[consumed..]) as usize;
-        consumed += 2;
-        let _extensions =
-            CertificateRequestExtensions::from_request(&request[consumed..consumed + ext_len]);
+        let _extensions = CertificateRequestExtensions::from_request(bytes::take_vec(
+            request,
+            &mut consumed,
+            2,
+        )?)?;
 
         if let Some(client_cert) = self.config.client_cert.as_ref() {
             response.extend_from_slice(&client_cert.get_certificate_for_handshake(vec![]));
diff --git a/anothertls/src/net/extensions/certificate_request.rs b/anothertls/src/net/extensions/certificate_request.rs
index 4d67eaa..8950c43 100644
--- a/anothertls/src/net/extensions/certificate_request.rs
+++ b/anothertls/src/net/extensions/certificate_request.rs
@@ -29,25 +29,21 @@ impl CertificateRequestExtensions {
         extensions.set_is_client();
 
         while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
-            let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
-            consumed += 4;
-            if extension_type.is_none() {
-                consumed += size;
-                continue;
-            }
-            let extension_type = extension_type.unwrap();
+            let extension_type = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
+            let data = bytes::take_vec(buf, &mut consumed, 2)?;
+            let extension_type = match ExtensionType::new(extension_type) {
+                Some(e) => e,
+                None => continue,
+            };
 
             let extension = match extension_type {
                 ExtensionType::SignatureAlgorithms => {
                     CertificateRequestExtension::SignatureAlgorithms(
-                        SignatureAlgorithms::client_parse(&buf[consumed..])?,
+                        SignatureAlgorithms::client_parse(data)?,
                     )
                 }
                 _ => continue,
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/client.rs b/anothertls/src/net/extensions/client.rs
index f1362a5..1adb9b4 100644
--- a/anothertls/src/net/extensions/client.rs
+++ b/anothertls/src/net/extensions/client.rs
@@ -38,32 +38,26 @@ impl ClientExtension {
         let mut extensions = ClientExtensions::new();
 
         while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
-            let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
-            consumed += 4;
-            if extension_type.is_none() {
-                consumed += size;
-                continue;
-            }
-            let extension_type = extension_type.unwrap();
+            let extension_type = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
+            let data = bytes::take_vec(buf, &mut consumed, 2)?;
+            let extension_type = match ExtensionType::new(extension_type) {
+                Some(e) => e,
+                None => continue,
+            };
 
             let extension = match extension_type {
-                ExtensionType::ServerName => ClientExtension::ServerName(ServerName::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::KeyShare => ClientExtension::KeyShare(KeyShare::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::SupportedVersions => ClientExtension::SupportedVersion(
-                    SupportedVersions::server_parse(&buf[consumed..])?,
-                ),
-                ExtensionType::SignatureAlgorithms => ClientExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::server_parse(&buf[consumed..])?,
-                ),
+                ExtensionType::ServerName => {
+                    ClientExtension::ServerName(ServerName::server_parse(data)?)
+                }
+                ExtensionType::KeyShare => ClientExtension::KeyShare(KeyShare::server_parse(data)?),
+                ExtensionType::SupportedVersions => {
+                    ClientExtension::SupportedVersion(SupportedVersions::server_parse(data)?)
+                }
+                ExtensionType::SignatureAlgorithms => {
+                    ClientExtension::SignatureAlgorithms(SignatureAlgorithms::server_parse(data)?)
+                }
                 ExtensionType::SupportedGroups => continue,
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/key_share.rs b/anothertls/src/net/extensions/key_share.rs
index b7ec5ab..aba9b94 100644
--- a/anothertls/src/net/extensions/key_share.rs
+++ b/anothertls/src/net/extensions/key_share.rs
@@ -20,19 +20,14 @@ impl KeyShareEntry {
         KeyShareEntry { group, opaque }
     }
     fn parse(buf: &[u8]) -> Result<(usize, KeyShareEntry), TlsError> {
-        let group = bytes::to_u16(buf);
+        let mut consumed = 0;
+        let group = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
         let group = match NamedGroup::new(group) {
             Some(x) => x,
             None => return Err(TlsError::IllegalParameter),
         };
-        let public_key_len = bytes::to_u16(&buf[2..]);
-        Ok((
-            4 + public_key_len as usize,
-            KeyShareEntry {
-                group,
-                opaque: (buf[4..(public_key_len + 4) as usize]).to_vec(),
-            },
-        ))
+        let opaque = bytes::take_vec(buf, &mut consumed, 2)?.to_vec();
+        Ok((consumed, KeyShareEntry { group, opaque }))
     }
     fn as_bytes(&self) -> Vec<u8> {
         let mut out = vec![];
diff --git a/anothertls/src/net/extensions/server.rs b/anothertls/src/net/extensions/server.rs
index dab9dca..21b48c9 100644
--- a/anothertls/src/net/extensions/server.rs
+++ b/anothertls/src/net/extensions/server.rs
@@ -36,29 +36,23 @@ impl ServerExtensions {
         extensions.set_is_client();
 
         while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
-            let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
-            consumed += 4;
-            if extension_type.is_none() {
-                consumed += size;
-                continue;
-            }
-            let extension_type = extension_type.unwrap();
+            let extension_type = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
+            let data = bytes::take_vec(buf, &mut consumed, 2)?;
+            let extension_type = match ExtensionType::new(extension_type) {
+                Some(e) => e,
+                None => continue,
+            };
 
             let extension = match extension_type {
-                ExtensionType::KeyShare => ServerExtension::KeyShare(KeyShare::client_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::SupportedVersions => ServerExtension::SupportedVersions(
-                    SupportedVersions::client_parse(&buf[consumed..])?,
-                ),
-                ExtensionType::SignatureAlgorithms => ServerExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::client_parse(&buf[consumed..])?,
-                ), // ExtensionType::SupportedGroups => continue, // TODO
+                ExtensionType::KeyShare => ServerExtension::KeyShare(KeyShare::client_parse(data)?),
+                ExtensionType::SupportedVersions => {
+                    ServerExtension::SupportedVersions(SupportedVersions::client_parse(data)?)
+                }
+                ExtensionType::SignatureAlgorithms => {
+                    ServerExtension::SignatureAlgorithms(SignatureAlgorithms::client_parse(data)?)
+                } // ExtensionType::SupportedGroups => continue, // TODO
                 _ => continue, // ExtensionType::PSKKeyExchangeMode => continue, // TODO
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/server_name.rs b/anothertls/src/net/extensions/server_name.rs
index 6b524aa..dc21f4b 100644
--- a/anothertls/src/net/extensions/server_name.rs
+++ b/anothertls/src/net/extensions/server_name.rs
@@ -41,22 +41,20 @@ impl Extension for ServerName {
     where
         Self: Sized,
     {
-        let server_name_list_len = bytes::to_u16(buf);
-        let mut consumed = 2;
+        let server_name_list = bytes::take_vec(buf, &mut 0, 2)?;
+        let mut consumed = 0;
         let mut server_name = String::new();
-        if server_name_list_len > 0 {
-            let name_type = buf[consumed];
-            consumed += 1;
+        if !server_name_list.is_empty() {
+            let name_type = bytes::take(server_name_list, &mut consumed, 1)?[0];
             if name_type != 0 {
                 return Err(TlsError::DecodeError);
             }
-            let server_name_len = bytes::to_u16(&buf[consumed..]) as usize;
-            consumed += 2;
-            server_name =
-                match String::from_utf8(buf[consumed..server_name_len + consumed].to_vec()) {
-                    Ok(a) => a,
-                    Err(_) => return Err(TlsError::DecodeError),
-                };
+            server_name = match String::from_utf8(
+                bytes::take_vec(server_name_list, &mut consumed, 2)?.to_vec(),
+            ) {
+                Ok(a) => a,
+                Err(_) => return Err(TlsError::DecodeError),
+            };
         }
         Ok(ServerName(server_name))
     }
diff --git a/anothertls/src/net/extensions/signature_algorithm.rs b/anothertls/src/net/extensions/signature_algorithm.rs
index eb8a90d..c244727 100644
--- a/anothertls/src/net/extensions/signature_algorithm.rs
+++ b/anothertls/src/net/extensions/signature_algorithm.rs
@@ -96,12 +96,11 @@ impl Extension for SignatureAlgorithms {
     where
         Self: Sized,
     {
-        let len = bytes::to_u16(buf) as usize;
+        let schemes = bytes::take_vec(buf, &mut 0, 2)?;
         let mut out = vec![];
-        if len % 2 == 0 {
-            for i in (2..len).step_by(2) {
-                let tes = bytes::to_u16(&buf[i..(i + 2)]);
-                out.push(SignatureScheme::new(tes)?);
+        if schemes.len() % 2 == 0 {
+            for scheme in schemes.chunks(2) {
+                out.push(SignatureScheme::new(bytes::to_u16(scheme))?);
             }
         }
         Ok(SignatureAlgorithms(out))
diff --git a/anothertls/src/net/extensions/supported_versions.rs b/anothertls/src/net/extensions/supported_versions.rs
index 8ce7fd1..ba2b921 100644
--- a/anothertls/src/net/extensions/supported_versions.rs
+++ b/anothertls/src/net/extensions/supported_versions.rs
@@ -34,10 +34,10 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
-        let len = buf[0] as usize;
-        if len % 2 == 0 {
-            for i in (1..len + 1).step_by(2) {
-                if bytes::to_u16(&buf[i..(i + 2)]) == 0x0304 {
+        let versions = bytes::take_vec(buf, &mut 0, 1)?;
+        if versions.len() % 2 == 0 {
+            for version in versions.chunks(2) {
+                if bytes::to_u16(version) == 0x0304 {
                     return Ok(SupportedVersions::new(true));
                 }
             }
@@ -48,7 +48,7 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
-        if bytes::to_u16(&buf[0..2]) == 0x0304 {
+        if bytes::to_u16(bytes::take(buf, &mut 0, 2)?) == 0x0304 {
             return Ok(SupportedVersions::new(true));
         }
         Ok(SupportedVersions::new(false))
diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 4ebe62d..859f749 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -50,13 +50,12 @@ impl Certificate {
     }
 
     pub fn from_hello(buf: &[u8]) -> Result<Vec<Certificate>, TlsError> {
-        let mut consumed = 1;
-        let cert_request_context_len = buf[0] as usize;
+        let mut consumed = 0;
+        bytes::take_vec(buf, &mut consumed, 1)?; // certificate request context
 
-        consumed += cert_request_context_len;
-
-        let certs_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
-        consumed += 3;
+        let buf = bytes::take_vec(buf, &mut consumed, 3)?;
+        let certs_len = buf.len();
+        consumed = 0;
 
         if certs_len == 0 {
             log::debug!("Client send no certificate!");
@@ -65,19 +64,13 @@ impl Certificate {
 
         let mut certs = vec![];
 
-        let prev_len = consumed;
-
         #[allow(clippy::never_loop)]
-        while certs_len > (consumed - prev_len) {
-            let cert_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
-            consumed += 3;
-            let cert = Certificate::from_raw_x509(buf[consumed..consumed + cert_len].to_vec())?;
-            consumed += cert_len;
-            let cert_ext_len = bytes::to_u16(&buf[consumed..consumed + 2]);
-            consumed += 2;
-            if cert_ext_len > 0 {
+        while certs_len > consumed {
+            let cert_raw = bytes::take_vec(buf, &mut consumed, 3)?;
+            let cert = Certificate::from_raw_x509(cert_raw.to_vec())?;
+            let cert_exts = bytes::take_vec(buf, &mut consumed, 2)?;
+            if !cert_exts.is_empty() {
                 log::error!("Certificate has Extensions");
-                consumed += cert_ext_len as usize;
             }
 
             if !cert
@@ -102,7 +95,7 @@ impl Certificate {
 
             certs.push(cert);
 
-            if certs_len > (consumed - prev_len) {
+            if certs_len > consumed {
                 log::error!("More then one certificate. NOT YET IMPLEMENTED, so ignoring them!");
                 break;
             }
diff --git a/anothertls/src/net/handshake/mod.rs b/anothertls/src/net/handshake/mod.rs
index a36218d..62a2eab 100644
--- a/anothertls/src/net/handshake/mod.rs
+++ b/anothertls/src/net/handshake/mod.rs
@@ -11,6 +11,7 @@ pub use finished::get_finished_handshake;
 pub use finished::get_verify_data_for_finished;
 
 use super::alert::TlsError;
+use crate::utils::bytes;
 
 #[derive(PartialEq, Copy, Clone, Debug)]
 pub enum HandshakeType {
@@ -57,16 +58,17 @@ impl<'a> Handshake<'a> {
         if buf.len() < 4 {
             return Err(TlsError::DecodeError);
         }
+        let mut consumed = 1;
+        let fraqment = bytes::take_vec(buf, &mut consumed, 3)?;
         let handshake_type = match HandshakeType::new(buf[0]) {
             Some(a) => a,
             None => return Err(TlsError::DecodeError),
         };
 
-        let len = (((buf[1] as u32) << 16) | ((buf[2] as u32) << 8) | buf[3] as u32) as usize;
         Ok(Handshake {
             handshake_type,
-            fraqment: &buf[4..(len + 4)],
-            raw: &buf[..(len + 4)],
+            fraqment,
+            raw: &buf[..consumed],
         })
     }
     pub fn as_bytes(&self) -> &[u8] {
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 119853c..7845485 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -132,7 +132,7 @@ impl<'a> ServerHandshake<'a> {
                 return Ok(());
             }
             RecordType::Alert => {
-                let alert_code = record.fraqment.as_ref()[1];
+                let alert_code = bytes::take(record.fraqment.as_ref(), &mut 1, 1)?[0];
                 let alert = TlsError::new(alert_code);
                 log::debug!("--> Alert {alert:?}");
                 if self.state != ServerHsState::Ready {
@@ -305,7 +305,8 @@ impl<'a> ServerHandshake<'a> {
             || (self.config.client_cert_ca.is_some() && self.certificate_request_context.is_none())
         {
             if record.content_type == RecordType::Alert {
-                return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
+                let alert_code = bytes::take(record.fraqment.as_ref(), &mut 1, 1)?[0];
+                return Err(TlsError::GotAlert(alert_code));
             }
             return Err(TlsError::UnexpectedMessage);
         }
@@ -341,8 +342,7 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificate");
 
-        let cert_request_context_len = handshake.fraqment[0] as usize;
-        let cert_request_context = &handshake.fraqment[1..cert_request_context_len + 1];
+        let cert_request_context = bytes::take_vec(handshake.fraqment, &mut 0, 1)?;
 
         if cert_request_context != self.certificate_request_context.as_ref().unwrap() {
             return Err(TlsError::HandshakeFailure);
@@ -394,22 +394,21 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificateVerify");
 
-        let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
-
-        let mut consumed = 4; // algo and len
+        let mut consumed = 0;
+        let algo = bytes::take(handshake.fraqment, &mut consumed, 2)?;
+        let algo = SignatureScheme::new(bytes::to_u16(algo))?;
+        let signature_raw = bytes::take_vec(handshake.fraqment, &mut consumed, 2)?;
 
         match algo {
             SignatureScheme::ecdsa_secp256r1_sha256 => {
-                let (signature, size) = match Signature::from_der(&handshake.fraqment[consumed..]) {
-                    Ok(e) => e,
-                    Err(e) => {
-                        self.state = ServerHsState::FinishWithError(e);
+                let signature = match Signature::from_der(signature_raw) {
+                    Ok((signature, size)) if size == signature_raw.len() => signature,
+                    _ => {
+                        self.state = ServerHsState::FinishWithError(TlsError::BadCertificate);
                         return Ok(());
                     }
                 };
 
-                consumed += size;
-
                 if !self.client_cert.as_ref().unwrap().is_certificate_valid(
                     signature,
                     self.tshash.as_ref().unwrap().as_ref(),
@@ -419,13 +418,12 @@ impl<'a> ServerHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for client cert not implemented yet"),
+            // TODO: implement the other signature schemes, they were not requested
+            _ => return Err(TlsError::IllegalParameter),
         }
 
-        let sign_len = bytes::to_u16(&handshake.fraqment[2..4]) as usize;
-        if sign_len != consumed - 4 {
-            self.state = ServerHsState::FinishWithError(TlsError::BadCertificate);
-            return Ok(());
+        if consumed != handshake.fraqment.len() {
+            return Err(TlsError::DecodeError);
         }
 
         self.tshash
diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 581e7c4..982c4fc 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -27,35 +27,28 @@ pub struct ServerHello<'a> {
 
 impl<'a> ServerHello<'a> {
     pub fn from_raw(buf: &[u8]) -> Result<ServerHello, TlsError> {
-        if buf.len() < 36 {
-            return Err(TlsError::IllegalParameter);
-        }
-
-        let legacy_version = ((buf[0] as u16) << 8) | buf[1] as u16;
+        let mut consumed = 0;
+        let legacy_version = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
         if legacy_version != 0x0303 {
             return Err(TlsError::ProtocolVersion);
         }
 
-        let random: [u8; 32] = buf[2..34].try_into().unwrap();
-        let session_id_length = buf[34];
-        let mut consumed = 35;
-        let mut legacy_session_id_echo = None;
-
-        if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+        let random: [u8; 32] = bytes::take(buf, &mut consumed, 32)?.try_into().unwrap();
+        let session_id = bytes::take_vec(buf, &mut consumed, 1)?;
+        if session_id.len() > 32 {
+            return Err(TlsError::DecodeError);
         }
+        let legacy_session_id_echo = match session_id.is_empty() {
+            true => None,
+            false => Some(session_id),
+        };
 
-        let cipher_suite =
-            CipherSuite::new(((buf[consumed] as u16) << 8) | (buf[consumed + 1] as u16))?;
-
-        consumed += 3; // CipherSuite + Compression Method
+        let cipher_suite = CipherSuite::new(bytes::to_u16(bytes::take(buf, &mut consumed, 2)?))?;
 
-        let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
-        consumed += 2;
+        bytes::take(buf, &mut consumed, 1)?; // Compression Method
 
         let extensions =
-            ServerExtensions::from_server_hello(&buf[consumed..(consumed + extensions_len)])?;
+            ServerExtensions::from_server_hello(bytes::take_vec(buf, &mut consumed, 2)?)?;
 
         let mut tls13_is_supported = false;
         for ext in extensions.as_vec().iter() {
diff --git a/anothertls/src/utils/bytes.rs b/anothertls/src/utils/bytes.rs
index f2eb89e..ca5897c 100644
--- a/anothertls/src/utils/bytes.rs
+++ b/anothertls/src/utils/bytes.rs
@@ -3,6 +3,7 @@
  *
  */
 
+use crate::net::alert::TlsError;
 use ibig::{ibig, IBig};
 
 pub fn to_ibig_le(bytes: &[u8]) -> IBig {
@@ -98,6 +99,25 @@ pub fn to_u16(buf: &[u8]) -> u16 {
     }
     ((buf[0] as u16) << 8) | buf[1] as u16
 }
+/// Takes the next `len` bytes of data received from the peer.
+pub fn take<'a>(buf: &'a [u8], consumed: &mut usize, len: usize) -> Result<&'a [u8], TlsError> {
+    match buf.get(*consumed..*consumed + len) {
+        Some(res) => {
+            *consumed += len;
+            Ok(res)
+        }
+        None => Err(TlsError::DecodeError),
+    }
+}
+/// Takes a vector, which is prefixed by its length in `len_size` bytes.
+pub fn take_vec<'a>(
+    buf: &'a [u8],
+    consumed: &mut usize,
+    len_size: usize,
+) -> Result<&'a [u8], TlsError> {
+    let len = to_u128_be_fill(take(buf, consumed, len_size)?) as usize;
+    take(buf, consumed, len)
+}
 pub fn to_u128_be_fill(bytes: &[u8]) -> u128 {
     let mut new = [0; 16];
     let bytes: &[u8] = match bytes.len() {
-- 
2.43.0


From cbf57e9d35f42a64967dc4015d44e3c9d90b155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 15/31] fix: skip key shares with unknown or unsupported groups

A ClientHello with a GREASE, P-256 or short key share before the X25519 share
was rejected, made the server panic or made it use the wrong share.
---
 anothertls/src/net/client/client_hello.rs  |  7 ++--
 anothertls/src/net/extensions/key_share.rs | 39 +++++++++-------------
 anothertls/src/net/server/server_hello.rs  |  5 +--
 3 files changed, 20 insertions(+), 31 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index 73dbd5e..75faac8 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -8,7 +8,7 @@ use crate::{
     crypto::CipherSuite,
     net::{
         alert::TlsError,
-        extensions::{ClientExtension, ClientExtensions, KeyShareEntry},
+        extensions::{ClientExtension, ClientExtensions, KeyShareEntry, NamedGroup},
     },
     utils::{bytes, log},
 };
@@ -120,9 +120,8 @@ impl<'a> ClientHello<'a> {
     pub fn get_public_key_share(&self) -> Option<&KeyShareEntry> {
         for ext in self.extensions.as_vec().iter() {
             if let ClientExtension::KeyShare(key_share) = ext {
-                if !key_share.0.is_empty() {
-                    return Some(&key_share.0[0]);
-                }
+                // The only group with which the server answers
+                return key_share.0.iter().find(|e| e.group == NamedGroup::X25519);
             }
         }
         None
diff --git a/anothertls/src/net/extensions/key_share.rs b/anothertls/src/net/extensions/key_share.rs
index aba9b94..790e4d1 100644
--- a/anothertls/src/net/extensions/key_share.rs
+++ b/anothertls/src/net/extensions/key_share.rs
@@ -19,15 +19,11 @@ impl KeyShareEntry {
     pub fn new(group: NamedGroup, opaque: Vec<u8>) -> KeyShareEntry {
         KeyShareEntry { group, opaque }
     }
-    fn parse(buf: &[u8]) -> Result<(usize, KeyShareEntry), TlsError> {
-        let mut consumed = 0;
-        let group = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
-        let group = match NamedGroup::new(group) {
-            Some(x) => x,
-            None => return Err(TlsError::IllegalParameter),
-        };
-        let opaque = bytes::take_vec(buf, &mut consumed, 2)?.to_vec();
-        Ok((consumed, KeyShareEntry { group, opaque }))
+    /// Returns None if the group is unknown, such entries must be ignored.
+    fn parse(buf: &[u8], consumed: &mut usize) -> Result<Option<KeyShareEntry>, TlsError> {
+        let group = bytes::to_u16(bytes::take(buf, consumed, 2)?);
+        let opaque = bytes::take_vec(buf, consumed, 2)?.to_vec();
+        Ok(NamedGroup::new(group).map(|group| KeyShareEntry { group, opaque }))
     }
     fn as_bytes(&self) -> Vec<u8> {
         let mut out = vec![];
@@ -52,22 +48,19 @@ impl KeyShare {
     }
     fn parse(buf: &[u8], is_client: bool) -> Result<Self, TlsError> {
         let mut entries = vec![];
-        let mut len = 0;
         let mut consumed = 0;
-        if !is_client {
-            len = bytes::to_u16(buf) as usize;
-            consumed += 2;
-        }
-        loop {
-            let (used, entry) = KeyShareEntry::parse(&buf[consumed..])?;
-            if used <= 7 {
-                break;
+        if is_client {
+            // The ServerHello contains exactly one entry
+            match KeyShareEntry::parse(buf, &mut consumed)? {
+                Some(entry) => entries.push(entry),
+                None => return Err(TlsError::IllegalParameter),
             }
-            entries.push(entry);
-            consumed += used;
-            // len is for server 0, so it should always break here
-            if consumed >= len {
-                break;
+        } else {
+            let shares = bytes::take_vec(buf, &mut 0, 2)?;
+            while consumed < shares.len() {
+                if let Some(entry) = KeyShareEntry::parse(shares, &mut consumed)? {
+                    entries.push(entry);
+                }
             }
         }
         Ok(KeyShare(entries))
diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 982c4fc..7cc3ba7 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -115,10 +115,7 @@ impl<'a> ServerHello<'a> {
                                 named_group = Some(NamedGroup::X25519);
                                 break;
                             }
-                            NamedGroup::Secp256r1 => {
-                                todo!("Add support for secp256 key exchange");
-                                // named_group = Some(NamedGroup::Secp256r1);
-                            }
+                            // TODO: Add support for secp256 key exchange
                             _ => {}
                         }
                     }
-- 
2.43.0


From 636a2900d7db7950d91dc22fed4011b34ce719bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:04 +0000
Subject: [PATCH 16/31] fix: reject degenerate X25519 key shares

A share which does not have 32 bytes or yields the all-zero shared secret
must abort the handshake (RFC 8446 7.4.2).
---
 anothertls/src/net/key_schedule.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 8c5d5c7..9e8193d 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -135,6 +135,10 @@ impl KeySchedule {
             return Err(TlsError::HandshakeFailure);
         }
 
+        if key_share_entry.opaque.len() != 32 {
+            return Err(TlsError::IllegalParameter);
+        }
+
         let client_public_key = bytes::to_ibig_be(&key_share_entry.opaque);
         let client_public_key = Point::new(client_public_key, ibig!(0));
 
@@ -142,6 +146,10 @@ impl KeySchedule {
         let curve = &private_key.curve;
 
         let shared_secret = math::multiply(&client_public_key, server_private_key, curve);
+        // RFC 7748 6.1: the peer has sent a point of small order
+        if shared_secret.x == ibig!(0) {
+            return Err(TlsError::IllegalParameter);
+        }
         let shared_secret = bytes::ibig_to_32bytes(shared_secret.x, bytes::ByteOrder::Big);
 
         match Self::do_key_schedule(tshash.get_type(), &tshash.finalize(), &shared_secret) {
-- 
2.43.0


From 05c0f42fd76015460137e4527108a05c8563e2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 17/31] fix: send no ServerHello if the handshake can not be
 continued

A missing supported_versions extension means that the client does not offer
TLS 1.3, and an unusable key share was only detected after the ServerHello
has been written.
---
 anothertls/src/net/server/connection.rs   | 23 ++++++++++++-----------
 anothertls/src/net/server/server_hello.rs |  7 +++++++
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 7845485..eceea83 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -179,17 +179,6 @@ impl<'a> ServerHandshake<'a> {
         let handshake_raw =
             Handshake::to_bytes(HandshakeType::ServerHello, server_hello.as_bytes());
         tshash.update(&handshake_raw);
-        self.stream
-            .write_record(RecordType::Handshake, &handshake_raw)?;
-
-        // -- Change Cipher Spec --
-        // Either side can send change_cipher_spec at any time during the handshake, as they
-        // must be ignored by the peer, but if the client sends a non-empty session ID, the
-        // server MUST send the change_cipher_spec as described in this appendix.
-        if client_hello.legacy_session_id_echo.is_some() {
-            self.stream
-                .write_record(RecordType::ChangeCipherSpec, &[0x01])?;
-        }
 
         // -- Handshake Keys Calc --
         let key_share_entry = match client_hello.get_public_key_share() {
@@ -202,6 +191,18 @@ impl<'a> ServerHandshake<'a> {
         let cipher = server_hello.cipher_suite.get_cipher()?;
         let protection = RecordPayloadProtection::new(key_schedule, cipher, false);
 
+        self.stream
+            .write_record(RecordType::Handshake, &handshake_raw)?;
+
+        // -- Change Cipher Spec --
+        // Either side can send change_cipher_spec at any time during the handshake, as they
+        // must be ignored by the peer, but if the client sends a non-empty session ID, the
+        // server MUST send the change_cipher_spec as described in this appendix.
+        if client_hello.legacy_session_id_echo.is_some() {
+            self.stream
+                .write_record(RecordType::ChangeCipherSpec, &[0x01])?;
+        }
+
         if let Some(filepath) = &self.config.keylog {
             if protection.is_some() {
                 let protection = protection.as_ref().unwrap();
diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 7cc3ba7..30a8ae9 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -79,6 +79,7 @@ impl<'a> ServerHello<'a> {
         let mut extensions = ServerExtensions::new();
         let mut private_key = None;
         let mut named_group = None;
+        let mut tls13_is_supported = false;
 
         let random: [u8; 32] = rng.bytes(32).try_into().unwrap();
 
@@ -96,6 +97,7 @@ impl<'a> ServerHello<'a> {
                     if !version.is_tls13_supported() {
                         return Err(TlsError::InsufficientSecurity);
                     }
+                    tls13_is_supported = true;
                 }
                 ClientExtension::KeyShare(key_share) => {
                     for key in key_share.0.iter() {
@@ -143,6 +145,11 @@ impl<'a> ServerHello<'a> {
             }
         }
 
+        // Without this extension the client wants at most TLSv1.2
+        if !tls13_is_supported {
+            return Err(TlsError::ProtocolVersion);
+        }
+
         if named_group.is_none() {
             log::error!("No supported group -> Hello Retry Request");
             return Err(TlsError::InsufficientSecurity);
-- 
2.43.0


From 5d597232816dd21668138b584473c46f78a6358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 18/31] fix: send a well-formed empty certificate list

A client without certificate answered a CertificateRequest with an empty
length-only list entry, which is a decode error for every peer.
---
 anothertls/src/net/client/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index e81d01f..b62eb57 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -515,8 +515,8 @@ impl<'a> ClientHandshake<'a> {
         if let Some(client_cert) = self.config.client_cert.as_ref() {
             response.extend_from_slice(&client_cert.get_certificate_for_handshake(vec![]));
         } else {
-            log::fixme!("Check if this works");
-            response.extend_from_slice(&[0x00, 0x00, 0x00, 0x02, 0x00, 0x00]);
+            // An empty certificate_list
+            response.extend_from_slice(&[0x00, 0x00, 0x00]);
         }
 
         let handshake_raw = Handshake::to_bytes(HandshakeType::Certificate, response);
-- 
2.43.0


From ee937fad477d47d51a814a82760e6f600e59377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 19/31] fix: accept only one CertificateRequest

---
 anothertls/src/net/client/connection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index b62eb57..241566d 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -315,7 +315,9 @@ impl<'a> ClientHandshake<'a> {
             match self.state {
                 ClientHsState::EncryptedExtensions => self.handle_encrypted_extension(handshake)?,
                 ClientHsState::ServerCertificate | ClientHsState::ClientCertificateRequest => {
-                    if handshake.handshake_type == HandshakeType::CertificateRequest {
+                    if handshake.handshake_type == HandshakeType::CertificateRequest
+                        && self.state == ClientHsState::ClientCertificateRequest
+                    {
                         log::debug!("--> CertificateRequest");
                         self.certificate_request = Some(handshake.fraqment.to_vec());
                         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
-- 
2.43.0


From 16b0e62f43d2d938d5108f4aed13ab737961f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 20/31] fix: check the session id echo of the ServerHello

---
 anothertls/src/net/client/connection.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 241566d..5babf7c 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -62,6 +62,7 @@ pub struct ClientHandshake<'a> {
     server_cert: Option<Certificate>,
     client_hello_bytes: Option<Vec<u8>>,
     client_hello_random: Option<Vec<u8>>,
+    client_hello_session_id: Option<Vec<u8>>,
 }
 
 impl<'a> ClientHandshake<'a> {
@@ -82,6 +83,7 @@ impl<'a> ClientHandshake<'a> {
             private_key,
             client_hello_bytes: None,
             client_hello_random: None,
+            client_hello_session_id: None,
         }
     }
 
@@ -194,6 +196,7 @@ impl<'a> ClientHandshake<'a> {
             Handshake::to_bytes(HandshakeType::ClientHello, client_hello.as_bytes()?);
 
         self.client_hello_random = Some(random);
+        self.client_hello_session_id = Some(session_id);
         self.client_hello_bytes = Some(handshake_raw);
 
         let record = Record::new(
@@ -252,6 +255,11 @@ impl<'a> ClientHandshake<'a> {
 
         let server_hello = ServerHello::from_raw(handshake.fraqment)?;
 
+        // The server must echo the session id of the ClientHello
+        if server_hello.legacy_session_id_echo != self.client_hello_session_id.as_deref() {
+            return Err(TlsError::IllegalParameter);
+        }
+
         let mut tshash = server_hello.cipher_suite.get_tshash()?;
 
         tshash.update(self.client_hello_bytes.as_ref().unwrap());
-- 
2.43.0


From 5c3a64a9e380f6483ca0e9aa8bd00e99ee4751ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 21/31] fix: check the type and length of protected records

A protected record shorter than the authentication tag and an incomplete
record made the library panic, records with another outer type were decrypted
nonetheless, and a failed decryption must be reported as bad_record_mac.
---
 anothertls/src/net/record.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index a4c9736..0f6447a 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -85,7 +85,7 @@ impl<'a> Record<'a> {
         let content_type = RecordType::new(buf[0])?;
         let version = ((buf[1] as u16) << 8) | buf[2] as u16;
         let len = (((buf[3] as u16) << 8) | buf[4] as u16) as usize;
-        if buf.len() < (2 + len) {
+        if buf.len() < (5 + len) {
             return Err(TlsError::DecodeError);
         }
         let consumed = 5 + len;
@@ -205,6 +205,13 @@ impl RecordPayloadProtection {
             &mut self.handshake_keys
         };
 
+        if record.content_type != RecordType::ApplicationData {
+            return Err(TlsError::UnexpectedMessage);
+        }
+        if record.fraqment.len() < 16 {
+            return Err(TlsError::BadRecordMac);
+        }
+
         let ciphertext = &record.fraqment.as_ref()[..record.fraqment.len() - 16]; // 1 = Inner ContentType
         let ahead = &record.fraqment.as_ref()[ciphertext.len()..];
 
@@ -219,7 +226,7 @@ impl RecordPayloadProtection {
             .decrypt(key, &nonce, ciphertext, &record.header, ahead)
         {
             Ok(e) => e,
-            Err(_) => return Err(TlsError::DecryptError),
+            Err(_) => return Err(TlsError::BadRecordMac),
         };
 
         // 5.4. Record Padding
-- 
2.43.0


From faf4d9c765c4624c64b4d5ebbd4665ff9708333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 22/31] fix: refuse records longer than the protocol maximum

---
 anothertls/src/net/alert.rs  |  3 +++
 anothertls/src/net/record.rs | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index bb7e9cb..8e3c189 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -21,6 +21,7 @@ pub enum TlsError {
     CloseNotify = 0,
     UnexpectedMessage = 10,
     BadRecordMac = 20,
+    RecordOverflow = 22,
     HandshakeFailure = 40,
     BadCertificate = 42,
     UnsupportedCertificate = 43,
@@ -50,6 +51,7 @@ impl TlsError {
             0 => TlsError::CloseNotify,
             10 => TlsError::UnexpectedMessage,
             20 => TlsError::BadRecordMac,
+            22 => TlsError::RecordOverflow,
             40 => TlsError::HandshakeFailure,
             42 => TlsError::BadCertificate,
             43 => TlsError::UnsupportedCertificate,
@@ -80,6 +82,7 @@ impl TlsError {
             TlsError::CloseNotify => 0,
             TlsError::UnexpectedMessage => 10,
             TlsError::BadRecordMac => 20,
+            TlsError::RecordOverflow => 22,
             TlsError::HandshakeFailure => 40,
             TlsError::BadCertificate => 42,
             TlsError::UnsupportedCertificate => 43,
diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 0f6447a..7e5a052 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -32,6 +32,10 @@ impl RecordType {
     }
 }
 
+/// RFC 8446 5.1 and 5.2: maximum length of the plaintext and the ciphertext
+pub const MAX_PLAINTEXT_LEN: usize = 1 << 14;
+pub const MAX_CIPHERTEXT_LEN: usize = MAX_PLAINTEXT_LEN + 256;
+
 pub enum Value<'a> {
     Ref(&'a [u8]),
     Owned(Vec<u8>),
@@ -85,6 +89,13 @@ impl<'a> Record<'a> {
         let content_type = RecordType::new(buf[0])?;
         let version = ((buf[1] as u16) << 8) | buf[2] as u16;
         let len = (((buf[3] as u16) << 8) | buf[4] as u16) as usize;
+        let max_len = match content_type {
+            RecordType::ApplicationData => MAX_CIPHERTEXT_LEN,
+            _ => MAX_PLAINTEXT_LEN,
+        };
+        if len > max_len {
+            return Err(TlsError::RecordOverflow);
+        }
         if buf.len() < (5 + len) {
             return Err(TlsError::DecodeError);
         }
@@ -229,6 +240,11 @@ impl RecordPayloadProtection {
             Err(_) => return Err(TlsError::BadRecordMac),
         };
 
+        // Including the inner content type and the padding
+        if plaintext.len() > MAX_PLAINTEXT_LEN + 1 {
+            return Err(TlsError::RecordOverflow);
+        }
+
         // 5.4. Record Padding
         // The receiving implementation scans the field from the end toward the beginning until it
         // finds a non-zero octet. This non-zero octet is the content type of the message
-- 
2.43.0


From a7c716ee0d222d234795f918aea52742ebc51bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 23/31] fix: never wrap the sequence number of a key

In release builds the nonces started again after 2^64 records, in debug
builds the increment panicked.
---
 anothertls/src/net/key_schedule.rs | 11 +++++++----
 anothertls/src/net/record.rs       |  8 ++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 9e8193d..ddb786b 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -48,7 +48,7 @@ impl Key {
             sequence_number: 0,
         })
     }
-    pub fn get_per_record_nonce(&mut self) -> Vec<u8> {
+    pub fn get_per_record_nonce(&mut self) -> Result<Vec<u8>, TlsError> {
         // 5.3.  Per-Record Nonce
         let mut out = self.iv.to_vec();
 
@@ -56,11 +56,14 @@ impl Key {
             out[(12 - 1) - i] ^= (self.sequence_number >> (i * 8)) as u8;
         }
 
-        // FIXME: Because the size of sequence numbers is 64-bit, they should not wrap. If a TLS
+        // Because the size of sequence numbers is 64-bit, they should not wrap. If a TLS
         // implementation would need to wrap a sequence number, it MUST either rekey (Section
         // 4.6.3) or terminate the connection.
-        self.sequence_number += 1;
-        out
+        self.sequence_number = match self.sequence_number.checked_add(1) {
+            Some(next) => next,
+            None => return Err(TlsError::InternalError),
+        };
+        Ok(out)
     }
 }
 
diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 7e5a052..9435af1 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -194,9 +194,9 @@ impl RecordPayloadProtection {
         ];
 
         let (nonce, key) = if self.is_client {
-            (keys.client.get_per_record_nonce(), &keys.client.key)
+            (keys.client.get_per_record_nonce()?, &keys.client.key)
         } else {
-            (keys.server.get_per_record_nonce(), &keys.server.key)
+            (keys.server.get_per_record_nonce()?, &keys.server.key)
         };
 
         let (encrypted_record, ahead) =
@@ -227,9 +227,9 @@ impl RecordPayloadProtection {
         let ahead = &record.fraqment.as_ref()[ciphertext.len()..];
 
         let (nonce, key) = if self.is_client {
-            (keys.server.get_per_record_nonce(), &keys.server.key)
+            (keys.server.get_per_record_nonce()?, &keys.server.key)
         } else {
-            (keys.client.get_per_record_nonce(), &keys.client.key)
+            (keys.client.get_per_record_nonce()?, &keys.client.key)
         };
 
         let plaintext = match self
-- 
2.43.0


From 4e19e06af3022eaf43f741973cb92e464a324af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:27 +0000
Subject: [PATCH 24/31] fix: read and write application data as a stream of
 records

A read dropped what did not fit into the buffer of the caller, and a record
which was segmented by TCP, or which was joined with the next one, was lost.
---
 anothertls/src/net/record.rs |  30 +++++--
 anothertls/src/net/stream.rs | 150 ++++++++++++++++++++++++-----------
 2 files changed, 129 insertions(+), 51 deletions(-)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 9435af1..f4d8cbf 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -33,6 +33,7 @@ impl RecordType {
 }
 
 /// RFC 8446 5.1 and 5.2: maximum length of the plaintext and the ciphertext
+pub const RECORD_HEADER_LEN: usize = 5;
 pub const MAX_PLAINTEXT_LEN: usize = 1 << 14;
 pub const MAX_CIPHERTEXT_LEN: usize = MAX_PLAINTEXT_LEN + 256;
 
@@ -82,12 +83,12 @@ impl<'a> Record<'a> {
         }
     }
 
-    pub fn from_raw(buf: &[u8]) -> Result<(usize, Record), TlsError> {
-        if buf.len() < 5 {
+    /// Returns the size of the record, for which at least the header was received.
+    pub fn get_size(buf: &[u8]) -> Result<usize, TlsError> {
+        if buf.len() < RECORD_HEADER_LEN {
             return Err(TlsError::DecodeError);
         }
         let content_type = RecordType::new(buf[0])?;
-        let version = ((buf[1] as u16) << 8) | buf[2] as u16;
         let len = (((buf[3] as u16) << 8) | buf[4] as u16) as usize;
         let max_len = match content_type {
             RecordType::ApplicationData => MAX_CIPHERTEXT_LEN,
@@ -96,10 +97,17 @@ impl<'a> Record<'a> {
         if len > max_len {
             return Err(TlsError::RecordOverflow);
         }
-        if buf.len() < (5 + len) {
+        Ok(RECORD_HEADER_LEN + len)
+    }
+
+    pub fn from_raw(buf: &[u8]) -> Result<(usize, Record), TlsError> {
+        let consumed = Record::get_size(buf)?;
+        if buf.len() < consumed {
             return Err(TlsError::DecodeError);
         }
-        let consumed = 5 + len;
+        let content_type = RecordType::new(buf[0])?;
+        let version = ((buf[1] as u16) << 8) | buf[2] as u16;
+        let len = consumed - RECORD_HEADER_LEN;
         Ok((
             consumed,
             Record {
@@ -111,6 +119,18 @@ impl<'a> Record<'a> {
             },
         ))
     }
+    pub fn into_owned(self) -> Record<'static> {
+        Record {
+            content_type: self.content_type,
+            version: self.version,
+            len: self.len,
+            header: self.header,
+            fraqment: Value::Owned(match self.fraqment {
+                Value::Ref(a) => a.to_vec(),
+                Value::Owned(a) => a,
+            }),
+        }
+    }
     pub fn as_bytes(&self) -> Vec<u8> {
         let len = self.fraqment.len();
         let mut t = vec![
diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 1e126f7..7f94978 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -4,17 +4,25 @@
  */
 
 use crate::net::alert::{AlertLevel, TlsError};
-use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
-use crate::utils::log;
+use crate::net::record::{
+    Record, RecordPayloadProtection, RecordType, Value, MAX_PLAINTEXT_LEN, RECORD_HEADER_LEN,
+};
+use crate::utils::{bytes, log};
 
 use core::result::Result;
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 use std::net::TcpStream;
 
 pub struct TlsStream {
     stream: TcpStream,
     pub protection: Option<RecordPayloadProtection>,
     buffer: Vec<u8>,
+    /// Received bytes, which are not yet a complete record
+    rx_buffer: Vec<u8>,
+    /// Decrypted application data, which is not yet read by the user
+    plaintext: Vec<u8>,
+    /// After the peer has violated the protocol, nothing more is delivered
+    read_error: Option<TlsError>,
 }
 
 impl TlsStream {
@@ -23,6 +31,9 @@ impl TlsStream {
             stream,
             protection: None,
             buffer: Vec::with_capacity(2048),
+            rx_buffer: Vec::with_capacity(2048),
+            plaintext: vec![],
+            read_error: None,
         }
     }
 
@@ -30,12 +41,15 @@ impl TlsStream {
     /// This is useful in the handshake process, where multiple
     /// TLS records are send to the client.
     pub fn write_record(&mut self, typ: RecordType, data: &[u8]) -> Result<(), TlsError> {
-        let record = Record::new(typ, Value::Ref(data));
-
-        if let Some(protect) = self.protection.as_mut() {
-            self.buffer.append(&mut protect.encrypt(record)?);
-        } else {
-            self.buffer.append(&mut record.as_bytes());
+        // Longer messages are fragmented over several records
+        for fragment in data.chunks(MAX_PLAINTEXT_LEN) {
+            let record = Record::new(typ, Value::Ref(fragment));
+
+            if let Some(protect) = self.protection.as_mut() {
+                self.buffer.append(&mut protect.encrypt(record)?);
+            } else {
+                self.buffer.append(&mut record.as_bytes());
+            }
         }
 
         // TODO: Find a smart value
@@ -60,20 +74,45 @@ impl TlsStream {
 
     /// Write directly to the TCP socket
     pub fn tcp_write(&mut self, buf: &[u8]) -> Result<usize, TlsError> {
-        match self.stream.write(buf) {
-            Ok(n) => Ok(n),
+        match self.stream.write_all(buf) {
+            Ok(_) => Ok(buf.len()),
             Err(_) => Err(TlsError::BrokenPipe),
         }
     }
 
     /// Read directly from the TCP socket
     pub fn tcp_read<'b>(&'b mut self, buf: &'b mut [u8]) -> Result<usize, TlsError> {
-        match self.stream.read(buf) {
-            Ok(n) if n != 0 => Ok(n),
-            _ => Err(TlsError::BrokenPipe),
+        loop {
+            return match self.stream.read(buf) {
+                Ok(n) if n != 0 => Ok(n),
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                _ => Err(TlsError::BrokenPipe),
+            };
         }
     }
 
+    /// Reads from the TCP socket until `len` bytes are available.
+    fn fill_rx_buffer(&mut self, len: usize) -> Result<(), TlsError> {
+        let mut rx_buf: [u8; 4096] = [0; 4096];
+        while self.rx_buffer.len() < len {
+            let n = self.tcp_read(&mut rx_buf)?;
+            self.rx_buffer.extend_from_slice(&rx_buf[..n]);
+        }
+        Ok(())
+    }
+
+    /// Reads exactly one record, regardless of how it was segmented by TCP.
+    pub fn read_record(&mut self) -> Result<Record<'static>, TlsError> {
+        self.fill_rx_buffer(RECORD_HEADER_LEN)?;
+        let size = Record::get_size(&self.rx_buffer)?;
+        self.fill_rx_buffer(size)?;
+
+        let (_, record) = Record::from_raw(&self.rx_buffer[..size])?;
+        let record = record.into_owned();
+        self.rx_buffer.drain(..size);
+        Ok(record)
+    }
+
     /// Write an TLS Alert message
     pub fn write_alert(&mut self, err: TlsError) -> Result<(), TlsError> {
         let data = vec![AlertLevel::get_from_error(err) as u8, err.as_u8()];
@@ -95,39 +134,51 @@ impl TlsStream {
 
     /// Read from the TLS stream.
     pub fn tls_read<'b>(&'b mut self, buf: &'b mut [u8]) -> Result<usize, TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
-
-        let n = self.tcp_read(&mut rx_buf)?;
-
-        let (_consumed, mut record) = Record::from_raw(&rx_buf[..n])?;
-
-        log::debug!("--> EncryptedData");
-
-        if record.len != record.fraqment.len() {
-            // create internal buffer to store the decrypted TLS packages
-            todo!("Problem, when multiple TLS packages in one TCP package");
+        if buf.is_empty() {
+            return Ok(0);
         }
 
-        if let Some(protection) = self.protection.as_mut() {
-            let (typ, data) = protection.decrypt(record)?;
-            record = Record::new(typ, Value::Owned(data));
-            if record.content_type != RecordType::ApplicationData {
-                log::error!("Not yet implemented: Handle handshake messages");
-                return Err(TlsError::UnexpectedMessage);
+        // Records can be empty
+        while self.plaintext.is_empty() {
+            if let Some(err) = self.read_error {
+                return Err(err);
+            }
+            match self.read_application_data() {
+                Ok(data) => self.plaintext = data,
+                Err(err) => {
+                    if err != TlsError::BrokenPipe {
+                        self.read_error = Some(err);
+                    }
+                    return Err(err);
+                }
             }
-        } else if record.content_type != RecordType::Handshake {
-            return Err(TlsError::UnexpectedMessage);
         }
 
-        if record.len > buf.len() {
-            todo!("Handle records bigger than the buf.len()");
-        }
+        let n = core::cmp::min(buf.len(), self.plaintext.len());
+        buf[..n].copy_from_slice(&self.plaintext[..n]);
+        self.plaintext.drain(..n);
+        Ok(n)
+    }
 
-        for (i, b) in record.fraqment.as_ref().iter().enumerate() {
-            buf[i] = *b;
+    fn read_application_data(&mut self) -> Result<Vec<u8>, TlsError> {
+        if self.protection.is_none() {
+            // Don't deliver anything, if no secure
+            // channel is present.
+            return Err(TlsError::InternalError);
         }
 
-        Ok(record.fraqment.len())
+        let record = self.read_record()?;
+        log::debug!("--> EncryptedData");
+
+        let (typ, data) = self.protection.as_mut().unwrap().decrypt(record)?;
+        match typ {
+            RecordType::ApplicationData => Ok(data),
+            RecordType::Alert => Err(TlsError::new(bytes::take(&data, &mut 1, 1)?[0])),
+            _ => {
+                log::error!("Not yet implemented: Handle handshake messages");
+                Err(TlsError::UnexpectedMessage)
+            }
+        }
     }
 
     /// Write to the TLS stream.
@@ -138,15 +189,22 @@ impl TlsStream {
             return Err(TlsError::InternalError);
         }
 
-        let record = Record::new(RecordType::ApplicationData, Value::Ref(src));
-        let record = self.protection.as_mut().unwrap().encrypt(record)?;
+        let mut written = 0;
+        loop {
+            let end = core::cmp::min(src.len(), written + MAX_PLAINTEXT_LEN);
+            let record = Record::new(RecordType::ApplicationData, Value::Ref(&src[written..end]));
+            let record = self.protection.as_mut().unwrap().encrypt(record)?;
 
-        log::debug!("<-- EncryptedData");
-        if self.stream.write_all(&record).is_err() {
-            return Err(TlsError::BrokenPipe);
-        };
+            log::debug!("<-- EncryptedData");
+            if self.stream.write_all(&record).is_err() {
+                return Err(TlsError::BrokenPipe);
+            };
 
-        Ok(())
+            written = end;
+            if written == src.len() {
+                return Ok(());
+            }
+        }
     }
 }
 
-- 
2.43.0


From 33d56b2987c9f8b808fc08113ced58ba5ec5c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 25/31] fix: send an alert after the records which are already
 produced

---
 anothertls/src/net/stream.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 7f94978..8b4778d 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -119,17 +119,15 @@ impl TlsStream {
 
         let record = Record::new(RecordType::Alert, Value::Owned(data));
 
-        let record_raw = if let Some(protect) = self.protection.as_mut() {
+        let mut record_raw = if let Some(protect) = self.protection.as_mut() {
             protect.encrypt(record)?
         } else {
             record.as_bytes()
         };
 
-        if self.stream.write_all(&record_raw).is_err() {
-            return Err(TlsError::BrokenPipe);
-        };
-
-        Ok(())
+        // The alert follows the records which are already produced
+        self.buffer.append(&mut record_raw);
+        self.flush()
     }
 
     /// Read from the TLS stream.
-- 
2.43.0


From 35b9f7fa2e84b75a4e91b415a638746060db0241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 26/31] fix: reassemble handshake records and messages in both
 drivers

The server lost records which were segmented by TCP or longer than its buffer,
and both sides were not able to receive fragmented messages. A failed write of
the alert replaced the error of the handshake.
---
 anothertls/src/net/client/connection.rs | 173 +++++++++---------------
 anothertls/src/net/handshake/mod.rs     |  22 ++-
 anothertls/src/net/server/connection.rs | 136 +++++++++----------
 3 files changed, 148 insertions(+), 183 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 5babf7c..4fade2a 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -57,6 +57,8 @@ pub struct ClientHandshake<'a> {
     certificate_request: Option<Vec<u8>>,
     keylog: Option<KeyLog>,
     rng: Box<dyn RngCore<IBig>>,
+    /// Received bytes, which are not yet a complete handshake message
+    hs_buffer: Vec<u8>,
     tshash: Option<Box<dyn TranscriptHash>>,
     private_key: PrivateKey,
     server_cert: Option<Certificate>,
@@ -78,6 +80,7 @@ impl<'a> ClientHandshake<'a> {
             certificate_request: None,
             keylog: None,
             rng,
+            hs_buffer: vec![],
             tshash: None,
             server_cert: None,
             private_key,
@@ -90,7 +93,8 @@ impl<'a> ClientHandshake<'a> {
     pub fn do_handshake_with_error(&mut self) -> Result<(), TlsError> {
         if let Err(mut err) = self.do_handshake() {
             if err < TlsError::NotOfficial {
-                self.stream.write_alert(err)?;
+                // The handshake has failed because of err, even if the peer is gone
+                let _ = self.stream.write_alert(err);
             }
             if let TlsError::GotAlert(err_code) = err {
                 err = TlsError::new(err_code);
@@ -104,46 +108,10 @@ impl<'a> ClientHandshake<'a> {
         self.send_client_hello()?;
         log::debug!("<-- ClientHello");
 
-        let mut defragmented = Vec::with_capacity(2048);
-        let mut rxbuf = [0; 2048];
-
         while self.state != ClientHsState::Ready {
-            let n = self.stream.tcp_read(&mut rxbuf)?;
-
-            if n == 0 {
-                log::error!("Got empty tcp");
-                return Err(TlsError::BrokenPipe);
-            }
-
-            let mut offset = 0;
-
-            if !defragmented.is_empty() {
-                defragmented.extend_from_slice(&rxbuf[..n]);
-            }
-
-            while offset < n || !defragmented.is_empty() {
-                let record_buf = if defragmented.is_empty() {
-                    &rxbuf[offset..n]
-                } else {
-                    &defragmented[offset..]
-                };
-
-                if let Ok((consumed, record)) = Record::from_raw(record_buf) {
-                    self.handle_handshake_record(record)?;
-                    offset += consumed;
-                    if offset == defragmented.len() {
-                        defragmented.clear();
-                        break;
-                    }
-                } else {
-                    if defragmented.is_empty() {
-                        defragmented.extend_from_slice(&rxbuf[offset..n]);
-                    }
-                    break;
-                }
-            }
-
-            // send server handshake records to the client
+            let record = self.stream.read_record()?;
+            self.handle_handshake_record(record)?;
+            // send client handshake records to the server
             self.stream.flush()?;
         }
         Ok(())
@@ -212,7 +180,7 @@ impl<'a> ClientHandshake<'a> {
         match record.content_type {
             RecordType::ChangeCipherSpec => {
                 log::debug!("--> ChangeCipherSpec");
-                if self.state == ClientHsState::ServerHello {
+                if self.state == ClientHsState::ServerHello || !self.hs_buffer.is_empty() {
                     return Err(TlsError::UnexpectedMessage);
                 }
                 return Ok(());
@@ -226,33 +194,66 @@ impl<'a> ClientHandshake<'a> {
                 }
                 return Err(TlsError::GotAlert(alert_code));
             }
-            _ => match self.state {
-                ClientHsState::ServerHello => {
-                    if record.content_type != RecordType::Handshake {
-                        return Err(TlsError::UnexpectedMessage);
-                    }
-                    self.handle_server_hello(record)?;
-                }
-                ClientHsState::EncryptedExtensions
-                | ClientHsState::ClientCertificateRequest
-                | ClientHsState::ServerCertificate
-                | ClientHsState::ServerCertificateVerify
-                | ClientHsState::FinishWithError(_)
-                | ClientHsState::Finished => {
-                    self.handle_handshake_encrypted_record(record)?;
-                }
-                ClientHsState::Ready => {}
-            },
+            _ => (),
+        }
+
+        let (content_type, content) = match self.state {
+            ClientHsState::ServerHello => (record.content_type, record.fraqment.as_ref().to_vec()),
+            _ => self.stream.protection.as_mut().unwrap().decrypt(record)?,
+        };
+
+        if content_type == RecordType::Alert {
+            let alert_code = bytes::take(&content, &mut 1, 1)?[0];
+            return Err(TlsError::GotAlert(alert_code));
+        }
+
+        if content_type != RecordType::Handshake || content.is_empty() {
+            return Err(TlsError::UnexpectedMessage);
+        }
+
+        self.hs_buffer.extend_from_slice(&content);
+        while let Some(message) = Handshake::take_message(&mut self.hs_buffer)? {
+            self.handle_handshake_message(Handshake::from_raw(&message)?)?;
         }
         Ok(())
     }
-    pub fn handle_server_hello(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
 
+    fn handle_handshake_message(&mut self, handshake: Handshake) -> Result<(), TlsError> {
+        match self.state {
+            ClientHsState::ServerHello => self.handle_server_hello(handshake),
+            ClientHsState::EncryptedExtensions => self.handle_encrypted_extension(handshake),
+            ClientHsState::ServerCertificate | ClientHsState::ClientCertificateRequest => {
+                if handshake.handshake_type == HandshakeType::CertificateRequest
+                    && self.state == ClientHsState::ClientCertificateRequest
+                {
+                    log::debug!("--> CertificateRequest");
+                    self.certificate_request = Some(handshake.fraqment.to_vec());
+                    self.tshash.as_mut().unwrap().update(handshake.as_bytes());
+                    self.state = ClientHsState::ServerCertificate;
+                    return Ok(());
+                }
+                self.handle_server_certificate(handshake)
+            }
+            ClientHsState::ServerCertificateVerify => {
+                self.handle_server_certificate_verify(handshake)
+            }
+            ClientHsState::Finished | ClientHsState::FinishWithError(_) => {
+                self.handle_server_finish(handshake)
+            }
+            ClientHsState::Ready => Err(TlsError::UnexpectedMessage),
+        }
+    }
+
+    pub fn handle_server_hello(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::ServerHello {
             return Err(TlsError::UnexpectedMessage);
         }
 
+        // The keys are changed after this message
+        if !self.hs_buffer.is_empty() {
+            return Err(TlsError::UnexpectedMessage);
+        }
+
         let server_hello = ServerHello::from_raw(handshake.fraqment)?;
 
         // The server must echo the session id of the ClientHello
@@ -265,7 +266,7 @@ impl<'a> ClientHandshake<'a> {
         tshash.update(self.client_hello_bytes.as_ref().unwrap());
 
         log::debug!("--> ServerHello");
-        tshash.update(record.fraqment.as_ref());
+        tshash.update(handshake.as_bytes());
 
         let key_share_entry = match server_hello.get_public_key_share() {
             Some(kse) => kse,
@@ -300,51 +301,6 @@ impl<'a> ClientHandshake<'a> {
         Ok(())
     }
 
-    fn handle_handshake_encrypted_record(&mut self, record: Record) -> Result<(), TlsError> {
-        // log::debug!("-> Encrypted");
-        let (content_type, content) = self.stream.protection.as_mut().unwrap().decrypt(record)?;
-
-        let record = Record::new(content_type, crate::net::record::Value::Owned(content));
-
-        if record.content_type != RecordType::Handshake {
-            if record.content_type == RecordType::Alert {
-                let alert_code = bytes::take(record.fraqment.as_ref(), &mut 1, 1)?[0];
-                return Err(TlsError::GotAlert(alert_code));
-            }
-            return Err(TlsError::UnexpectedMessage);
-        }
-
-        let mut consumed = 0;
-
-        while consumed < record.fraqment.len() {
-            let handshake = Handshake::from_raw(&record.fraqment.as_ref()[consumed..])?;
-            consumed += handshake.as_bytes().len();
-
-            match self.state {
-                ClientHsState::EncryptedExtensions => self.handle_encrypted_extension(handshake)?,
-                ClientHsState::ServerCertificate | ClientHsState::ClientCertificateRequest => {
-                    if handshake.handshake_type == HandshakeType::CertificateRequest
-                        && self.state == ClientHsState::ClientCertificateRequest
-                    {
-                        log::debug!("--> CertificateRequest");
-                        self.certificate_request = Some(handshake.fraqment.to_vec());
-                        self.tshash.as_mut().unwrap().update(handshake.as_bytes());
-                        self.state = ClientHsState::ServerCertificate;
-                    } else {
-                        self.handle_server_certificate(handshake)?;
-                    }
-                }
-                ClientHsState::ServerCertificateVerify => {
-                    self.handle_server_certificate_verify(handshake)?
-                }
-                ClientHsState::Finished | ClientHsState::FinishWithError(_) => {
-                    self.handle_server_finish(handshake)?
-                }
-                _ => (),
-            }
-        }
-        Ok(())
-    }
     pub fn handle_encrypted_extension(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::EncryptedExtensions {
             return Err(TlsError::UnexpectedMessage);
@@ -458,6 +414,11 @@ impl<'a> ClientHandshake<'a> {
             return Err(TlsError::UnexpectedMessage);
         }
 
+        // The keys are changed after this message
+        if !self.hs_buffer.is_empty() {
+            return Err(TlsError::UnexpectedMessage);
+        }
+
         let protection = self.stream.protection.as_mut().unwrap();
         log::debug!("--> ServerFinished");
 
diff --git a/anothertls/src/net/handshake/mod.rs b/anothertls/src/net/handshake/mod.rs
index 62a2eab..3ea2d71 100644
--- a/anothertls/src/net/handshake/mod.rs
+++ b/anothertls/src/net/handshake/mod.rs
@@ -13,6 +13,9 @@ pub use finished::get_verify_data_for_finished;
 use super::alert::TlsError;
 use crate::utils::bytes;
 
+/// A peer must not be able to fill the memory with one endless message
+const MAX_MESSAGE_LEN: usize = 1 << 16;
+
 #[derive(PartialEq, Copy, Clone, Debug)]
 pub enum HandshakeType {
     ClientHello = 1,
@@ -71,6 +74,22 @@ impl<'a> Handshake<'a> {
             raw: &buf[..consumed],
         })
     }
+    /// Takes the first message out of the buffer, if it is already complete.
+    /// A message can be fragmented over several records, and a record can
+    /// contain several messages.
+    pub fn take_message(buf: &mut Vec<u8>) -> Result<Option<Vec<u8>>, TlsError> {
+        if buf.len() < 4 {
+            return Ok(None);
+        }
+        let size = 4 + (((buf[1] as usize) << 16) | ((buf[2] as usize) << 8) | buf[3] as usize);
+        if size > MAX_MESSAGE_LEN {
+            return Err(TlsError::DecodeError);
+        }
+        if buf.len() < size {
+            return Ok(None);
+        }
+        Ok(Some(buf.drain(..size).collect()))
+    }
     pub fn as_bytes(&self) -> &[u8] {
         self.raw
     }
@@ -80,7 +99,4 @@ impl<'a> Handshake<'a> {
         t.append(&mut data);
         t
     }
-    // pub fn is_full(&self) -> bool {
-    //     self.len == self.fraqment.len() as u32
-    // }
 }
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index eceea83..c429fa1 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -70,6 +70,8 @@ struct ServerHandshake<'a> {
     client_cert: Option<Certificate>,
     certificate_request_context: Option<Vec<u8>>,
     rng: Box<dyn RngCore<IBig>>,
+    /// Received bytes, which are not yet a complete handshake message
+    hs_buffer: Vec<u8>,
     tshash: Option<Box<dyn TranscriptHash>>,
     tshash_clienthello_serverfinished: Option<Box<dyn TranscriptHash>>,
 }
@@ -87,6 +89,7 @@ impl<'a> ServerHandshake<'a> {
                 PRNG::Simple => Box::new(SimpleRng::from_seed(ibig!(0))),
                 PRNG::URandom => Box::new(URandomRng::new()),
             },
+            hs_buffer: vec![],
             tshash: None,
             tshash_clienthello_serverfinished: None,
         }
@@ -95,7 +98,8 @@ impl<'a> ServerHandshake<'a> {
         if let Err(mut err) = self.do_handshake() {
             if err < TlsError::NotOfficial {
                 log::error!("<-- Alert ({err:?})");
-                self.stream.write_alert(err)?;
+                // The handshake has failed because of err, even if the peer is gone
+                let _ = self.stream.write_alert(err);
             }
             if let TlsError::GotAlert(err_code) = err {
                 err = TlsError::new(err_code);
@@ -106,16 +110,9 @@ impl<'a> ServerHandshake<'a> {
     }
 
     fn do_handshake(&mut self) -> Result<(), TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
-
         while self.state != ServerHsState::Ready {
-            let n = self.stream.tcp_read(&mut rx_buf)?;
-            let mut consumed_total = 0;
-            while consumed_total < n {
-                let (consumed, record) = Record::from_raw(&rx_buf[consumed_total..n])?;
-                consumed_total += consumed;
-                self.handle_handshake_record(record)?;
-            }
+            let record = self.stream.read_record()?;
+            self.handle_handshake_record(record)?;
             // send server handshake records to the client
             self.stream.flush()?;
         }
@@ -126,7 +123,7 @@ impl<'a> ServerHandshake<'a> {
         match record.content_type {
             RecordType::ChangeCipherSpec => {
                 log::debug!("--> ChangeCipherSpec");
-                if self.state == ServerHsState::ClientHello {
+                if self.state == ServerHsState::ClientHello || !self.hs_buffer.is_empty() {
                     return Err(TlsError::UnexpectedMessage);
                 }
                 return Ok(());
@@ -140,31 +137,54 @@ impl<'a> ServerHandshake<'a> {
                 }
                 return Err(TlsError::GotAlert(alert_code));
             }
-            _ => match self.state {
-                ServerHsState::ClientHello => {
-                    if record.content_type != RecordType::Handshake {
-                        return Err(TlsError::UnexpectedMessage);
-                    }
-                    self.handle_client_hello(record)?;
-                }
-                ServerHsState::ClientCertificate
-                | ServerHsState::ClientCertificateVerify
-                | ServerHsState::FinishWithError(_)
-                | ServerHsState::ClientFinished => {
-                    self.handle_handshake_encrypted_record(record)?;
-                }
-                ServerHsState::Ready => {}
-            },
+            _ => (),
+        }
+
+        let (content_type, content) = match self.state {
+            ServerHsState::ClientHello => (record.content_type, record.fraqment.as_ref().to_vec()),
+            _ => self.stream.protection.as_mut().unwrap().decrypt(record)?,
+        };
+
+        if content_type == RecordType::Alert {
+            let alert_code = bytes::take(&content, &mut 1, 1)?[0];
+            return Err(TlsError::GotAlert(alert_code));
+        }
+
+        if content_type != RecordType::Handshake || content.is_empty() {
+            return Err(TlsError::UnexpectedMessage);
+        }
+
+        self.hs_buffer.extend_from_slice(&content);
+        while let Some(message) = Handshake::take_message(&mut self.hs_buffer)? {
+            self.handle_handshake_message(Handshake::from_raw(&message)?)?;
         }
         Ok(())
     }
-    fn handle_client_hello(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
 
+    fn handle_handshake_message(&mut self, handshake: Handshake) -> Result<(), TlsError> {
+        match self.state {
+            ServerHsState::ClientHello => self.handle_client_hello(handshake),
+            ServerHsState::ClientCertificate => self.handle_client_certificate(handshake),
+            ServerHsState::ClientCertificateVerify => {
+                self.handle_client_certificate_verify(handshake)
+            }
+            ServerHsState::ClientFinished | ServerHsState::FinishWithError(_) => {
+                self.handle_client_finish(handshake)
+            }
+            ServerHsState::Ready => Err(TlsError::UnexpectedMessage),
+        }
+    }
+
+    fn handle_client_hello(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::ClientHello {
             return Err(TlsError::UnexpectedMessage);
         }
 
+        // The keys are changed after this message
+        if !self.hs_buffer.is_empty() {
+            return Err(TlsError::UnexpectedMessage);
+        }
+
         log::debug!("--> ClientHello");
         let client_hello = ClientHello::from_raw(handshake.fraqment)?;
 
@@ -173,7 +193,7 @@ impl<'a> ServerHandshake<'a> {
 
         let mut tshash = server_hello.cipher_suite.get_tshash()?;
         // Add ClientHello
-        tshash.update(record.fraqment.as_ref());
+        tshash.update(handshake.as_bytes());
 
         // -- ServerHello --
         let handshake_raw =
@@ -297,37 +317,7 @@ impl<'a> ServerHandshake<'a> {
         Ok(())
     }
 
-    fn handle_handshake_encrypted_record(&mut self, record: Record) -> Result<(), TlsError> {
-        let (content_type, content) = self.stream.protection.as_mut().unwrap().decrypt(record)?;
-
-        let record = Record::new(content_type, crate::net::record::Value::Owned(content));
-
-        if record.content_type != RecordType::Handshake
-            || (self.config.client_cert_ca.is_some() && self.certificate_request_context.is_none())
-        {
-            if record.content_type == RecordType::Alert {
-                let alert_code = bytes::take(record.fraqment.as_ref(), &mut 1, 1)?[0];
-                return Err(TlsError::GotAlert(alert_code));
-            }
-            return Err(TlsError::UnexpectedMessage);
-        }
-
-        match self.state {
-            ServerHsState::ClientCertificate => self.handle_client_certificate(record)?,
-            ServerHsState::ClientCertificateVerify => {
-                self.handle_client_certificate_verify(record)?
-            }
-            ServerHsState::ClientFinished | ServerHsState::FinishWithError(_) => {
-                self.handle_client_finish(record)?
-            }
-            _ => (),
-        }
-        Ok(())
-    }
-
-    pub fn handle_client_certificate(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
-
+    pub fn handle_client_certificate(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::Certificate
             || self.config.client_cert_ca.is_none()
         {
@@ -336,10 +326,7 @@ impl<'a> ServerHandshake<'a> {
 
         self.tshash_clienthello_serverfinished = Some((*self.tshash.as_ref().unwrap()).clone());
 
-        self.tshash
-            .as_mut()
-            .unwrap()
-            .update(record.fraqment.as_ref());
+        self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
         log::debug!("--> ClientCertificate");
 
@@ -384,9 +371,10 @@ impl<'a> ServerHandshake<'a> {
         Ok(())
     }
 
-    pub fn handle_client_certificate_verify(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
-
+    pub fn handle_client_certificate_verify(
+        &mut self,
+        handshake: Handshake,
+    ) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::CertificateVerify
             || self.client_cert.is_none()
         {
@@ -427,17 +415,12 @@ impl<'a> ServerHandshake<'a> {
             return Err(TlsError::DecodeError);
         }
 
-        self.tshash
-            .as_mut()
-            .unwrap()
-            .update(record.fraqment.as_ref());
+        self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
         self.state = ServerHsState::ClientFinished;
         Ok(())
     }
-    pub fn handle_client_finish(&mut self, record: Record) -> Result<(), TlsError> {
-        let handshake = Handshake::from_raw(record.fraqment.as_ref())?;
-
+    pub fn handle_client_finish(&mut self, handshake: Handshake) -> Result<(), TlsError> {
         if handshake.handshake_type != HandshakeType::Finished {
             if let ServerHsState::FinishWithError(_) = self.state {
                 // When error in Certificate, then CertificateVerify will follow
@@ -447,6 +430,11 @@ impl<'a> ServerHandshake<'a> {
             return Err(TlsError::UnexpectedMessage);
         }
 
+        // The keys are changed after this message
+        if !self.hs_buffer.is_empty() {
+            return Err(TlsError::UnexpectedMessage);
+        }
+
         let protection = self.stream.protection.as_mut().unwrap();
         log::debug!("--> ClientFinished");
         let fraqment = handshake.fraqment.to_owned();
-- 
2.43.0


From deba52300d7dcce6cd304a93027ffee9822cea74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 27/31] fix: convert bytes to numbers in linear time

A certificate with a long INTEGER kept the handshake busy for seconds.
---
 anothertls/src/utils/bytes.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/anothertls/src/utils/bytes.rs b/anothertls/src/utils/bytes.rs
index ca5897c..713504c 100644
--- a/anothertls/src/utils/bytes.rs
+++ b/anothertls/src/utils/bytes.rs
@@ -4,21 +4,13 @@
  */
 
 use crate::net::alert::TlsError;
-use ibig::{ibig, IBig};
+use ibig::{IBig, UBig};
 
 pub fn to_ibig_le(bytes: &[u8]) -> IBig {
-    let mut res = ibig!(0);
-    for (i, byte) in bytes.iter().enumerate() {
-        res += IBig::from(*byte) << (i * 8);
-    }
-    res
+    IBig::from(UBig::from_le_bytes(bytes))
 }
 pub fn to_ibig_be(bytes: &[u8]) -> IBig {
-    let mut res = ibig!(0);
-    for (i, byte) in bytes.iter().enumerate() {
-        res += IBig::from(*byte) << (((bytes.len() - 1) * 8) - i * 8);
-    }
-    res
+    IBig::from(UBig::from_be_bytes(bytes))
 }
 #[derive(PartialEq)]
 pub enum ByteOrder {
-- 
2.43.0


From f8439eeb03b3a9fbb5a3de6cdb819e898102efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 28/31] fix: ClientConfigBuilder::build returns the error
 instead of panicking

---
 anothertls/src/net/client/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/net/client/config.rs b/anothertls/src/net/client/config.rs
index ffa1da5..f6774db 100644
--- a/anothertls/src/net/client/config.rs
+++ b/anothertls/src/net/client/config.rs
@@ -69,7 +69,7 @@ impl ClientConfigBuilder {
     }
     pub fn build(self) -> core::result::Result<ClientConfig, String> {
         if self.client_cert.is_some() && self.client_key.is_none() {
-            panic!("No private key was set for the client certificate.")
+            return Err("No private key was set for the client certificate.".to_string());
         }
         Ok(ClientConfig {
             keylog: self.keylog,
-- 
2.43.0


From e6210cd4501e37d8c409a77e17e5a83f0d3a7980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 29/31] Verification hook: set the sequence number of a key
 (cfg verif_hooks)

---
 anothertls/src/net/key_schedule.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index ddb786b..a218a6e 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -48,6 +48,11 @@ impl Key {
             sequence_number: 0,
         })
     }
+    /// Verification hook: start shortly before the end of the sequence numbers
+    #[cfg(verif_hooks)]
+    pub fn set_sequence_number(&mut self, sequence_number: u64) {
+        self.sequence_number = sequence_number;
+    }
     pub fn get_per_record_nonce(&mut self) -> Result<Vec<u8>, TlsError> {
         // 5.3.  Per-Record Nonce
         let mut out = self.iv.to_vec();
-- 
2.43.0


From 6155cd572ce11c4855c577a30a3bff4430918454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 30/31] fix: write each key log entry with a single write

---
 anothertls/src/utils/keylog.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/utils/keylog.rs b/anothertls/src/utils/keylog.rs
index 9d07c2e..e50c3df 100644
--- a/anothertls/src/utils/keylog.rs
+++ b/anothertls/src/utils/keylog.rs
@@ -66,7 +66,9 @@ impl KeyLog {
         self.append_to_file(content)
     }
 
-    fn append_to_file(&self, content: String) {
+    fn append_to_file(&self, mut content: String) {
+        // A single write, so that lines of concurrent connections cannot mix
+        content += "\n";
         let mut file = OpenOptions::new()
             .create(true)
             .write(true)
@@ -74,7 +76,7 @@ impl KeyLog {
             .open(&self.filepath)
             .unwrap_or_else(|_| panic!("Couldn't open or create keylog file {}", self.filepath));
 
-        if let Err(e) = writeln!(file, "{}", content) {
+        if let Err(e) = file.write_all(content.as_bytes()) {
             eprintln!("Couldn't write to file: {}", e);
         }
     }
-- 
2.43.0


From 07df4df380773344525584d9409be14897140ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:30 +0000
Subject: [PATCH 31/31] fix: refuse hellos with two extensions of one type

A ClientHello with two key_share extensions was answered with a ServerHello
that also had two, with two different shares, and of two supported_versions
extensions in a ServerHello only the first one was looked at.
---
 anothertls/src/net/extensions/client.rs | 11 +++++++++--
 anothertls/src/net/extensions/server.rs | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/net/extensions/client.rs b/anothertls/src/net/extensions/client.rs
index 1adb9b4..cc8b2eb 100644
--- a/anothertls/src/net/extensions/client.rs
+++ b/anothertls/src/net/extensions/client.rs
@@ -36,15 +36,22 @@ impl ClientExtension {
     pub fn from_client_hello(buf: &[u8]) -> Result<ClientExtensions, TlsError> {
         let mut consumed = 0;
         let mut extensions = ClientExtensions::new();
+        let mut seen = Vec::new();
 
         while consumed < buf.len() {
-            let extension_type = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
+            let type_id = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
             let data = bytes::take_vec(buf, &mut consumed, 2)?;
-            let extension_type = match ExtensionType::new(extension_type) {
+            let extension_type = match ExtensionType::new(type_id) {
                 Some(e) => e,
                 None => continue,
             };
 
+            // RFC 8446 4.2: there must not be two extensions of one type
+            if seen.contains(&type_id) {
+                return Err(TlsError::IllegalParameter);
+            }
+            seen.push(type_id);
+
             let extension = match extension_type {
                 ExtensionType::ServerName => {
                     ClientExtension::ServerName(ServerName::server_parse(data)?)
diff --git a/anothertls/src/net/extensions/server.rs b/anothertls/src/net/extensions/server.rs
index 21b48c9..9a8fb51 100644
--- a/anothertls/src/net/extensions/server.rs
+++ b/anothertls/src/net/extensions/server.rs
@@ -33,16 +33,23 @@ impl ServerExtensions {
     pub fn from_server_hello(buf: &[u8]) -> Result<ServerExtensions, TlsError> {
         let mut consumed = 0;
         let mut extensions = ServerExtensions::new();
+        let mut seen = Vec::new();
         extensions.set_is_client();
 
         while consumed < buf.len() {
-            let extension_type = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
+            let type_id = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
             let data = bytes::take_vec(buf, &mut consumed, 2)?;
-            let extension_type = match ExtensionType::new(extension_type) {
+            let extension_type = match ExtensionType::new(type_id) {
                 Some(e) => e,
                 None => continue,
             };
 
+            // RFC 8446 4.2: there must not be two extensions of one type
+            if seen.contains(&type_id) {
+                return Err(TlsError::IllegalParameter);
+            }
+            seen.push(type_id);
+
             let extension = match extension_type {
                 ExtensionType::KeyShare => ServerExtension::KeyShare(KeyShare::client_parse(data)?),
                 ExtensionType::SupportedVersions => {
-- 
2.43.0

