From 80f958e020eb6c78c23d00b9eb1ee01684ac71f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:35 +0000
Subject: [PATCH 01/24] fix: check bounds and overflows in BER header parser

---
 src/ber/header.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/ber/header.rs b/src/ber/header.rs
index e5af25f..b272c74 100755
--- a/src/ber/header.rs
+++ b/src/ber/header.rs
@@ -69,9 +69,15 @@ impl BerHeader {
                 // > 30
                 let mut n = 0 as Tag;
                 loop {
-                    // @todo: check size
+                    if current >= i.len() {
+                        return Err(Err::Incomplete(Needed::new(1)));
+                    }
                     let t = i[current];
                     current += 1;
+                    if n > Tag::MAX >> 7 {
+                        // Tag number is too large
+                        return Err(Err::Failure(SnmpError::InvalidTagFormat));
+                    }
                     n = (n << 7) | ((t & 0x7f) as Tag);
                     if t & 0x80 == 0 {
                         break;
@@ -83,16 +89,28 @@ impl BerHeader {
         };
         // Parse length offset
         // X.690 8.3.1.4-8.3.1.5
-        // @todo: Indefinite length
+        if current >= i.len() {
+            return Err(Err::Incomplete(Needed::new(1)));
+        }
         let n = i[current];
         current += 1;
         let length = if n & 0x80 == 0 {
             // Short form, X.690 pp 8.3.1.4
             n as usize
+        } else if n == 0x80 {
+            // Indefinite form, X.690 pp 8.1.3.6, not used in SNMP
+            return Err(Err::Failure(SnmpError::InvalidTagFormat));
         } else {
             // Long form, X.690 pp 8.1.3.5
-            let mut ln = 0;
+            let mut ln = 0usize;
             for _ in 0..n & 0x7f {
+                if current >= i.len() {
+                    return Err(Err::Incomplete(Needed::new(1)));
+                }
+                if ln > usize::MAX >> 8 {
+                    // Length is too large
+                    return Err(Err::Failure(SnmpError::InvalidTagFormat));
+                }
                 ln = (ln << 8) + (i[current] as usize);
                 current += 1;
             }
-- 
2.43.0


From 54b3dde88ef7d14905ec0e115d5f522b01ea69cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:13 +0000
Subject: [PATCH 02/24] fix: decode BER element from its own content only

---
 src/ber/mod.rs    |  2 +-
 src/ber/option.rs |  2 +-
 src/snmp/value.rs | 32 +++++++++++++++++---------------
 3 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/ber/mod.rs b/src/ber/mod.rs
index aa2b2ff..2e2cd1e 100755
--- a/src/ber/mod.rs
+++ b/src/ber/mod.rs
@@ -107,7 +107,7 @@ where
         //
         Ok((
             &tail[hdr.length..],
-            Self::decode(tail, &hdr).map_err(Err::Failure)?,
+            Self::decode(&tail[..hdr.length], &hdr).map_err(Err::Failure)?,
         ))
     }
 }
diff --git a/src/ber/option.rs b/src/ber/option.rs
index 9adf575..6d0800e 100755
--- a/src/ber/option.rs
+++ b/src/ber/option.rs
@@ -38,7 +38,7 @@ impl<'a> BerDecoder<'a> for SnmpOption<'a> {
         //
         Ok((
             &tail[hdr.length..],
-            Self::decode(tail, &hdr).map_err(Err::Failure)?,
+            Self::decode(&tail[..hdr.length], &hdr).map_err(Err::Failure)?,
         ))
     }
 }
diff --git a/src/snmp/value.rs b/src/snmp/value.rs
index f8c1df3..ba9a54e 100755
--- a/src/snmp/value.rs
+++ b/src/snmp/value.rs
@@ -40,26 +40,28 @@ pub enum SnmpValue<'a> {
 impl SnmpValue<'_> {
     pub fn from_ber(i: &[u8]) -> IResult<&[u8], SnmpValue, SnmpError> {
         let (tail, hdr) = BerHeader::from_ber(i)?;
+        // Split value from the following elements
+        let (data, tail) = tail.split_at(hdr.length);
         let value = match hdr.constructed {
             // Primitive types
             false => match hdr.class {
                 BerClass::Universal => match hdr.tag {
                     // @todo: TAG_END_OF_CONTENTS
-                    TAG_BOOL => SnmpValue::Bool(SnmpBool::decode(tail, &hdr)?),
-                    TAG_INT => SnmpValue::Int(SnmpInt::decode(tail, &hdr)?),
+                    TAG_BOOL => SnmpValue::Bool(SnmpBool::decode(data, &hdr)?),
+                    TAG_INT => SnmpValue::Int(SnmpInt::decode(data, &hdr)?),
                     // @todo: TAG_BIT_STRING
                     TAG_OCTET_STRING => {
-                        SnmpValue::OctetString(SnmpOctetString::decode(tail, &hdr)?)
+                        SnmpValue::OctetString(SnmpOctetString::decode(data, &hdr)?)
                     }
                     TAG_NULL => {
-                        SnmpNull::decode(tail, &hdr)?;
+                        SnmpNull::decode(data, &hdr)?;
                         SnmpValue::Null
                     }
-                    TAG_OBJECT_ID => SnmpValue::Oid(SnmpOid::decode(tail, &hdr)?),
+                    TAG_OBJECT_ID => SnmpValue::Oid(SnmpOid::decode(data, &hdr)?),
                     TAG_OBJECT_DESCRIPTOR => {
-                        SnmpValue::ObjectDescriptor(SnmpObjectDescriptor::decode(tail, &hdr)?)
+                        SnmpValue::ObjectDescriptor(SnmpObjectDescriptor::decode(data, &hdr)?)
                     }
-                    TAG_REAL => SnmpValue::Real(SnmpReal::decode(i, &hdr)?),
+                    TAG_REAL => SnmpValue::Real(SnmpReal::decode(data, &hdr)?),
                     //
                     _ => {
                         return Err(Err::Failure(SnmpError::UnsupportedTag(format!(
@@ -69,15 +71,15 @@ impl SnmpValue<'_> {
                     }
                 },
                 BerClass::Application => match hdr.tag {
-                    TAG_APP_IPADDRESS => SnmpValue::IpAddress(SnmpIpAddress::decode(tail, &hdr)?),
-                    TAG_APP_COUNTER32 => SnmpValue::Counter32(SnmpCounter32::decode(tail, &hdr)?),
-                    TAG_APP_GAUGE32 => SnmpValue::Gauge32(SnmpGauge32::decode(tail, &hdr)?),
-                    TAG_APP_TIMETICKS => SnmpValue::TimeTicks(SnmpTimeTicks::decode(tail, &hdr)?),
-                    TAG_APP_OPAQUE => SnmpValue::Opaque(SnmpOpaque::decode(tail, &hdr)?),
+                    TAG_APP_IPADDRESS => SnmpValue::IpAddress(SnmpIpAddress::decode(data, &hdr)?),
+                    TAG_APP_COUNTER32 => SnmpValue::Counter32(SnmpCounter32::decode(data, &hdr)?),
+                    TAG_APP_GAUGE32 => SnmpValue::Gauge32(SnmpGauge32::decode(data, &hdr)?),
+                    TAG_APP_TIMETICKS => SnmpValue::TimeTicks(SnmpTimeTicks::decode(data, &hdr)?),
+                    TAG_APP_OPAQUE => SnmpValue::Opaque(SnmpOpaque::decode(data, &hdr)?),
                     // TAG_APP_NSAPADDRESS=>{},
-                    TAG_APP_COUNTER64 => SnmpValue::Counter64(SnmpCounter64::decode(tail, &hdr)?),
+                    TAG_APP_COUNTER64 => SnmpValue::Counter64(SnmpCounter64::decode(data, &hdr)?),
                     TAG_APP_UINTEGER32 => {
-                        SnmpValue::UInteger32(SnmpUInteger32::decode(tail, &hdr)?)
+                        SnmpValue::UInteger32(SnmpUInteger32::decode(data, &hdr)?)
                     }
                     _ => {
                         return Err(Err::Failure(SnmpError::UnsupportedTag(format!(
@@ -112,7 +114,7 @@ impl SnmpValue<'_> {
                 ))));
             }
         };
-        Ok((&tail[hdr.length..], value))
+        Ok((tail, value))
     }
 
     pub fn is_end_of_mib_view(&self) -> bool {
-- 
2.43.0


From ed23812519e221491745531c3a9fdf9745868efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:13 +0000
Subject: [PATCH 03/24] fix: decode negative and oversized INTEGER values

---
 src/ber/int.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index aa0c4ab..a22011c 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -13,6 +13,8 @@ use std::cmp::Ordering;
 
 pub struct SnmpInt(i64);
 
+const MAX_LENGTH: usize = 8;
+
 impl<'a> BerDecoder<'a> for SnmpInt {
     const ALLOW_PRIMITIVE: bool = true;
     const ALLOW_CONSTRUCTED: bool = false;
@@ -23,19 +25,18 @@ impl<'a> BerDecoder<'a> for SnmpInt {
         if h.is_empty() {
             return Ok(SnmpInt(0));
         }
+        if h.length > MAX_LENGTH {
+            // Doesn't fit in i64
+            return Err(SnmpError::InvalidData);
+        }
+        // Extend sign from the first octet
+        let sign = if i[0] & 0x80 == 0 { 0 } else { -1 };
         let v = i
             .iter()
             .take(h.length)
             .map(|x| *x as i64)
-            .reduce(|acc, x| (acc << 8) | x)
-            .unwrap_or(0);
-        Ok(SnmpInt(if i[0] & 0x80 == 0 {
-            v
-        } else {
-            // Negative number
-            let m = 1 << (8 * h.length);
-            v - m
-        }))
+            .fold(sign, |acc, x| (acc << 8) | x);
+        Ok(SnmpInt(v))
     }
 }
 
-- 
2.43.0


From 6a5e73b872d31bc21dbe5efc42c1fa608dbc0e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:13 +0000
Subject: [PATCH 04/24] fix: encode negative INTEGER in minimal two's
 complement form

---
 src/ber/int.rs | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index a22011c..a4d3de5 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -67,33 +67,15 @@ impl BerEncoder for SnmpInt {
             }
             Ordering::Less => {
                 let start = buf.len();
-                let mut left = -self.0;
-                // Calculate used octets
-                let mut ln = 0;
-                while left > 0 {
-                    ln += 1;
-                    left >>= 8;
-                }
-                // Calculate complement
-                let d = 1 << (ln * 8 - 1);
-                left = -self.0;
-                let comp = if d < left { d << 8 } else { d };
-                // Write octets
-                if comp == left {
-                    for _ in 0..ln - 1 {
-                        buf.push_u8(0)?;
-                    }
-                    buf.push_u8(0x80)?;
-                } else {
-                    left = comp - left;
-                    loop {
-                        if left < 0xff {
-                            buf.push_u8(0x80 | (left as u8))?;
-                            break;
-                        }
-                        buf.push_u8((left & 0xff) as u8)?;
-                        left >>= 8;
+                // Write body
+                let mut left = self.0;
+                loop {
+                    buf.push_u8((left & 0xff) as u8)?;
+                    if left >= -0x80 {
+                        // Highest bit of the octet holds the sign
+                        break;
                     }
+                    left >>= 8;
                 }
                 // Write tag and length
                 buf.push_tag_len(TAG_INT, buf.len() - start)
-- 
2.43.0


From f15a2b420cf51fee398ebaf06df80c16b98d58d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:01 +0000
Subject: [PATCH 05/24] fix: decode REAL values according to X.690

---
 src/ber/real.rs | 100 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 68 insertions(+), 32 deletions(-)

diff --git a/src/ber/real.rs b/src/ber/real.rs
index c81fb5b..4b72d8c 100755
--- a/src/ber/real.rs
+++ b/src/ber/real.rs
@@ -12,6 +12,10 @@ use pyo3::{Bound, IntoPyObject, PyAny, Python};
 
 pub struct SnmpReal(f64);
 
+// Larger exponents are far beyound the f64 range
+const MAX_EXPONENT_LENGTH: usize = 4;
+const MAX_SCALE: i64 = 4096;
+
 impl<'a> BerDecoder<'a> for SnmpReal {
     const ALLOW_PRIMITIVE: bool = true;
     const ALLOW_CONSTRUCTED: bool = false;
@@ -25,6 +29,7 @@ impl<'a> BerDecoder<'a> for SnmpReal {
         if h.is_empty() {
             return Ok(SnmpReal(0.0));
         }
+        let i = &i[..h.length];
         // 8.5.6: Check encoding
         Ok(SnmpReal(match i[0] {
             f if f & 0x80 == 0x80 => {
@@ -41,18 +46,20 @@ impl<'a> BerDecoder<'a> for SnmpReal {
 
                 // 8.5.7.4 Bits 2 to 1 of the first contents octet
                 // shall encode the format of the exponent as follows:
-                let ln = (f & 0x03) as usize + 2;
-                let e = SnmpReal::parse_u32(&i[1..ln]) as i32;
-                let mut v: f64 = SnmpReal::parse_u32(&i[ln..]).into();
+                let (exp_start, exp_len) = match f & 0x03 {
+                    // Length of the exponent is in the second octet
+                    3 => (2, *i.get(1).ok_or(SnmpError::InvalidData)? as usize),
+                    n => (1, n as usize + 1),
+                };
+                let exp_end = exp_start + exp_len;
+                let e = SnmpReal::parse_exponent(
+                    i.get(exp_start..exp_end).ok_or(SnmpError::InvalidData)?,
+                )?;
+                let n = SnmpReal::parse_mantissa(&i[exp_end..])?;
                 // 8.5.7.3: Bits 4 to 3 of the first contents octet shall
                 // encode the value of the binary scaling factor F
                 // as an unsigned binary integer.
-                match (f & 0x0c) >> 2 {
-                    1 => v *= 2.0,
-                    2 => v *= 4.0,
-                    3 => v *= 8.0,
-                    _ => return Err(SnmpError::InvalidData),
-                }
+                let scale = ((f & 0x0c) >> 2) as i64;
                 // 8.5.7.2: Bits 6 to 5 of the first contents octets
                 // shall encode the value of the base B' as follows:
                 // Bits6to5 => Base
@@ -60,13 +67,13 @@ impl<'a> BerDecoder<'a> for SnmpReal {
                 // 01 => base 8
                 // 10 => base 16
                 // 11 => Reserved for further editions of this Recommendation | International Standard.
-                let base: f64 = match f & 0x30 {
-                    0 => 2.0,
-                    0x10 => 8.0,
-                    0x20 => 16.0,
+                let base_bits: i64 = match f & 0x30 {
+                    0 => 1,
+                    0x10 => 3,
+                    0x20 => 4,
                     _ => return Err(SnmpError::InvalidData),
                 };
-                v *= base.powi(e);
+                let mut v = SnmpReal::scale(n as f64, e * base_bits + scale);
                 // 8.5.7.1: Bit 7 of the first contents octets
                 // shall be 1 if S is –1 and 0 otherwise.
                 if f & 0x40 == 0x40 {
@@ -84,21 +91,11 @@ impl<'a> BerDecoder<'a> for SnmpReal {
                 // by bits 6 to 1 of the first contents octet as follows:
                 match f & 0x3f {
                     // ISO 6093 NR1: i.e. 456
-                    1 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        let v = s.parse::<i32>().map_err(|_| SnmpError::InvalidData)?;
-                        v.into()
-                    }
+                    1 => SnmpReal::parse_decimal(&i[1..], b"+-")?,
                     // ISO 6093 NR2: i.e. 456.7
-                    2 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        s.parse::<f64>().map_err(|_| SnmpError::InvalidData)?
-                    }
+                    2 => SnmpReal::parse_decimal(&i[1..], b"+-.,")?,
                     // ISO 6093 NR3: i.e. 4567e-1
-                    3 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        s.parse::<f64>().map_err(|_| SnmpError::InvalidData)?
-                    }
+                    3 => SnmpReal::parse_decimal(&i[1..], b"+-.,eE")?,
                     _ => return Err(SnmpError::InvalidData),
                 }
             }
@@ -112,12 +109,51 @@ impl<'a> BerDecoder<'a> for SnmpReal {
 }
 
 impl SnmpReal {
-    fn parse_u32(i: &[u8]) -> u32 {
-        let mut v = 0u32;
-        for &n in i.iter() {
-            v = (v << 8) | (n as u32);
+    // 8.5.7.4: Two's complement exponent
+    fn parse_exponent(i: &[u8]) -> SnmpResult<i64> {
+        if i.is_empty() || i.len() > MAX_EXPONENT_LENGTH {
+            return Err(SnmpError::InvalidData);
+        }
+        let mut v: i64 = if i[0] & 0x80 == 0 { 0 } else { -1 };
+        for n in i.iter() {
+            v = (v << 8) | (*n as i64);
+        }
+        Ok(v)
+    }
+    // 8.5.7.5: Unsigned mantissa
+    fn parse_mantissa(i: &[u8]) -> SnmpResult<u128> {
+        let mut v = 0u128;
+        for n in i.iter() {
+            if v > u128::MAX >> 8 {
+                return Err(SnmpError::InvalidData);
+            }
+            v = (v << 8) | (*n as u128);
+        }
+        Ok(v)
+    }
+    // Calculate v * 2^e
+    fn scale(v: f64, e: i64) -> f64 {
+        let mut r = v;
+        let mut left = e.clamp(-MAX_SCALE, MAX_SCALE) as i32;
+        while left != 0 {
+            let step = left.clamp(f64::MIN_EXP - 1, f64::MAX_EXP - 1);
+            r *= 2.0f64.powi(step);
+            left -= step;
+        }
+        r
+    }
+    // 8.5.8: ISO 6093 field. Leading spaces are allowed,
+    // both comma and full stop may be used as the decimal mark.
+    fn parse_decimal(i: &[u8], extra: &[u8]) -> SnmpResult<f64> {
+        let s = from_utf8(i)
+            .map_err(|_| SnmpError::InvalidData)?
+            .trim_start_matches(' ');
+        if !s.bytes().all(|c| c.is_ascii_digit() || extra.contains(&c)) {
+            return Err(SnmpError::InvalidData);
         }
-        v
+        s.replace(',', ".")
+            .parse::<f64>()
+            .map_err(|_| SnmpError::InvalidData)
     }
 }
 
-- 
2.43.0


From f847e80aad47461efaf3d26255f49f5a06c7176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:01 +0000
Subject: [PATCH 06/24] fix: render OBJECT IDENTIFIER according to X.690

---
 src/ber/objectid.rs | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index b8c543b..a85ee29 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -68,22 +68,46 @@ impl TryFrom<&SnmpOid<'_>> for String {
 
     fn try_from(value: &SnmpOid) -> Result<Self, Self::Error> {
         let mut r = String::with_capacity(value.0.len() * 5);
-        let mut iter = value.0.iter();
-        // First two subelements
-        let first = iter.next().ok_or(SnmpError::InvalidData)?;
-        write!(r, "{}.{}", first / 40, first % 40).map_err(|_| SnmpError::InvalidData)?;
-        let mut b = 0u32;
-        for c in iter {
-            b = (b << 7) + ((*c as u32) & 0x7f);
-            if c & 0x80 == 0 {
-                write!(r, ".{}", b).map_err(|_| SnmpError::InvalidData)?;
-                b = 0;
+        // First two subelements are collapsed to one,
+        // X.690 pp 8.19.4
+        let (b, mut tail) = split_subid(&value.0)?;
+        let first = (b / 40).min(2);
+        let second = b - first * 40;
+        if second > MAX_SUBID {
+            return Err(SnmpError::InvalidData);
+        }
+        write!(r, "{}.{}", first, second).map_err(|_| SnmpError::InvalidData)?;
+        while !tail.is_empty() {
+            let (b, rest) = split_subid(tail)?;
+            if b > MAX_SUBID {
+                return Err(SnmpError::InvalidData);
             }
+            write!(r, ".{}", b).map_err(|_| SnmpError::InvalidData)?;
+            tail = rest;
         }
         Ok(r)
     }
 }
 
+const MAX_SUBID: u64 = u32::MAX as u64;
+
+// Split first subidentifier, X.690 pp 8.19.2.
+// Returns its value and the rest of data.
+fn split_subid(data: &[u8]) -> SnmpResult<(u64, &[u8])> {
+    let mut v = 0u64;
+    for n in 0..data.len() {
+        if v > MAX_SUBID {
+            return Err(SnmpError::InvalidData);
+        }
+        v = (v << 7) | ((data[n] & 0x7f) as u64);
+        if data[n] & 0x80 == 0 {
+            return Ok((v, &data[n + 1..]));
+        }
+    }
+    // Truncated subidentifier
+    Err(SnmpError::InvalidData)
+}
+
 impl SnmpOid<'_> {
     // Check oid is contained within
     #[inline]
-- 
2.43.0


From fce6e260be0371bf9e1181b2193b53be35954c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:01 +0000
Subject: [PATCH 07/24] fix: refuse invalid OIDs instead of altering them

---
 src/ber/objectid.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index a85ee29..877bedb 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -128,9 +128,13 @@ impl Iterator for OidSubelementIterator<'_> {
     type Item = Result<u32, SnmpError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.0
-            .next()
-            .map(|part| part.parse::<u32>().map_err(|_| SnmpError::InvalidData))
+        self.0.next().map(|part| {
+            // Unlike the OID, u32 may have leading plus
+            if part.starts_with('+') {
+                return Err(SnmpError::InvalidData);
+            }
+            part.parse::<u32>().map_err(|_| SnmpError::InvalidData)
+        })
     }
 }
 
@@ -147,9 +151,12 @@ impl TryFrom<&str> for SnmpOid<'_> {
         // Subelements iterator
         let mut iter = OidSubelementIterator::new(value);
         // Get first two subelements
-        let first = iter.next().ok_or(SnmpError::InvalidData)??.min(6) as u8;
-        let second = iter.next().ok_or(SnmpError::InvalidData)??.min(39) as u8;
-        vec.push(40 * first + second);
+        let first = iter.next().ok_or(SnmpError::InvalidData)??;
+        let second = iter.next().ok_or(SnmpError::InvalidData)??;
+        if first > 2 || second > 39 {
+            return Err(SnmpError::InvalidData);
+        }
+        vec.push((40 * first + second) as u8);
         // Push other elements
         for sr in iter {
             let sub_id = sr?;
-- 
2.43.0


From 19dbb5d84e1506cf672c6aed2a16137dd48a5959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:01 +0000
Subject: [PATCH 08/24] fix: reject RELATIVE-OID which cannot be applied

---
 src/ber/relative_oid.rs | 18 ++++++++++++++++++
 src/snmp/getresponse.rs |  6 +++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/ber/relative_oid.rs b/src/ber/relative_oid.rs
index f6778dd..8ba706d 100755
--- a/src/ber/relative_oid.rs
+++ b/src/ber/relative_oid.rs
@@ -23,6 +23,19 @@ impl<'a> BerDecoder<'a> for SnmpRelativeOid<'a> {
 }
 
 impl SnmpRelativeOid<'_> {
+    /// Check if relative oid can be applied to absolute one
+    pub fn is_applicable(&self, oid: &SnmpOid) -> bool {
+        // Both must be non-empty and hold the last subidentifier completely
+        if !SnmpRelativeOid::is_complete(self.0) || !SnmpRelativeOid::is_complete(&oid.0) {
+            return false;
+        }
+        let rel_si = SnmpRelativeOid::subelements(self.0);
+        if rel_si < SnmpRelativeOid::subelements(&oid.0[1..]) {
+            return true;
+        }
+        // On full replacement first two values must fit to one octet
+        self.0.len() >= 2 && self.0[0] <= 2 && self.0[1] <= 39
+    }
     /// Apply relative oid to absolute one
     /// and return normalized absolute oid
     pub fn normalize<'a>(&self, oid: &SnmpOid) -> SnmpOid<'a> {
@@ -50,6 +63,11 @@ impl SnmpRelativeOid<'_> {
             SnmpOid::from(r)
         }
     }
+    // Check data is not empty and last subidentifier is complete
+    #[inline]
+    fn is_complete(data: &[u8]) -> bool {
+        !data.is_empty() && data[data.len() - 1] & 0x80 == 0
+    }
     // Calculate number of subelements
     #[inline]
     fn subelements(data: &[u8]) -> usize {
diff --git a/src/snmp/getresponse.rs b/src/snmp/getresponse.rs
index 7459c2d..cd8765e 100755
--- a/src/snmp/getresponse.rs
+++ b/src/snmp/getresponse.rs
@@ -55,7 +55,11 @@ impl<'a> TryFrom<&'a [u8]> for SnmpGetResponse<'a> {
                     }
                     // Parse relative oid
                     let (t, r_oid) = SnmpRelativeOid::from_ber(vs.0)?;
-                    let oid = r_oid.normalize(&vars[vars.len() - 1].oid);
+                    let base = &vars[vars.len() - 1].oid;
+                    if !r_oid.is_applicable(base) {
+                        return Err(SnmpError::InvalidData);
+                    }
+                    let oid = r_oid.normalize(base);
                     // Apply relative oid
                     (t, oid)
                 }
-- 
2.43.0


From f2625ebd450767097305f67fd72f2894a691e191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:02 +0000
Subject: [PATCH 09/24] fix: reject empty varbind

---
 src/snmp/getresponse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/snmp/getresponse.rs b/src/snmp/getresponse.rs
index cd8765e..e00b911 100755
--- a/src/snmp/getresponse.rs
+++ b/src/snmp/getresponse.rs
@@ -46,6 +46,9 @@ impl<'a> TryFrom<&'a [u8]> for SnmpGetResponse<'a> {
             // Parse enclosing sequence
             let (rest, vs) = SnmpSequence::from_ber(v_tail)?;
             // Parse oid. May be either absolute or relative
+            if vs.0.is_empty() {
+                return Err(SnmpError::Incomplete);
+            }
             let (tail, oid) = match vs.0[0] as Tag {
                 TAG_OBJECT_ID => SnmpOid::from_ber(vs.0)?,
                 TAG_RELATIVE_OID => {
-- 
2.43.0


From 5e6d37522134128773188aef3bf055156f0c7919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:22 +0000
Subject: [PATCH 10/24] fix: stop GetNext iteration on noSuch exception values

---
 src/snmp/op/getnext.rs | 7 ++++---
 src/snmp/value.rs      | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/snmp/op/getnext.rs b/src/snmp/op/getnext.rs
index 992f55a..8da8262 100644
--- a/src/snmp/op/getnext.rs
+++ b/src/snmp/op/getnext.rs
@@ -47,9 +47,10 @@ impl<'a> PyOp<'a, SnmpOid<'a>> for OpGetNext {
                         }
                         // v1 may return Null at end of mib
                         match &var.value {
-                            SnmpValue::EndOfMibView | SnmpValue::Null => {
-                                Err(PyStopAsyncIteration::new_err("stop"))
-                            }
+                            SnmpValue::EndOfMibView
+                            | SnmpValue::NoSuchObject
+                            | SnmpValue::NoSuchInstance
+                            | SnmpValue::Null => Err(PyStopAsyncIteration::new_err("stop")),
                             value => Ok(PyTuple::new(
                                 py,
                                 vec![var.oid.into_pyobject(py)?, value.into_pyobject(py)?],
diff --git a/src/snmp/value.rs b/src/snmp/value.rs
index ba9a54e..c028eb8 100755
--- a/src/snmp/value.rs
+++ b/src/snmp/value.rs
@@ -131,7 +131,7 @@ impl<'py> IntoPyObject<'py> for &SnmpValue<'_> {
         Ok(match self {
             SnmpValue::Bool(x) => x.into_pyobject(py)?,
             SnmpValue::Int(x) => x.into_pyobject(py)?,
-            SnmpValue::Null => todo!("None"),
+            SnmpValue::Null => py.None().into_bound(py),
             SnmpValue::OctetString(x) => x.into_pyobject(py)?,
             SnmpValue::Oid(x) => x.into_pyobject(py)?,
             SnmpValue::ObjectDescriptor(x) => x.into_pyobject(py)?,
@@ -143,8 +143,9 @@ impl<'py> IntoPyObject<'py> for &SnmpValue<'_> {
             SnmpValue::Opaque(x) => x.into_pyobject(py)?,
             SnmpValue::Counter64(x) => x.into_pyobject(py)?,
             SnmpValue::UInteger32(x) => x.into_pyobject(py)?,
-            SnmpValue::NoSuchObject | SnmpValue::NoSuchInstance => todo!("never should be passed"),
-            SnmpValue::EndOfMibView => todo!("never should be passed"),
+            SnmpValue::NoSuchObject | SnmpValue::NoSuchInstance | SnmpValue::EndOfMibView => {
+                return Err(SnmpError::NoSuchInstance);
+            }
         })
     }
 }
-- 
2.43.0


From ccd1824ef0ed66f244aae56fb8027a34b60f6577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:22 +0000
Subject: [PATCH 11/24] fix: raise documented exceptions on invalid get_many
 varbinds

---
 src/snmp/op/getmany.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/snmp/op/getmany.rs b/src/snmp/op/getmany.rs
index a00dbe2..26aa850 100644
--- a/src/snmp/op/getmany.rs
+++ b/src/snmp/op/getmany.rs
@@ -9,7 +9,7 @@ use super::{GetIter, PyOp};
 use crate::ber::SnmpOid;
 use crate::error::SnmpError;
 use crate::snmp::{get::SnmpGet, msg::SnmpPdu, value::SnmpValue};
-use pyo3::{exceptions::PyRuntimeError, prelude::*, pybacked::PyBackedStr, types::PyDict};
+use pyo3::{prelude::*, pybacked::PyBackedStr, types::PyDict};
 
 pub struct OpGetMany;
 
@@ -39,9 +39,7 @@ impl<'a> PyOp<'a, Vec<PyBackedStr>> for OpGetMany {
                         | SnmpValue::NoSuchObject
                         | SnmpValue::NoSuchInstance
                         | SnmpValue::EndOfMibView => continue,
-                        _ => dict
-                            .set_item(&var.oid, &var.value)
-                            .map_err(|e| PyRuntimeError::new_err(e.to_string()))?,
+                        _ => dict.set_item(&var.oid, &var.value)?,
                     }
                 }
                 Ok(dict.as_any().to_owned())
-- 
2.43.0


From b63617f1b04cb8ad7fbdc3594403362ab1b1f5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:00 +0000
Subject: [PATCH 12/24] fix: do not truncate version and security model codes

---
 src/ber/int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index a4d3de5..9c879ab 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -92,7 +92,8 @@ impl From<i64> for SnmpInt {
 
 impl From<SnmpInt> for u8 {
     fn from(value: SnmpInt) -> Self {
-        value.0 as u8
+        // Values beyond the range must not alias valid codes
+        u8::try_from(value.0).unwrap_or(u8::MAX)
     }
 }
 
-- 
2.43.0


From 65e434f2b9c12684dd94044afabe671468d8238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:00 +0000
Subject: [PATCH 13/24] fix: skip Report PDU in v1 and v2c sessions

---
 src/socket/v1.rs  | 4 ++++
 src/socket/v2c.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/socket/v1.rs b/src/socket/v1.rs
index 10b11ad..0b1d225 100755
--- a/src/socket/v1.rs
+++ b/src/socket/v1.rs
@@ -140,6 +140,10 @@ impl SnmpSocket for SnmpV1ClientSocket {
         if !pdu.check(&self.request_id) {
             return None;
         }
+        // Reports are for SNMPv3 only and carry no checked request id
+        if let SnmpPdu::Report(_) = pdu {
+            return None;
+        }
         Some(pdu)
     }
 }
diff --git a/src/socket/v2c.rs b/src/socket/v2c.rs
index 45426ca..4a3c938 100644
--- a/src/socket/v2c.rs
+++ b/src/socket/v2c.rs
@@ -139,6 +139,10 @@ impl SnmpSocket for SnmpV2cClientSocket {
         if !pdu.check(&self.request_id) {
             return None;
         }
+        // Reports are for SNMPv3 only and carry no checked request id
+        if let SnmpPdu::Report(_) = pdu {
+            return None;
+        }
         Some(pdu)
     }
 }
-- 
2.43.0


From e542bf5f7883d253bf3365e7a86584dd1ccda180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:00 +0000
Subject: [PATCH 14/24] fix: reset DES buffer before encryption

---
 src/privacy/des.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/privacy/des.rs b/src/privacy/des.rs
index f9b7cf0..358ab30 100644
--- a/src/privacy/des.rs
+++ b/src/privacy/des.rs
@@ -65,6 +65,7 @@ impl SnmpPriv for DesKey {
             iv[idx] = x ^ y;
         }
         // Add padding
+        self.buf.reset();
         self.buf.push(&PADDING)?;
         // Serialize
         pdu.push_ber(&mut self.buf)?;
-- 
2.43.0


From 4a60fdd9bc234dffed68b2691736837623b1246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:00 +0000
Subject: [PATCH 15/24] fix: check size of the received privacy parameters

---
 src/privacy/aes128.rs | 5 +++++
 src/privacy/des.rs    | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/privacy/aes128.rs b/src/privacy/aes128.rs
index 80d9fb4..258bcb6 100644
--- a/src/privacy/aes128.rs
+++ b/src/privacy/aes128.rs
@@ -16,6 +16,7 @@ use cipher::{AsyncStreamCipher, BlockEncryptMut, KeyIvInit, block_padding::NoPad
 use rand::Rng;
 
 const KEY_LENGTH: usize = 16;
+const SALT_SIZE: usize = 8;
 const BLOCK_SIZE: usize = 16;
 const PADDING: [u8; BLOCK_SIZE] = [0; BLOCK_SIZE];
 
@@ -82,6 +83,10 @@ impl SnmpPriv for Aes128Key {
         data: &'b [u8],
         usm: &'b UsmParameters<'b>,
     ) -> SnmpResult<ScopedPdu<'c>> {
+        // Check salt
+        if usm.privacy_params.len() != SALT_SIZE {
+            return Err(SnmpError::InvalidData);
+        }
         // Get IV
         let mut iv = [0u8; 16];
         iv[..4].clone_from_slice(&(usm.engine_boots as u32).to_be_bytes());
diff --git a/src/privacy/des.rs b/src/privacy/des.rs
index 358ab30..bbb642e 100644
--- a/src/privacy/des.rs
+++ b/src/privacy/des.rs
@@ -91,6 +91,10 @@ impl SnmpPriv for DesKey {
         data: &'b [u8],
         usm: &'b UsmParameters<'b>,
     ) -> SnmpResult<ScopedPdu<'c>> {
+        // Check salt
+        if usm.privacy_params.len() != SALT_SIZE {
+            return Err(SnmpError::InvalidData);
+        }
         // Get IV
         let mut iv = [0u8; 8];
         for (idx, (x, y)) in usm
-- 
2.43.0


From d78b3deb386b20fe10dc0aa50c415e9ebd23bb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:01 +0000
Subject: [PATCH 16/24] fix: refuse empty passwords and keys of the wrong size

---
 src/auth/mod.rs | 8 ++++++++
 src/util.rs     | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/auth/mod.rs b/src/auth/mod.rs
index 19de9bd..029243e 100644
--- a/src/auth/mod.rs
+++ b/src/auth/mod.rs
@@ -75,6 +75,14 @@ impl AuthKey {
     }
     pub fn as_key_type(&mut self, alg: u8, key: &[u8], engine_id: &[u8]) -> SnmpResult<()> {
         if self.has_auth() {
+            // Check key size
+            let is_valid = match alg & KT_TYPE_MASK {
+                KT_PASSWORD => !key.is_empty(),
+                _ => key.len() == self.get_key_size(),
+            };
+            if !is_valid {
+                return Err(SnmpError::InvalidKey);
+            }
             match alg & KT_TYPE_MASK {
                 KT_PASSWORD => self.as_password(key, engine_id),
                 KT_MASTER => self.as_master(key, engine_id),
diff --git a/src/util.rs b/src/util.rs
index c02d500..819f788 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -14,6 +14,9 @@ use pyo3::types::PyBytes;
 #[pyfunction]
 pub fn get_master_key(py: Python, alg: u8, passwd: &[u8]) -> PyResult<PyObject> {
     let auth = AuthKey::new(alg)?;
+    if passwd.is_empty() {
+        return Err(PyValueError::new_err("empty password"));
+    }
     let mut out = vec![0u8; auth.get_key_size()];
     auth.password_to_master(passwd, &mut out);
     Ok(PyBytes::new(py, &out).into())
-- 
2.43.0


From 5734268e337995c9531102459c529edf8405cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:34 +0000
Subject: [PATCH 17/24] fix: do not use bookmark of unauthenticated message

---
 src/socket/v3.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/socket/v3.rs b/src/socket/v3.rs
index 4d8519c..dfee86f 100644
--- a/src/socket/v3.rs
+++ b/src/socket/v3.rs
@@ -240,6 +240,9 @@ impl SnmpSocket for SnmpV3ClientSocket {
         // Serialize BER to buffer
         msg.push_ber(buf)?;
         // Apply auth
+        if !self.auth_key.has_auth() {
+            return Ok(()); // Nothing is bookmarked
+        }
         let offset = buf.get_bookmark();
         self.auth_key.sign(buf.data_mut(), offset)
     }
-- 
2.43.0


From 2d86fe262392cd03541e6450bb93f88373827f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:58 +0000
Subject: [PATCH 18/24] fix: verify signature and security level of v3
 responses

---
 src/socket/snmpsocket.rs | 13 +++++++------
 src/socket/v1.rs         |  2 +-
 src/socket/v2c.rs        |  2 +-
 src/socket/v3.rs         | 30 +++++++++++++++++++++++++++++-
 4 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index f552081..9281f9a 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -97,7 +97,8 @@ where
     }
     fn get_request_id(&mut self) -> &mut RequestId;
     fn push_pdu(&mut self, pdu: SnmpPdu, buf: &mut Buffer) -> SnmpResult<()>;
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>>;
+    // Check decoded message and extract PDU. `data` is the whole received message.
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, data: &[u8]) -> Option<SnmpPdu<'a>>;
     //
     fn recv_socket<'a>(io: &mut Socket, buf: &'a mut Buffer) -> SnmpResult<&'a [u8]> {
         match io.recv(buf.as_mut()) {
@@ -133,13 +134,13 @@ where
         // We can catch unwanted replies, so do it in a loop
         loop {
             // Nested scope to release io early after receiving message
-            let msg = {
+            let data = {
                 let io = self.get_io();
-                let data = Self::recv_socket(io, buf)?;
-                // Decode message
-                Self::Message::try_from(data)?
+                Self::recv_socket(io, buf)?
             };
-            match self.unwrap_pdu(msg) {
+            // Decode message
+            let msg = Self::Message::try_from(data)?;
+            match self.unwrap_pdu(msg, data) {
                 Some(ref pdu) => {
                     return Python::with_gil(|py| Ok(T::to_python(pdu, iter, py)?.into()));
                 }
diff --git a/src/socket/v1.rs b/src/socket/v1.rs
index 0b1d225..9e0ff42 100755
--- a/src/socket/v1.rs
+++ b/src/socket/v1.rs
@@ -130,7 +130,7 @@ impl SnmpSocket for SnmpV1ClientSocket {
         msg.push_ber(buf)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, _data: &[u8]) -> Option<SnmpPdu<'a>> {
         // Check communnity
         if msg.community != self.community.as_bytes() {
             return None;
diff --git a/src/socket/v2c.rs b/src/socket/v2c.rs
index 4a3c938..89f5a82 100644
--- a/src/socket/v2c.rs
+++ b/src/socket/v2c.rs
@@ -129,7 +129,7 @@ impl SnmpSocket for SnmpV2cClientSocket {
         msg.push_ber(buf)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, _data: &[u8]) -> Option<SnmpPdu<'a>> {
         // Check communnity
         if msg.community != self.community.as_bytes() {
             return None;
diff --git a/src/socket/v3.rs b/src/socket/v3.rs
index dfee86f..a5a84e9 100644
--- a/src/socket/v3.rs
+++ b/src/socket/v3.rs
@@ -40,6 +40,25 @@ pub struct SnmpV3ClientSocket {
 
 const EMPTY: [u8; 0] = [];
 
+impl SnmpV3ClientSocket {
+    // Verify message signature.
+    // `auth_params` is the part of the `data`.
+    fn is_authentic(&self, data: &[u8], auth_params: &[u8]) -> bool {
+        let size = self.auth_key.placeholder().len();
+        if auth_params.len() != size {
+            return false;
+        }
+        // Signature is calculated over the message with zeroed auth_params
+        let offset = auth_params.as_ptr() as usize - data.as_ptr() as usize;
+        let mut signed = data.to_vec();
+        signed[offset..offset + size].fill(0);
+        match self.auth_key.sign(&mut signed, offset) {
+            Ok(()) => &signed[offset..offset + size] == auth_params,
+            Err(_) => false,
+        }
+    }
+}
+
 #[pymethods]
 impl SnmpV3ClientSocket {
     /// Python constructor
@@ -247,7 +266,12 @@ impl SnmpSocket for SnmpV3ClientSocket {
         self.auth_key.sign(buf.data_mut(), offset)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, data: &[u8]) -> Option<SnmpPdu<'a>> {
+        // Check security level, RFC-3414 pp 3.2
+        let is_encrypted = matches!(msg.data, MsgData::Encrypted(_));
+        let is_secure = (!self.auth_key.has_auth()
+            || (msg.flag_auth && self.is_authentic(data, msg.usm.auth_params)))
+            && (!self.priv_key.has_priv() || is_encrypted);
         // Get and decode scoped pdu
         let data = match msg.data {
             MsgData::Plaintext(x) => x,
@@ -256,6 +280,10 @@ impl SnmpSocket for SnmpV3ClientSocket {
                 Err(_) => return None, // Failed to decrypt
             },
         };
+        // Only the reports may be insecure
+        if !is_secure && !matches!(data.pdu, SnmpPdu::Report(_)) {
+            return None;
+        }
         // Global header check
         if !(self.user_name.as_bytes() == msg.usm.user_name
             && (self.engine_id.is_empty() || msg.usm.engine_id == self.engine_id)
-- 
2.43.0


From 716ee64c1487ae58ab2a48a51c5e2ed446756312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:48 +0000
Subject: [PATCH 19/24] fix: keep message buffer initialized and bounds-checked

---
 src/buf/buffer.rs | 46 ++++++++++------------------------------------
 1 file changed, 10 insertions(+), 36 deletions(-)

diff --git a/src/buf/buffer.rs b/src/buf/buffer.rs
index 8897c01..b033061 100755
--- a/src/buf/buffer.rs
+++ b/src/buf/buffer.rs
@@ -7,8 +7,6 @@
 
 use crate::error::{SnmpError, SnmpResult};
 use std::mem::MaybeUninit;
-use std::ptr;
-use std::slice;
 
 const MAX_SIZE: usize = 4080; // 4096 - other fields
 
@@ -17,17 +15,15 @@ const MAX_SIZE: usize = 4080; // 4096 - other fields
 pub struct Buffer {
     pos: usize,
     bookmark: usize,
-    data: [MaybeUninit<u8>; MAX_SIZE],
+    data: [u8; MAX_SIZE],
 }
 
 impl Default for Buffer {
-    #[allow(invalid_value)]
-    #[allow(clippy::uninit_assumed_init)]
     fn default() -> Buffer {
         Buffer {
             pos: MAX_SIZE,
             bookmark: 0,
-            data: unsafe { MaybeUninit::uninit().assume_init() },
+            data: [0; MAX_SIZE],
         }
     }
 }
@@ -58,21 +54,11 @@ impl Buffer {
     }
     #[inline]
     pub fn data(&self) -> &[u8] {
-        unsafe {
-            slice::from_raw_parts(
-                self.data.as_ptr().add(self.pos) as *const u8,
-                MAX_SIZE - self.pos,
-            )
-        }
+        &self.data[self.pos..]
     }
     #[inline]
     pub fn data_mut(&mut self) -> &mut [u8] {
-        unsafe {
-            slice::from_raw_parts_mut(
-                self.data.as_mut_ptr().add(self.pos) as *mut u8,
-                MAX_SIZE - self.pos,
-            )
-        }
+        &mut self.data[self.pos..]
     }
     #[inline]
     pub fn set_bookmark(&mut self, delta: usize) {
@@ -93,9 +79,7 @@ impl Buffer {
     #[inline]
     fn push_u8_unchecked(&mut self, v: u8) {
         self.pos -= 1;
-        unsafe {
-            self.data[self.pos].as_mut_ptr().write(v);
-        }
+        self.data[self.pos] = v;
     }
     #[inline]
     pub fn push_u8(&mut self, v: u8) -> SnmpResult<()> {
@@ -110,13 +94,7 @@ impl Buffer {
         let cs = chunk.len();
         self.ensure_size(cs)?;
         self.pos -= cs;
-        unsafe {
-            ptr::copy_nonoverlapping(
-                chunk.as_ptr(),
-                self.data[self.pos..].as_mut_ptr() as *mut u8,
-                cs,
-            );
-        }
+        self.data[self.pos..self.pos + cs].copy_from_slice(chunk);
         Ok(())
     }
     #[inline]
@@ -158,24 +136,20 @@ impl Buffer {
         self.pos = MAX_SIZE;
     }
     pub fn as_slice(&self, len: usize) -> &[u8] {
-        unsafe { slice::from_raw_parts(self.data.as_ptr() as *const u8, len) }
+        &self.data[..len]
     }
 }
 
 impl AsMut<[u8]> for Buffer {
     fn as_mut(&mut self) -> &mut [u8] {
-        unsafe {
-            slice::from_raw_parts_mut(
-                self.data[self.pos..].as_mut_ptr() as *mut u8,
-                MAX_SIZE - self.pos,
-            )
-        }
+        &mut self.data[self.pos..]
     }
 }
 
 impl AsMut<[MaybeUninit<u8>]> for Buffer {
     fn as_mut(&mut self) -> &mut [MaybeUninit<u8>] {
-        &mut self.data
+        // Initialized bytes may be considered as uninitialized
+        unsafe { &mut *(&mut self.data as *mut [u8; MAX_SIZE] as *mut [MaybeUninit<u8>; MAX_SIZE]) }
     }
 }
 
-- 
2.43.0


From 335be0d51f5bd8629b7c4e86681603db8b009380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:11 +0000
Subject: [PATCH 20/24] fix: stop walk on OIDs which do not advance

---
 src/ber/objectid.rs    | 19 +++++++++++++++++++
 src/snmp/op/getiter.rs |  5 ++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index 877bedb..cec8f21 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -114,6 +114,25 @@ impl SnmpOid<'_> {
     pub fn starts_with(&self, oid: &SnmpOid) -> bool {
         oid.0.starts_with(&self.0)
     }
+    // Check oid goes strictly after the other one in the lexicographic
+    // order of subidentifiers. Malformed oid has no place in the order.
+    pub fn is_after(&self, other: &SnmpOid) -> bool {
+        let mut left: &[u8] = &self.0;
+        let mut right: &[u8] = &other.0;
+        while !right.is_empty() {
+            match (split_subid(left), split_subid(right)) {
+                (Ok((x, left_tail)), Ok((y, right_tail))) => {
+                    if x != y {
+                        return x > y;
+                    }
+                    left = left_tail;
+                    right = right_tail;
+                }
+                _ => return false,
+            }
+        }
+        !left.is_empty()
+    }
 }
 
 struct OidSubelementIterator<'a>(core::str::Split<'a, &'a str>);
diff --git a/src/snmp/op/getiter.rs b/src/snmp/op/getiter.rs
index 55e1be7..a8d056d 100644
--- a/src/snmp/op/getiter.rs
+++ b/src/snmp/op/getiter.rs
@@ -37,7 +37,10 @@ impl GetIter {
     // Save oid for next request.
     // Return true if next request may be send or return false otherwise
     pub fn set_next_oid(&mut self, oid: &SnmpOid) -> bool {
-        if self.start_oid.as_borrowed().starts_with(oid) {
+        // Oid must be within the subtree and must advance the walk
+        if self.start_oid.as_borrowed().starts_with(oid)
+            && oid.is_after(&self.next_oid.as_borrowed())
+        {
             self.next_oid.store(oid);
             true
         } else {
-- 
2.43.0


From 79e25898f2bf81c4910976c5ef9c4d9f9da166a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:41 +0000
Subject: [PATCH 21/24] fix: unwanted replies must not extend the timeout

---
 src/socket/snmpsocket.rs | 43 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index 9281f9a..e525ad6 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -16,7 +16,10 @@ use crate::{
 use pyo3::prelude::*;
 use socket2::{Domain, Protocol, Socket, Type};
 use std::net::SocketAddr;
-use std::time::Duration;
+use std::time::{Duration, Instant};
+
+// Minimal non-zero socket timeout
+const MIN_TIMEOUT: Duration = Duration::from_micros(1);
 
 pub(crate) trait SnmpSocket
 where
@@ -48,7 +51,8 @@ where
             .map_err(|e| SnmpError::SocketError(e.to_string()))?;
         if timeout_ns > 0 {
             // Blocking mode
-            io.set_read_timeout(Some(Duration::from_nanos(timeout_ns)))
+            // NB: The system resolution is 1us, zero means no timeout at all
+            io.set_read_timeout(Some(Duration::from_nanos(timeout_ns).max(MIN_TIMEOUT)))
                 .map_err(|e| SnmpError::SocketError(e.to_string()))?;
         } else {
             // Mark socket as non-blocking
@@ -124,6 +128,31 @@ where
     }
 
     fn _recv_inner<'a, T, V>(&mut self, iter: Option<&mut GetIter>) -> PyResult<PyObject>
+    where
+        T: PyOp<'a, V>,
+        V: 'a,
+    {
+        // Unwanted replies must not extend the timeout
+        let timeout = self
+            .get_io()
+            .read_timeout()
+            .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+        let deadline = timeout.and_then(|t| Instant::now().checked_add(t));
+        let r = self._recv_until::<T, V>(iter, deadline);
+        if deadline.is_some() {
+            // Timeout may be shortened, restore
+            self.get_io()
+                .set_read_timeout(timeout)
+                .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+        }
+        r
+    }
+
+    fn _recv_until<'a, T, V>(
+        &mut self,
+        iter: Option<&mut GetIter>,
+        deadline: Option<Instant>,
+    ) -> PyResult<PyObject>
     where
         T: PyOp<'a, V>,
         V: 'a,
@@ -146,6 +175,16 @@ where
                 }
                 None => {
                     buf.reset();
+                    // Wait only for the rest of the timeout
+                    if let Some(d) = deadline {
+                        let rest = d.saturating_duration_since(Instant::now());
+                        if rest.is_zero() {
+                            return Err(SnmpError::WouldBlock.into());
+                        }
+                        self.get_io()
+                            .set_read_timeout(Some(rest.max(MIN_TIMEOUT)))
+                            .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+                    }
                     continue;
                 }
             }
-- 
2.43.0


From a597f999ac3dda61a2dc33b6749313aee09834b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:42 +0000
Subject: [PATCH 22/24] fix: do not exceed requested rate due to rounding

---
 src/gufo/snmp/policer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gufo/snmp/policer.py b/src/gufo/snmp/policer.py
index ddf1bc2..08304fd 100644
--- a/src/gufo/snmp/policer.py
+++ b/src/gufo/snmp/policer.py
@@ -96,6 +96,9 @@ class RPSPolicer(BasePolicer):
         if not self._delta:
             msg = "RPS is too high"
             raise ValueError(msg)
+        # Round up, shorter interval means greater rate
+        if self._delta * rps < NS:
+            self._delta += 1
 
     def get_timeout(self: "RPSPolicer", ts: int) -> Optional[int]:
         """
-- 
2.43.0


From 197b5c53a2060eee6f8f6b2f94af3dab955b3ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:59 +0000
Subject: [PATCH 23/24] fix: apply policer and timeout mapping to sync refresh

---
 src/gufo/snmp/sync_client/client.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gufo/snmp/sync_client/client.py b/src/gufo/snmp/sync_client/client.py
index e67dd4a..4adc160 100644
--- a/src/gufo/snmp/sync_client/client.py
+++ b/src/gufo/snmp/sync_client/client.py
@@ -311,7 +311,7 @@ class SnmpSession(object):
 
         if self._deferred_user:
             # First check runs engine id discovery
-            self._sock.refresh()
+            self._refresh()
             # Set and localize actual keys
             self._sock.set_keys(
                 self._deferred_user.name,
@@ -326,7 +326,16 @@ class SnmpSession(object):
             self._deferred_user = None
 
         # Refresh engine boots and time
-        self._sock.refresh()
+        self._refresh()
+
+    def _refresh(self: "SnmpSession") -> None:
+        """Send single refresh request and await for response."""
+        if self._policer:
+            self._policer.wait_sync()
+        try:
+            self._sock.refresh()
+        except BlockingIOError as e:
+            raise TimeoutError from e
 
     def get_engine_id(self: "SnmpSession") -> bytes:
         """
-- 
2.43.0


From 1bc4ed2fe28a3081ddfeeabba6bfd4d28ca4921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 24/24] fix: do not let unwanted replies hold the non-blocking
 receive

A continuous flow of unwanted replies kept the non-blocking receive
in its loop, so the asynchronous client's timeout was never checked.
Return the control after a limited number of them.
---
 src/socket/snmpsocket.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index e525ad6..6f2173d 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -20,6 +20,8 @@ use std::time::{Duration, Instant};
 
 // Minimal non-zero socket timeout
 const MIN_TIMEOUT: Duration = Duration::from_micros(1);
+// Maximal amount of unwanted replies to be skipped by one non-blocking call
+const MAX_UNWANTED: usize = 256;
 
 pub(crate) trait SnmpSocket
 where
@@ -160,6 +162,7 @@ where
         // Get buffer from pool
         let mut h = get_buffer_pool().acquire();
         let buf = h.as_mut();
+        let mut unwanted = 0;
         // We can catch unwanted replies, so do it in a loop
         loop {
             // Nested scope to release io early after receiving message
@@ -184,6 +187,12 @@ where
                         self.get_io()
                             .set_read_timeout(Some(rest.max(MIN_TIMEOUT)))
                             .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+                    } else {
+                        // Non-blocking mode, let the caller check the timeout
+                        unwanted += 1;
+                        if unwanted >= MAX_UNWANTED {
+                            return Err(SnmpError::WouldBlock.into());
+                        }
                     }
                     continue;
                 }
-- 
2.43.0

