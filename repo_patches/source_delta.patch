From 368c7a206e446380a93b41d9b7429da91a8f5059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 01/16] fix: applying a typmod to NaN panicked in debug builds
 and gave zero in release builds

---
 src/num.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/num.rs b/src/num.rs
index eec7c11..b25d042 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -139,6 +139,11 @@ impl NumericBuf {
     ///
     /// Notes that no matter whether overflows, `self` will be rounded.
     pub fn apply_typmod(&mut self, typmod: Typmod) -> bool {
+        // NaN is not affected by any typmod
+        if self.is_nan() {
+            return false;
+        }
+
         let mut var = self.as_var_owned();
         let mut overflow = var.apply_typmod(typmod);
 
-- 
2.43.0


From b55b267acfe3676562f5521081235153a53e8832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 02/16] fix: an in-place round or typmod that overflowed left
 the numeric with a null buffer

---
 src/num.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index b25d042..0353b1b 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -104,7 +104,8 @@ impl NumericBuf {
             return;
         }
 
-        let mut var = self.as_var_owned();
+        // Do not take the buffer of `self`: it must stay valid if this panics.
+        let mut var = self.as_var();
         var.round(scale);
         match var.make_result() {
             Some(result) => *self = result,
@@ -137,14 +138,16 @@ impl NumericBuf {
     ///
     /// Returns true if overflows.
     ///
-    /// Notes that no matter whether overflows, `self` will be rounded.
+    /// Notes that no matter whether overflows, `self` will be rounded,
+    /// unless the rounded value overflows numeric format, then `self` is unchanged.
     pub fn apply_typmod(&mut self, typmod: Typmod) -> bool {
         // NaN is not affected by any typmod
         if self.is_nan() {
             return false;
         }
 
-        let mut var = self.as_var_owned();
+        // Do not take the buffer of `self`: it must stay valid if the result overflows.
+        let mut var = self.as_var();
         let mut overflow = var.apply_typmod(typmod);
 
         match var.make_result() {
-- 
2.43.0


From 5f4f0cba571313840069ba19731b2fddca356dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 03/16] fix: leading zeroes were counted when checking a result
 for overflow (0e200000 failed to parse)

---
 src/var.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 2aab4b1..4204f9d 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2324,10 +2324,13 @@ impl<'a> NumericVar<'a> {
     /// Make `self` to be a result numeric.
     /// Returns `None` if overflows.
     #[inline]
-    pub fn make_result(self) -> Option<NumericBuf> {
+    pub fn make_result(mut self) -> Option<NumericBuf> {
         debug_assert!(!self.is_nan());
         debug_assert!(self.dscale >= 0);
 
+        // The weight is meaningful only after leading zeroes have been stripped.
+        self.strip();
+
         if self.weight > NUMERIC_WEIGHT_MAX as i32
             || self.weight < NUMERIC_WEIGHT_MIN as i32
             || self.dscale > NUMERIC_DSCALE_MAX as i32
@@ -2335,7 +2338,7 @@ impl<'a> NumericVar<'a> {
             return None;
         }
 
-        Some(self.make_result_no_overflow())
+        Some(self.into_numeric_buf())
     }
 
     /// Negate this value.
-- 
2.43.0


From 189e7873e06ae859dc6fe9a3e8252cdcdf962c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 04/16] fix: numeric headers were accessed through references
 that are not aligned

---
 src/binary.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index ccc0569..e08b7b6 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -288,7 +288,9 @@ impl NumericChoice {
 
 /// `NumericBinary` is used to represent binary format of disk storage.
 /// Notes that do not create a `NumericBinary` directly.
-#[repr(C)]
+///
+/// A numeric is only guaranteed to be aligned like its digits, not like its length word.
+#[repr(C, packed(2))]
 pub(crate) struct NumericBinary {
     // varlena header (do not touch directly!)
     // xxxxxx00 4-byte length word, aligned, uncompressed data (up to 1G)
-- 
2.43.0


From 82f6af8901f49a66c425f6cfbb67463cea43c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 05/16] fix: a numeric's buffer was freed with a layout other
 than the one it was allocated with

---
 src/num.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 0353b1b..29890e1 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -14,7 +14,7 @@
 
 //! Numeric
 
-use crate::binary::{NumericBinary, NUMERIC_DIGIT_SIZE};
+use crate::binary::{NumericBinary, NumericDigit, NUMERIC_DIGIT_SIZE};
 use crate::data::*;
 use crate::typmod::Typmod;
 use crate::var::NumericVar;
@@ -211,8 +211,13 @@ impl Drop for NumericBuf {
     #[inline]
     fn drop(&mut self) {
         if !self.buf.is_null() {
+            // The buffer was allocated as digits by `NumericData`.
             unsafe {
-                let _vec = Vec::<u8>::from_raw_parts(self.buf as *mut u8, 0, self.len as usize);
+                let _vec = Vec::<NumericDigit>::from_raw_parts(
+                    self.buf as *mut NumericDigit,
+                    0,
+                    (self.len / NUMERIC_DIGIT_SIZE) as usize,
+                );
             }
             self.buf = std::ptr::null();
         }
-- 
2.43.0


From 158d1e9927fb0ed4aedc01a8b5d93524c2835db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 06/16] fix: formatting tiny values in scientific notation
 divided by zero

---
 src/var.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 4204f9d..c0818e1 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2216,14 +2216,17 @@ impl<'a> NumericVar<'a> {
         };
 
         // The denominator is set to 10 raised to the power of the exponent.
+        // It is one NBASE digit, made directly because power_int() is not exact
+        // for large negative exponents.
         //
         // We then divide var by the denominator to get the significand, rounding
         // to rscale decimal digits in the process.
         let denom_scale = if exponent < 0 { -exponent } else { 0 };
 
-        let denominator = TEN
-            .power_int(exponent, denom_scale)
-            .expect("attempt to multiply with overflow");
+        let denom_weight = exponent.div_euclid(DEC_DIGITS);
+        let denom_digits = [[1, 10, 100, 1000][exponent.rem_euclid(DEC_DIGITS) as usize]];
+        let denominator =
+            NumericVar::borrowed(1, denom_weight, denom_scale, NUMERIC_POS, &denom_digits);
         let significand = self
             .div_common(&denominator, rscale, true)
             .expect(DIVIDE_BY_ZERO_MSG);
-- 
2.43.0


From c4ba7e4dcaa1dd423e1bb069861abd1ff9e31a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 07/16] fix: deserializing malformed bytes read out of bounds
 or panicked

---
 src/binary.rs | 69 +++++++++++++++++++++++++++++++++++++++++++++++++++
 src/num.rs    | 18 +++++++++++++-
 2 files changed, 86 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index e08b7b6..8e1b389 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -43,6 +43,8 @@
 // The weight is arbitrary in that case, but we normally set it to zero.
 
 use crate::var::NumericVar;
+#[cfg(feature = "serde")]
+use crate::var::{DEC_DIGITS, NBASE};
 use cfg_if::cfg_if;
 use std::marker::PhantomData;
 use std::mem::size_of;
@@ -423,6 +425,73 @@ impl NumericBinary {
         }
     }
 
+    /// Checks that `bytes` is the entire binary format of a numeric.
+    #[cfg(feature = "serde")]
+    pub fn is_valid(bytes: &[u8]) -> bool {
+        if bytes.len() < NUMERIC_HEADER_SIZE_SHORT {
+            return false;
+        }
+
+        let len = u32::from_ne_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
+        let header = u16::from_ne_bytes([bytes[4], bytes[5]]);
+        if NumericBinary::decode_len(len) as usize != bytes.len() {
+            return false;
+        }
+
+        let flag_bits = header & NUMERIC_SIGN_MASK;
+        if flag_bits == NUMERIC_NAN {
+            // previous releases of PostgreSQL stored NaN in the long format
+            return bytes.len() == NUMERIC_HEADER_SIZE_SHORT || bytes.len() == NUMERIC_HEADER_SIZE;
+        }
+
+        let (weight, dscale, sign, data) = if flag_bits == NUMERIC_SHORT {
+            let weight = (header & NUMERIC_SHORT_WEIGHT_MASK) as i32;
+            let weight = if header & NUMERIC_SHORT_WEIGHT_SIGN_MASK != 0 {
+                weight + NUMERIC_SHORT_WEIGHT_MIN as i32
+            } else {
+                weight
+            };
+            let dscale = (header & NUMERIC_SHORT_DSCALE_MASK) >> NUMERIC_SHORT_DSCALE_SHIFT;
+            let sign = header & NUMERIC_SHORT_SIGN_MASK;
+            (weight, dscale, sign, &bytes[NUMERIC_HEADER_SIZE_SHORT..])
+        } else {
+            if bytes.len() < NUMERIC_HEADER_SIZE {
+                return false;
+            }
+            let weight = i16::from_ne_bytes([bytes[6], bytes[7]]) as i32;
+            let dscale = header & NUMERIC_DSCALE_MASK;
+            (weight, dscale, flag_bits, &bytes[NUMERIC_HEADER_SIZE..])
+        };
+
+        let ndigits = data.len() / NUMERIC_DIGIT_SIZE as usize;
+        if data.len() != ndigits * NUMERIC_DIGIT_SIZE as usize {
+            return false;
+        }
+        if ndigits == 0 {
+            // zero, which is never negative
+            return weight == 0 && sign == 0;
+        }
+
+        let digit = |i: usize| NumericDigit::from_ne_bytes([data[2 * i], data[2 * i + 1]]) as i32;
+        if weight < NUMERIC_WEIGHT_MIN as i32
+            || (0..ndigits).any(|i| digit(i) < 0 || digit(i) >= NBASE)
+            || digit(0) == 0
+            || digit(ndigits - 1) == 0
+        {
+            return false;
+        }
+
+        // No digit may be hidden beyond the display scale.
+        let hidden = (ndigits as i32 - weight - 1) * DEC_DIGITS - dscale as i32;
+        match hidden {
+            _ if hidden <= 0 => true,
+            1 => digit(ndigits - 1) % 10 == 0,
+            2 => digit(ndigits - 1) % 100 == 0,
+            3 => digit(ndigits - 1) % 1000 == 0,
+            _ => false,
+        }
+    }
+
     #[inline]
     pub fn as_bytes(&self) -> &[u8] {
         let len = self.len();
diff --git a/src/num.rs b/src/num.rs
index 29890e1..c3338c1 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -362,7 +362,17 @@ impl<'de> serde::Deserialize<'de> for NumericBuf {
             where
                 E: serde::de::Error,
             {
-                let n = unsafe { Numeric::from_bytes_unchecked(v) };
+                if !NumericBinary::is_valid(v) {
+                    return Err(serde::de::Error::custom("invalid numeric bytes"));
+                }
+
+                // `v` may not be aligned
+                let mut buf: Vec<NumericDigit> = vec![0; (v.len() + 1) / 2];
+                let n = unsafe {
+                    let ptr = buf.as_mut_ptr() as *mut u8;
+                    ptr.copy_from_nonoverlapping(v.as_ptr(), v.len());
+                    Numeric::from_bytes_unchecked(std::slice::from_raw_parts(ptr, v.len()))
+                };
                 Ok(n.to_owned())
             }
         }
@@ -1064,6 +1074,12 @@ impl<'de> serde::Deserialize<'de> for &'de Numeric {
             where
                 E: serde::de::Error,
             {
+                if !NumericBinary::is_valid(v)
+                    || v.as_ptr() as usize % std::mem::align_of::<NumericBinary>() != 0
+                {
+                    return Err(serde::de::Error::custom("invalid numeric bytes"));
+                }
+
                 let n = unsafe { Numeric::from_bytes_unchecked(v) };
                 Ok(n)
             }
-- 
2.43.0


From 09b55a9ecbea498c95a5fa0bd56bd77ed220db8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 08/16] fix: multiplying by zero with a scale sum above the
 limit failed a debug assertion instead of reporting overflow

---
 src/var.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index c0818e1..6b753fb 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -135,7 +135,8 @@ impl<'a> NumericVar<'a> {
     /// Creates a `NumericVar` of zero with given scale.
     #[inline]
     fn zero_scaled(scale: i32) -> NumericVar<'a> {
-        debug_assert!(scale >= 0 && scale <= NUMERIC_DSCALE_MAX as i32);
+        // A scale above NUMERIC_DSCALE_MAX is reported as overflow by make_result.
+        debug_assert!(scale >= 0);
         Self::borrowed(0, 0, scale, NUMERIC_POS, &[])
     }
 
-- 
2.43.0


From ef76656f6f578527371a879bee1f1d6b023dad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 09/16] fix: do not overflow when validating serialized
 numerics of about 1 GB

---
 src/binary.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/binary.rs b/src/binary.rs
index 8e1b389..a5bcf77 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -482,7 +482,8 @@ impl NumericBinary {
         }
 
         // No digit may be hidden beyond the display scale.
-        let hidden = (ndigits as i32 - weight - 1) * DEC_DIGITS - dscale as i32;
+        // `ndigits` can be up to 2^29, hence the wider type.
+        let hidden = (ndigits as i64 - weight as i64 - 1) * DEC_DIGITS as i64 - dscale as i64;
         match hidden {
             _ if hidden <= 0 => true,
             1 => digit(ndigits - 1) % 10 == 0,
-- 
2.43.0


From e53bcafafdcd8c672da9d52019541d37d6d07ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:08 +0000
Subject: [PATCH 10/16] fix: serialize numerics as bytes, which is what
 deserialization asks for

---
 src/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index c3338c1..041e51d 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -327,7 +327,7 @@ impl serde::Serialize for NumericBuf {
         if serializer.is_human_readable() {
             self.to_string().serialize(serializer)
         } else {
-            self.as_bytes().serialize(serializer)
+            serializer.serialize_bytes(self.as_bytes())
         }
     }
 }
@@ -1047,7 +1047,7 @@ impl serde::Serialize for Numeric {
         if serializer.is_human_readable() {
             self.to_string().serialize(serializer)
         } else {
-            self.as_bytes().serialize(serializer)
+            serializer.serialize_bytes(self.as_bytes())
         }
     }
 }
-- 
2.43.0


From cfaaac358591e335a32de1b91a3ae8842746d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 11/16] fix: div_fast_common overflowed an i32 when folding the
 remaining dividend digit

---
 src/var.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 6b753fb..900bbba 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1446,12 +1446,11 @@ impl<'a> NumericVar<'a> {
             // But having said that: div[qi] can be more than INT_MAX/NBASE, as
             // noted above, which means that the product div[qi] * NBASE *can*
             // overflow.  When that happens, adding it to div[qi + 1] will always
-            // cause a canceling overflow so that the end result is correct.  We
-            // could avoid the intermediate overflow by doing the multiplication
-            // and addition in int64 arithmetic, but so far there appears no need.
+            // cancel the excess, so we do the multiplication and addition in
+            // int64 arithmetic.
             let div_qi = unsafe { *div.get_unchecked(qi) };
             let div_qi_1 = unsafe { div.get_unchecked_mut(qi + 1) };
-            *div_qi_1 += div_qi * NBASE;
+            *div_qi_1 = (*div_qi_1 as i64 + div_qi as i64 * NBASE as i64) as i32;
 
             let div_qi = unsafe { div.get_unchecked_mut(qi) };
             *div_qi = qdigit;
-- 
2.43.0


From 064fdb55d56d35ed487f6b4370ad6c181ce895a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:52 +0000
Subject: [PATCH 12/16] fix: square root of a value too small for its result
 scale panicked

---
 src/var.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/var.rs b/src/var.rs
index 900bbba..2322b02 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1597,6 +1597,11 @@ impl<'a> NumericVar<'a> {
             result = result.add_common(&val);
             result = result.mul_common(&ZERO_POINT_FIVE, local_rscale);
 
+            if result.ndigits == 0 {
+                // The square root is too small to be represented at this scale.
+                return Self::zero_scaled(rscale);
+            }
+
             if result.cmp_common(&last_val) == 0 {
                 break;
             }
-- 
2.43.0


From d49d14d46036d3e1871d0cf506f8aea830785e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:57 +0000
Subject: [PATCH 13/16] fix: raising to the power i32::MIN overflowed when
 negating the exponent

---
 src/var.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 2322b02..5443109 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1698,11 +1698,11 @@ impl<'a> NumericVar<'a> {
         // The multiplications to produce the result may introduce an error of up
         // to around log10(abs(exp)) digits, so work with this many extra digits
         // of precision (plus a few more for good measure).
-        sig_digits += (exp.abs() as f64).ln() as i32 + 8;
+        sig_digits += (exp as f64).abs().ln() as i32 + 8;
 
         // Now we can proceed with the multiplications.
         let mut neg = exp < 0;
-        let mut mask = exp.abs();
+        let mut mask = exp.unsigned_abs();
 
         let mut base_prod = self.clone();
 
@@ -1714,7 +1714,7 @@ impl<'a> NumericVar<'a> {
 
         loop {
             mask >>= 1;
-            if mask <= 0 {
+            if mask == 0 {
                 break;
             }
 
-- 
2.43.0


From fa5e579c6f4313ad6ff54e4b5124093dde463e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:21 +0000
Subject: [PATCH 14/16] fix: raising a negative number to an integer power
 beyond i32 panicked

---
 src/var.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/var.rs b/src/var.rs
index 5443109..2bb5405 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2053,6 +2053,21 @@ impl<'a> NumericVar<'a> {
             return Some(Self::zero_scaled(NUMERIC_MIN_SIG_DIGITS));
         }
 
+        // If base is negative, exp must be an integer (one too large for
+        // power_int()).  The result is then positive if exp is even and negative
+        // if exp is odd, and its absolute value is that of abs(base) ^ exp.
+        if self.is_negative() {
+            let mut base = self.clone();
+            base.sign = NUMERIC_POS;
+
+            // exp is odd if its last digit is an odd units digit.
+            let mut result = base.power_common(exp)?;
+            if exp.ndigits == exp.weight + 1 && exp.digits()[exp.ndigits as usize - 1] % 2 != 0 {
+                result.negate();
+            }
+            return Some(result);
+        }
+
         // Decide on the scale for the ln() calculation.  For this we need an
         // estimate of the weight of the result, which we obtain by doing an
         // initial low-precision calculation of exp * ln(base).
-- 
2.43.0


From 2798bd2bd10001b326e33b6dee366b274a42ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:00 +0000
Subject: [PATCH 15/16] fix: integer powers estimated the result's digits from
 the first base-10000 digit only, losing accuracy

---
 src/var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 2bb5405..04b02bc 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1669,7 +1669,7 @@ impl<'a> NumericVar<'a> {
         let mut p = self.weight * DEC_DIGITS;
 
         for (i, &digit) in digits.iter().enumerate().skip(1) {
-            if (i * DEC_DIGITS as usize) < 16 {
+            if i * DEC_DIGITS as usize >= 16 {
                 break;
             }
 
-- 
2.43.0


From 1c4bb18782580e1c5ab63e02f43a8afc892f4bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:46 +0000
Subject: [PATCH 16/16] fix: end the square root's iteration when it alternates
 between two values

Rounding can leave Newton's iteration alternating between two adjacent
values, so that sqrt() of, say, 60989241600000000000002099160 never
returned.
---
 src/var.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 04b02bc..071f2b8 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1589,6 +1589,7 @@ impl<'a> NumericVar<'a> {
         result.weight = self.weight / 2;
 
         let mut last_val = result.clone();
+        let mut prev_val = result.clone();
 
         loop {
             let val = self
@@ -1602,10 +1603,13 @@ impl<'a> NumericVar<'a> {
                 return Self::zero_scaled(rscale);
             }
 
-            if result.cmp_common(&last_val) == 0 {
+            // Rounding may leave the iteration alternating between two adjacent
+            // values, so it also ends when the value before the last one comes back.
+            if result.cmp_common(&last_val) == 0 || result.cmp_common(&prev_val) == 0 {
                 break;
             }
 
+            prev_val = last_val;
             last_val = result.clone();
         }
 
-- 
2.43.0

