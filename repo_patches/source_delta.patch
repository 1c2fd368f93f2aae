From 3db1be951f84d25829b0cd273cb30b69279960c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:52 +0000
Subject: [PATCH 01/13] fix: powers of ten beyond u64 in number equality and
 fixed point conversion

decimal_power(20) was 1, so 1e20 == 1 and 1e-20 was 1 at fixed point 0;
scaling wrapped around and the exponent arithmetic overflowed i16.
---
 src/number.rs    | 76 +++++++++++++++++++++++-------------------------
 src/value/mod.rs |  2 +-
 2 files changed, 37 insertions(+), 41 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 808190a..301563e 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -130,7 +130,8 @@ impl Number {
     /// converting monetary values and doing arithmetic on them without
     /// rounding errors introduced by floating point operations.
     ///
-    /// Will return `None` if `Number` is negative or a NaN.
+    /// Will return `None` if `Number` is negative or a NaN, or if the result
+    /// doesn't fit in an `u64`.
     ///
     /// ```
     /// # use json::number::Number;
@@ -147,15 +148,7 @@ impl Number {
             return None;
         }
 
-        let e_diff = point as i16 + self.exponent;
-
-        Some(if e_diff == 0 {
-            self.mantissa
-        } else if e_diff < 0 {
-            self.mantissa.wrapping_div(decimal_power(-e_diff as u16))
-        } else {
-            self.mantissa.wrapping_mul(decimal_power(e_diff as u16))
-        })
+        self.abs_fixed_point(point)
     }
 
     /// Analog to `as_fixed_point_u64`, except returning a signed
@@ -174,21 +167,27 @@ impl Number {
             return None;
         }
 
-        let num = if self.is_sign_positive() {
-            self.mantissa as i64
+        let abs = self.abs_fixed_point(point)?;
+
+        if self.is_sign_positive() {
+            i64::try_from(abs).ok()
+        } else if abs <= i64::MIN as u64 {
+            Some((abs as i64).wrapping_neg())
         } else {
-            -(self.mantissa as i64)
-        };
+            None
+        }
+    }
 
-        let e_diff = point as i16 + self.exponent;
+    // Absolute value at a fixed decimal point, truncated to an integer.
+    fn abs_fixed_point(&self, point: u16) -> Option<u64> {
+        let e_diff = i32::from(point) + i32::from(self.exponent);
 
-        Some(if e_diff == 0 {
-            num
-        } else if e_diff < 0 {
-            num.wrapping_div(decimal_power(-e_diff as u16) as i64)
+        if e_diff < 0 {
+            // If the power doesn't fit in an `u64`, it's greater than the mantissa
+            Some(decimal_power(-e_diff).map_or(0, |power| self.mantissa / power))
         } else {
-            num.wrapping_mul(decimal_power(e_diff as u16) as i64)
-        })
+            scale_up(self.mantissa, e_diff)
+        }
     }
 }
 
@@ -204,18 +203,14 @@ impl PartialEq for Number {
             return false;
         }
 
-        let e_diff = self.exponent - other.exponent;
+        let e_diff = i32::from(self.exponent) - i32::from(other.exponent);
 
         if e_diff == 0 {
             return self.mantissa == other.mantissa;
         } else if e_diff > 0 {
-            let power = decimal_power(e_diff as u16);
-
-            self.mantissa.wrapping_mul(power) == other.mantissa
+            scale_up(self.mantissa, e_diff) == Some(other.mantissa)
         } else {
-            let power = decimal_power(-e_diff as u16);
-
-            self.mantissa == other.mantissa.wrapping_mul(power)
+            scale_up(other.mantissa, -e_diff) == Some(self.mantissa)
         }
 
     }
@@ -541,8 +536,19 @@ impl ops::Neg for Number {
 //     }
 // }
 
+// Multiply the mantissa by a power of ten, `None` if the result doesn't fit in an `u64`.
 #[inline]
-fn decimal_power(mut e: u16) -> u64 {
+fn scale_up(mantissa: u64, e: i32) -> Option<u64> {
+    if mantissa == 0 {
+        return Some(0);
+    }
+
+    decimal_power(e).and_then(|power| mantissa.checked_mul(power))
+}
+
+// `None` if the power doesn't fit in an `u64`.
+#[inline]
+fn decimal_power(e: i32) -> Option<u64> {
     static CACHED: [u64; 20] = [
         1,
         10,
@@ -566,15 +572,5 @@ fn decimal_power(mut e: u16) -> u64 {
         10000000000000000000,
     ];
 
-    if e < 20 {
-        CACHED[e as usize]
-    } else {
-        let mut pow = 1u64;
-        while e >= 20 {
-            pow = pow.saturating_mul(CACHED[(e % 20) as usize]);
-            e /= 20;
-        }
-
-        pow
-    }
+    CACHED.get(e as usize).copied()
 }
diff --git a/src/value/mod.rs b/src/value/mod.rs
index d9fb0c8..db61b15 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -282,7 +282,7 @@ impl JsonValue {
     /// rounding errors introduced by floating point operations.
     ///
     /// Will return `None` if `Number` called on a value that's not a number,
-    /// or if the number is negative or a NaN.
+    /// if the number is negative or a NaN, or if the result doesn't fit in an `u64`.
     ///
     /// ```
     /// # use json::JsonValue;
-- 
2.43.0


From d4dacce032c80623ea9ee79e8d3f3d40060a7531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:54 +0000
Subject: [PATCH 02/13] fix: conversion of NaN and of numbers beyond i64 to
 signed integers

NaN converted to 0, mantissas above i64::MAX wrapped around (u64::MAX became
-1), and converting i64::MIN overflowed.
---
 src/number.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 301563e..39936da 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -453,14 +453,14 @@ macro_rules! impl_signed {
             fn try_from(num: Number) -> Result<Self, Self::Error> {
                 let (positive, mantissa, exponent) = num.as_parts();
 
-                if exponent != 0 {
+                if exponent != 0 || num.is_nan() {
                     return Err(NumberOutOfScope);
                 }
 
                 let mantissa = if positive {
-                    mantissa as i64
+                    i128::from(mantissa)
                 } else {
-                    -(mantissa as i64)
+                    -i128::from(mantissa)
                 };
 
                 TryFrom::try_from(mantissa).map_err(Into::into)
-- 
2.43.0


From f81be19cc69e2057e1f28aa10da39d907ad30120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:55 +0000
Subject: [PATCH 03/13] fix: conversion of the minimum of signed integer types
 to a number

Negating it overflowed: a panic in debug, and for the types narrower than 64
bits a sign extended mantissa in release.
---
 src/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/number.rs b/src/number.rs
index 39936da..3697684 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -435,7 +435,7 @@ macro_rules! impl_signed {
                     Number {
                         category: NEGATIVE,
                         exponent: 0,
-                        mantissa: -num as u64,
+                        mantissa: (num as i64).wrapping_neg() as u64,
                     }
                 } else {
                     Number {
-- 
2.43.0


From 09ef94c7774fcc52a63ce395e2e4f73675955ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:56 +0000
Subject: [PATCH 04/13] fix: exponents of numbers at and beyond the i16 range

More than 32768 fraction digits overflowed the exponent (a panic in debug, a
huge number instead of a tiny one in release), and an exponent of -32768 or one
compensated by fraction digits was clamped before it was adjusted.
---
 src/parser.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8fab0df..d045706 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -325,7 +325,7 @@ macro_rules! expect_fraction {
 
         loop {
             if $parser.is_eof() {
-                result = unsafe { Number::from_parts_unchecked(true, $num, $e) };
+                result = number_from_parts($num, $e);
                 break;
             }
             let ch = $parser.read_byte();
@@ -354,7 +354,7 @@ macro_rules! expect_fraction {
                     break;
                 }
                 _ => {
-                    result = unsafe { Number::from_parts_unchecked(true, $num, $e) };
+                    result = number_from_parts($num, $e);
                     break;
                 }
             }
@@ -554,10 +554,10 @@ impl<'a> Parser<'a> {
     // the exponent. Note that no digits are actually read here, as we already
     // exceeded the precision range of f64 anyway.
     fn read_big_number(&mut self, mut num: u64) -> Result<Number> {
-        let mut e = 0i16;
+        let mut e = 0i64;
         loop {
             if self.is_eof() {
-                return Ok(unsafe { Number::from_parts_unchecked(true, num, e) });
+                return Ok(number_from_parts(num, e));
             }
             let ch = self.read_byte();
             match ch {
@@ -567,7 +567,12 @@ impl<'a> Parser<'a> {
                         num.checked_add((ch - b'0') as u64)
                     }) {
                         Some(result) => num = result,
-                        None         => e = e.checked_add(1).ok_or_else(|| Error::ExceededDepthLimit)?,
+                        None         => {
+                            if e == i64::from(i16::MAX) {
+                                return Err(Error::ExceededDepthLimit);
+                            }
+                            e += 1;
+                        },
                     }
                 },
                 b'.' => {
@@ -582,12 +587,12 @@ impl<'a> Parser<'a> {
             }
         }
 
-        Ok(unsafe { Number::from_parts_unchecked(true, num, e) })
+        Ok(number_from_parts(num, e))
     }
 
     // Called in the rare case that a number with `e` notation has been
     // encountered. This is pretty straight forward, I guess.
-    fn expect_exponent(&mut self, num: u64, big_e: i16) -> Result<Number> {
+    fn expect_exponent(&mut self, num: u64, big_e: i64) -> Result<Number> {
         let mut ch = expect_byte!(self);
         let sign = match ch {
             b'-' => {
@@ -602,7 +607,7 @@ impl<'a> Parser<'a> {
         };
 
         let mut e = match ch {
-            b'0' ..= b'9' => (ch - b'0') as i16,
+            b'0' ..= b'9' => (ch - b'0') as i64,
             _ => return self.unexpected_character(),
         };
 
@@ -614,13 +619,13 @@ impl<'a> Parser<'a> {
             match ch {
                 b'0' ..= b'9' => {
                     self.bump();
-                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i16);
+                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i64);
                 },
                 _  => break
             }
         }
 
-        Ok(unsafe { Number::from_parts_unchecked(true, num, big_e.saturating_add(e * sign)) })
+        Ok(number_from_parts(num, big_e.saturating_add(e * sign)))
     }
 
     // Parse away!
@@ -756,6 +761,15 @@ impl<'a> Parser<'a> {
 
 struct StackBlock(JsonValue, usize);
 
+// Exponents are tracked as `i64` while parsing, so that counting fraction digits
+// can't overflow, and only saturate to the range of `Number` in the end.
+#[inline]
+fn number_from_parts(mantissa: u64, exponent: i64) -> Number {
+    let exponent = exponent.max(i64::from(i16::MIN)).min(i64::from(i16::MAX)) as i16;
+
+    unsafe { Number::from_parts_unchecked(true, mantissa, exponent) }
+}
+
 // All that hard work, and in the end it's just a single function in the API.
 #[inline]
 pub fn parse(source: &str) -> Result<JsonValue> {
-- 
2.43.0


From 33ad5adc7c6eed967ed89314ea71fbf967e23c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 05/13] fix: round conversions of numbers to f64 and f32
 correctly

Intermediate powers of ten overflowed and lost precision: 0e400 became NaN,
1.234e-30f32 came back as 0, and one in seven of the doubles between 0 and 1000
was not equal to the JSON number created from it.
---
 src/number.rs | 69 ++++++++++++++++-----------------------------------
 1 file changed, 22 insertions(+), 47 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 3697684..06f9a51 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -238,48 +238,23 @@ fn exponentiate_f64(n: f64, e: i16) -> f64 {
     ];
 
     if e >= 0 {
-        let index = e as usize;
-
-        n * if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f64.powf(index as f64)
-        }
+        n * CACHE_POWERS[e as usize]
     } else {
-        let index = -e as usize;
-
-        n / if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f64.powf(index as f64)
-        }
+        n / CACHE_POWERS[-e as usize]
     }
 }
 
 
 fn exponentiate_f32(n: f32, e: i16) -> f32 {
-    static CACHE_POWERS: [f32; 23] = [
+    static CACHE_POWERS: [f32; 11] = [
           1.0,    1e1,    1e2,    1e3,    1e4,    1e5,    1e6,    1e7,
-          1e8,    1e9,   1e10,   1e11,   1e12,   1e13,   1e14,   1e15,
-         1e16,   1e17,   1e18,   1e19,   1e20,   1e21,   1e22
+          1e8,    1e9,   1e10
     ];
 
     if e >= 0 {
-        let index = e as usize;
-
-        n * if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f32.powf(index as f32)
-        }
+        n * CACHE_POWERS[e as usize]
     } else {
-        let index = -e as usize;
-
-        n / if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f32.powf(index as f32)
-        }
+        n / CACHE_POWERS[-e as usize]
     }
 }
 
@@ -287,16 +262,17 @@ impl From<Number> for f64 {
     fn from(num: Number) -> f64 {
         if num.is_nan() { return f64::NAN; }
 
-        let mut n = num.mantissa as f64;
-        let mut e = num.exponent;
+        let (positive, n, e) = num.as_parts();
 
-        if e < -308 {
-            n = exponentiate_f64(n, e + 308);
-            e = -308;
-        }
+        // If both the mantissa and the power of ten are exact in `f64`, a single
+        // operation on them is rounded correctly. Leave all else to `std`.
+        let f = if n <= 1 << 53 && e >= -22 && e <= 22 {
+            exponentiate_f64(n as f64, e)
+        } else {
+            format!("{}e{}", n, e).parse().unwrap_or(f64::NAN)
+        };
 
-        let f = exponentiate_f64(n, e);
-        if num.is_sign_positive() { f } else { -f }
+        if positive { f } else { -f }
     }
 }
 
@@ -304,16 +280,15 @@ impl From<Number> for f32 {
     fn from(num: Number) -> f32 {
         if num.is_nan() { return f32::NAN; }
 
-        let mut n = num.mantissa as f32;
-        let mut e = num.exponent;
+        let (positive, n, e) = num.as_parts();
 
-        if e < -127 {
-            n = exponentiate_f32(n, e + 127);
-            e = -127;
-        }
+        let f = if n <= 1 << 24 && e >= -10 && e <= 10 {
+            exponentiate_f32(n as f32, e)
+        } else {
+            format!("{}e{}", n, e).parse().unwrap_or(f32::NAN)
+        };
 
-        let f = exponentiate_f32(n, e);
-        if num.is_sign_positive() { f } else { -f }
+        if positive { f } else { -f }
     }
 }
 
-- 
2.43.0


From cf503f410dbf50f1ca8559ef0882d477ab1f0754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 06/13] fix: position of an unexpected first character on a
 line

It was reported at the end of the previous line.
---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index d045706..8f2f453 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -411,8 +411,10 @@ impl<'a> Parser<'a> {
                      .next()
                      .expect("Must have a character");
 
+        // Not using `lines` here, it doesn't yield the empty line
+        // after a trailing line break.
         let (lineno, col) = self.source[..at]
-                                .lines()
+                                .split('\n')
                                 .enumerate()
                                 .last()
                                 .unwrap_or((0, ""));
-- 
2.43.0


From 45e4941490c9ab7a457aee7a3f4d48daa5c1c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:27 +0000
Subject: [PATCH 07/13] fix: clearing a short string

It became null, while it's documented to clear the string and did so for
strings longer than 30 bytes.
---
 src/value/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index db61b15..520ab23 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -560,6 +560,7 @@ impl JsonValue {
     pub fn clear(&mut self) {
         match *self {
             JsonValue::String(ref mut string) => string.clear(),
+            JsonValue::Short(_)               => *self = "".into(),
             JsonValue::Object(ref mut object) => object.clear(),
             JsonValue::Array(ref mut vec)     => vec.clear(),
             _                                 => *self = JsonValue::Null,
-- 
2.43.0


From dbbe916c96712e5e48441d008e92e875851cc0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:29 +0000
Subject: [PATCH 08/13] fix: equality of short strings and owned strings

A JSON string of up to 30 bytes was never equal to a String.
---
 src/value/implements.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/value/implements.rs b/src/value/implements.rs
index 7833f7e..354bae6 100644
--- a/src/value/implements.rs
+++ b/src/value/implements.rs
@@ -103,6 +103,31 @@ impl<K: AsRef<str>, V: Into<JsonValue>> From<BTreeMap<K, V>> for JsonValue {
     }
 }
 
+impl From<String> for JsonValue {
+    fn from(val: String) -> JsonValue {
+        JsonValue::String(val)
+    }
+}
+
+// The same string can be stored either as a `Short` or as a `String`
+impl PartialEq<String> for JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        self == other.as_str()
+    }
+}
+
+impl<'a> PartialEq<String> for &'a JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        **self == *other
+    }
+}
+
+impl PartialEq<JsonValue> for String {
+    fn eq(&self, other: &JsonValue) -> bool {
+        other == self
+    }
+}
+
 impl<'a> PartialEq<&'a str> for JsonValue {
     fn eq(&self, other: &&str) -> bool {
         match *self {
@@ -143,7 +168,6 @@ impl<'a> PartialEq<JsonValue> for str {
     }
 }
 
-implement!(String, String);
 implement!(Number, isize as num);
 implement!(Number, usize as num);
 implement!(Number, i8 as num);
-- 
2.43.0


From 8a2e5a238c1606c1a6db2533da19a3909c29bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 09/13] fix: evaluate items of array! and keys of object! only
 once

They were evaluated another time to count them, at every level of nesting.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ec925ef..66e73cf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -310,7 +310,7 @@ macro_rules! array {
 
     // Construct the actual array
     (@END $( $i:expr, )*) => ({
-        let size = 0 $( + {let _ = &$i; 1} )*;
+        let size = 0 $( + {let _ = stringify!($i); 1} )*;
         let mut array = Vec::with_capacity(size);
 
         $(
@@ -404,7 +404,7 @@ macro_rules! object {
 
     // Construct the actual object
     (@END $( $k:expr => $v:expr, )*) => ({
-        let size = 0 $( + {let _ = &$k; 1} )*;
+        let size = 0 $( + {let _ = stringify!($k); 1} )*;
         let mut object = $crate::object::Object::with_capacity(size);
 
         $(
-- 
2.43.0


From 903f472e2d99b0747e8b6a802a7c700d56a7e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 10/13] fix: indentation of more than 65535 spaces

Its calculation overflowed u16.
---
 src/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 4bb9ef1..3396bc4 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -276,7 +276,7 @@ impl Generator for PrettyGenerator {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.code.push(b'\n');
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(u32::from(self.dent) * u32::from(self.spaces_per_indent)) {
             self.code.push(b' ');
         }
         Ok(())
@@ -350,7 +350,7 @@ impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.write_char(b'\n')?;
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(u32::from(self.dent) * u32::from(self.spaces_per_indent)) {
             self.write_char(b' ')?;
         }
         Ok(())
-- 
2.43.0


From 37c7d7dcfda3852f0bb8286a21ceea1ce1d6ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:04 +0000
Subject: [PATCH 11/13] fix: exact size hints of the object iterators

---
 src/object.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/object.rs b/src/object.rs
index 7ff2165..1611a5b 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -593,6 +593,11 @@ impl<'a> Iterator for Iter<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|node| (node.key.as_str(), &node.value))
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for Iter<'a> {
@@ -628,6 +633,11 @@ impl<'a> Iterator for IterMut<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|node| (node.key.as_str(), &mut node.value))
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for IterMut<'a> {
-- 
2.43.0


From eeee8a6923115cb80ba51780d1b8a129a2bf309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:50 +0000
Subject: [PATCH 12/13] fix: consume of a generator never makes a String of
 invalid UTF-8

---
 src/codegen.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 3396bc4..152ba94 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -195,9 +195,7 @@ impl DumpGenerator {
     }
 
     pub fn consume(self) -> String {
-        // Original strings were unicode, numbers are all ASCII,
-        // therefore this is safe.
-        unsafe { String::from_utf8_unchecked(self.code) }
+        into_string(self.code)
     }
 }
 
@@ -244,7 +242,7 @@ impl PrettyGenerator {
     }
 
     pub fn consume(self) -> String {
-        unsafe { String::from_utf8_unchecked(self.code) }
+        into_string(self.code)
     }
 }
 
@@ -365,6 +363,14 @@ impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write {
     }
 }
 
+// Values only write valid UTF-8, but anyone can write any bytes to a generator
+// (`Generator::write`, `Generator::get_writer`), so this has to be checked.
+fn into_string(code: Vec<u8>) -> String {
+    String::from_utf8(code).unwrap_or_else(|err| {
+        String::from_utf8_lossy(err.as_bytes()).into_owned()
+    })
+}
+
 // From: https://github.com/dtolnay/fastwrite/blob/master/src/lib.rs#L68
 //
 // LLVM is not able to lower `Vec::extend_from_slice` into a memcpy, so this
-- 
2.43.0


From 86e98af2c262cf43568745317be5f18c44e10215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:34 +0000
Subject: [PATCH 13/13] fix: indent levels beyond 65535 of the pretty
 generators

The counter of open indents was a u16: a value nested deeper than 65535
levels panicked (or, without overflow checks, was indented by the level
modulo 65536) when pretty printed.
---
 src/codegen.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 152ba94..8130eb6 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -228,7 +228,7 @@ impl Generator for DumpGenerator {
 /// Pretty In-Memory Generator, this uses a Vec to store the JSON result and add indent.
 pub struct PrettyGenerator {
     code: Vec<u8>,
-    dent: u16,
+    dent: usize,
     spaces_per_indent: u16,
 }
 
@@ -274,7 +274,7 @@ impl Generator for PrettyGenerator {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.code.push(b'\n');
-        for _ in 0..(u32::from(self.dent) * u32::from(self.spaces_per_indent)) {
+        for _ in 0..(self.dent as u64 * u64::from(self.spaces_per_indent)) {
             self.code.push(b' ');
         }
         Ok(())
@@ -319,7 +319,7 @@ impl<'a, W> Generator for WriterGenerator<'a, W> where W: Write {
 /// Pretty Writer Generator, this uses a custom writer to store the JSON result and add indent.
 pub struct PrettyWriterGenerator<'a, W: 'a + Write> {
     writer: &'a mut W,
-    dent: u16,
+    dent: usize,
     spaces_per_indent: u16,
 }
 
@@ -348,7 +348,7 @@ impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.write_char(b'\n')?;
-        for _ in 0..(u32::from(self.dent) * u32::from(self.spaces_per_indent)) {
+        for _ in 0..(self.dent as u64 * u64::from(self.spaces_per_indent)) {
             self.write_char(b' ')?;
         }
         Ok(())
-- 
2.43.0

