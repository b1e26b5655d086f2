From 69637146aed442e27aa72f7dda4723fb1cced4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 01/14] fix: report a refused allocation as OutOfMemory instead
 of aborting

Growing a NominalString past its inline capacity, or growing its heap
string, aborted the process when the allocator refused the request, even
though the push functions and the formatting functions report
OutOfMemoryError / Error::OutOfMemory.
---
 src/nominalstring.rs | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/nominalstring.rs b/src/nominalstring.rs
index 0324111..b5d41ed 100644
--- a/src/nominalstring.rs
+++ b/src/nominalstring.rs
@@ -61,8 +61,9 @@ impl NominalString {
     ///
     /// # Errors
     ///
-    /// Returns [`OutOfMemoryError`] if no additional space is available and the
-    /// `alloc` feature is disabled.
+    /// Returns [`OutOfMemoryError`] if no additional space is available: either
+    /// the inline capacity is exhausted and the `alloc` feature is disabled, or
+    /// the memory needed could not be allocated.
     pub fn try_push(&mut self, ch: char) -> Result<(), OutOfMemoryError> {
         self.0.push(ch)
     }
@@ -71,8 +72,9 @@ impl NominalString {
     ///
     /// # Errors
     ///
-    /// Returns [`OutOfMemoryError`] if no additional space is available and the
-    /// `alloc` feature is disabled.
+    /// Returns [`OutOfMemoryError`] if no additional space is available: either
+    /// the inline capacity is exhausted and the `alloc` feature is disabled, or
+    /// the memory needed could not be allocated.
     pub fn try_push_str(&mut self, str: &str) -> Result<(), OutOfMemoryError> {
         self.0.push_str(str)
     }
@@ -81,8 +83,9 @@ impl NominalString {
     ///
     /// # Errors
     ///
-    /// Returns [`OutOfMemoryError`] if no additional space is available and the
-    /// `alloc` feature is disabled.
+    /// Returns [`OutOfMemoryError`] if no additional space is available: either
+    /// the inline capacity is exhausted and the `alloc` feature is disabled, or
+    /// the memory needed could not be allocated.
     pub fn try_push_front(&mut self, ch: char) -> Result<(), OutOfMemoryError> {
         self.0.push_front(ch)
     }
@@ -443,7 +446,7 @@ impl MaybeInline {
                 } else {
                     #[cfg(feature = "alloc")]
                     {
-                        let mut string = String::with_capacity(usize::from(new_length));
+                        let mut string = try_string_with_capacity(usize::from(new_length))?;
                         string.push_str(inline.as_str());
                         string.push(ch);
                         *self = MaybeInline::Heap(string);
@@ -455,7 +458,10 @@ impl MaybeInline {
                 }
             }
             #[cfg(feature = "alloc")]
-            MaybeInline::Heap(s) => s.push(ch),
+            MaybeInline::Heap(s) => {
+                s.try_reserve(ch.len_utf8()).map_err(|_| OutOfMemoryError)?;
+                s.push(ch);
+            }
         }
         Ok(())
     }
@@ -478,7 +484,7 @@ impl MaybeInline {
                 #[cfg(feature = "alloc")]
                 {
                     let new_length = inline.len_usize() + str.len();
-                    let mut string = String::with_capacity(new_length);
+                    let mut string = try_string_with_capacity(new_length)?;
                     string.push_str(inline.as_str());
                     string.push_str(str);
                     *self = MaybeInline::Heap(string);
@@ -491,6 +497,7 @@ impl MaybeInline {
             }
             #[cfg(feature = "alloc")]
             MaybeInline::Heap(s) => {
+                s.try_reserve(str.len()).map_err(|_| OutOfMemoryError)?;
                 s.push_str(str);
                 Ok(())
             }
@@ -509,7 +516,7 @@ impl MaybeInline {
                 } else {
                     #[cfg(feature = "alloc")]
                     {
-                        let mut string = String::with_capacity(usize::from(new_length));
+                        let mut string = try_string_with_capacity(usize::from(new_length))?;
                         string.push(ch);
                         string.push_str(inline.as_str());
                         *self = MaybeInline::Heap(string);
@@ -521,7 +528,10 @@ impl MaybeInline {
                 }
             }
             #[cfg(feature = "alloc")]
-            MaybeInline::Heap(s) => s.insert(0, ch),
+            MaybeInline::Heap(s) => {
+                s.try_reserve(ch.len_utf8()).map_err(|_| OutOfMemoryError)?;
+                s.insert(0, ch);
+            }
         }
         Ok(())
     }
@@ -543,6 +553,16 @@ impl MaybeInline {
     }
 }
 
+/// Returns an empty string with room for `capacity` bytes.
+#[cfg(feature = "alloc")]
+fn try_string_with_capacity(capacity: usize) -> Result<String, OutOfMemoryError> {
+    let mut string = String::new();
+    string
+        .try_reserve(capacity)
+        .map_err(|_| OutOfMemoryError)?;
+    Ok(string)
+}
+
 /// Was unable to allocate additional memory.
 #[derive(Debug, Clone, Copy, Eq, PartialEq)]
 pub struct OutOfMemoryError;
-- 
2.43.0


From 4b685ae67f305150585cecb50924b3c29314f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 02/14] fix: report symbols too long for the available memory
 as OutOfMemory

An enumerated symbol or additive zero symbol longer than the inline
capacity panicked without the alloc feature, and aborted with it when the
allocation was refused.
---
 src/additive.rs   | 3 ++-
 src/enumerated.rs | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/additive.rs b/src/additive.rs
index 175f076..44743fd 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -41,7 +41,8 @@ where
         let mut remaining = nominal;
         if remaining.is_zero() {
             return if let Some(zero) = self.zero {
-                Ok(NominalString::from(zero))
+                formatted.try_push_str(zero).with_nominal(nominal)?;
+                Ok(formatted)
             } else {
                 Err(Error::NoZeroSymbol)
             };
diff --git a/src/enumerated.rs b/src/enumerated.rs
index c638bb3..2c11fd5 100644
--- a/src/enumerated.rs
+++ b/src/enumerated.rs
@@ -1,4 +1,4 @@
-use crate::{Error, Nominal, NominalString, NominalSystem};
+use crate::{Error, Nominal, NominalString, NominalSystem, WithNominal};
 
 /// A set of enumerated symbols that form a [`NominalSystem`].
 pub struct EnumeratedSet<const N: usize, const HAS_ZERO: bool> {
@@ -35,7 +35,9 @@ where
         if !HAS_ZERO && nominal.is_zero() {
             Err(Error::NoZeroSymbol)
         } else if let Some(&symbol) = self.symbols.get(n - usize::from(!HAS_ZERO)) {
-            Ok(symbol.into())
+            let mut formatted = NominalString::new();
+            formatted.try_push_str(symbol).with_nominal(nominal)?;
+            Ok(formatted)
         } else {
             Err(Error::OutOfBounds(nominal))
         }
-- 
2.43.0


From 2a6b3f9bf7dfc00aa1cc77a75debd3f0a1d893fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 03/14] fix: return OutOfBounds for collections that can't
 represent a number

A collection holding only a zero digit looped forever on any other
number, and an empty collection panicked with a division by zero.
---
 src/digital.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/digital.rs b/src/digital.rs
index 38cba9c..7d2f3b8 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -578,6 +578,12 @@ where
         }
 
         let one = T::from(1_u8);
+        if count.is_zero() || (count == one && self.has_zero_digit() && !nominal.is_zero()) {
+            // An empty collection can't represent any number, and a collection
+            // consisting of only a zero digit can't represent any other number.
+            return Err(Error::OutOfBounds(nominal));
+        }
+
         let mut formatted = NominalString::new_reverse();
 
         let mut remaining = nominal;
-- 
2.43.0


From e25126d44c0c6e8df0018304715641d89ed7451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 04/14] fix: honor one-based counting when a collection
 outgrows the integer type

A one-based collection with more digits than the integer type has values
formatted every number with the following digit, and zero with the first.
---
 src/digital.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 7d2f3b8..4c8ad9d 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -560,7 +560,12 @@ where
 {
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         let Ok(mut count) = T::try_from(self.len()) else {
-            return Ok(NominalString::from(self.digit(nominal.as_usize())));
+            // There are more digits than values of `T`.
+            let mut index = nominal.as_usize();
+            if !self.has_zero_digit() && !self.zero_based() {
+                index = index.checked_sub(1).ok_or(Error::NoZeroSymbol)?;
+            }
+            return Ok(NominalString::from(self.digit(index)));
         };
         if self.fixed()
             && (if self.zero_based() {
-- 
2.43.0


From 67b759054630de56fd7061ba5099c7b0930681d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 05/14] fix: keep fixed collections fixed when one-based or
 restricted

OneBased and Restrict did not forward DigitCollection::fixed, so wrapping
a fixed collection produced multiple digits instead of its fallback.
---
 src/digital.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 4c8ad9d..9e0cc52 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -75,6 +75,10 @@ where
 {
     type Fallback = T::Fallback;
 
+    fn fixed(&self) -> bool {
+        self.0.fixed()
+    }
+
     fn has_zero_digit(&self) -> bool {
         self.0.has_zero_digit()
     }
@@ -486,6 +490,10 @@ where
 {
     type Fallback = T::Fallback;
 
+    fn fixed(&self) -> bool {
+        self.0.fixed()
+    }
+
     fn has_zero_digit(&self) -> bool {
         self.0.has_zero_digit()
     }
@@ -568,7 +576,7 @@ where
             return Ok(NominalString::from(self.digit(index)));
         };
         if self.fixed()
-            && (if self.zero_based() {
+            && (if self.has_zero_digit() || self.zero_based() {
                 nominal >= count
             } else {
                 nominal > count
-- 
2.43.0


From ee4c23a312d0991ba3022ee16ff95b039b5f3b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 06/14] fix: reject numbers an additive set can't represent

When the smallest symbol did not divide the number, the remainder was
silently dropped.
---
 src/additive.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/additive.rs b/src/additive.rs
index 44743fd..571464c 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -62,7 +62,11 @@ where
             }
         }
 
-        Ok(formatted)
+        if remaining.is_zero() {
+            Ok(formatted)
+        } else {
+            Err(Error::OutOfBounds(nominal))
+        }
     }
 }
 
-- 
2.43.0


From 80750311f68d7a02ba2a39dda2406059a92c6681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 07/14] fix: forward format_nominal through Box, Rc and Arc

A system that overrides format_nominal lost its override when used
through one of the pointer implementations.
---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index bd5f15d..dc41af7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,6 +60,10 @@ impl<T> NominalSystem<T> for alloc::boxed::Box<dyn NominalSystem<T>>
 where
     T: Nominal,
 {
+    fn format_nominal(&self, nominal: T) -> NominalString {
+        self.as_ref().format_nominal(nominal)
+    }
+
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         self.as_ref().try_format_nominal(nominal)
     }
@@ -70,6 +74,10 @@ impl<T> NominalSystem<T> for alloc::rc::Rc<dyn NominalSystem<T>>
 where
     T: Nominal,
 {
+    fn format_nominal(&self, nominal: T) -> NominalString {
+        self.as_ref().format_nominal(nominal)
+    }
+
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         self.as_ref().try_format_nominal(nominal)
     }
@@ -80,6 +88,10 @@ impl<T> NominalSystem<T> for alloc::sync::Arc<dyn NominalSystem<T>>
 where
     T: Nominal,
 {
+    fn format_nominal(&self, nominal: T) -> NominalString {
+        self.as_ref().format_nominal(nominal)
+    }
+
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         self.as_ref().try_format_nominal(nominal)
     }
-- 
2.43.0


From 8bca3a404d5f9753e7409cb6c8e5dd8d461c57a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 08/14] fix: mark skipped groups of zeros in Chinese numerals
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

When a whole group of digits was zero and the next group began with a
non-zero thousands digit, the zero between them was dropped, for example
100000030000000 was formatted as 一百兆三千万 instead of 一百兆零三千万.
---
 src/chinese.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/chinese.rs b/src/chinese.rs
index bb07b80..a100d8f 100644
--- a/src/chinese.rs
+++ b/src/chinese.rs
@@ -250,6 +250,7 @@ impl ChineseScale {
             characters,
             large_characters,
             nominal,
+            None,
             true,
             &mut false,
         )
@@ -260,6 +261,7 @@ impl ChineseScale {
         characters: &[char; 14],
         large_characters: &[char; 11],
         nominal: T,
+        limit: Option<T>,
         no_prefix: bool,
         last_char_is_zero: &mut bool,
     ) -> Result<NominalString, ChineseFormatError>
@@ -272,6 +274,7 @@ impl ChineseScale {
             characters,
             large_characters,
             nominal,
+            limit,
             no_prefix,
             last_char_is_zero,
         )
@@ -283,6 +286,7 @@ impl ChineseScale {
         characters: &[char; 14],
         large_characters: &[char; 11],
         nominal: T,
+        limit: Option<T>,
         no_prefix: bool,
         last_char_is_zero: &mut bool,
     ) -> Result<NominalString, ChineseFormatError>
@@ -296,6 +300,7 @@ impl ChineseScale {
                 characters,
                 large_characters,
                 nominal,
+                limit,
                 no_prefix,
                 last_char_is_zero,
             )
@@ -311,6 +316,7 @@ impl ChineseScale {
         characters: &[char; 14],
         large_characters: &[char; 11],
         nominal: T,
+        limit: Option<T>,
         no_prefix: bool,
         last_char_is_zero: &mut bool,
     ) -> Result<NominalString, ChineseFormatError>
@@ -324,6 +330,7 @@ impl ChineseScale {
                 characters,
                 large_characters,
                 nominal,
+                limit,
                 no_prefix,
                 last_char_is_zero,
             );
@@ -331,11 +338,13 @@ impl ChineseScale {
         let remaining = nominal % scale;
         let rank_value = nominal / scale;
 
+        let mut rank_limit = None;
         if let Some(previous_scale) = scales.get(rank + 1).copied().flatten() {
             let factor = previous_scale / scale;
             if rank_value >= factor {
                 return Err(ChineseFormatError::OutOfBounds);
             }
+            rank_limit = Some(factor);
         } else if rank > 0 {
             let factor = scale / scales[rank - 1].expect("rank is valid");
             if rank_value >= factor {
@@ -343,7 +352,18 @@ impl ChineseScale {
             }
         }
         let mut formatted = if rank_value.is_zero() {
-            NominalString::new()
+            let mut skipped = NominalString::new();
+            // When `nominal` has digits at this rank and all of them are zero,
+            // the digits following the gap must be preceded by a zero.
+            if !no_prefix
+                && !*last_char_is_zero
+                && !remaining.is_zero()
+                && limit.map_or(false, |limit| limit > scale)
+            {
+                skipped.try_push(characters[0])?;
+                *last_char_is_zero = true;
+            }
+            skipped
         } else {
             let mut rank_formatted = Self::format_next_scaled_rank::<T, FORMAL, N>(
                 rank,
@@ -351,6 +371,7 @@ impl ChineseScale {
                 characters,
                 large_characters,
                 rank_value,
+                rank_limit,
                 no_prefix,
                 last_char_is_zero,
             )?;
@@ -369,6 +390,7 @@ impl ChineseScale {
                 characters,
                 large_characters,
                 remaining,
+                Some(limit.map_or(scale, |limit| limit.min(scale))),
                 formatted.is_empty() && no_prefix,
                 last_char_is_zero,
             )?;
-- 
2.43.0


From 51e076db0394b585331325247a606577522b0327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 09/14] fix: remove a stray space from the Armenian uppercase
 symbol for 1

---
 src/additive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/additive.rs b/src/additive.rs
index 571464c..0fc994d 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -247,7 +247,7 @@ where
             ("Դ", 4),
             ("Գ", 3),
             ("Բ", 2),
-            ("Ա ", 1),
+            ("Ա", 1),
         ])
         .try_format_nominal(nominal)
     }
-- 
2.43.0


From 2ff1ae7a200ad2c471d495362bd663d7b65270a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 10/14] fix: never ask a restricted collection for digits it
 doesn't have

Restrict reported `count` digits even if the collection it wraps is shorter,
which made formatting panic with an index out of bounds.
---
 src/digital.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/digital.rs b/src/digital.rs
index 9e0cc52..089de25 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -478,7 +478,8 @@ where
 pub struct Restrict<T>(T, usize);
 
 impl<T> Restrict<T> {
-    /// Returns a new type that restricts `collection` to `count` digits.
+    /// Returns a new type that restricts `collection` to at most `count`
+    /// digits.
     pub const fn new(count: usize, collection: T) -> Self {
         Self(collection, count)
     }
@@ -503,7 +504,7 @@ where
     }
 
     fn len(&self) -> usize {
-        self.1
+        self.1.min(self.0.len())
     }
 
     fn digit(&self, index: usize) -> char {
-- 
2.43.0


From 309e949a94b937dd7f2f4ae6891f67a78f3698eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 11/14] fix: write 900,000 and 90,000 in Roman numerals as CM
 and XC
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

They were D̅M̅ and L̅C̅: half a unit subtracted from that unit.
---
 README.md                  | 4 ++--
 src/.crate-docs.md         | 4 ++--
 src/additive.rs            | 8 ++++----
 src/previews/RomanLower.md | 2 +-
 src/previews/RomanUpper.md | 2 +-
 src/previews/index.md      | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/README.md b/README.md
index 3a2726a..13a5c87 100644
--- a/README.md
+++ b/README.md
@@ -55,8 +55,8 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`Decimal`](https://khonsulabs.github.io/nominals/main/nominals/struct.Decimal.html): 0‎ 1‎ 2‎ 3‎ 4‎ …‎ 9‎ 10‎ 11‎ 12‎ …‎ 99‎ 100‎ 101‎ 102
 - [`LetterLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.LetterLower.html): a‎ b‎ c‎ d‎ e‎ …‎ z‎ aa‎ ab‎ ac‎ …‎ yz‎ za‎ zb‎ zc
 - [`LetterUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.LetterUpper.html): A‎ B‎ C‎ D‎ E‎ …‎ Z‎ AA‎ AB‎ AC‎ …‎ YZ‎ ZA‎ ZB‎ ZC
-- [`RomanLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanLower.html): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ d̅m̅l̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
-- [`RomanUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanUpper.html): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ D̅M̅L̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
+- [`RomanLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanLower.html): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ c̅m̅x̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
+- [`RomanUpper`](https://khonsulabs.github.io/nominals/main/nominals/struct.RomanUpper.html): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ C̅M̅X̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
 - [`CircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.CircledNumber.html): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](https://khonsulabs.github.io/nominals/main/nominals/struct.DoubleCircledNumber.html): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](https://khonsulabs.github.io/nominals/main/nominals/struct.ArmenianLower.html): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
diff --git a/src/.crate-docs.md b/src/.crate-docs.md
index 11b184b..dc71517 100644
--- a/src/.crate-docs.md
+++ b/src/.crate-docs.md
@@ -53,8 +53,8 @@ This crate is `no_std` compatible, and can operate both with and without
 - [`Decimal`](Decimal): 0‎ 1‎ 2‎ 3‎ 4‎ …‎ 9‎ 10‎ 11‎ 12‎ …‎ 99‎ 100‎ 101‎ 102
 - [`LetterLower`](LetterLower): a‎ b‎ c‎ d‎ e‎ …‎ z‎ aa‎ ab‎ ac‎ …‎ yz‎ za‎ zb‎ zc
 - [`LetterUpper`](LetterUpper): A‎ B‎ C‎ D‎ E‎ …‎ Z‎ AA‎ AB‎ AC‎ …‎ YZ‎ ZA‎ ZB‎ ZC
-- [`RomanLower`](RomanLower): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ d̅m̅l̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
-- [`RomanUpper`](RomanUpper): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ D̅M̅L̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
+- [`RomanLower`](RomanLower): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ c̅m̅x̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
+- [`RomanUpper`](RomanUpper): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ C̅M̅X̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
 - [`CircledNumber`](CircledNumber): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`](DoubleCircledNumber): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`](ArmenianLower): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
diff --git a/src/additive.rs b/src/additive.rs
index 0fc994d..c82875e 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -92,11 +92,11 @@ where
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         AdditiveSet::new([
             ("m̅", 1_000_000),
-            ("d̅m̅", 900_000),
+            ("c̅m̅", 900_000),
             ("d̅", 500_000),
             ("c̅d̅", 400_000),
             ("c̅", 100_000),
-            ("l̅c̅", 90_000),
+            ("x̅c̅", 90_000),
             ("l̅", 50_000),
             ("x̅l̅", 40_000),
             ("x̅", 10_000),
@@ -144,11 +144,11 @@ where
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         AdditiveSet::new([
             ("M̅", 1_000_000),
-            ("D̅M̅", 900_000),
+            ("C̅M̅", 900_000),
             ("D̅", 500_000),
             ("C̅D̅", 400_000),
             ("C̅", 100_000),
-            ("L̅C̅", 90_000),
+            ("X̅C̅", 90_000),
             ("L̅", 50_000),
             ("X̅L̅", 40_000),
             ("X̅", 10_000),
diff --git a/src/previews/RomanLower.md b/src/previews/RomanLower.md
index 5a2d439..a933ab8 100644
--- a/src/previews/RomanLower.md
+++ b/src/previews/RomanLower.md
@@ -17,6 +17,6 @@
 | 4000    | i̅v̅           |
 | 4001    | i̅v̅i          |
 | …       | …            |
-| 999999  | d̅m̅l̅c̅i̅x̅cmxcix |
+| 999999  | c̅m̅x̅c̅i̅x̅cmxcix |
 | 1000000 | m̅            |
 | 1000001 | m̅i           |
diff --git a/src/previews/RomanUpper.md b/src/previews/RomanUpper.md
index 78f1f66..70be120 100644
--- a/src/previews/RomanUpper.md
+++ b/src/previews/RomanUpper.md
@@ -17,6 +17,6 @@
 | 4000    | I̅V̅           |
 | 4001    | I̅V̅I          |
 | …       | …            |
-| 999999  | D̅M̅L̅C̅I̅X̅CMXCIX |
+| 999999  | C̅M̅X̅C̅I̅X̅CMXCIX |
 | 1000000 | M̅            |
 | 1000001 | M̅I           |
diff --git a/src/previews/index.md b/src/previews/index.md
index ba2d42e..655e1c9 100644
--- a/src/previews/index.md
+++ b/src/previews/index.md
@@ -1,8 +1,8 @@
 - [`Decimal`]($NominalSystemDocPrefix$Decimal$NominalSystemDocSuffix$): 0‎ 1‎ 2‎ 3‎ 4‎ …‎ 9‎ 10‎ 11‎ 12‎ …‎ 99‎ 100‎ 101‎ 102
 - [`LetterLower`]($NominalSystemDocPrefix$LetterLower$NominalSystemDocSuffix$): a‎ b‎ c‎ d‎ e‎ …‎ z‎ aa‎ ab‎ ac‎ …‎ yz‎ za‎ zb‎ zc
 - [`LetterUpper`]($NominalSystemDocPrefix$LetterUpper$NominalSystemDocSuffix$): A‎ B‎ C‎ D‎ E‎ …‎ Z‎ AA‎ AB‎ AC‎ …‎ YZ‎ ZA‎ ZB‎ ZC
-- [`RomanLower`]($NominalSystemDocPrefix$RomanLower$NominalSystemDocSuffix$): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ d̅m̅l̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
-- [`RomanUpper`]($NominalSystemDocPrefix$RomanUpper$NominalSystemDocSuffix$): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ D̅M̅L̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
+- [`RomanLower`]($NominalSystemDocPrefix$RomanLower$NominalSystemDocSuffix$): i‎ ii‎ iii‎ iv‎ v‎ vi‎ …‎ ix‎ x‎ xi‎ …‎ mmmcmxcix‎ i̅v̅‎ i̅v̅i‎ …‎ c̅m̅x̅c̅i̅x̅cmxcix‎ m̅‎ m̅i
+- [`RomanUpper`]($NominalSystemDocPrefix$RomanUpper$NominalSystemDocSuffix$): I‎ II‎ III‎ IV‎ V‎ VI‎ …‎ IX‎ X‎ XI‎ …‎ MMMCMXCIX‎ I̅V̅‎ I̅V̅I‎ …‎ C̅M̅X̅C̅I̅X̅CMXCIX‎ M̅‎ M̅I
 - [`CircledNumber`]($NominalSystemDocPrefix$CircledNumber$NominalSystemDocSuffix$): ⓪‎ ①‎ ②‎ ③‎ ④‎ …‎ ⑨‎ ⑩‎ ⑪‎ ⑫‎ …‎ ㊽‎ ㊾‎ ㊿
 - [`DoubleCircledNumber`]($NominalSystemDocPrefix$DoubleCircledNumber$NominalSystemDocSuffix$): ⓵‎ ⓶‎ ⓷‎ ⓸‎ ⓹‎ ⓺‎ ⓻‎ ⓼‎ ⓽‎ ⓾
 - [`ArmenianLower`]($NominalSystemDocPrefix$ArmenianLower$NominalSystemDocSuffix$): ա‎ բ‎ գ‎ …‎ թ‎ ժ‎ ժա‎ ժբ‎ …‎ ղթ‎ ճ‎ ճա
-- 
2.43.0


From 8d21c46e2bddb8ed223cc9ceccb0f65c133685c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 12/14] fix: chaining collections whose lengths add up to more
 than usize::MAX

Chain::len overflowed, so formatting panicked in debug builds and used a
wrapped, wrong length in release builds.
---
 src/digital.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 089de25..f22940f 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -461,7 +461,7 @@ where
     }
 
     fn len(&self) -> usize {
-        self.a.len() + self.b.len()
+        self.a.len().saturating_add(self.b.len())
     }
 
     fn digit(&self, index: usize) -> char {
-- 
2.43.0


From 4f913ffdca6fe0d625f7d4599e0f035a77c34ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 13/14] fix: additive sets repeated an empty symbol once per
 unit of the number

---
 src/additive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/additive.rs b/src/additive.rs
index c82875e..5aaf5d8 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -56,6 +56,11 @@ where
             let Ok(value_as_t) = T::try_from(value) else {
                 continue;
             };
+            if symbol.is_empty() {
+                // Repeating an empty symbol doesn't change the text.
+                remaining %= value_as_t;
+                continue;
+            }
             while remaining >= value_as_t {
                 remaining -= value_as_t;
                 formatted.try_push_str(symbol).with_nominal(nominal)?;
-- 
2.43.0


From fed030e712a6aee624695eae63218562317acad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:23 +0000
Subject: [PATCH 14/14] fix: a long numeral in a one-digit collection moved its
 text once per digit

Every digit was pushed to the front, which moves everything before it once the
text is on the heap: a unary numeral of n digits moved n^2/2 bytes. The digits
are now pushed to the end and put in order at the end.
---
 src/digital.rs       |  7 +++++--
 src/nominalstring.rs | 17 +++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/digital.rs b/src/digital.rs
index f22940f..08dff0c 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -598,7 +598,9 @@ where
             return Err(Error::OutOfBounds(nominal));
         }
 
-        let mut formatted = NominalString::new_reverse();
+        // The digits are found in reverse order, and are put in order once all
+        // are known: pushing each to the front would move everything before it.
+        let mut formatted = NominalString::new();
 
         let mut remaining = nominal;
         let mut first_loop = true;
@@ -613,7 +615,7 @@ where
             first_loop = false;
 
             formatted
-                .try_push_front(self.digit((remaining % count).as_usize()))
+                .try_push(self.digit((remaining % count).as_usize()))
                 .with_nominal(nominal)?;
             remaining /= count;
             count = match T::try_from(self.len()) {
@@ -622,6 +624,7 @@ where
             };
         }
 
+        formatted.reverse_chars();
         Ok(formatted)
     }
 }
diff --git a/src/nominalstring.rs b/src/nominalstring.rs
index b5d41ed..49791e5 100644
--- a/src/nominalstring.rs
+++ b/src/nominalstring.rs
@@ -90,6 +90,23 @@ impl NominalString {
         self.0.push_front(ch)
     }
 
+    /// Reverses the order of the characters in this string.
+    pub(crate) fn reverse_chars(&mut self) {
+        // SAFETY: Reversing the bytes of every character followed by reversing
+        // all bytes puts the bytes of each character back in order, which
+        // leaves only valid UTF-8.
+        let bytes = unsafe { self.as_bytes_mut() };
+        let mut start = 0;
+        for index in 1..=bytes.len() {
+            // Continuation bytes belong to the character before them.
+            if index == bytes.len() || bytes[index] & 0xC0 != 0x80 {
+                bytes[start..index].reverse();
+                start = index;
+            }
+        }
+        bytes.reverse();
+    }
+
     /// Returns true if this string is currently stored on the stack.
     #[must_use]
     pub fn is_inline(&self) -> bool {
-- 
2.43.0

