From 53041dadd416cf18f8c503ce55ea51ca1c7b7e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 01/22] fix: Repeat must not stop at an element with an empty
 encoding

---
 src/combinator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 3f0bcbf..751615c 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -424,7 +424,7 @@ where
 
             let size = track!(self.inner.encode(&mut buf[offset..], eos))?;
             offset += size;
-            if size == 0 {
+            if size == 0 && !self.inner.is_idle() {
                 return Ok(offset);
             }
         }
-- 
2.43.0


From 5650731218532276fe40574e28b60587357d044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 02/22] fix: Collect must complete or reject its pending item
 when EOS arrives in a separate call

---
 src/combinator.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 751615c..8f64ef4 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -586,6 +586,7 @@ impl<E: SizedEncode> SizedEncode for Optional<E> {
 pub struct Collect<D, T> {
     inner: D,
     items: T,
+    is_decoding: bool,
     eos: bool,
 }
 impl<D, T: Default> Collect<D, T> {
@@ -608,6 +609,7 @@ impl<D, T: Default> Collect<D, T> {
         Collect {
             inner,
             items: T::default(),
+            is_decoding: false,
             eos: false,
         }
     }
@@ -625,11 +627,21 @@ where
         }
 
         let mut offset = 0;
-        while offset < buf.len() {
-            bytecodec_try_decode!(self.inner, offset, buf, eos);
+        while offset < buf.len() || (self.is_decoding && eos.is_reached()) {
+            if !self.inner.is_idle() {
+                let size = track!(self.inner.decode(&buf[offset..], eos))?;
+                offset += size;
+                if size != 0 {
+                    self.is_decoding = true;
+                }
+                if !self.inner.is_idle() {
+                    return Ok(offset);
+                }
+            }
 
             let item = track!(self.inner.finish_decoding())?;
             self.items.extend(iter::once(item));
+            self.is_decoding = false;
         }
         if eos.is_reached() {
             self.eos = true;
-- 
2.43.0


From e83c76e75e9c060b371294496f13f543fb37d659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 03/22] fix: Collect must not loop forever on items that
 consume no bytes

---
 src/combinator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index 8f64ef4..efbf11f 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -640,6 +640,11 @@ where
             }
 
             let item = track!(self.inner.finish_decoding())?;
+            track_assert!(
+                self.is_decoding,
+                ErrorKind::InvalidInput,
+                "Items that consume no bytes cannot be collected until EOS"
+            );
             self.items.extend(iter::once(item));
             self.is_decoding = false;
         }
-- 
2.43.0


From d5febe9e259be80047605451ad5fd081da34550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 04/22] fix: CollectN must let items complete on an empty
 buffer (EOS or zero-sized items)

---
 src/combinator.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index efbf11f..6351e31 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -868,16 +868,21 @@ where
 
     fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
         let mut offset = 0;
-        while self.remaining_items != 0 && offset < buf.len() {
-            bytecodec_try_decode!(self.inner, offset, buf, eos);
+        while self.remaining_items != 0 {
+            if !self.inner.is_idle() {
+                offset += track!(self.inner.decode(&buf[offset..], eos))?;
+                if !self.inner.is_idle() {
+                    if offset == buf.len() {
+                        track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
+                    }
+                    break;
+                }
+            }
 
             let item = track!(self.inner.finish_decoding())?;
             self.items.extend(iter::once(item));
             self.remaining_items -= 1;
         }
-        if self.remaining_items != 0 {
-            track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
-        }
         Ok(offset)
     }
 
-- 
2.43.0


From 29d6d6a349affc2862f04f8680054a8d31ae2e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 05/22] fix: MonolithicDecoder must not consume bytes while an
 item is waiting

---
 src/monolithic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index cdd14db..f0bde91 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -50,6 +50,9 @@ impl<D: MonolithicDecode> Decode for MonolithicDecoder<D> {
     type Item = D::Item;
 
     fn decode(&mut self, mut buf: &[u8], eos: Eos) -> Result<usize> {
+        if self.item.is_some() {
+            return Ok(0);
+        }
         if eos.is_reached() {
             let original_len = buf.len();
             let item = track!(
-- 
2.43.0


From 8c433df4655eb8218a918a64333e36d530667e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 06/22] fix: MonolithicDecoder must drop the buffered bytes of
 a message that failed to parse

---
 src/monolithic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index f0bde91..fefd15c 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -55,12 +55,12 @@ impl<D: MonolithicDecode> Decode for MonolithicDecoder<D> {
         }
         if eos.is_reached() {
             let original_len = buf.len();
-            let item = track!(
+            let result = track!(
                 self.inner.monolithic_decode(self.buf.as_slice().chain(buf.by_ref()));
                 original_len, self.buf.len(), buf.len(), eos
-            )?;
+            );
             self.buf.clear();
-            self.item = Some(item);
+            self.item = Some(result?);
             Ok(original_len - buf.len())
         } else {
             self.buf.extend_from_slice(buf);
-- 
2.43.0


From 965a5a5ccc3517a2bd85548df87e27692946a685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 07/22] fix: MonolithicEncoder must report a message that does
 not fit before EOS

---
 src/monolithic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/monolithic.rs b/src/monolithic.rs
index fefd15c..eb4edd1 100644
--- a/src/monolithic.rs
+++ b/src/monolithic.rs
@@ -144,6 +144,7 @@ impl<E: MonolithicEncode> Encode for MonolithicEncoder<E> {
                 Ok(original_len - buf.len())
             } else {
                 track!(self.buf.start_encoding(extra))?;
+                track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
                 Ok(original_len)
             }
         } else {
-- 
2.43.0


From b1bf57e00de68b34c1a44f83505fbe11b0ece942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 08/22] fix: BincodeDecoder must not allocate according to an
 unverified announced length

---
 src/bincode_codec.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/bincode_codec.rs b/src/bincode_codec.rs
index fc5115c..c76b2ff 100644
--- a/src/bincode_codec.rs
+++ b/src/bincode_codec.rs
@@ -2,7 +2,8 @@
 //!
 //! [bincode]: https://crates.io/crates/bincode
 use crate::monolithic::{MonolithicDecode, MonolithicDecoder, MonolithicEncode, MonolithicEncoder};
-use crate::{ByteCount, Decode, Encode, Eos, ErrorKind, Result};
+use crate::{ByteCount, Decode, Encode, Eos, Error, ErrorKind, Result};
+use bincode::Options;
 use serde::{Deserialize, Serialize};
 use std::io::{Read, Write};
 use std::marker::PhantomData;
@@ -74,10 +75,14 @@ where
 {
     type Item = T;
 
-    fn monolithic_decode<R: Read>(&self, reader: R) -> Result<Self::Item> {
-        track!(
-            bincode::deserialize_from(reader).map_err(|e| ErrorKind::InvalidInput.cause(e).into())
-        )
+    fn monolithic_decode<R: Read>(&self, mut reader: R) -> Result<Self::Item> {
+        // NOTE: `bincode::deserialize_from` allocates whatever length the input announces
+        let mut bytes = Vec::new();
+        track!(reader.read_to_end(&mut bytes).map_err(Error::from))?;
+        let options = bincode::DefaultOptions::new().with_fixint_encoding();
+        track!(options
+            .deserialize(&bytes)
+            .map_err(|e| ErrorKind::InvalidInput.cause(e).into()))
     }
 }
 
-- 
2.43.0


From ba2b3a64676bab5b46a033946d9d5579d4681015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 09/22] fix: Length encoder must report its readiness correctly
 and be reusable

---
 src/combinator.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 6351e31..d6064b0 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -770,6 +770,10 @@ impl<E: Encode> Encode for Length<E> {
     type Item = E::Item;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
+        if self.is_idle() {
+            return Ok(0);
+        }
+
         if (buf.len() as u64) < self.remaining_bytes {
             track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
@@ -782,8 +786,10 @@ impl<E: Encode> Encode for Length<E> {
         let size = track!(self.inner.encode(&mut buf[..limit], eos))?;
         self.remaining_bytes -= size as u64;
         if self.inner.is_idle() {
+            let remaining_bytes = self.remaining_bytes;
+            self.remaining_bytes = self.expected_bytes;
             track_assert_eq!(
-                self.remaining_bytes,
+                remaining_bytes,
                 0,
                 ErrorKind::InvalidInput,
                 "Too small item"
@@ -793,26 +799,34 @@ impl<E: Encode> Encode for Length<E> {
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
-        track_assert_eq!(
-            self.remaining_bytes,
-            self.expected_bytes,
-            ErrorKind::EncoderFull
-        );
-        self.remaining_bytes = self.expected_bytes;
-        track!(self.inner.start_encoding(item))
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
+        track!(self.inner.start_encoding(item))?;
+        if self.inner.is_idle() {
+            track_assert_eq!(
+                self.expected_bytes,
+                0,
+                ErrorKind::InvalidInput,
+                "Too small item"
+            );
+        }
+        Ok(())
     }
 
     fn requiring_bytes(&self) -> ByteCount {
-        ByteCount::Finite(self.remaining_bytes)
+        ByteCount::Finite(self.exact_requiring_bytes())
     }
 
     fn is_idle(&self) -> bool {
-        self.remaining_bytes == 0
+        self.inner.is_idle() && self.remaining_bytes == self.expected_bytes
     }
 }
 impl<E: Encode> SizedEncode for Length<E> {
     fn exact_requiring_bytes(&self) -> u64 {
-        self.remaining_bytes
+        if self.is_idle() {
+            0
+        } else {
+            self.remaining_bytes
+        }
     }
 }
 
-- 
2.43.0


From 88e7f84465256034b5068833958eae65a3652da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 10/22] fix: Length decoder must report a truncated stream in
 the call that announces its end

---
 src/combinator.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index d6064b0..0494a1d 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -741,8 +741,7 @@ impl<D: Decode> Decode for Length<D> {
         let limit = cmp::min(buf.len() as u64, self.remaining_bytes) as usize;
         let required = self.remaining_bytes - limit as u64;
         let expected_eos = Eos::with_remaining_bytes(ByteCount::Finite(required));
-        if let Some(mut remaining) = eos.remaining_bytes().to_u64() {
-            remaining += buf.len() as u64;
+        if let Some(remaining) = eos.remaining_bytes().to_u64() {
             track_assert!(remaining >= required, ErrorKind::UnexpectedEos; remaining, required);
         }
 
-- 
2.43.0


From 713d289bd7e4468739c2a1f5cc28e95d4dc6290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 11/22] fix: Last must go on with the final item in the call
 that completes the preceding one

---
 src/combinator.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/combinator.rs b/src/combinator.rs
index 0494a1d..cd1b0c3 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1308,12 +1308,13 @@ impl<E: Encode> Encode for Last<E> {
     type Item = Never;
 
     fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
-        if self.inner.is_idle() {
-            if let Some(item) = self.item.take() {
-                track!(self.inner.start_encoding(item))?;
-            }
+        let mut offset = 0;
+        bytecodec_try_encode!(self.inner, offset, buf, eos);
+        if let Some(item) = self.item.take() {
+            track!(self.inner.start_encoding(item))?;
+            bytecodec_try_encode!(self.inner, offset, buf, eos);
         }
-        track!(self.inner.encode(buf, eos))
+        Ok(offset)
     }
 
     fn start_encoding(&mut self, _item: Self::Item) -> Result<()> {
-- 
2.43.0


From 66de14b476dcdc58fea8cf9f0ec8c2c2658c068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 12/22] fix: TupleEncoder must refuse an item as a whole while
 any part is being encoded

---
 src/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index 294165b..8255f41 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -1,5 +1,5 @@
 //! Encoders and decoders for tuples.
-use crate::{ByteCount, Decode, Encode, Eos, Result, SizedEncode};
+use crate::{ByteCount, Decode, Encode, Eos, ErrorKind, Result, SizedEncode};
 
 /// Decoder for tuples.
 #[derive(Debug, Default)]
@@ -108,6 +108,7 @@ macro_rules! impl_encode {
             }
 
             fn start_encoding(&mut self, t: Self::Item) -> Result<()> {
+                track_assert!(self.is_idle(), ErrorKind::EncoderFull);
                 $(track!(self.inner.$i.start_encoding(t.$i), "i={}", $i)?;)*
                 Ok(())
             }
-- 
2.43.0


From c4913150db201a2f5f5a7f211059c64d795509e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 13/22] fix: MaxBytes encoder must restart its count for an
 item that follows a failed one

---
 src/combinator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index cd1b0c3..6171ef1 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1095,6 +1095,9 @@ impl<E: Encode> Encode for MaxBytes<E> {
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+        if self.inner.is_idle() {
+            self.consumed_bytes = 0;
+        }
         track!(self.inner.start_encoding(item))
     }
 
-- 
2.43.0


From fd823ac58d5856ff3ea8be68d174ad14b90e47a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 14/22] fix: a premature finish_decoding call must not disturb
 the decoding in progress

---
 src/combinator.rs | 4 ++++
 src/tuple.rs      | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index 6171ef1..34a1112 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -221,6 +221,7 @@ where
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
+        track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
         let mut d = track_assert_some!(self.inner1.take(), ErrorKind::IncompleteDecoding);
         track!(d.finish_decoding())
     }
@@ -752,6 +753,7 @@ impl<D: Decode> Decode for Length<D> {
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
         track_assert_eq!(self.remaining_bytes, 0, ErrorKind::IncompleteDecoding);
+        track_assert!(self.inner.is_idle(), ErrorKind::IncompleteDecoding);
         self.remaining_bytes = self.expected_bytes;
 
         track!(self.inner.finish_decoding())
@@ -1067,6 +1069,7 @@ impl<D: Decode> Decode for MaxBytes<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
+        track_assert!(self.inner.is_idle(), ErrorKind::IncompleteDecoding);
         self.consumed_bytes = 0;
         track!(self.inner.finish_decoding())
     }
@@ -1477,6 +1480,7 @@ impl<D: Decode> Decode for MaybeEos<D> {
     }
 
     fn finish_decoding(&mut self) -> Result<Self::Item> {
+        track_assert!(self.inner.is_idle(), ErrorKind::IncompleteDecoding);
         self.started = false;
         track!(self.inner.finish_decoding())
     }
diff --git a/src/tuple.rs b/src/tuple.rs
index 8255f41..9cb5860 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -43,6 +43,7 @@ macro_rules! impl_decode {
             }
 
             fn finish_decoding(&mut self) -> Result<Self::Item> {
+                track_assert!(self.is_idle(), ErrorKind::IncompleteDecoding);
                 Ok((
                     $(track!(self.inner.$i.finish_decoding(), "i={}", $i)?),*,
                 ))
-- 
2.43.0


From 865f5c0fbf44a2e9fb85c996cb444add051f1247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 15/22] fix: decode_exact must not loop forever when the
 decoder tolerates EOS

---
 src/io.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io.rs b/src/io.rs
index 0a3951a..41c641f 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -48,6 +48,7 @@ pub trait IoDecodeExt: Decode {
                 let item = track!(self.finish_decoding())?;
                 return Ok(item);
             }
+            track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
         }
     }
 }
-- 
2.43.0


From 24b9e6a22c48201731d05ae9ac5ef20135802614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 16/22] fix: decode_exact must not spin on a decoder that
 neither completes nor requires bytes

---
 src/io.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io.rs b/src/io.rs
index 41c641f..20789b4 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -49,6 +49,14 @@ pub trait IoDecodeExt: Decode {
                 return Ok(item);
             }
             track_assert!(!eos.is_reached(), ErrorKind::UnexpectedEos);
+            if size == 0 {
+                // The decoder made no progress without any bytes, so it must now require some
+                track_assert_ne!(
+                    self.requiring_bytes(),
+                    ByteCount::Finite(0),
+                    ErrorKind::InconsistentState
+                );
+            }
         }
     }
 }
-- 
2.43.0


From 1267c62fc1d68fa02c0bda3955c38c506a11ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 17/22] fix: byte count sums must saturate instead of
 overflowing

---
 src/byte_count.rs | 4 ++--
 src/combinator.rs | 2 +-
 src/eos.rs        | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/byte_count.rs b/src/byte_count.rs
index 23d0040..bb5da7e 100644
--- a/src/byte_count.rs
+++ b/src/byte_count.rs
@@ -51,7 +51,7 @@ impl ByteCount {
     /// ```
     pub fn add_for_decoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a.saturating_add(b)),
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (ByteCount::Unknown, ByteCount::Unknown) => ByteCount::Unknown,
@@ -75,7 +75,7 @@ impl ByteCount {
     /// ```
     pub fn add_for_encoding(self, other: Self) -> Self {
         match (self, other) {
-            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a + b),
+            (ByteCount::Finite(a), ByteCount::Finite(b)) => ByteCount::Finite(a.saturating_add(b)),
             (ByteCount::Infinite, _) => ByteCount::Infinite,
             (_, ByteCount::Infinite) => ByteCount::Infinite,
             (_, ByteCount::Unknown) => ByteCount::Unknown,
diff --git a/src/combinator.rs b/src/combinator.rs
index 34a1112..3fc5964 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1057,7 +1057,7 @@ impl<D: Decode> Decode for MaxBytes<D> {
             }
             ByteCount::Finite(remaining_bytes) => {
                 let consumable_bytes = self.max_bytes - self.consumed_bytes;
-                track_assert!((buf.len() as u64) + remaining_bytes <= consumable_bytes,
+                track_assert!((buf.len() as u64).saturating_add(remaining_bytes) <= consumable_bytes,
                               ErrorKind::InvalidInput, "Max bytes limit exceeded";
                               buf.len(), remaining_bytes, self.consumed_bytes, self.max_bytes)
             }
diff --git a/src/eos.rs b/src/eos.rs
index 06801ab..402920d 100644
--- a/src/eos.rs
+++ b/src/eos.rs
@@ -47,7 +47,7 @@ impl Eos {
     /// ```
     pub fn back(&self, bytes: u64) -> Self {
         if let ByteCount::Finite(n) = self.0 {
-            Eos(ByteCount::Finite(n + bytes))
+            Eos(ByteCount::Finite(n.saturating_add(bytes)))
         } else {
             *self
         }
-- 
2.43.0


From c7ad071f9d8cf6da43b2a4627313ce546ad6bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 18/22] fix: RemainingBytesDecoder must not allocate according
 to an unverified announced length

---
 src/bytes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 09c334b..f60d67f 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -306,7 +306,9 @@ impl Decode for RemainingBytesDecoder {
         }
 
         if let Some(remaining) = eos.remaining_bytes().to_u64() {
-            self.buf.reserve_exact(buf.len() + remaining as usize);
+            // NOTE: `remaining` may come from untrusted input, so it only is a hint
+            self.buf
+                .reserve(buf.len() + cmp::min(remaining, 4096) as usize);
         }
         self.buf.extend_from_slice(buf);
         self.eos = eos.is_reached();
-- 
2.43.0


From 2f1fb88a8f72014ac8eb3021f9a249163d3a53f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 19/22] fix: poll_flush must wake the task that waits for free
 space in the write buffer

---
 src/io_async.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io_async.rs b/src/io_async.rs
index 2e766fd..a62235f 100644
--- a/src/io_async.rs
+++ b/src/io_async.rs
@@ -85,6 +85,11 @@ impl<B: AsRef<[u8]> + AsMut<[u8]>> WriteBuf<B> {
                 }
             }
         }
+        if !self.is_full() {
+            if let Some(waker) = self.waker.take() {
+                waker.wake();
+            }
+        }
         // Now the buffer is empty. Because the returned value is not Poll::Pending,
         // it is *the caller*'s responsibility to ensure this future is woken up.
         Poll::Ready(Ok(()))
-- 
2.43.0


From 627976feadd37b28dceb28e7df3a0af00683a3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 20/22] fix: encode_into_bytes must not allocate according to
 an announced size that is never written

Length announces its configured size before the inner encoder turns out to be
too short (or too long): a huge configured size made encode_into_bytes panic with
a capacity overflow, or reserve that much memory.
---
 src/encode.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/encode.rs b/src/encode.rs
index aa7d0d3..aa38f18 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -4,6 +4,7 @@ use crate::combinator::{
 use crate::io::IoEncodeExt;
 use crate::tuple::TupleEncoder;
 use crate::{ByteCount, Eos, Error, ErrorKind, Result};
+use std::cmp;
 
 /// This trait allows for encoding items into a byte sequence incrementally.
 pub trait Encode {
@@ -432,8 +433,22 @@ pub trait EncodeExt: Encode + Sized {
             ByteCount::Finite(size) => {
                 track_assert!(size <= usize::MAX as u64, ErrorKind::Other; size);
 
-                let mut buf = vec![0; size as usize];
-                track!(self.encode(&mut buf, Eos::new(true)))?;
+                // The announced size may be that of an item which turns out to be invalid,
+                // so the buffer grows only as far as it is actually filled.
+                let mut buf = Vec::new();
+                loop {
+                    let offset = buf.len();
+                    let rest = size as usize - offset;
+                    let chunk = cmp::min(rest, 64 * 1024);
+                    buf.resize(offset + chunk, 0);
+
+                    let remaining = ByteCount::Finite((rest - chunk) as u64);
+                    let eos = Eos::with_remaining_bytes(remaining);
+                    let n = track!(self.encode(&mut buf[offset..], eos))?;
+                    if chunk == rest || n < chunk || self.is_idle() {
+                        break;
+                    }
+                }
                 track_assert!(self.is_idle(), ErrorKind::InconsistentState);
                 Ok(buf)
             }
-- 
2.43.0


From bfc1a58753a0e18463be954ca52b467c839964c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:10 +0000
Subject: [PATCH 21/22] fix: the exact size of a tuple encoder must not
 overflow

Like the announced sizes (ByteCount::add_for_encoding), the exact size of a
tuple saturates: two length encoders configured with large sizes made
exact_requiring_bytes panic (or wrap around in release builds).
---
 src/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index 9cb5860..399b4bb 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -127,7 +127,7 @@ macro_rules! impl_encode {
             $($t: SizedEncode),*
         {
             fn exact_requiring_bytes(&self) -> u64 {
-                0 $(+ self.inner.$i.exact_requiring_bytes())*
+                0u64 $(.saturating_add(self.inner.$i.exact_requiring_bytes()))*
             }
         }
     };
-- 
2.43.0


From 0b7859ff824d7354fd9ee7e90bab7c2c76ede010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:09 +0000
Subject: [PATCH 22/22] fix: a busy PreEncode must refuse an item before
 encoding it

---
 src/combinator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/combinator.rs b/src/combinator.rs
index 3fc5964..e77a2a2 100644
--- a/src/combinator.rs
+++ b/src/combinator.rs
@@ -1157,6 +1157,7 @@ impl<E: Encode> Encode for PreEncode<E> {
     }
 
     fn start_encoding(&mut self, item: Self::Item) -> Result<()> {
+        track_assert!(self.is_idle(), ErrorKind::EncoderFull);
         let buf = track!(self.inner.encode_into_bytes(item))?;
         track!(self.pre_encoded.start_encoding(buf))?;
         Ok(())
-- 
2.43.0

