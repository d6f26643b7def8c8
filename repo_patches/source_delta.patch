From 95c8d4af2d4c325b2b89501e3b7cfbe3458d7e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 1/8] fix: read the item variation store of glyph definitions
 at its own offset

---
 src/tables/glyph_definition/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_definition/mod.rs b/src/tables/glyph_definition/mod.rs
index ae7c79d..1a9db68 100644
--- a/src/tables/glyph_definition/mod.rs
+++ b/src/tables/glyph_definition/mod.rs
@@ -74,7 +74,7 @@ table! {
             jump_take_maybe!(
                 tape,
                 position,
-                field!(this.header => mark_offset(0), Header::{Version13})
+                field!(this.header => variation_offset(0), Header::{Version13})
             )
         },
     }
-- 
2.43.0


From 8022cb89e132620d0ecea3ca7b08cc4964dfd5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 2/8] fix: dispatch ligature carets on their 16-bit format

---
 src/tables/glyph_definition/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_definition/element.rs b/src/tables/glyph_definition/element.rs
index 4eb5990..3e2f77b 100644
--- a/src/tables/glyph_definition/element.rs
+++ b/src/tables/glyph_definition/element.rs
@@ -132,7 +132,7 @@ table! {
 
 impl crate::value::Read for Caret {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
-        Ok(match tape.peek::<u32>()? {
+        Ok(match tape.peek::<u16>()? {
             1 => Self::Format1(tape.take()?),
             2 => Self::Format2(tape.take()?),
             3 => Self::Format3(tape.take()?),
-- 
2.43.0


From 3f181008e6e4d5075df81d8c52134e636c6d172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 3/8] fix: do not read an extra word past aligned device deltas

---
 src/layout/correction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/correction.rs b/src/layout/correction.rs
index 944959e..b6d8e8c 100644
--- a/src/layout/correction.rs
+++ b/src/layout/correction.rs
@@ -61,7 +61,7 @@ impl crate::value::Read for Device {
         }
         let count = (end_size - start_size) as usize + 1;
         let bit_count = (1 << format as usize) * count;
-        let short_count = (bit_count + 16 - bit_count % 16) >> 4;
+        let short_count = (bit_count + 15) >> 4;
         let deltas = tape.take_given(short_count)?;
         Ok(Device {
             start_size,
-- 
2.43.0


From 645fedf27af4f52a24697f3c971074a2acf5f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 4/8] fix: avoid overflowing when sizing item variation data

---
 src/variations/item.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variations/item.rs b/src/variations/item.rs
index 452679d..99a5203 100644
--- a/src/variations/item.rs
+++ b/src/variations/item.rs
@@ -30,8 +30,8 @@ table! {
         },
 
         deltas (Vec<u8>) |this, tape| { // deltaSets
-            let per_item_count = this.short_delta_count + this.region_count;
-            tape.take_given(this.item_count as usize * per_item_count as usize)
+            let per_item_count = this.short_delta_count as usize + this.region_count as usize;
+            tape.take_given(this.item_count as usize * per_item_count)
         },
     }
 }
-- 
2.43.0


From a59de53745c9f7aa22c7ca64acc78cf84436ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 5/8] fix: do not read the optional PostScript name of
 instances when it is absent

---
 src/tables/font_variations/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index 8a2ae59..f2ce5da 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -84,7 +84,7 @@ impl crate::value::Read for FontVariations {
         let instance_records = (0..header.instance_count as u64)
             .map(|i| {
                 tape.jump(position + i * header.instance_size as u64)?;
-                tape.take_given(header.axis_count)
+                tape.take_given((header.axis_count, header.instance_size))
             })
             .collect::<Result<Vec<_>>>()?;
         Ok(Self {
@@ -96,14 +96,22 @@ impl crate::value::Read for FontVariations {
 }
 
 impl crate::walue::Read<'static> for InstanceRecord {
-    type Parameter = u16;
+    type Parameter = (u16, u16);
 
-    fn read<T: crate::tape::Read>(tape: &mut T, axis_count: Self::Parameter) -> Result<Self> {
+    fn read<T: crate::tape::Read>(
+        tape: &mut T,
+        (axis_count, instance_size): Self::Parameter,
+    ) -> Result<Self> {
         Ok(Self {
             subfamily_name_id: tape.take()?,
             flags: tape.take()?,
             coordinates: tape.take_given(axis_count as usize)?,
-            postscript_name_id: tape.take()?,
+            // The field is optional, and 0xFFFF stands for the absence of a name.
+            postscript_name_id: if instance_size as usize >= 4 * axis_count as usize + 6 {
+                tape.take()?
+            } else {
+                NameID::Other(0xFFFF)
+            },
         })
     }
 }
-- 
2.43.0


From c8dfb244b6532e67a6f0cbdd5dcd026ac3887f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 6/8] fix: reject color palettes reaching beyond the color
 records

---
 src/tables/color_palettes.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/tables/color_palettes.rs b/src/tables/color_palettes.rs
index 481456e..05541f5 100644
--- a/src/tables/color_palettes.rs
+++ b/src/tables/color_palettes.rs
@@ -91,10 +91,26 @@ impl crate::value::Read for ColorPalettes {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
         let position = tape.position()?;
         let header = tape.take()?;
-        let (offset, count) = match header {
-            Header::Version0(ref header) => (header.color_offset, header.color_count as usize),
-            Header::Version1(ref header) => (header.color_offset, header.color_count as usize),
+        let (offset, count, entry_count, indices) = match header {
+            Header::Version0(ref header) => (
+                header.color_offset,
+                header.color_count as usize,
+                header.entry_count as usize,
+                &header.color_indices,
+            ),
+            Header::Version1(ref header) => (
+                header.color_offset,
+                header.color_count as usize,
+                header.entry_count as usize,
+                &header.color_indices,
+            ),
         };
+        if indices
+            .iter()
+            .any(|index| *index as usize + entry_count > count)
+        {
+            raise!("found a malformed color palette");
+        }
         let colors = jump_take_given!(@unwrap tape, position, offset, count);
         Ok(Self { header, colors })
     }
-- 
2.43.0


From 8de3e6063ea9ea4f14b987dc89406a3ffbadbc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 7/8] fix: avoid overflowing when checking the checksums of
 oversized tables

---
 src/font.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/font.rs b/src/font.rs
index 026ca17..e1a93eb 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -36,7 +36,7 @@ impl Font {
         for record in &self.offsets.records {
             if record.tag == tag {
                 #[cfg(not(feature = "ignore-invalid-checksums"))]
-                if record.checksum != record.checksum(tape)? {
+                if record.size > u32::MAX - 3 || record.checksum != record.checksum(tape)? {
                     raise!("found a malformed font table with {:?}", record.tag);
                 }
                 Read::jump(tape, record.offset as u64)?;
-- 
2.43.0


From ac3f91a86d6eb0162ae6eebb56c4536abcba5ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 8/8] fix: cover the largest size that overflows when computing
 checksums

---
 src/font.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/font.rs b/src/font.rs
index e1a93eb..15b0ca8 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -36,7 +36,7 @@ impl Font {
         for record in &self.offsets.records {
             if record.tag == tag {
                 #[cfg(not(feature = "ignore-invalid-checksums"))]
-                if record.size > u32::MAX - 3 || record.checksum != record.checksum(tape)? {
+                if record.size > u32::MAX - 4 || record.checksum != record.checksum(tape)? {
                     raise!("found a malformed font table with {:?}", record.tag);
                 }
                 Read::jump(tape, record.offset as u64)?;
-- 
2.43.0

