From f13ff288864cf9e58cd3ac061105a31799065cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:36 +0000
Subject: [PATCH 1/7] fix: clear_region set pixels outside the region or
 panicked on some edges

A region with both edges in one 32-bit word was cleared up to the end of
that word, and a right edge on a word boundary shifted by 32 (panic with
overflow checks, next word set without).
---
 src/blit.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index ecb6496..7fd50d2 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -22,18 +22,23 @@ pub fn clear_region(fb: &mut FrBuf, clip: ClipRect) {
     // Calculate word alignment for destination buffer
     let dest_low_word = clip.min.x >> 5;
     let dest_high_word = clip.max.x >> 5;
-    let px_in_dest_low_word = 32 - (clip.min.x & 0x1f);
-    let px_in_dest_high_word = clip.max.x & 0x1f;
+    // Low word mask keeps pixels left of clip.min.x, high word mask keeps pixels
+    // from clip.max.x on (all of them when clip.max.x is on a word boundary)
+    let low_mask: u32 = 0xffffffff << (clip.min.x & 0x1f);
+    let high_mask: u32 = !(0xffffffff << (clip.max.x & 0x1f));
     // Blit it
     for y in clip.min.y..clip.max.y {
         let base = y * WORDS_PER_LINE;
-        fb[base + dest_low_word] |= 0xffffffff << (32 - px_in_dest_low_word);
+        if dest_low_word == dest_high_word {
+            // Both edges of the region are in the same word
+            fb[base + dest_low_word] |= low_mask & high_mask;
+            continue;
+        }
+        fb[base + dest_low_word] |= low_mask;
         for w in dest_low_word + 1..dest_high_word {
             fb[base + w] = 0xffffffff;
         }
-        if dest_low_word < dest_high_word {
-            fb[base + dest_high_word] |= 0xffffffff >> (32 - px_in_dest_high_word);
-        }
+        fb[base + dest_high_word] |= high_mask;
     }
 }
 
-- 
2.43.0


From 89a56e572f78923c37383950332f6f45f912486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 2/7] fix: glyphs wider than the clip region were painted
 outside of it

Wrapping does not help when the whole clip region is narrower than the
glyph: it was painted past the right edge, onto the next line, or out of
bounds of the frame buffer (panic).
---
 src/blit.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blit.rs b/src/blit.rs
index 7fd50d2..55db628 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -146,6 +146,9 @@ fn xor_char(
     let mut x0 = c.pt.x + 1;
     // Adjust for word wrapping
     if x0 + gh.w + 2 >= clip.max.x {
+        if clip.min.x + 1 + gh.w + 2 >= clip.max.x {
+            return Ok(0); // Glyph won't fit on the next line either
+        }
         newline(clip, c);
         x0 = c.pt.x + 1;
     }
-- 
2.43.0


From 85ec6b878e36befbd61f4111a1158dab84fe3aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 3/7] fix: unsupported character at end of string was painted
 repeatedly

The last character was not consumed after painting the replacement
character, so it was painted again until the loop ran out of iterations.
---
 src/blit.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 55db628..4964389 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -75,8 +75,7 @@ pub fn paint_str(fb: &mut FrBuf, clip: ClipRect, c: &mut Cursor, st: GlyphStyle,
                 if let Some((i, _)) = cluster.char_indices().nth(1) {
                     cluster = &cluster[i..];
                 } else {
-                    //cluster = &cluster[1..];
-                    //break; // That was the last char, so stop now
+                    break; // That was the last char, so stop now
                 }
             }
         }
-- 
2.43.0


From 084217eb249618242a1997bf9ebbe6bd43475bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 4/7] fix: cursor positions near usize::MAX overflowed

The additions panicked with overflow checks, and otherwise wrapped around
to paint a glyph near the top of the screen.
---
 src/blit.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 4964389..3028082 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -88,7 +88,7 @@ fn newline(clip: ClipRect, c: &mut Cursor) {
     if c.line_height < fonts::small::MAX_HEIGHT as usize {
         c.line_height = fonts::small::MAX_HEIGHT as usize;
     }
-    c.pt.y += c.line_height + 1;
+    c.pt.y = c.pt.y.saturating_add(c.line_height.saturating_add(1));
     c.line_height = 0;
 }
 
@@ -142,9 +142,9 @@ fn xor_char(
         c.pt.x = clip.min.x;
     }
     // Add 1px pad to left
-    let mut x0 = c.pt.x + 1;
+    let mut x0 = c.pt.x.saturating_add(1);
     // Adjust for word wrapping
-    if x0 + gh.w + 2 >= clip.max.x {
+    if x0.saturating_add(gh.w + 2) >= clip.max.x {
         if clip.min.x + 1 + gh.w + 2 >= clip.max.x {
             return Ok(0); // Glyph won't fit on the next line either
         }
@@ -157,7 +157,7 @@ fn xor_char(
     let dest_high_word = x1 >> 5;
     let px_in_dest_low_word = 32 - (x0 & 0x1f);
     // Blit it
-    let y0 = c.pt.y + gh.y_offset;
+    let y0 = c.pt.y.saturating_add(gh.y_offset);
     if y0 > clip.max.y {
         return Ok(0); // Entire glyph is outside clip rect, so clip it
     }
-- 
2.43.0


From 6902af8b844b0bde72afab312d3a44b102df87cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 5/7] Add verification hook for the cluster hash, guarded by
 cfg verif_hooks

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index dbeac60..8cbbb3d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,6 +20,12 @@ mod pt;
 // refactor without breaking the public api.
 pub use api::v1::*;
 
+/// Internals made visible for the verification harness (build with --cfg verif_hooks)
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use crate::m3hash::grapheme_cluster;
+}
+
 /// These are integration tests aimed at ensuring pixel-accurate stability of
 /// string painting operations by exercising edge cases around glyph lookup,
 /// word-wrapping, etc.
-- 
2.43.0


From 080ddfa552e150cda5635f9a219679e6076ddf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:58 +0000
Subject: [PATCH 6/7] Expose the frame buffer hash to the verification hook
 (cfg verif_hooks)

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8cbbb3d..59e0409 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -23,7 +23,7 @@ pub use api::v1::*;
 /// Internals made visible for the verification harness (build with --cfg verif_hooks)
 #[cfg(verif_hooks)]
 pub mod verif_hooks {
-    pub use crate::m3hash::grapheme_cluster;
+    pub use crate::m3hash::{frame_buffer, grapheme_cluster};
 }
 
 /// These are integration tests aimed at ensuring pixel-accurate stability of
-- 
2.43.0


From 6e8230686b9c13178895d2ac2840a9f3336ea85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:38 +0000
Subject: [PATCH 7/7] fix: codegen: read whole glyph cells when the border and
 the gutter differ

The end of a cell was computed as (row+1)*(size+gutter), which is its
start plus the glyph size only if the border is as wide as the gutter: a
wider border cut glyphs off (down to nothing), a narrower one let the
gutter and the next cell in.  The committed fonts are unchanged.
---
 codegen/lib/blitpattern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen/lib/blitpattern.go b/codegen/lib/blitpattern.go
index f2e5e47..afc084d 100644
--- a/codegen/lib/blitpattern.go
+++ b/codegen/lib/blitpattern.go
@@ -42,9 +42,9 @@ func NewBlitPattern(img image.Image, font FontSpec, cs CharSpec, dbg bool) BlitP
 	gridSize := font.Size + font.Gutter
 	border := font.Border
 	pxMatrix := Matrix{}
-	for y := border + (row * gridSize); y < (row+1)*gridSize; y++ {
+	for y := border + (row * gridSize); y < border+(row*gridSize)+font.Size; y++ {
 		var row MatrixRow
-		for x := border + (col * gridSize); x < (col+1)*gridSize; x++ {
+		for x := border + (col * gridSize); x < border+(col*gridSize)+font.Size; x++ {
 			r, _, _, _ := img.At(x, y).RGBA()
 			//fmt.Println(r, g, b, a)
 			if r == 0 {
-- 
2.43.0

