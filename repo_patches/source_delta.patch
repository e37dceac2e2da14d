From 9529633d76926f7fc70cf42c8c5fcfbbd88aa68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:21 +0000
Subject: [PATCH 01/23] fix: report a cel on the layer after the last one
 instead of panicking

---
 src/binary/file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/file.rs b/src/binary/file.rs
index 153018a..fa6de72 100644
--- a/src/binary/file.rs
+++ b/src/binary/file.rs
@@ -104,7 +104,7 @@ pub fn parse_file(input: &[u8]) -> Result<File<'_>, nom::Err<ParseError<'_>>> {
                     }
                     for cel in frame_cels {
                         let layer_index: usize = cel.layer_index.into();
-                        if layer_index > layers.len() {
+                        if layer_index >= layers.len() {
                             return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds));
                         }
                         cels[layer_index] = Some(cel);
-- 
2.43.0


From 699a833c10f32d7c1be8ea8eb194ab3589cd74a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:39 +0000
Subject: [PATCH 02/23] fix: do not underflow on a properties size smaller than
 its own header

---
 src/binary/chunks/user_data.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 102e94b..1292a96 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -2,6 +2,7 @@ use bitflags::bitflags;
 use nom::{
     bytes::complete::take,
     combinator::{cond, map},
+    error::{ErrorKind, ParseError as _},
     multi::count,
     number::complete::{
         le_f32, le_f64, le_i16, le_i32, le_i64, le_i8, le_u16, le_u32, le_u64, le_u8,
@@ -144,8 +145,12 @@ pub fn parse_properties_maps(
 ) -> ParseResult<'_, ParseResult<'_, Vec<PropertiesMap<'_>>>> {
     let (input, size_maps) = parse_dword_as_usize(input)?;
     let (input, num_maps) = parse_dword_as_usize(input)?;
-    // FIXME handle underflows
-    let (input, input_maps) = take(size_maps - 8)(input)?;
+    // The size includes the two fields above.
+    let Some(size_maps) = size_maps.checked_sub(8) else {
+        let error = ParseError::from_error_kind(input, ErrorKind::Verify);
+        return Ok((input, Err(nom::Err::Failure(error))));
+    };
+    let (input, input_maps) = take(size_maps)(input)?;
     Ok((
         input,
         count(parse_properties_map, num_maps).parse(input_maps),
-- 
2.43.0


From 621e83bbf72cf7fba95ffe124596c7248f016643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 03/23] fix: report raw RGBA images of the wrong length instead
 of panicking

---
 src/loader/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 59c05fc..84c0248 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -359,7 +359,12 @@ impl AsepriteFile<'_> {
         }
         let target = &mut target[..target_size];
         match (self.file.header.color_depth, image.compressed) {
-            (ColorDepth::Rgba, false) => target.copy_from_slice(image.data),
+            (ColorDepth::Rgba, false) => {
+                if image.data.len() != target_size {
+                    return Err(LoadImageError::InvalidImageData);
+                }
+                target.copy_from_slice(image.data);
+            }
             (ColorDepth::Rgba, true) => decompress(image.data, target)?,
             (ColorDepth::Grayscale, false) => {
                 grayscale_to_rgba(image.data, target)?;
-- 
2.43.0


From 8e2561b769b55e372e5d8fc6077a933f6ed8a732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:42 +0000
Subject: [PATCH 04/23] fix: return image errors from render_frame instead of
 panicking

---
 src/loader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 84c0248..a547959 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -308,7 +308,7 @@ impl AsepriteFile<'_> {
             }
 
             let mut cel_target = vec![0; usize::from(cel.size.0) * usize::from(cel.size.1) * 4];
-            self.load_image(cel.image_index, &mut cel_target).unwrap();
+            self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
             let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
-- 
2.43.0


From a684ab73fbb19f1bb741e92c575f6c56d01bf813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 05/23] fix: report unknown blend modes instead of panicking
 while rendering

---
 src/loader/blend.rs | 8 ++++----
 src/loader/mod.rs   | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index fd99090..f368b1a 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -106,8 +106,8 @@ impl From<&[f64; 4]> for Color {
 }
 
 type BlendFn = fn(Color, Color, u8) -> Color;
-pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> BlendFn {
-    match mode {
+pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> Option<BlendFn> {
+    Some(match mode {
         BlendMode::Normal => normal,
         BlendMode::Multiply => multiply,
         BlendMode::Screen => screen,
@@ -127,8 +127,8 @@ pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> BlendFn {
         BlendMode::Addition => addition,
         BlendMode::Subtract => subtract,
         BlendMode::Divide => divide,
-        m => panic!("unimplemented blend mode: {:?}", m),
-    }
+        BlendMode::Unknown(_) => return None,
+    })
 }
 
 // --- addition ----------------------------------------------------------------
diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index a547959..64cdd6e 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -311,7 +311,8 @@ impl AsepriteFile<'_> {
             self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
-            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
+            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode)
+                .ok_or(LoadImageError::UnsupportedBlendMode)?;
 
             for y in 0..cel.size.1 {
                 for x in 0..cel.size.0 {
@@ -444,6 +445,9 @@ pub enum LoadImageError {
     /// Zlib decompression failed.
     #[error("decompression failed")]
     DecompressError,
+    /// A layer uses an unsupported blend mode.
+    #[error("unsupported blend mode")]
+    UnsupportedBlendMode,
     /// Pixel data length did not match the expected format.
     #[error("invalid image data")]
     InvalidImageData,
-- 
2.43.0


From 4d390512e61042245f41a7e39b731cdb7f859cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 06/23] fix: normalise colours to 0..1 in the HSL blend modes

---
 src/loader/blend.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index f368b1a..446415d 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -26,16 +26,16 @@ impl Color {
         self.a.into()
     }
     fn r_f64(&self) -> f64 {
-        self.r.into()
+        f64::from(self.r) / 255.0
     }
     fn g_f64(&self) -> f64 {
-        self.g.into()
+        f64::from(self.g) / 255.0
     }
     fn b_f64(&self) -> f64 {
-        self.b.into()
+        f64::from(self.b) / 255.0
     }
     fn a_f64(&self) -> f64 {
-        self.a.into()
+        f64::from(self.a) / 255.0
     }
 }
 
-- 
2.43.0


From 23a08762ef5db99fe64b8173eb22f78a21addce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:01 +0000
Subject: [PATCH 07/23] fix: use the source's blue channel in soft light

---
 src/loader/blend.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index 446415d..1ca7109 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -269,7 +269,7 @@ fn soft_light(back: Color, front: Color, opacity: u8) -> Color {
 fn soft_light_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let r = blend_soft_light(back.r_i32(), front.r_i32());
     let g = blend_soft_light(back.g_i32(), front.g_i32());
-    let b = blend_soft_light(back.b_i32(), back.b_i32());
+    let b = blend_soft_light(back.b_i32(), front.b_i32());
 
     normal(back, Color::from(&[r, g, b, front.a_i32()]), opacity)
 }
-- 
2.43.0


From 08ec0f27b94eefb73b50791a293c709342a8944d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 08/23] fix: layer flags are single bits

---
 src/binary/chunks/layer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/binary/chunks/layer.rs b/src/binary/chunks/layer.rs
index 1847950..653e7a0 100644
--- a/src/binary/chunks/layer.rs
+++ b/src/binary/chunks/layer.rs
@@ -28,9 +28,9 @@ bitflags! {
         const EDITABLE = 0x2;
         const LOCK_MOVEMENT = 0x4;
         const BACKGROUND = 0x8;
-        const PREFER_LINKED_CELS = 0x16;
-        const COLLAPSED = 0x32;
-        const REFERENCE = 0x64;
+        const PREFER_LINKED_CELS = 0x10;
+        const COLLAPSED = 0x20;
+        const REFERENCE = 0x40;
     }
 }
 
-- 
2.43.0


From 4bf2fd21f878b631a95b16edbb7bab4007ded59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 09/23] fix: read the tilemap flip bitmasks in file order

---
 src/binary/chunks/cel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index a30fa85..c9ef057 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -117,8 +117,8 @@ pub fn parse_cel_chunk(input: &[u8]) -> ParseResult<'_, CelChunk<'_>> {
             let (input, height) = word(input)?;
             let (input, bits_per_tile) = word(input)?;
             let (input, bitmask_tile_id) = dword(input)?;
-            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_x_flip) = dword(input)?;
+            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_diagonal_flip) = dword(input)?;
             let (input, _) = take(10usize)(input)?;
             CelContent::CompressedTilemap {
-- 
2.43.0


From 0dc5ebc8ea342fd5ac41288205028d7f63d2e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:22 +0000
Subject: [PATCH 10/23] fix: keep the value of the first unknown enumerator

---
 src/binary/blend_mode.rs            | 1 +
 src/binary/chunks/cel.rs            | 1 +
 src/binary/chunks/color_profile.rs  | 1 +
 src/binary/chunks/external_files.rs | 1 +
 src/binary/chunks/tags.rs           | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/binary/blend_mode.rs b/src/binary/blend_mode.rs
index 99dcd07..29f9a6d 100644
--- a/src/binary/blend_mode.rs
+++ b/src/binary/blend_mode.rs
@@ -26,6 +26,7 @@ pub enum BlendMode {
     Addition,
     Subtract,
     Divide,
+    #[strum(disabled)]
     Unknown(Word),
 }
 
diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index c9ef057..8db9d9f 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -37,6 +37,7 @@ enum CelType {
     CompressedImage,
     /// 3 - Compressed Tilemap
     CompressedTilemap,
+    #[strum(disabled)]
     Unknown(Word),
 }
 
diff --git a/src/binary/chunks/color_profile.rs b/src/binary/chunks/color_profile.rs
index 2b9a737..e3658e7 100644
--- a/src/binary/chunks/color_profile.rs
+++ b/src/binary/chunks/color_profile.rs
@@ -22,6 +22,7 @@ pub enum ColorProfileType {
     NoColorProfile,
     Srgb,
     EmbeddedICC,
+    #[strum(disabled)]
     Unknown(Word),
 }
 
diff --git a/src/binary/chunks/external_files.rs b/src/binary/chunks/external_files.rs
index c1e9dc6..ede2b17 100644
--- a/src/binary/chunks/external_files.rs
+++ b/src/binary/chunks/external_files.rs
@@ -29,6 +29,7 @@ pub enum ExternalFileType {
     ExternalPalette,
     ExternalTileset,
     ExtensionNameForProperties,
+    #[strum(disabled)]
     Unknown(Byte),
 }
 
diff --git a/src/binary/chunks/tags.rs b/src/binary/chunks/tags.rs
index a9dfbd1..fe39017 100644
--- a/src/binary/chunks/tags.rs
+++ b/src/binary/chunks/tags.rs
@@ -33,6 +33,7 @@ pub enum AnimationDirection {
     Reverse,
     PingPong,
     PingPongReverse,
+    #[strum(disabled)]
     Unknown(Byte),
 }
 
-- 
2.43.0


From 7d7888670e57d66b5806db77b49a5c82da36cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:24 +0000
Subject: [PATCH 11/23] fix: a palette chunk stores one entry per color in its
 range

---
 src/binary/chunks/palette.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/binary/chunks/palette.rs b/src/binary/chunks/palette.rs
index afcf108..9c2b99d 100644
--- a/src/binary/chunks/palette.rs
+++ b/src/binary/chunks/palette.rs
@@ -6,9 +6,7 @@ use nom::{bytes::complete::take, combinator::cond, multi::count, Parser};
 use crate::binary::{
     errors::{ParseError, ParseResult},
     palette::PaletteError,
-    scalars::{
-        parse_color, parse_dword_as_u8, parse_dword_as_usize, parse_string, word, Color, Word,
-    },
+    scalars::{dword, parse_color, parse_dword_as_u8, parse_string, word, Color, Word},
 };
 
 #[derive(Debug)]
@@ -30,7 +28,8 @@ bitflags! {
 }
 
 pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
-    let (input, palette_size) = parse_dword_as_usize(input)?;
+    // The palette size can exceed the range of colors stored in this chunk.
+    let (input, _palette_size) = dword(input)?;
     let (input, first_color_index) = parse_dword_as_u8(
         input,
         ParseError::PaletteError(PaletteError::FirstColorIndexOutOfBounds),
@@ -45,7 +44,8 @@ pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
         )));
     }
     let (input, _) = take(8usize)(input)?;
-    let (input, entries) = count(parse_palette_entry, palette_size).parse(input)?;
+    let number_of_entries = usize::from(last_color_index - first_color_index) + 1;
+    let (input, entries) = count(parse_palette_entry, number_of_entries).parse(input)?;
     Ok((
         input,
         PaletteChunk {
-- 
2.43.0


From d1160e79313a9301926ea267536c7c04f0aadf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:26 +0000
Subject: [PATCH 12/23] fix: scale the 6-bit colors of the old palette chunk
 0x0011

---
 src/binary/palette.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/binary/palette.rs b/src/binary/palette.rs
index 1fe09d0..f75b23f 100644
--- a/src/binary/palette.rs
+++ b/src/binary/palette.rs
@@ -52,7 +52,12 @@ pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palett
         })
         .collect();
     if !palette0004_chunks.is_empty() {
-        process_old_palette_chunks(header.transparent_index, &palette0004_chunks, &mut palette)?;
+        process_old_palette_chunks(
+            header.transparent_index,
+            &palette0004_chunks,
+            |value| value,
+            &mut palette,
+        )?;
         return Ok(palette);
     }
     let palette0011_chunks: Vec<_> = frames
@@ -68,7 +73,13 @@ pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palett
         })
         .collect();
     if !palette0011_chunks.is_empty() {
-        process_old_palette_chunks(header.transparent_index, &palette0011_chunks, &mut palette)?;
+        // Colors of this chunk range from 0 to 63
+        process_old_palette_chunks(
+            header.transparent_index,
+            &palette0011_chunks,
+            |value| (value << 2) | (value >> 4),
+            &mut palette,
+        )?;
         return Ok(palette);
     }
     Err(PaletteError::Missing)
@@ -100,6 +111,7 @@ fn process_palette_chunks(
 fn process_old_palette_chunks(
     transparent_index: u8,
     chunks: &[&OldPaletteChunk],
+    scale: fn(u8) -> u8,
     palette: &mut Palette,
 ) -> Result<(), PaletteError> {
     let mut ok = false;
@@ -112,9 +124,9 @@ fn process_old_palette_chunks(
             }
             for color in &packet.colors {
                 palette.colors[color_idx] = Color {
-                    red: color.red,
-                    green: color.green,
-                    blue: color.blue,
+                    red: scale(color.red),
+                    green: scale(color.green),
+                    blue: scale(color.blue),
                     alpha: 255,
                 };
                 color_idx += 1;
-- 
2.43.0


From 40865584e5f8cef799a074c707c784819f8b3647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:56 +0000
Subject: [PATCH 13/23] fix: keep tilemap and unknown layers so that layer
 indices stay aligned

---
 src/loader/mod.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 64cdd6e..1593267 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -134,18 +134,12 @@ impl AsepriteFile<'_> {
         let layers: Vec<_> = file
             .layers
             .iter()
-            .filter_map(|layer| {
-                if layer.layer_type == LayerType::Normal || layer.layer_type == LayerType::Group {
-                    Some(Layer {
-                        name: layer.name.to_string(),
-                        opacity: layer.opacity,
-                        blend_mode: layer.blend_mode,
-                        visible: layer.flags.contains(LayerFlags::VISIBLE),
-                        layer_type: layer.layer_type,
-                    })
-                } else {
-                    None
-                }
+            .map(|layer| Layer {
+                name: layer.name.to_string(),
+                opacity: layer.opacity,
+                blend_mode: layer.blend_mode,
+                visible: layer.flags.contains(LayerFlags::VISIBLE),
+                layer_type: layer.layer_type,
             })
             .collect();
 
@@ -303,7 +297,8 @@ impl AsepriteFile<'_> {
             let Some(layer) = self.layers.get(cel.layer_index) else {
                 continue;
             };
-            if layer.layer_type == LayerType::Group || !layers.is_selected(cel.layer_index, layer) {
+            if layer.layer_type != LayerType::Normal || !layers.is_selected(cel.layer_index, layer)
+            {
                 continue;
             }
 
-- 
2.43.0


From b4b7d14e8127d382a58584e77e28c908e0592947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:58 +0000
Subject: [PATCH 14/23] fix: reject compressed images that hold too few pixels

---
 src/loader/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 1593267..146a6c4 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -455,7 +455,8 @@ pub fn decompress(data: &[u8], target: &mut [u8]) -> Result<(), LoadImageError>
     let mut decompressor = Decompress::new(true);
     match decompressor.decompress(data, target, flate2::FlushDecompress::Finish) {
         Ok(flate2::Status::Ok | flate2::Status::BufError) => Err(LoadImageError::DecompressError),
-        Ok(flate2::Status::StreamEnd) => Ok(()),
+        Ok(flate2::Status::StreamEnd) if decompressor.total_out() == target.len() as u64 => Ok(()),
+        Ok(flate2::Status::StreamEnd) => Err(LoadImageError::InvalidImageData),
         Err(_) => Err(LoadImageError::DecompressError),
     }
 }
-- 
2.43.0


From 14beb53854b3a006fd486d256c0249435ae0177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 15/23] fix: limit the nesting depth of user data properties

---
 src/binary/chunks/user_data.rs | 64 ++++++++++++++++++++++++++++------
 1 file changed, 54 insertions(+), 10 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 1292a96..34057f1 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -157,10 +157,28 @@ pub fn parse_properties_maps(
     ))
 }
 
+/// Vectors and maps can be nested up to this depth. The limit keeps the
+/// parser from running out of stack space.
+const MAX_DEPTH: usize = 64;
+
+fn check_depth(input: &[u8], depth: usize) -> Result<(), nom::Err<ParseError<'_>>> {
+    if depth > MAX_DEPTH {
+        let error = ParseError::from_error_kind(input, ErrorKind::TooLarge);
+        return Err(nom::Err::Failure(error));
+    }
+    Ok(())
+}
+
 pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
+    parse_properties_map_at(input, 0)
+}
+
+fn parse_properties_map_at(input: &[u8], depth: usize) -> ParseResult<'_, PropertiesMap<'_>> {
+    check_depth(input, depth)?;
     let (input, extension_entry_id) = dword(input)?;
     let (input, num_props) = parse_dword_as_usize(input)?;
-    let (input, properties) = count(parse_property, num_props).parse(input)?;
+    let (input, properties) =
+        count(|input| parse_property_at(input, depth), num_props).parse(input)?;
     Ok((
         input,
         PropertiesMap {
@@ -171,12 +189,20 @@ pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>>
 }
 
 pub fn parse_property(input: &[u8]) -> ParseResult<'_, Property<'_>> {
+    parse_property_at(input, 0)
+}
+
+fn parse_property_at(input: &[u8], depth: usize) -> ParseResult<'_, Property<'_>> {
     let (input, name) = parse_string(input)?;
-    let (input, value) = parse_value(input)?;
+    let (input, value) = parse_value_at(input, depth)?;
     Ok((input, Property { name, value }))
 }
 
 pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
+    parse_value_at(input, 0)
+}
+
+fn parse_value_at(input: &[u8], depth: usize) -> ParseResult<'_, Value<'_>> {
     let (input, prop_type) = word(input)?;
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -198,19 +224,32 @@ pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
         PropertyType::Point => map(parse_point, Value::Point).parse(input)?,
         PropertyType::Size => map(parse_size, Value::Size).parse(input)?,
         PropertyType::Rect => map(parse_rect, Value::Rect).parse(input)?,
-        PropertyType::Vector => map(parse_vector, Value::Vector).parse(input)?,
-        PropertyType::PropertiesMap => {
-            map(parse_properties_map, Value::PropertiesMap).parse(input)?
+        PropertyType::Vector => {
+            map(|input| parse_vector_at(input, depth + 1), Value::Vector).parse(input)?
         }
+        PropertyType::PropertiesMap => map(
+            |input| parse_properties_map_at(input, depth + 1),
+            Value::PropertiesMap,
+        )
+        .parse(input)?,
         PropertyType::Uuid => map(parse_uuid, Value::Uuid).parse(input)?,
     })
 }
 
 pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
+    parse_vector_at(input, 0)
+}
+
+fn parse_vector_at(input: &[u8], depth: usize) -> ParseResult<'_, Vector<'_>> {
+    check_depth(input, depth)?;
     let (input, len_elements) = parse_dword_as_usize(input)?;
     let (input, prop_type) = word(input)?;
     if prop_type == 0 {
-        return map(count(parse_value, len_elements), Vector::Mixed).parse(input);
+        return map(
+            count(|input| parse_value_at(input, depth), len_elements),
+            Vector::Mixed,
+        )
+        .parse(input);
     }
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -236,11 +275,16 @@ pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
         PropertyType::Point => map(count(parse_point, len_elements), Vector::Point).parse(input)?,
         PropertyType::Size => map(count(parse_size, len_elements), Vector::Size).parse(input)?,
         PropertyType::Rect => map(count(parse_rect, len_elements), Vector::Rect).parse(input)?,
-        PropertyType::Vector => {
-            map(count(parse_vector, len_elements), Vector::Vector).parse(input)?
-        }
+        PropertyType::Vector => map(
+            count(|input| parse_vector_at(input, depth + 1), len_elements),
+            Vector::Vector,
+        )
+        .parse(input)?,
         PropertyType::PropertiesMap => map(
-            count(parse_properties_map, len_elements),
+            count(
+                |input| parse_properties_map_at(input, depth + 1),
+                len_elements,
+            ),
             Vector::PropertiesMap,
         )
         .parse(input)?,
-- 
2.43.0


From c2533d9bad14f8a9ee2312aee3968d0b2335bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 16/23] fix: take the cel opacity into account when rendering

---
 src/loader/blend.rs |  2 +-
 src/loader/mod.rs   | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index 1ca7109..02fc775 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -444,7 +444,7 @@ where
     normal(back, Color::new(r, g, b, front.a), opacity)
 }
 
-fn mul8(a: i32, b: i32) -> u8 {
+pub(crate) fn mul8(a: i32, b: i32) -> u8 {
     let t = a * b + 0x80;
     let r = ((t >> 8) + t) >> 8;
     r as u8
diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 146a6c4..5bacf6a 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -26,7 +26,7 @@ use crate::{
         image::Image,
         palette::Palette,
     },
-    loader::blend::{blend_mode_to_blend_fn, Color},
+    loader::blend::{blend_mode_to_blend_fn, mul8, Color},
 };
 
 /// This can be used to load an Aseprite file.
@@ -53,6 +53,8 @@ pub struct FrameCel {
     pub origin: (i16, i16),
     /// Cel size in pixels `(width, height)`.
     pub size: (u16, u16),
+    /// Cel opacity in the range `0..=255`.
+    pub opacity: u8,
     /// Index into [`AsepriteFile::layers`].
     pub layer_index: usize,
     /// Index into [`AsepriteFile::images`].
@@ -196,6 +198,7 @@ impl AsepriteFile<'_> {
                 cels.push(FrameCel {
                     origin: (cel.x, cel.y),
                     size: (width, height),
+                    opacity: cel.opacity,
                     layer_index: cel.layer_index.into(),
                     image_index,
                 });
@@ -268,7 +271,14 @@ impl AsepriteFile<'_> {
         let mut hasher = DefaultHasher::new();
         let frame = &self.frames[frame_index];
         for cel in frame.cels.iter() {
-            (cel.image_index, cel.layer_index, cel.origin, cel.size).hash(&mut hasher);
+            (
+                cel.image_index,
+                cel.layer_index,
+                cel.origin,
+                cel.size,
+                cel.opacity,
+            )
+                .hash(&mut hasher);
         }
         Ok(hasher.finish())
     }
@@ -308,6 +318,7 @@ impl AsepriteFile<'_> {
 
             let blend_fn = blend_mode_to_blend_fn(layer.blend_mode)
                 .ok_or(LoadImageError::UnsupportedBlendMode)?;
+            let opacity = mul8(layer.opacity.into(), cel.opacity.into());
 
             for y in 0..cel.size.1 {
                 for x in 0..cel.size.0 {
@@ -334,7 +345,7 @@ impl AsepriteFile<'_> {
 
                     let back = Color::from(&*target_pixel);
                     let front = Color::from(cel_pixel);
-                    let out = blend_fn(back, front, layer.opacity);
+                    let out = blend_fn(back, front, opacity);
 
                     target_pixel[0] = out.r;
                     target_pixel[1] = out.g;
-- 
2.43.0


From e50b5b5e7167f6fb2498dd02b3ffd1182a3bc4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:16 +0000
Subject: [PATCH 17/23] fix: take the z-index of cels into account when
 rendering

---
 src/loader/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 5bacf6a..1bb4c4f 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -70,7 +70,7 @@ pub struct Frame {
     pub duration: u16,
     /// Frame origin in sprite coordinates.
     pub origin: (i16, i16),
-    /// Cels in this frame.
+    /// Cels in this frame from bottom to top.
     pub cels: Vec<FrameCel>,
 }
 
@@ -175,7 +175,7 @@ impl AsepriteFile<'_> {
         }
 
         for (index, frame) in file.frames.iter().enumerate() {
-            let mut cels: Vec<FrameCel> = Vec::new();
+            let mut cels: Vec<(i32, i16, FrameCel)> = Vec::new();
             for cel in frame.cels.iter().filter_map(|x| x.as_ref()) {
                 let image_index = match cel.content {
                     CelContent::Image(_) => image_map[&(index, cel.layer_index.into())],
@@ -195,19 +195,23 @@ impl AsepriteFile<'_> {
                 };
                 let width = image_vec[image_index].width;
                 let height = image_vec[image_index].height;
-                cels.push(FrameCel {
+                let frame_cel = FrameCel {
                     origin: (cel.x, cel.y),
                     size: (width, height),
                     opacity: cel.opacity,
                     layer_index: cel.layer_index.into(),
                     image_index,
-                });
+                };
+                let order = i32::from(cel.layer_index) + i32::from(cel.z_index);
+                cels.push((order, cel.z_index, frame_cel));
             }
+            // The z-index moves cels relative to the layer order.
+            cels.sort_by_key(|(order, z_index, _)| (*order, *z_index));
 
             frames.push(Frame {
                 duration: frame.duration,
                 origin: (0, 0),
-                cels,
+                cels: cels.into_iter().map(|(_, _, cel)| cel).collect(),
             });
         }
 
-- 
2.43.0


From d64fccdb28c3a78aafc3a967af39e49c225f5f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 18/23] fix: layers inside a hidden group are not visible

---
 src/loader/mod.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 1bb4c4f..d61f371 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -98,7 +98,8 @@ pub struct Layer {
     pub opacity: u8,
     /// Layer blend mode.
     pub blend_mode: BlendMode,
-    /// Whether the layer is visible in the source file.
+    /// Whether the layer is visible in the source file. Layers inside a
+    /// hidden group are not visible.
     pub visible: bool,
     /// Layer kind (normal/group/etc).
     pub layer_type: LayerType,
@@ -133,15 +134,25 @@ impl AsepriteFile<'_> {
         let file = parse_file(data).map_err(|e| LoadSpriteError::Parse {
             message: e.to_string(),
         })?;
+        // Child level and visibility of the groups enclosing the current layer
+        let mut parents: Vec<(u16, bool)> = Vec::new();
         let layers: Vec<_> = file
             .layers
             .iter()
-            .map(|layer| Layer {
-                name: layer.name.to_string(),
-                opacity: layer.opacity,
-                blend_mode: layer.blend_mode,
-                visible: layer.flags.contains(LayerFlags::VISIBLE),
-                layer_type: layer.layer_type,
+            .map(|layer| {
+                while matches!(parents.last(), Some((level, _)) if *level >= layer.child_level) {
+                    let _ = parents.pop();
+                }
+                let visible = layer.flags.contains(LayerFlags::VISIBLE)
+                    && parents.last().map_or(true, |(_, visible)| *visible);
+                parents.push((layer.child_level, visible));
+                Layer {
+                    name: layer.name.to_string(),
+                    opacity: layer.opacity,
+                    blend_mode: layer.blend_mode,
+                    visible,
+                    layer_type: layer.layer_type,
+                }
             })
             .collect();
 
-- 
2.43.0


From 84bf06b4e8fd5473877a65832785efddd9719737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 19/23] fix: ignore the layer opacity if the header says that
 it is not valid

---
 src/loader/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index d61f371..4a09d75 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -134,6 +134,7 @@ impl AsepriteFile<'_> {
         let file = parse_file(data).map_err(|e| LoadSpriteError::Parse {
             message: e.to_string(),
         })?;
+        let layer_opacity_valid = file.header.flags & 1 != 0;
         // Child level and visibility of the groups enclosing the current layer
         let mut parents: Vec<(u16, bool)> = Vec::new();
         let layers: Vec<_> = file
@@ -148,7 +149,11 @@ impl AsepriteFile<'_> {
                 parents.push((layer.child_level, visible));
                 Layer {
                     name: layer.name.to_string(),
-                    opacity: layer.opacity,
+                    opacity: if layer_opacity_valid {
+                        layer.opacity
+                    } else {
+                        255
+                    },
                     blend_mode: layer.blend_mode,
                     visible,
                     layer_type: layer.layer_type,
-- 
2.43.0


From 10a8307159a97ca37580b3b86d790f7d2fd42571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 20/23] fix: the transparent color of indexed sprites is opaque
 in background layers

---
 src/loader/mod.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 4a09d75..86618ad 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -333,7 +333,10 @@ impl AsepriteFile<'_> {
             }
 
             let mut cel_target = vec![0; usize::from(cel.size.0) * usize::from(cel.size.1) * 4];
-            self.load_image(cel.image_index, &mut cel_target)?;
+            let background = self.file.layers[cel.layer_index]
+                .flags
+                .contains(LayerFlags::BACKGROUND);
+            self.decode_image(cel.image_index, &mut cel_target, background)?;
             let layer = &self.layers[cel.layer_index];
 
             let blend_fn = blend_mode_to_blend_fn(layer.blend_mode)
@@ -379,12 +382,23 @@ impl AsepriteFile<'_> {
 
     /// Get image loader for a given image index
     pub fn load_image(&self, index: usize, target: &mut [u8]) -> Result<(), LoadImageError> {
+        self.decode_image(index, target, false)
+    }
+
+    /// Background layers have no transparent color.
+    fn decode_image(
+        &self,
+        index: usize,
+        target: &mut [u8],
+        background: bool,
+    ) -> Result<(), LoadImageError> {
         let image = &self.images[index];
         let target_size = usize::from(image.width) * usize::from(image.height) * 4;
         if target.len() < target_size {
             return Err(LoadImageError::TargetBufferTooSmall);
         }
         let target = &mut target[..target_size];
+        let opaque_index = background.then_some(self.file.header.transparent_index);
         match (self.file.header.color_depth, image.compressed) {
             (ColorDepth::Rgba, false) => {
                 if image.data.len() != target_size {
@@ -408,6 +422,7 @@ impl AsepriteFile<'_> {
                         .palette
                         .as_ref()
                         .ok_or(LoadImageError::MissingPalette)?,
+                    opaque_index,
                     target,
                 )?;
             }
@@ -420,6 +435,7 @@ impl AsepriteFile<'_> {
                         .palette
                         .as_ref()
                         .ok_or(LoadImageError::MissingPalette)?,
+                    opaque_index,
                     target,
                 )?;
             }
@@ -508,6 +524,7 @@ fn grayscale_to_rgba(source: &[u8], target: &mut [u8]) -> Result<(), LoadImageEr
 fn indexed_to_rgba(
     source: &[u8],
     palette: &Palette,
+    opaque_index: Option<u8>,
     target: &mut [u8],
 ) -> Result<(), LoadImageError> {
     if target.len() != source.len() * 4 {
@@ -518,7 +535,11 @@ fn indexed_to_rgba(
         target[i * 4] = color.red;
         target[i * 4 + 1] = color.green;
         target[i * 4 + 2] = color.blue;
-        target[i * 4 + 3] = color.alpha;
+        target[i * 4 + 3] = if opaque_index == Some(*px) {
+            255
+        } else {
+            color.alpha
+        };
     }
     Ok(())
 }
-- 
2.43.0


From 8d15be72b4f9cd2be39ea8b3f157a0b07b1c9fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:42 +0000
Subject: [PATCH 21/23] fix: report chunk sizes that are too small as such

---
 src/binary/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/chunk.rs b/src/binary/chunk.rs
index 516b23b..01ae2a7 100644
--- a/src/binary/chunk.rs
+++ b/src/binary/chunk.rs
@@ -44,7 +44,7 @@ pub fn parse_chunks(input: &[u8], chunk_count: usize) -> ParseResult<'_, Vec<Chu
 }
 
 pub fn parse_chunk(input: &[u8]) -> ParseResult<'_, Chunk<'_>> {
-    let (input, size) = dword_size(input, ParseError::InvalidFrameSize)?;
+    let (input, size) = dword_size(input, ParseError::InvalidChunkSize)?;
     // FIXME handle underflows
     let (rest, input) = take(size - 4)(input)?;
     let (chunk_data, chunk_type) = parse_chunk_type(input)?;
-- 
2.43.0


From e08c28c800a3000fc1d4d4b99e5963de0c465255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 22/23] fix: report invalid UTF-8 in any frame

---
 src/binary/scalars.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/binary/scalars.rs b/src/binary/scalars.rs
index 3a734b3..99336b3 100644
--- a/src/binary/scalars.rs
+++ b/src/binary/scalars.rs
@@ -8,7 +8,7 @@
 
 use nom::{
     bytes::complete::take,
-    combinator::{flat_map, map_res},
+    combinator::{cut, flat_map, map_res},
     number::complete::{le_i16, le_i32, le_u128, le_u16, le_u32, le_u8},
     Parser,
 };
@@ -133,7 +133,8 @@ pub fn parse_dword_as_u8<'a>(input: &'a [u8], e: ParseError<'a>) -> ParseResult<
 }
 
 pub fn parse_string(input: &[u8]) -> ParseResult<'_, &str> {
-    map_res(flat_map(word, take), std::str::from_utf8).parse(input)
+    // Invalid UTF-8 must not be mistaken for the end of a repetition.
+    cut(map_res(flat_map(word, take), std::str::from_utf8)).parse(input)
 }
 
 pub fn parse_uuid(input: &[u8]) -> ParseResult<'_, Uuid> {
-- 
2.43.0


From 219094ca901628f9c08f8432ffd0b89f704b403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:27 +0000
Subject: [PATCH 23/23] fix: refuse images that do not fit a 32-bit address
 space

The size of an RGBA image was computed without regard for overflow. On
32-bit platforms such as wasm32 it wraps around for images of 32768x32768
pixels and the like (panics in debug builds), which defeats the check of
the target buffer: rendering then panics or allocates too small a buffer.
---
 src/loader/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 86618ad..10999ed 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -314,8 +314,8 @@ impl AsepriteFile<'_> {
         target: &mut [u8],
         layers: &LayerSelection,
     ) -> Result<(), LoadImageError> {
-        let target_size =
-            usize::from(self.file.header.width) * usize::from(self.file.header.height) * 4;
+        let target_size = rgba_size(self.file.header.width, self.file.header.height)
+            .ok_or(LoadImageError::TargetBufferTooSmall)?;
 
         if target.len() < target_size {
             return Err(LoadImageError::TargetBufferTooSmall);
@@ -332,7 +332,9 @@ impl AsepriteFile<'_> {
                 continue;
             }
 
-            let mut cel_target = vec![0; usize::from(cel.size.0) * usize::from(cel.size.1) * 4];
+            let cel_target_size =
+                rgba_size(cel.size.0, cel.size.1).ok_or(LoadImageError::TargetBufferTooSmall)?;
+            let mut cel_target = vec![0; cel_target_size];
             let background = self.file.layers[cel.layer_index]
                 .flags
                 .contains(LayerFlags::BACKGROUND);
@@ -393,7 +395,8 @@ impl AsepriteFile<'_> {
         background: bool,
     ) -> Result<(), LoadImageError> {
         let image = &self.images[index];
-        let target_size = usize::from(image.width) * usize::from(image.height) * 4;
+        let target_size =
+            rgba_size(image.width, image.height).ok_or(LoadImageError::TargetBufferTooSmall)?;
         if target.len() < target_size {
             return Err(LoadImageError::TargetBufferTooSmall);
         }
@@ -495,6 +498,15 @@ pub enum LoadImageError {
     InvalidImageData,
 }
 
+/// Size of an RGBA8 image in bytes, `None` if no buffer can be that large.
+/// This only happens on platforms with less than 64 bits.
+fn rgba_size(width: u16, height: u16) -> Option<usize> {
+    usize::from(width)
+        .checked_mul(usize::from(height))?
+        .checked_mul(4)
+        .filter(|size| isize::try_from(*size).is_ok())
+}
+
 /// Decompress zlib-compressed image bytes into `target`.
 ///
 /// The expected output size depends on color depth and dimensions.
-- 
2.43.0

