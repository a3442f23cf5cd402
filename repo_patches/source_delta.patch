From 7382d6712a024fd22b3c5f1f2cf4e3846dca695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 01/14] fix: do not print to stdout when reading a PGS segment
 header fails

---
 src/pgs/segment.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pgs/segment.rs b/src/pgs/segment.rs
index 52f8b68..47f142f 100644
--- a/src/pgs/segment.rs
+++ b/src/pgs/segment.rs
@@ -95,10 +95,7 @@ pub fn read_header<R: BufRead>(reader: &mut R) -> Result<Option<SegmentHeader>,
             // Buffer is empty, just return to end parsing
             Ok(None)
         }
-        Err(err) => {
-            println!("{err:?}");
-            Err(PgsError::SegmentFailReadHeader)
-        }
+        Err(_) => Err(PgsError::SegmentFailReadHeader),
     }
 }
 
-- 
2.43.0


From 98c4e6f1fc996ef6a1f195616ae1dd75b383d00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 02/14] fix: report a VobSub bitmap that does not decode
 instead of panicking

---
 src/vobsub/decoder.rs | 18 +++++++++---------
 src/vobsub/img.rs     | 12 +++++++-----
 src/vobsub/sub.rs     |  2 +-
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index 6357300..618ca84 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -1,4 +1,4 @@
-use super::{img::VobSubRleImage, VobSubIndexedImage};
+use super::{img::VobSubRleImage, VobSubError, VobSubIndexedImage};
 use crate::time::{TimePoint, TimeSpan};
 
 /// The default length of a subtitle if no end time is provided and no
@@ -17,7 +17,7 @@ pub trait VobSubDecoder<'a> {
         end_time: Option<f64>,
         force: bool,
         image: VobSubRleImage<'a>,
-    ) -> Self::Output;
+    ) -> Result<Self::Output, VobSubError>;
 }
 
 /// Implement creation of a tuple of [`TimeSpan`] and [`VobSubIndexedImage`] from parsing.
@@ -29,14 +29,14 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         end_time: Option<f64>,
         _force: bool,
         rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        (
+    ) -> Result<Self::Output, VobSubError> {
+        Ok((
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
                 TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
             ),
-            VobSubIndexedImage::from(rle_image),
-        )
+            VobSubIndexedImage::try_from(rle_image)?,
+        ))
     }
 }
 
@@ -49,10 +49,10 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
         end_time: Option<f64>,
         _force: bool,
         _rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        Self::new(
+    ) -> Result<Self::Output, VobSubError> {
+        Ok(Self::new(
             TimePoint::from_secs(start_time),
             TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
-        )
+        ))
     }
 }
diff --git a/src/vobsub/img.rs b/src/vobsub/img.rs
index 28615cc..5fbf85f 100644
--- a/src/vobsub/img.rs
+++ b/src/vobsub/img.rs
@@ -270,15 +270,17 @@ impl ImageArea for VobSubIndexedImage {
     }
 }
 
-impl From<VobSubRleImage<'_>> for VobSubIndexedImage {
-    fn from(rle_image: VobSubRleImage) -> Self {
-        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data()).unwrap();
-        Self::new(
+impl TryFrom<VobSubRleImage<'_>> for VobSubIndexedImage {
+    type Error = Error;
+
+    fn try_from(rle_image: VobSubRleImage) -> Result<Self, Self::Error> {
+        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data())?;
+        Ok(Self::new(
             rle_image.area(),
             *rle_image.palette(),
             *rle_image.alpha(),
             decompressed_image,
-        )
+        ))
     }
 }
 
diff --git a/src/vobsub/sub.rs b/src/vobsub/sub.rs
index bc7f414..762928d 100644
--- a/src/vobsub/sub.rs
+++ b/src/vobsub/sub.rs
@@ -395,7 +395,7 @@ where
     let rle_image = VobSubRleImage::new(area, palette, alpha, image_data);
 
     // Return our parsed subtitle.
-    let result = D::from_data(start_time, end_time, force, rle_image);
+    let result = D::from_data(start_time, end_time, force, rle_image)?;
     trace!("Parsed subtitle: {:?}", &result);
     Ok(result)
 }
-- 
2.43.0


From 57dcd5a23c44844d387a291e8e385166c8b35dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 03/14] fix: a VobSub subtitle without stop date ends 5 s after
 its own start

---
 src/vobsub/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index 618ca84..1d7de2b 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -33,7 +33,7 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         Ok((
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
-                TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+                TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
             ),
             VobSubIndexedImage::try_from(rle_image)?,
         ))
@@ -52,7 +52,7 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
     ) -> Result<Self::Output, VobSubError> {
         Ok(Self::new(
             TimePoint::from_secs(start_time),
-            TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+            TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
         ))
     }
 }
-- 
2.43.0


From 3ae0375ef1472512d4cb858ad5ff4dee5385476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 04/14] fix: use the 9 bits of the clock extension

---
 src/vobsub/mpeg2/clock.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vobsub/mpeg2/clock.rs b/src/vobsub/mpeg2/clock.rs
index 7339126..2aca8a7 100644
--- a/src/vobsub/mpeg2/clock.rs
+++ b/src/vobsub/mpeg2/clock.rs
@@ -24,7 +24,7 @@ impl Clock {
     /// specified value.
     pub fn with_ext(self, ext: u16) -> Self {
         Self {
-            value: self.value & !0x1f | u64::from(ext),
+            value: self.value & !0x1ff | u64::from(ext),
         }
     }
 
@@ -32,7 +32,7 @@ impl Clock {
     #[expect(clippy::cast_precision_loss)]
     pub fn as_seconds(self) -> f64 {
         let base = (self.value >> 9) as f64;
-        let ext = (self.value & 0x1F) as f64;
+        let ext = (self.value & 0x1FF) as f64;
         (base + ext / 300.0) / 90000.0
     }
 }
-- 
2.43.0


From 4da62d578b8c24ba68fd36a76bc789e4c6a3697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 05/14] fix: report invalid PGS object segments as errors
 instead of panicking

---
 src/pgs/ods.rs | 59 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/src/pgs/ods.rs b/src/pgs/ods.rs
index f78a608..da4a7eb 100644
--- a/src/pgs/ods.rs
+++ b/src/pgs/ods.rs
@@ -20,6 +20,13 @@ pub enum Error {
     #[error("`LastInSequenceFlag`::'{0}' flag is not managed")]
     LastInSequenceFlagNotManaged(LastInSequenceFlag),
 
+    /// The size of the segment and the declared length of the object data don't match.
+    #[error("segment size `{segment_size}` doesn't fit the object data size `{object_size}`")]
+    InvalidDataSize {
+        segment_size: usize,
+        object_size: usize,
+    },
+
     /// Failed during `Object ID` and `Object Version Number` skipping.
     #[error("skipping `Object ID` and `Object Version Number`")]
     SkipObjectIdAndVerNum(#[source] ReadError),
@@ -130,17 +137,32 @@ pub fn read<Reader: BufRead + Seek>(
 
     match current_ods {
         None => {
-            assert!(
-                last_in_sequence_flag == LastInSequenceFlag::First
-                    || last_in_sequence_flag == LastInSequenceFlag::FirstAndLast
-            );
+            if last_in_sequence_flag == LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
 
-            let data_size = read_obj_data_length(reader)?;
+            let object_size = read_obj_data_length(reader)?;
             let (width, height) = read_img_size(reader)?;
-            let data_size = data_size - 4; // don't know why for now !!! Object Data Length include Width + Height ?
-            let mut object_data = vec![0; data_size]; // Create a `Vec` for contain data of object (image)
+            let invalid_data_size = Error::InvalidDataSize {
+                segment_size: segments_size,
+                object_size,
+            };
+            // don't know why for now !!! Object Data Length include Width + Height ?
+            let Some(data_size) = object_size.checked_sub(4) else {
+                return Err(invalid_data_size);
+            };
+            // Only read data from this segment, additional data are in the next segment, if there are any.
+            let Some(read_data_size) = segments_size.checked_sub(11) else {
+                return Err(invalid_data_size);
+            };
+            if read_data_size > data_size
+                || (last_in_sequence_flag == LastInSequenceFlag::FirstAndLast
+                    && read_data_size != data_size)
+            {
+                return Err(invalid_data_size);
+            }
 
-            let read_data_size = segments_size - 11; // Only read data from this segment, additional data are in the next segment, if there are any.
+            let mut object_data = vec![0; data_size]; // Create a `Vec` for contain data of object (image)
             let data_buff = &mut object_data.as_mut_slice()[0..read_data_size];
             read_object_data(reader, data_buff)?;
 
@@ -151,9 +173,6 @@ pub fn read<Reader: BufRead + Seek>(
             };
 
             if last_in_sequence_flag == LastInSequenceFlag::FirstAndLast {
-                assert!(read_data_size == data_size);
-                assert!(segments_size == 11 + data_size);
-
                 Ok(ObjectDefinitionSegment::Complete(data))
             } else if last_in_sequence_flag == LastInSequenceFlag::First {
                 Ok(ObjectDefinitionSegment::Partial {
@@ -168,10 +187,24 @@ pub fn read<Reader: BufRead + Seek>(
             mut data,
             amount_of_data_read,
         }) => {
-            assert!(last_in_sequence_flag == LastInSequenceFlag::Last); //TODO: not first and not last ?
+            //TODO: not first and not last ?
+            if last_in_sequence_flag != LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
 
             let start_idx = amount_of_data_read;
-            let end_idx = start_idx + (segments_size - 4);
+            let object_size = data.object_data.len();
+            let invalid_data_size = Error::InvalidDataSize {
+                segment_size: segments_size,
+                object_size,
+            };
+            let Some(read_data_size) = segments_size.checked_sub(4) else {
+                return Err(invalid_data_size);
+            };
+            let end_idx = start_idx + read_data_size;
+            if end_idx > object_size {
+                return Err(invalid_data_size);
+            }
             let read_slice = &mut data.object_data.as_mut_slice()[start_idx..end_idx];
             read_object_data(reader, read_slice)?;
             Ok(ObjectDefinitionSegment::Complete(data))
-- 
2.43.0


From 367296afd63eb1fb9a0b2a924bcca04308f4ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 06/14] fix: do not panic when a PGS stream ends between a
 palette or an object and its image

---
 src/pgs/decoder.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pgs/decoder.rs b/src/pgs/decoder.rs
index f4da975..6562d88 100644
--- a/src/pgs/decoder.rs
+++ b/src/pgs/decoder.rs
@@ -132,8 +132,6 @@ impl PgsDecoder for DecodeTimeImage {
             }
         }
 
-        assert!(palette.is_none()); // palette should be transferred into image before get out of the function.
-        assert!(prev_ods.is_none()); // Ods data should be converted into image before get out of the function.
         Ok(subtitle)
     }
 }
-- 
2.43.0


From 7f43cdd5fbc00d2747dd8e5daac3e717566d786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 07/14] fix: report PGS palette segments of invalid size as
 errors instead of panicking

---
 src/pgs/pds.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index fcb5615..27e6fd4 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -7,6 +7,10 @@ pub enum Error {
     /// Read `PaletteDefinitionSegment` in a buffer failed.
     #[error("failed to read buffer with `PaletteDefinitionSegment`")]
     BufferParse(#[source] io::Error),
+
+    /// The size of the segment is not valid for a `PaletteDefinitionSegment`.
+    #[error("invalid size `{size}` for a `PaletteDefinitionSegment`")]
+    InvalidSize { size: usize },
 }
 
 #[derive(Debug, Clone)]
@@ -55,6 +59,13 @@ pub(crate) fn read<R: Read>(
     reader: &mut R,
     segments_size: usize,
 ) -> Result<PaletteDefinitionSegment, Error> {
+    // `Palette ID` and `Palette Version Number`, followed by a whole number of 5 bytes entries.
+    if segments_size < 2 || (segments_size - 2) % 5 != 0 {
+        return Err(Error::InvalidSize {
+            size: segments_size,
+        });
+    }
+
     let mut pds_buf = vec![0; segments_size];
     reader
         .read_exact(&mut pds_buf)
@@ -64,7 +75,6 @@ pub(crate) fn read<R: Read>(
     let palette_version_number = pds_buf[1];
 
     let nb_palette_entry: usize = (segments_size - 2) / 5;
-    assert_eq!((nb_palette_entry * 5) + 2, segments_size);
     let range = 0..nb_palette_entry;
     let palette_entries = range
         .map(|idx| {
-- 
2.43.0


From 85d1099728bf9f3b4301cdf53f8834ae17b8574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 08/14] fix: look up PGS palette entries by their id instead of
 their position

---
 src/pgs/pds.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index 27e6fd4..a456f2f 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -16,27 +16,14 @@ pub enum Error {
 #[derive(Debug, Clone)]
 pub struct Palette {
     entries: Vec<PaletteEntry>,
-    offset: i16,
 }
 impl Palette {
-    fn new(entries: Vec<PaletteEntry>) -> Self {
-        let offset = compute_offset(&entries);
-        Self { entries, offset }
+    const fn new(entries: Vec<PaletteEntry>) -> Self {
+        Self { entries }
     }
 
-    #[expect(clippy::cast_sign_loss)]
     pub fn get(&self, id: u8) -> Option<&PaletteEntry> {
-        let idx = i16::from(id) + self.offset;
-        self.entries.get(idx as usize)
-    }
-}
-
-fn compute_offset(palette: &[PaletteEntry]) -> i16 {
-    //HACK offset is computed only on the first element, should be checked for all entries
-    if palette.is_empty() {
-        0
-    } else {
-        0 - i16::from(palette[0].entry_id)
+        self.entries.iter().find(|entry| entry.entry_id == id)
     }
 }
 
-- 
2.43.0


From 7ed6b8eee035a94adb68ba65b03b10daa2955f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 09/14] fix: compute the size of an Area without overflow

---
 src/content/area.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/content/area.rs b/src/content/area.rs
index dbfb8d3..e7b43af 100644
--- a/src/content/area.rs
+++ b/src/content/area.rs
@@ -33,13 +33,13 @@ impl Area {
     /// The width of the subtitle.
     #[must_use]
     pub const fn width(&self) -> u16 {
-        self.0.x2 + 1 - self.0.x1
+        self.0.x2 - self.0.x1 + 1
     }
 
     /// The height of the subtitle.
     #[must_use]
     pub const fn height(&self) -> u16 {
-        self.0.y2 + 1 - self.0.y1
+        self.0.y2 - self.0.y1 + 1
     }
 
     /// The size of the subtitle.
@@ -62,7 +62,11 @@ impl TryFrom<AreaValues> for Area {
         // Later on, we assume that all bounding boxes
         // have non-negative width and height and we'll
         // crash if they don't.
-        if coords_value.x2 <= coords_value.x1 || coords_value.y2 <= coords_value.y1 {
+        // The width and the height have to be representable too.
+        let size_fits = |first: u16, last: u16| last > first && last - first < u16::MAX;
+        if !size_fits(coords_value.x1, coords_value.x2)
+            || !size_fits(coords_value.y1, coords_value.y2)
+        {
             Err(ContentError::InvalidAreaBounding)
         } else {
             Ok(Self(coords_value))
-- 
2.43.0


From 5d2433fc7e9d4cc986dece68d3c0ec9091f9d985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 10/14] fix: format the smallest TimePoint without overflow

---
 src/time/time_point.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/time/time_point.rs b/src/time/time_point.rs
index a7b9969..63eb6a7 100644
--- a/src/time/time_point.rs
+++ b/src/time/time_point.rs
@@ -74,15 +74,15 @@ impl TimePoint {
     ///
     /// Will return error of writing if happen.
     pub fn fmt_separator(&self, f: &mut fmt::Formatter<'_>, separator: char) -> fmt::Result {
-        let t = if self.0 < 0 { -*self } else { *self };
+        let t = *self;
         write!(
             f,
             "{}{:02}:{:02}:{:02}{separator}{:03}",
             if self.0 < 0 { "-" } else { "" },
-            t.hours(),
-            t.mins_comp(),
-            t.secs_comp(),
-            t.msecs_comp()
+            t.hours().abs(),
+            t.mins_comp().abs(),
+            t.secs_comp().abs(),
+            t.msecs_comp().abs()
         )
     }
 }
-- 
2.43.0


From c5375aa940ee545fdfd7a78dd4474f820d67ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 11/14] fix: do not promise 500 subtitles in
 SupParser::size_hint

---
 src/pgs/sup.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pgs/sup.rs b/src/pgs/sup.rs
index 38e1b4b..9dcc7da 100644
--- a/src/pgs/sup.rs
+++ b/src/pgs/sup.rs
@@ -58,9 +58,8 @@ where
         Decoder::parse_next(&mut self.reader).transpose()
     }
 
-    // Set lower bound to promote the allocation of a minimum number of elements.
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (500, None)
+        (0, None) // The number of subtitles is not known before parsing.
     }
 }
 
-- 
2.43.0


From e91f9f5b19104f0d94b32e0f425b562d6f2fc558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 12/14] fix: iterate over exactly the pixels of a PGS image,
 whatever its run-length data

---
 src/pgs/pgs_image.rs | 61 ++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 28 deletions(-)

diff --git a/src/pgs/pgs_image.rs b/src/pgs/pgs_image.rs
index ac4c144..231af63 100644
--- a/src/pgs/pgs_image.rs
+++ b/src/pgs/pgs_image.rs
@@ -1,7 +1,6 @@
 use super::pds::{Palette, PaletteEntry};
 use crate::image::{ImageSize, ToImage, ToOcrImage, ToOcrImageOpt};
 use image::{ImageBuffer, Luma, LumaA, Pixel, Primitive};
-use std::io::{ErrorKind, Read as _};
 
 /// Define a type of `fn` who covert pixel from `PaletteEntry` to a target color type.
 type PixelConversion<TargetColor> = fn(&PaletteEntry) -> TargetColor;
@@ -29,6 +28,11 @@ impl RleEncodedImage {
         }
     }
 
+    // Number of pixels of the image.
+    fn nb_pixels(&self) -> usize {
+        usize::from(self.width) * usize::from(self.height)
+    }
+
     /// Iterate on image pixels converted with a specified function.
     pub fn pixels<D: Primitive>(
         &self,
@@ -40,6 +44,7 @@ impl RleEncodedImage {
             current_color: LumaA([D::DEFAULT_MIN_VALUE, D::DEFAULT_MAX_VALUE]),
             default_color: LumaA([D::DEFAULT_MAX_VALUE, D::DEFAULT_MIN_VALUE]), // Default: white + transparent
             nb_remaining_pixels: 0,
+            nb_image_pixels: self.nb_pixels(),
             convert,
         }
     }
@@ -80,6 +85,7 @@ impl<'a> IntoIterator for &'a RleEncodedImage {
                 <u8 as Primitive>::DEFAULT_MIN_VALUE,
             ]), // Default: white + transparent
             nb_remaining_pixels: 0,
+            nb_image_pixels: self.nb_pixels(),
             convert: pe_to_luma_a,
         }
     }
@@ -173,6 +179,7 @@ pub struct RlePixelIterator<'a, C> {
     current_color: C,
     default_color: C,
     nb_remaining_pixels: u16,
+    nb_image_pixels: usize,
     convert: PixelConversion<C>,
 }
 
@@ -185,9 +192,14 @@ where
     type Item = Pix;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // The iterator yields exactly the pixels of the image, whatever is encoded in the data.
+        if self.nb_image_pixels == 0 {
+            return None;
+        }
+        self.nb_image_pixels -= 1;
+
         if self.nb_remaining_pixels > 0 {
             self.nb_remaining_pixels -= 1;
-            Some(self.current_color)
         } else if let Some((color_id, nb_pixel)) = self.read_next_pixel() {
             let color = if let Some(color) = self.rle_image.palette.get(color_id) {
                 (self.convert)(color)
@@ -198,15 +210,14 @@ where
 
             self.current_color = color;
             self.nb_remaining_pixels = nb_pixel - 1;
-            Some(self.current_color)
         } else {
-            None // End of pixels
+            self.current_color = self.default_color; // Not enough data, complete the image
         }
+        Some(self.current_color)
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let nb_pixels = (self.rle_image.width() * self.rle_image.height()) as usize;
-        (nb_pixels, Some(nb_pixels))
+        (self.nb_image_pixels, Some(self.nb_image_pixels))
     }
 }
 
@@ -223,28 +234,16 @@ impl<C> RlePixelIterator<'_, C> {
         const MARKER: u8 = 0;
         const COLOR_0: u8 = 0;
         loop {
-            let mut color: [u8; 1] = [0; 1];
-            let res = self.raw_data.read_exact(&mut color);
-            if let Err(err) = res {
-                if err.kind() == ErrorKind::UnexpectedEof {
-                    return None;
-                }
-            }
-
-            let next = color[0];
+            let next = self.read_byte()?;
             if next == MARKER {
-                let mut l2 = [0; 1];
-                self.raw_data.read_exact(&mut l2).unwrap();
+                let byte = self.read_byte()?;
 
-                if l2[0] == MARKER {
+                if byte == MARKER {
                     //break; // End of line
                 } else {
-                    let byte = l2[0];
                     let nb_pixels = match CountMarker::from(byte) {
                         CountMarker::Long => {
-                            let mut l3 = [0; 1];
-                            self.raw_data.read_exact(&mut l3).unwrap();
-                            let count_bytes = [byte & 0b0011_1111, l3[0]];
+                            let count_bytes = [byte & 0b0011_1111, self.read_byte()?];
                             u16::from_be_bytes(count_bytes)
                         }
                         CountMarker::Short => {
@@ -256,20 +255,26 @@ impl<C> RlePixelIterator<'_, C> {
                     let color_marker = ColorMarker::from(byte);
                     let color = match color_marker {
                         ColorMarker::Color0 => COLOR_0,
-                        ColorMarker::ColorN => {
-                            let mut color = [0; 1];
-                            self.raw_data.read_exact(&mut color).unwrap();
-                            color[0]
-                        }
+                        ColorMarker::ColorN => self.read_byte()?,
                     };
 
-                    return Some((color, nb_pixels));
+                    // A run without pixels doesn't encode anything.
+                    if nb_pixels > 0 {
+                        return Some((color, nb_pixels));
+                    }
                 }
             } else {
                 return Some((next, 1));
             }
         }
     }
+
+    // Read the next byte of data. Return `None` if there is no more data.
+    fn read_byte(&mut self) -> Option<u8> {
+        let (&byte, rest) = self.raw_data.split_first()?;
+        self.raw_data = rest;
+        Some(byte)
+    }
 }
 
 /// Decode the color marker.
-- 
2.43.0


From db790c20b3fa2a23707e51809b199730e1f4b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:17 +0000
Subject: [PATCH 13/14] fix: do not take a run-length code cut by the end of a
 VobSub bitmap for a shorter one

---
 src/vobsub/img.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vobsub/img.rs b/src/vobsub/img.rs
index 5fbf85f..f04d5bf 100644
--- a/src/vobsub/img.rs
+++ b/src/vobsub/img.rs
@@ -7,7 +7,7 @@ use log::trace;
 use nom::{
     bits::complete::{tag as tag_bits, take as take_bits},
     branch::alt,
-    combinator::value,
+    combinator::{cut, value},
     sequence::preceded,
     IResult, Parser as _,
 };
@@ -128,12 +128,13 @@ struct Rle {
 fn count(input: (&[u8], usize)) -> IResult<(&[u8], usize), u16> {
     // Fill to end of line.
     let end_of_line = value(0, tag_bits(0, 14u16));
+    // A count cut by the end of the data is not one of a shorter form.
     // Count for 4-nibble RLE.
-    let count4 = preceded(tag_bits(0, 6u8), take_bits(8u16));
+    let count4 = preceded(tag_bits(0, 6u8), cut(take_bits(8u16)));
     // Count for 3-nibble RLE.
-    let count3 = preceded(tag_bits(0, 4u8), take_bits(6u16));
+    let count3 = preceded(tag_bits(0, 4u8), cut(take_bits(6u16)));
     // Count for 2-nibble RLE.
-    let count2 = preceded(tag_bits(0, 2u8), take_bits(4u16));
+    let count2 = preceded(tag_bits(0, 2u8), cut(take_bits(4u16)));
     // Count for 1-nibble RLE.
     let count1 = take_bits(2u16);
     alt((end_of_line, count4, count3, count2, count1)).parse(input)
-- 
2.43.0


From 28a8c97a296d7315e0444cf097fd85601a4e9d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:58 +0000
Subject: [PATCH 14/14] fix: keep the I/O error of a segment header that could
 not be read as the source

---
 src/pgs/mod.rs     | 2 +-
 src/pgs/segment.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pgs/mod.rs b/src/pgs/mod.rs
index 7716139..5192a1d 100644
--- a/src/pgs/mod.rs
+++ b/src/pgs/mod.rs
@@ -53,7 +53,7 @@ pub enum PgsError {
 
     /// An error occurred during Segment Header reading.
     #[error("failed to read a complete segment header")]
-    SegmentFailReadHeader,
+    SegmentFailReadHeader(#[source] io::Error),
 
     /// Missing expected `PG` Magic number.
     #[error("unable to read segment - PG missing!")]
diff --git a/src/pgs/segment.rs b/src/pgs/segment.rs
index 47f142f..18c01a3 100644
--- a/src/pgs/segment.rs
+++ b/src/pgs/segment.rs
@@ -95,7 +95,7 @@ pub fn read_header<R: BufRead>(reader: &mut R) -> Result<Option<SegmentHeader>,
             // Buffer is empty, just return to end parsing
             Ok(None)
         }
-        Err(_) => Err(PgsError::SegmentFailReadHeader),
+        Err(source) => Err(PgsError::SegmentFailReadHeader(source)),
     }
 }
 
-- 
2.43.0

