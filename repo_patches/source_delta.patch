From 273377a8a9ce8b25d4e9675d2bd16888073c0be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 001/101] fix: tiff: an inline value is only as long as its
 count says

---
 src/tiff/entry.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index d62c2fc..97b6fd4 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -120,8 +120,20 @@ impl Entry {
         }
     }
 
+    /// The bytes of the value. An inline value made of bytes can be
+    /// shorter than the 4 bytes that hold it.
     pub(crate) fn data(&self) -> &[u8] {
-        self.data.as_slice()
+        let data = self.data.as_slice();
+        match (&self.data, TagType::try_from(self.type_)) {
+            (
+                DataBytes::Inline(_),
+                Ok(TagType::Byte)
+                | Ok(TagType::Ascii)
+                | Ok(TagType::SByte)
+                | Ok(TagType::Undefined),
+            ) => &data[..std::cmp::min(data.len(), self.count as usize)],
+            _ => data,
+        }
     }
 
     /// monomorphic implementation of `load_data<E>`
@@ -188,9 +200,12 @@ impl Entry {
                 log::error!("index {} is >= {}", index, self.count);
                 return None;
             }
-            return Some(T::read::<E>(
-                &self.data.as_slice()[T::unit_size() * index as usize..],
-            ));
+            let data = if T::is_array() {
+                self.data()
+            } else {
+                self.data.as_slice()
+            };
+            return Some(T::read::<E>(&data[T::unit_size() * index as usize..]));
         }
         log::error!(
             "Entry {:x}({}) incorrect type {} for {:?}",
@@ -283,7 +298,7 @@ impl Entry {
     /// Get the string value out of the entry.
     pub fn string_value(&self) -> Option<String> {
         if self.type_ == exif::TagType::Ascii as i16 {
-            return Some(String::read::<NativeEndian>(self.data.as_slice()));
+            return Some(String::read::<NativeEndian>(self.data()));
         }
         log::error!(
             "Entry {:x}({}) incorrect type {} for {:?}",
-- 
2.43.0


From 0ffe401a3b866f831d28eb9e3a443b74f2d653f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 002/101] fix: tiff: don't read past the end of undefined
 values

---
 src/tiff/entry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index 97b6fd4..0ac1b5b 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -205,7 +205,11 @@ impl Entry {
             } else {
                 self.data.as_slice()
             };
-            return Some(T::read::<E>(&data[T::unit_size() * index as usize..]));
+            // The count of an undefined value is in bytes.
+            return data
+                .get(T::unit_size() * index as usize..)
+                .filter(|data| T::is_array() || data.len() >= T::unit_size())
+                .map(|data| T::read::<E>(data));
         }
         log::error!(
             "Entry {:x}({}) incorrect type {} for {:?}",
-- 
2.43.0


From 2747d2a106c20e1b775b1126d96723ace84cef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 003/101] fix: tiff: integer value of a rational: honour the
 index, don't divide by zero

---
 src/tiff/entry.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index 0ac1b5b..15966c5 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -240,7 +240,9 @@ impl Entry {
                 TagType::Long => Some(u32::read::<E>(
                     &self.data.as_slice()[u32::unit_size() * index as usize..],
                 )),
-                TagType::Rational => self.value::<Rational, E>().map(|r| r.num / r.denom),
+                TagType::Rational => self
+                    .value_at_index::<Rational, E>(index)
+                    .map(|r| u32::from(&r)),
                 _ => {
                     log::error!("incorrect type {} for uint {}", self.type_, self.id);
                     None
-- 
2.43.0


From 191917c912ffd31845d939e6b815dc5b70b910a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 004/101] fix: tiff: stop on a cyclic chain of directories

---
 src/tiff/container.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index 12e88c7..c3d98b0 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -232,7 +232,12 @@ impl Container {
                 view.seek(SeekFrom::Start(4)).expect("Seek failed");
                 view.read_endian_u32(self.endian()).unwrap_or(0)
             };
+            let mut seen = std::collections::HashSet::new();
             while dir_offset != 0 {
+                if !seen.insert(dir_offset) {
+                    error!("Directory at {dir_offset} already loaded, the chain is a loop");
+                    break;
+                }
                 let t = if index < self.dir_map.len() {
                     self.dir_map[index]
                 } else {
-- 
2.43.0


From e1bca3c70639c77014f19a08ebf377d572fe70b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 005/101] fix: tiff: a CFA pattern entry shorter than a pattern
 is not a pattern

---
 src/tiff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tiff.rs b/src/tiff.rs
index cb08f9d..226bfaf 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -186,7 +186,7 @@ fn convert_new_cfa_pattern(entry: &Entry) -> Option<Pattern> {
         return None;
     }
 
-    Pattern::try_from(&data[4..=7]).ok()
+    data.get(4..=7).and_then(|a| Pattern::try_from(a).ok())
 }
 
 fn get_mosaic_info(dir: &Dir) -> Option<Pattern> {
-- 
2.43.0


From b26f4444702b35574916914f044f987638d4af24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 006/101] fix: metadata: a value with a count of 0 has no first
 value

---
 src/metadata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index 0f66cd1..f6487dd 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -118,14 +118,14 @@ impl Value {
 
     pub fn integer(&self) -> Option<u32> {
         match self {
-            Self::Int(i) => Some(i[0]),
+            Self::Int(i) => i.first().copied(),
             _ => None,
         }
     }
 
     pub fn rational(&self) -> Option<exif::Rational> {
         match self {
-            Self::Rational(r) => Some(r[0]),
+            Self::Rational(r) => r.first().copied(),
             _ => None,
         }
     }
-- 
2.43.0


From 8d5253c3683bb3d6beec97293670c292e37cf91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 007/101] fix: identify: a file name extension that isn't UTF-8
 is an unknown extension

---
 src/rawfile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rawfile.rs b/src/rawfile.rs
index cc7349f..fa22757 100644
--- a/src/rawfile.rs
+++ b/src/rawfile.rs
@@ -127,7 +127,7 @@ where
     let file_path = filename.as_ref();
     file_path
         .extension()
-        .and_then(|e| identify::type_for_extension(e.to_ascii_lowercase().to_str().unwrap()))
+        .and_then(|e| identify::type_for_extension(e.to_ascii_lowercase().to_str()?))
 }
 
 /// Crate RawFile object from IO.
-- 
2.43.0


From d1b2a65aabf273d43f97c25af454d860f0fb4988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 008/101] fix: tiff: the number of entries of a directory is
 unsigned

---
 src/tiff/dir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 453ed4d..16a48ab 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -551,7 +551,7 @@ impl Dir {
         let mut entries = BTreeMap::new();
         view.seek(SeekFrom::Start(dir_offset as u64))?;
         debug!("Dir starts at {dir_offset}");
-        let num_entries = view.read_i16::<E>()?;
+        let num_entries = view.read_u16::<E>()?;
         for _ in 0..num_entries {
             let id = view.read_u16::<E>()?;
             let type_ = view.read_i16::<E>()?;
-- 
2.43.0


From 21dbc6317926f2cebf9a8f8bf5b7358aecbafe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 009/101] fix: dng: list the preview of the Leica 6 maker note

---
 src/dng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dng.rs b/src/dng.rs
index f9103b0..d3a84a1 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -301,7 +301,7 @@ impl RawFileImpl for DngFile {
             let container = self.container.get().unwrap();
             let mut thumbnails = tiff::tiff_thumbnails(container);
             self.maker_note_ifd().and_then(|mnote| {
-                if mnote.id() == b"Leica6\0" {
+                if mnote.id() == b"Exif.Leica6\0" {
                     // File with Leica6 MakerNote (Leica M Typ-240) have a
                     // larger preview in the MakerNote
                     mnote.entry(exif::MNOTE_LEICA_PREVIEW_IMAGE).map(|e| {
-- 
2.43.0


From e587b55d77ae0358ae5f96f6ba39b283d7ccdfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 010/101] fix: thumbnails: a preview that isn't a JPEG has no
 size and isn't one

---
 src/panasonic.rs      | 20 +++++++++++---------
 src/tiff/container.rs |  4 ++++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/panasonic.rs b/src/panasonic.rs
index 890ff97..879d125 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -885,15 +885,17 @@ impl RawFileImpl for Rw2File {
                     let width = jpeg.width() as u32;
                     let height = jpeg.height() as u32;
                     let dim = std::cmp::max(width, height);
-                    thumbnails.push((
-                        dim,
-                        thumbnail::ThumbDesc {
-                            width,
-                            height,
-                            data_type: DataType::Jpeg,
-                            data: thumbnail::Data::Offset(jpeg_offset),
-                        },
-                    ));
+                    if dim > 0 {
+                        thumbnails.push((
+                            dim,
+                            thumbnail::ThumbDesc {
+                                width,
+                                height,
+                                data_type: DataType::Jpeg,
+                                data: thumbnail::Data::Offset(jpeg_offset),
+                            },
+                        ));
+                    }
                 }
             }
 
diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index c3d98b0..db6d78f 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -342,6 +342,10 @@ impl Container {
         let width = jpeg.width() as u32;
         let height = jpeg.height() as u32;
         let dim = std::cmp::max(width, height);
+        if dim == 0 {
+            log::error!("No JPEG thumbnail at {offset}");
+            return Err(Error::NotFound);
+        }
         // "Olympus" MakerNote carries a 160 px thubnail we might already have.
         // We don't check it is the same.
         if !list.iter().any(|t| t.0 == dim) {
-- 
2.43.0


From e746f809be2b97f3c35f832fa45fc1c568df9904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 011/101] fix: thumbnails: an offset past the end of the file
 is an error

---
 src/container.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/container.rs b/src/container.rs
index 31cee69..6639593 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -29,8 +29,8 @@ use byteorder::{BigEndian, ByteOrder, LittleEndian, NativeEndian, ReadBytesExt};
 use crate::io::View;
 use crate::metadata;
 use crate::thumbnail::{Data, ThumbDesc, Thumbnail};
-use crate::Result;
 use crate::Type as RawType;
+use crate::{Error, Result};
 
 /// Endian of the container
 #[derive(Clone, Copy, Debug, PartialEq)]
@@ -113,6 +113,10 @@ pub trait RawContainer {
             Data::Offset(ref offset) => {
                 let mut view = self.borrow_view_mut();
                 let mut len = offset.len;
+                if offset.offset > view.len() {
+                    log::error!("Thumbnail offset {} past EOF", offset.offset);
+                    return Err(Error::UnexpectedEOF);
+                }
                 if offset.offset + len > view.len() {
                     // Ricoh GXR A16 have a thumbnail size that goes past EOF
                     // Just readjust the size to go to the end and load that.
-- 
2.43.0


From 495f89edc652bca21625e0cc6698a14b0ccb1d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 012/101] fix: epson: an empty preview has no first byte

---
 src/epson.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/epson.rs b/src/epson.rs
index a35f402..eb4b305 100644
--- a/src/epson.rs
+++ b/src/epson.rs
@@ -139,7 +139,9 @@ impl RawFileImpl for ErfFile {
                 mnote.entry(exif::ERF_TAG_PREVIEW_IMAGE).map(|e| {
                     let mut data = Vec::from(e.data());
                     // The data start by 0xee instead of 0xff for a JPEG. Not sure why.
-                    data[0] = 0xff;
+                    if let Some(b) = data.first_mut() {
+                        *b = 0xff;
+                    }
                     let desc = thumbnail::ThumbDesc {
                         // It is 640x424 (3:2 aspect ratio)
                         width: 640,
-- 
2.43.0


From 873d213883974489f749490e837753c1482d4aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 013/101] fix: thumbnails: preview offsets of maker notes don't
 overflow

---
 src/nikon.rs          | 5 +++--
 src/olympus.rs        | 2 +-
 src/pentax.rs         | 5 +++--
 src/tiff/container.rs | 2 +-
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index 4ec14b8..92cf830 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -602,8 +602,9 @@ impl RawFileImpl for NefFile {
                         None,
                     )
                     .and_then(|dir| {
-                        let start = dir.value::<u32>(exif::MNOTE_NIKON_PREVIEWIFD_START)?
-                            + mnote.mnote_offset;
+                        let start = dir
+                            .value::<u32>(exif::MNOTE_NIKON_PREVIEWIFD_START)?
+                            .checked_add(mnote.mnote_offset)?;
                         let len = dir.value::<u32>(exif::MNOTE_NIKON_PREVIEWIFD_LENGTH)?;
                         container
                             .add_thumbnail_from_stream(start, len, &mut thumbnails)
diff --git a/src/olympus.rs b/src/olympus.rs
index 1af1493..1037fd7 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -459,7 +459,7 @@ impl RawFileImpl for OrfFile {
                         let start = dir
                             .value::<u32>(exif::ORF_TAG_CS_PREVIEW_IMAGE_START)
                             .unwrap_or(0)
-                            + mnote.mnote_offset;
+                            .saturating_add(mnote.mnote_offset);
                         let len = dir
                             .value::<u32>(exif::ORF_TAG_CS_PREVIEW_IMAGE_LENGTH)
                             .unwrap_or(0);
diff --git a/src/pentax.rs b/src/pentax.rs
index 3a768f9..9eb19a0 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -418,8 +418,9 @@ impl RawFileImpl for PefFile {
             self.ifd(tiff::IfdType::MakerNote).and_then(|mnote| {
                 // The MakerNote has a MNOTE_PENTAX_PREVIEW_IMAGE_SIZE
                 // That contain w in [0] and h in [1]
-                let start =
-                    mnote.uint_value(exif::MNOTE_PENTAX_PREVIEW_IMAGE_START)? + mnote.mnote_offset;
+                let start = mnote
+                    .uint_value(exif::MNOTE_PENTAX_PREVIEW_IMAGE_START)?
+                    .checked_add(mnote.mnote_offset)?;
                 let len = mnote.uint_value(exif::MNOTE_PENTAX_PREVIEW_IMAGE_LENGTH)?;
                 container
                     .add_thumbnail_from_stream(start, len, &mut thumbnails)
diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index db6d78f..834603f 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -377,7 +377,7 @@ impl Container {
         list: &mut Vec<(u32, thumbnail::ThumbDesc)>,
     ) -> Result<usize> {
         if let Some(val_offset) = e.offset() {
-            let val_offset = val_offset + offset;
+            let val_offset = val_offset.checked_add(offset).ok_or(Error::InvalidFormat)?;
             self.add_thumbnail_from_stream(val_offset, e.count, list)
         } else {
             log::error!("Entry for thumbnail has no offset");
-- 
2.43.0


From f1de16fa129cfeb0bd3b3a197d94fc6fe04dfe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 014/101] fix: tiff: a directory in an undefined value has the
 same origin as the other values

---
 src/tiff/dir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 16a48ab..08f0ba5 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -758,10 +758,10 @@ impl Dir {
                         return None;
                     }
                 }
-                .map(|offset| (offset as i64 + self.mnote_offset as i64) as u32)
             } else {
                 e.offset()
             }
+            .and_then(|offset| offset.checked_add(self.mnote_offset))
             .and_then(|val_offset| {
                 let mut view = container.borrow_view_mut();
                 container
-- 
2.43.0


From a3eb59ac9035d77ecb2bd89a020ad664c46a8dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 015/101] fix: jpeg: don't decode the header again after a
 failure

---
 src/jpeg/container.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/jpeg/container.rs b/src/jpeg/container.rs
index 7e68b71..d2fc4ad 100644
--- a/src/jpeg/container.rs
+++ b/src/jpeg/container.rs
@@ -117,16 +117,9 @@ impl Container {
     pub fn exif(&self) -> Option<&tiff::Container> {
         self.exif
             .get_or_init(|| {
-                let decoder = self.decoder();
-                decoder
-                    .borrow_mut()
-                    .read_info()
-                    .map_err(|err| {
-                        log::error!("JPEG decoding error: {}", err);
-                        err
-                    })
-                    .ok()?;
-                decoder
+                // The decoder can't be asked again if it failed.
+                self.image_info().as_ref()?;
+                self.decoder()
                     .borrow()
                     .exif_data()
                     .and_then(|data| {
-- 
2.43.0


From 835513ab7d9090cdbc9a495167d3793352e09628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 016/101] fix: container: loading data reads it all, and only
 what is in the file

---
 src/container.rs | 51 ++++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/container.rs b/src/container.rs
index 6639593..8e5c006 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -145,24 +145,11 @@ pub trait RawContainer {
     /// Get the io::View for the container.
     fn borrow_view_mut(&self) -> RefMut<'_, View>;
 
-    /// Load an 8bit buffer at `offset` and of `len` bytes.
+    /// Load an 8bit buffer at `offset` and of `len` bytes. The buffer
+    /// is shorter if the file ends before.
     fn load_buffer8(&self, offset: u64, len: u64) -> Vec<u8> {
-        let mut data = uninit_vec!(len as usize);
-
         let mut view = self.borrow_view_mut();
-        if view.seek(SeekFrom::Start(offset)).is_err() {
-            log::error!("load_buffer8: Seek failed");
-        }
-        if let Ok(n) = view.read(data.as_mut_slice()) {
-            if n < len as usize {
-                log::debug!("Short read {} < {}", n, len);
-                data.resize(n, 0);
-            }
-        } else {
-            log::error!("load_buffer8: read failed");
-        }
-
-        data
+        load_bytes(&mut view, offset, len)
     }
 
     /// Load an 16 bit buffer at `offset` and of `len` bytes in the native endian.
@@ -184,20 +171,32 @@ pub trait RawContainer {
     }
 }
 
-/// Load an 16 bit buffer at `offset` and of `len` bytes following endian `E`.
-fn load_buffer16_endian<E>(view: &mut View, offset: u64, len: u64) -> Vec<u16>
-where
-    E: ByteOrder,
-{
-    let mut data = uninit_vec!((len / 2) as usize);
+/// Load at most `len` bytes at `offset`. There are less bytes if the
+/// end of the file comes first.
+fn load_bytes(view: &mut View, offset: u64, len: u64) -> Vec<u8> {
+    let mut data = Vec::new();
 
     if let Err(err) = view.seek(SeekFrom::Start(offset)) {
-        log::error!("load_buffer16: Seek failed: {err}");
+        log::error!("load_bytes: Seek failed: {err}");
+        return data;
     }
-
-    if let Err(err) = view.read_u16_into::<E>(&mut data) {
-        log::error!("load_buffer16: {err}");
+    match view.take(len).read_to_end(&mut data) {
+        Ok(n) => {
+            if (n as u64) < len {
+                log::debug!("Short read {} < {}", n, len);
+            }
+        }
+        Err(err) => log::error!("load_bytes: read failed: {err}"),
     }
 
     data
 }
+
+/// Load an 16 bit buffer at `offset` and of `len` bytes following endian `E`.
+fn load_buffer16_endian<E>(view: &mut View, offset: u64, len: u64) -> Vec<u16>
+where
+    E: ByteOrder,
+{
+    let bytes = load_bytes(view, offset, len);
+    bytes.chunks_exact(2).map(E::read_u16).collect()
+}
-- 
2.43.0


From 280acfcc9ae1701441429150b17df685b13f7c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:02 +0000
Subject: [PATCH 017/101] fix: tiff: raw data is all the strips and never
 something else

Strips that aren't contiguous, or whose offsets are SHORT, are loaded
from where they are. Without strips or without enough data for the image
it is an error, instead of the start of the file.
---
 src/decompress.rs |  28 +---------
 src/tiff.rs       | 130 ++++++++++++++++++++++------------------------
 2 files changed, 65 insertions(+), 93 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index b13acdb..18b64d6 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -29,9 +29,9 @@ mod tiled;
 pub use ljpeg::LJpeg;
 pub(crate) use tiled::TiledLJpeg;
 
-use std::io::{Read, Seek, SeekFrom};
+use std::io::Read;
 
-use crate::container::{Endian, RawContainer};
+use crate::container::Endian;
 use crate::tiff;
 use crate::{Error, Result};
 use bit_reader::BitReader;
@@ -182,30 +182,6 @@ pub(crate) fn unpack_le12to16(
     Ok(written)
 }
 
-/// Unpack data at `offset` into a 16-bits buffer.
-pub(crate) fn unpack(
-    container: &dyn RawContainer,
-    width: u32,
-    height: u32,
-    bpc: u16,
-    compression: tiff::Compression,
-    offset: u64,
-    byte_len: usize,
-) -> Result<Vec<u16>> {
-    let mut view = container.borrow_view_mut();
-    view.seek(SeekFrom::Start(offset))?;
-
-    unpack_from_reader(
-        &mut *view,
-        width,
-        height,
-        bpc,
-        compression,
-        byte_len,
-        container.endian(),
-    )
-}
-
 /// Unpack from a reader into a 16-bits buffer. `endian` is used when
 /// compression is `None`.
 pub(crate) fn unpack_from_reader(
diff --git a/src/tiff.rs b/src/tiff.rs
index 226bfaf..ebbfb8d 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -214,8 +214,6 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     file_type: Type,
     endian: Endian,
 ) -> Result<RawImage> {
-    let mut offset = 0_u32;
-
     let mut bpc = dir
         .value::<u16>(exif::EXIF_TAG_BITS_PER_SAMPLE)
         .or_else(|| {
@@ -224,40 +222,43 @@ pub(crate) fn tiff_get_rawdata_with_endian(
         })
         .unwrap_or(0);
 
+    let sum = |a: &[u32]| a.iter().try_fold(0_u32, |sum, &x| sum.checked_add(x));
+
     let mut tile_bytes: Option<Vec<u32>> = None;
     let mut tile_offsets: Option<Vec<u32>> = None;
     let mut tile_size: Option<(u32, u32)> = None;
+    let mut strips: Vec<(u64, u64)> = vec![];
     let byte_len = dir
-        .value::<u32>(exif::EXIF_TAG_STRIP_OFFSETS)
-        .and_then(|v| {
-            offset = v;
-            let entry = dir.entry(exif::EXIF_TAG_STRIP_BYTE_COUNTS).or_else(|| {
-                log::debug!("byte len not found");
-                // XXX this might trigger the or_else below
-                None
-            })?;
+        .uint_value_array(exif::EXIF_TAG_STRIP_OFFSETS)
+        .filter(|offsets| !offsets.is_empty())
+        .and_then(|offsets| {
+            let counts = dir
+                .uint_value_array(exif::EXIF_TAG_STRIP_BYTE_COUNTS)
+                .or_else(|| {
+                    log::debug!("byte len not found");
+                    // XXX this might trigger the or_else below
+                    None
+                })?;
             // In case of overflow, we'll return None
-            entry
-                .value_array::<u32>(dir.endian())
-                .map(|a| a.iter().try_fold(0_u32, |sum, &x| sum.checked_add(x)))?
+            let total = sum(&counts)?;
+            strips = if offsets.len() == counts.len() {
+                std::iter::zip(&offsets, &counts)
+                    .map(|(offset, len)| (*offset as u64, *len as u64))
+                    .collect()
+            } else {
+                vec![(offsets[0] as u64, total as u64)]
+            };
+            Some(total)
         })
         .or_else(|| {
-            tile_bytes = dir
-                .entry(exif::TIFF_TAG_TILE_BYTECOUNTS)
-                .and_then(|e| e.value_array::<u32>(dir.endian()));
-            // In case of overflow, we'll return 0 via the unwrap().
-            let tile_bytes_total = tile_bytes
-                .as_ref()
-                .and_then(|a| a.iter().try_fold(0_u32, |sum, &x| sum.checked_add(x)))
-                .unwrap_or(0);
-            tile_offsets = dir
-                .entry(exif::TIFF_TAG_TILE_OFFSETS)
-                .and_then(|e| e.value_array::<u32>(dir.endian()));
+            tile_offsets = dir.uint_value_array(exif::TIFF_TAG_TILE_OFFSETS);
+            tile_bytes = dir.uint_value_array(exif::TIFF_TAG_TILE_BYTECOUNTS);
             // the tile are individual JPEGS....
             let x = dir.uint_value(exif::TIFF_TAG_TILE_WIDTH).unwrap_or(0);
             let y = dir.uint_value(exif::TIFF_TAG_TILE_LENGTH).unwrap_or(0);
             tile_size = Some((x, y));
-            Some(tile_bytes_total)
+            tile_offsets.as_ref()?;
+            sum(tile_bytes.as_ref()?)
         })
         .ok_or(Error::NotFound)?;
 
@@ -345,10 +346,19 @@ pub(crate) fn tiff_get_rawdata_with_endian(
         log::debug!("setting bpc from {} to 16", bpc);
         bpc = 16;
     }
+    if data_type == DataType::Raw && strips.is_empty() {
+        log::error!("TIFF: uncompressed tiles are not supported");
+        return Err(Error::InvalidFormat);
+    }
+    // Load all the strips.
+    let load_strips = || {
+        strips.iter().fold(vec![], |mut data, (offset, len)| {
+            data.append(&mut container.load_buffer8(*offset, *len));
+            data
+        })
+    };
     let mut rawdata = if data_type == DataType::CompressedRaw {
-        if tile_bytes.is_some() && tile_offsets.is_some() {
-            let tile_bytes = tile_bytes.as_ref().unwrap();
-            let tile_offsets = tile_offsets.as_ref().unwrap();
+        if let Some((tile_bytes, tile_offsets)) = tile_bytes.as_ref().zip(tile_offsets.as_ref()) {
             let data = std::iter::zip(tile_offsets, tile_bytes)
                 .map(|(offset, byte_len)| {
                     // If we exceed file boundaries, return empty buffers
@@ -374,22 +384,40 @@ pub(crate) fn tiff_get_rawdata_with_endian(
                 mosaic_pattern.unwrap_or_default(),
             )
         } else {
-            let data = container.load_buffer8(offset as u64, byte_len as u64);
             RawImage::with_data8(
                 x,
                 y,
                 actual_bpc,
                 data_type,
-                data,
+                load_strips(),
                 mosaic_pattern.unwrap_or_default(),
             )
         }
-    } else if bpc == 16 {
-        let data = if endian == Endian::Big {
-            container.load_buffer16_be(offset as u64, byte_len as u64)
+    } else {
+        let data = load_strips();
+        let data: Vec<u16> = if bpc == 16 {
+            data.chunks_exact(2).map(|v| endian.read_u16(v)).collect()
+        } else if bpc == 10 || bpc == 12 || bpc == 14 {
+            decompress::unpack_from_reader(
+                &mut data.as_slice(),
+                x,
+                y,
+                bpc,
+                compression,
+                data.len(),
+                container.endian(),
+            )?
+        } else if bpc == 8 {
+            // XXX is this efficient?
+            data.iter().map(|v| *v as u16).collect()
         } else {
-            container.load_buffer16_le(offset as u64, byte_len as u64)
+            log::error!("Invalid RAW format, unsupported bpc {}", bpc);
+            return Err(Error::InvalidFormat);
         };
+        if data.len() < pixel_count as usize {
+            log::error!("TIFF: not enough data for the image.");
+            return Err(Error::UnexpectedEOF);
+        }
         RawImage::with_data16(
             x,
             y,
@@ -398,38 +426,6 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             data,
             mosaic_pattern.unwrap_or_default(),
         )
-    } else if bpc == 10 || bpc == 12 || bpc == 14 {
-        let data = decompress::unpack(
-            container,
-            x,
-            y,
-            bpc,
-            compression,
-            offset as u64,
-            byte_len as usize,
-        )?;
-        RawImage::with_data16(
-            x,
-            y,
-            actual_bpc,
-            data_type,
-            data,
-            mosaic_pattern.unwrap_or_default(),
-        )
-    } else if bpc == 8 {
-        let data = container.load_buffer8(offset as u64, byte_len as u64);
-        // XXX is this efficient?
-        RawImage::with_data16(
-            x,
-            y,
-            bpc,
-            data_type,
-            data.iter().map(|v| *v as u16).collect(),
-            mosaic_pattern.unwrap_or_default(),
-        )
-    } else {
-        log::error!("Invalid RAW format, unsupported bpc {}", bpc);
-        return Err(Error::InvalidFormat);
     };
 
     rawdata.set_linearization_table(linearization_table);
@@ -441,7 +437,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     });
     rawdata.set_photometric_interpretation(photom_int);
     if rawdata.whites()[0] == 0 {
-        let white: u32 = (1_u32 << actual_bpc) - 1;
+        let white = (1_u64 << actual_bpc) - 1;
         rawdata.set_whites([white as u16; 4]);
     }
 
-- 
2.43.0


From 473da97eaa3b2fbaea10b5d751e9bacdb0484881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 018/101] fix: unpack: rows of any width, and too short data is
 an error

---
 src/decompress.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index 18b64d6..9aa571a 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -96,7 +96,9 @@ pub(crate) fn unpack_be12to16(
             "be12to16 incorrect padding for {compression:?}.",
         )));
     }
-    if (rest % 3) != 0 {
+    // Without padding there could be an odd number of values.
+    let odd = pad == 0 && (rest % 3) == 2;
+    if (rest % 3) != 0 && !odd {
         log::error!("be12to16 incorrect rest for {:?}.", compression);
         return Err(Error::Decompression(format!(
             "be12to16 incorrect rest for {compression:?}.",
@@ -124,6 +126,12 @@ pub(crate) fn unpack_be12to16(
         }
         src += pad;
     }
+    if odd {
+        let i0 = input[input.len() - 2] as u16;
+        let i1 = input[input.len() - 1] as u16;
+        out_data.push((i0 << 4) | (i1 >> 4));
+        written += 1;
+    }
     Ok(written)
 }
 
@@ -152,7 +160,9 @@ pub(crate) fn unpack_le12to16(
             "le12to16 incorrect padding for {compression:?}.",
         )));
     }
-    if (rest % 3) != 0 {
+    // Without padding there could be an odd number of values.
+    let odd = pad == 0 && (rest % 3) == 2;
+    if (rest % 3) != 0 && !odd {
         log::error!("le12to16 incorrect rest for {:?}.", compression);
         return Err(Error::Decompression(format!(
             "le12to16 incorrect rest for {compression:?}.",
@@ -179,6 +189,12 @@ pub(crate) fn unpack_le12to16(
         }
         src += pad;
     }
+    if odd {
+        let i0 = input[input.len() - 2] as u16;
+        let i1 = input[input.len() - 1] as u16;
+        out_data.push(((i1 & 0xf) << 8) | i0);
+        written += 1;
+    }
     Ok(written)
 }
 
@@ -201,7 +217,7 @@ pub(crate) fn unpack_from_reader(
         compression
     );
     let block_size: usize = match bpc {
-        10 => (width / 4 * 5) as usize,
+        10 => (width as usize * 10 + 7) / 8,
         12 => {
             if compression == tiff::Compression::NikonPack
                 || compression == tiff::Compression::Olympus
@@ -209,10 +225,10 @@ pub(crate) fn unpack_from_reader(
             {
                 ((width / 2 * 3) + width / 10) as usize
             } else {
-                (width / 2 * 3) as usize
+                (width as usize * 12 + 7) / 8
             }
         }
-        14 => (width / 4 * 7) as usize,
+        14 => (width as usize * 14 + 7) / 8,
         _ => {
             log::warn!("Invalid BPC {}", bpc);
             return Err(Error::InvalidFormat);
@@ -225,7 +241,12 @@ pub(crate) fn unpack_from_reader(
     let mut fetched = 0_usize;
     let mut written = 0_usize;
 
-    let byte_len = std::cmp::min(byte_len, block_size * height as usize);
+    let image_len = block_size * height as usize;
+    if byte_len < image_len {
+        log::error!("Unpack: {byte_len} bytes is too short for the image");
+        return Err(Error::UnexpectedEOF);
+    }
+    let byte_len = image_len;
     while fetched < byte_len {
         reader.read_exact(block.as_mut_slice())?;
         fetched += block.len();
-- 
2.43.0


From 1fee5da13df6c92e27e78d4f5100a4ab24e22770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 019/101] fix: raw data too short for the image is an error in
 NEF and RW2 files

---
 src/decompress.rs |  4 ++++
 src/nikon.rs      | 10 +++++++++-
 src/panasonic.rs  | 38 +++++++++++++++++++++++---------------
 3 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index 9aa571a..6022938 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -272,6 +272,10 @@ pub(crate) fn unpack_from_reader(
         }
     }
     log::debug!("Unpacked {} pixels", written);
+    if written < out_size {
+        log::error!("Unpack: the rows are too short for the image");
+        return Err(Error::UnexpectedEOF);
+    }
 
     Ok(out_data)
 }
diff --git a/src/nikon.rs b/src/nikon.rs
index 92cf830..3c93805 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -262,7 +262,11 @@ impl NefFile {
         let mut fetched = 0_usize;
         let mut written = 0_usize;
 
-        let byte_len = std::cmp::min(data.len(), block_size * height as usize);
+        let byte_len = block_size * height as usize;
+        if data.len() < byte_len {
+            log::error!("NEF: {} bytes is too short for the image", data.len());
+            return Err(Error::UnexpectedEOF);
+        }
         while fetched < byte_len {
             let block = &data[fetched..fetched + block_size];
             fetched += block.len();
@@ -271,6 +275,10 @@ impl NefFile {
                 decompress::unpack_be12to16(block, &mut out_data, tiff::Compression::NikonPack)?;
         }
         log::debug!("Unpacked {} pixels", written);
+        if written < out_size {
+            log::error!("NEF: the rows are too short for the image");
+            return Err(Error::UnexpectedEOF);
+        }
 
         let mut rawdata = rawdata.replace_data(out_data);
         rawdata.set_data_type(DataType::Raw);
diff --git a/src/panasonic.rs b/src/panasonic.rs
index 879d125..dbcf8a2 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -987,10 +987,10 @@ impl RawFileImpl for Rw2File {
             let data_type = if has_raw_offset {
                 probe!(self.probe, "rw2.compression", "panasonic");
                 DataType::CompressedRaw
-            } else if real_len >= (pixel_count * 2) as u64 {
+            } else if real_len >= pixel_count as u64 * 2 {
                 probe!(self.probe, "rw2.compression", "unpacked");
                 DataType::Raw
-            } else if real_len >= (pixel_count * 3 / 2) as u64 {
+            } else if real_len >= pixel_count as u64 * 3 / 2 {
                 // Need to unpack
                 probe!(self.probe, "rw2.compression", "packed");
                 packed = true;
@@ -1006,24 +1006,28 @@ impl RawFileImpl for Rw2File {
                     Compression::from_primitive(c as u32)
                 })
                 .unwrap_or(Compression::Unknown);
+            let pixel_count = pixel_count as usize;
             let (compression, mut raw_data) = match data_type {
                 DataType::CompressedRaw => {
                     let pattern = mosaic_pattern.unwrap_or_default();
                     let buffer = self.container()?.load_buffer8(offset.offset, offset.len);
                     if !skip_decompress && compression == Compression::PanasonicRaw1 {
-                        decompress::panasonic_raw1(&buffer).ok().map(|raw| {
-                            (
-                                Compression::None,
-                                RawImage::with_data16(
-                                    width,
-                                    height,
-                                    bpc,
-                                    DataType::Raw,
-                                    raw,
-                                    pattern.clone(),
-                                ),
-                            )
-                        })
+                        decompress::panasonic_raw1(&buffer)
+                            .ok()
+                            .filter(|raw| raw.len() >= pixel_count)
+                            .map(|raw| {
+                                (
+                                    Compression::None,
+                                    RawImage::with_data16(
+                                        width,
+                                        height,
+                                        bpc,
+                                        DataType::Raw,
+                                        raw,
+                                        pattern.clone(),
+                                    ),
+                                )
+                            })
                     } else {
                         None
                     }
@@ -1060,6 +1064,10 @@ impl RawFileImpl for Rw2File {
                         let mut buffer = self
                             .container()?
                             .load_buffer16_le(offset.offset, offset.len);
+                        if buffer.len() < pixel_count {
+                            log::error!("RW2: not enough raw data");
+                            return Err(Error::UnexpectedEOF);
+                        }
                         buffer.iter_mut().for_each(|v| *v >>= 4);
                         buffer
                     };
-- 
2.43.0


From 95a4ae27b8b2b3d672185abc686da86bf88611be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:37 +0000
Subject: [PATCH 020/101] fix: minolta: raw data too short for the image is an
 error

---
 src/minolta.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index 1fecfa0..92b859a 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -252,11 +252,12 @@ impl RawFileImpl for MrwFile {
             let rawinfo = container.minolta_prd()?;
 
             let cfa_offset = container.raw_data_offset();
+            let pixel_count = rawinfo.x as u64 * rawinfo.y as u64;
             let cfa_len = if rawinfo.is_compressed {
-                rawinfo.x * rawinfo.y + ((rawinfo.x * rawinfo.y) >> 1)
+                pixel_count + (pixel_count + 1) / 2
             } else {
-                2 * rawinfo.x * rawinfo.y
-            } as u64;
+                2 * pixel_count
+            };
             let mut rawdata = if rawinfo.is_compressed {
                 probe!(self.probe, "mrw.packed", "true");
                 let raw = container.load_buffer8(cfa_offset, cfa_len);
@@ -270,7 +271,11 @@ impl RawFileImpl for MrwFile {
                         rawinfo.mosaic,
                     )
                 } else {
-                    let mut unpacked = Vec::with_capacity((rawinfo.x * rawinfo.y) as usize);
+                    if (raw.len() as u64) < cfa_len {
+                        log::error!("MRW: not enough raw data");
+                        return Err(Error::UnexpectedEOF);
+                    }
+                    let mut unpacked = Vec::with_capacity(pixel_count as usize);
                     decompress::unpack_be12to16(&raw, &mut unpacked, tiff::Compression::None)
                         .map_err(|err| {
                             log::error!("RAF failed to unpack {}", err);
@@ -287,6 +292,10 @@ impl RawFileImpl for MrwFile {
                 }
             } else {
                 let raw = container.load_buffer16_be(cfa_offset, cfa_len);
+                if (raw.len() as u64) < pixel_count {
+                    log::error!("MRW: not enough raw data");
+                    return Err(Error::UnexpectedEOF);
+                }
                 RawImage::with_data16(
                     rawinfo.x,
                     rawinfo.y,
-- 
2.43.0


From c31c9742f3c555a689d5872eda486bd91a1132d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:15 +0000
Subject: [PATCH 021/101] fix: minolta: a file without metadata block or
 preview doesn't panic

---
 src/minolta.rs | 54 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index 92b859a..61178f9 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -190,7 +190,12 @@ impl RawFileImpl for MrwFile {
             let mut thumbnails = vec![];
             self.container()?;
             if let Some(makernote) = self.ifd(tiff::IfdType::MakerNote) {
-                let ifd = self.container.get().unwrap().ifd_container();
+                let ifd = self
+                    .container
+                    .get()
+                    .unwrap()
+                    .ifd_container()
+                    .ok_or(Error::NotFound)?;
                 // Old files have the thumbnail in the Exif entry `MNOTE_MINOLTA_THUMBNAIL`.
                 let buffer = if let Some(preview) = makernote.entry(exif::MNOTE_MINOLTA_THUMBNAIL) {
                     // e.data() is incorrect.
@@ -212,7 +217,7 @@ impl RawFileImpl for MrwFile {
                         None
                     }
                 };
-                if let Some(mut buffer) = buffer {
+                if let Some(mut buffer) = buffer.filter(|buffer| !buffer.is_empty()) {
                     // For some reason the first byte isn't 0xff. Thanks Minolta.
                     // Setting the first byte to `0xff` makes it be a JPEG.
                     buffer[0] = 0xff;
@@ -235,7 +240,7 @@ impl RawFileImpl for MrwFile {
     /// block.
     fn ifd(&self, ifd_type: tiff::IfdType) -> Option<&tiff::Dir> {
         self.container().ok()?;
-        let ifd = self.container.get().unwrap().ifd_container();
+        let ifd = self.container.get().unwrap().ifd_container()?;
         match ifd_type {
             tiff::IfdType::Raw | tiff::IfdType::Main => ifd.directory(0),
             tiff::IfdType::Exif => ifd.exif_dir(),
@@ -342,7 +347,9 @@ impl Dump for MrwFile {
     fn write_dump<W: std::io::Write + ?Sized>(&self, out: &mut W, indent: u32) {
         dump_writeln!(out, indent, "<Minolta MRW File>");
         let _ = self.container();
-        self.container.get().unwrap().write_dump(out, indent + 1);
+        if let Some(container) = self.container.get() {
+            container.write_dump(out, indent + 1);
+        }
         dump_writeln!(out, indent, "</Minolat MRW File>");
     }
 }
@@ -543,7 +550,7 @@ pub(crate) struct MrwContainer {
     /// TIFF IFD
     ttw: Option<DataBlock>,
     /// The IFD container from `ttw`.
-    ifd: OnceCell<tiff::Container>,
+    ifd: OnceCell<Option<tiff::Container>>,
     /// White balance
     wbg: Option<DataBlock>,
     /// Image processing settings
@@ -608,16 +615,25 @@ impl MrwContainer {
 
     /// Get the IFD container from the `TTW` block.
     /// All the Exif offsets are relative to the begining of the container.
-    fn ifd_container(&self) -> &tiff::Container {
-        self.ifd.get_or_init(|| {
-            let ttw = self.ttw.as_ref().expect("no TTW in the file");
-            let view = Viewer::create_subview(&self.view.borrow(), ttw.offset + 8)
-                .expect("Couldn't create view");
-            let mut ifd = tiff::Container::new(view, vec![(IfdType::Main, None)], Type::Mrw);
-            ifd.load(None).expect("Failed to load IFD container");
-
-            ifd
-        })
+    /// `None` if there is no (valid) `TTW` block.
+    fn ifd_container(&self) -> Option<&tiff::Container> {
+        self.ifd
+            .get_or_init(|| {
+                let ttw = self.ttw.as_ref().or_else(|| {
+                    log::error!("no TTW in the file");
+                    None
+                })?;
+                let view = Viewer::create_subview(&self.view.borrow(), ttw.offset + 8)
+                    .map_err(|err| log::error!("Couldn't create view: {err}"))
+                    .ok()?;
+                let mut ifd = tiff::Container::new(view, vec![(IfdType::Main, None)], Type::Mrw);
+                ifd.load(None)
+                    .map_err(|err| log::error!("Failed to load IFD container: {err}"))
+                    .ok()?;
+
+                Some(ifd)
+            })
+            .as_ref()
     }
 
     pub(crate) fn minolta_prd(&self) -> Result<RawInfo> {
@@ -723,7 +739,9 @@ impl RawContainer for MrwContainer {
     }
 
     fn dir_iterator(&self) -> metadata::Iterator {
-        self.ifd_container().dirs().iter().into()
+        self.ifd_container()
+            .map(|ifd| ifd.dirs().iter().into())
+            .unwrap_or_default()
     }
 }
 
@@ -820,7 +838,9 @@ impl Dump for MrwContainer {
                     dump_writeln!(out, indent, "<TTW @{}, len={}>", block.offset, block.length);
                     {
                         let indent = indent + 1;
-                        self.ifd_container().write_dump(out, indent);
+                        if let Some(ifd) = self.ifd_container() {
+                            ifd.write_dump(out, indent);
+                        }
                     }
                     dump_writeln!(out, indent, "</TTW>");
                 }
-- 
2.43.0


From d8ba19d458d86a9917341e2a000a267ac708ded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 022/101] fix: minolta: white balance of the GBRG cameras and
 of any denominator

---
 src/minolta.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index 61178f9..b13530d 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -673,21 +673,20 @@ impl MrwContainer {
     }
 
     pub(crate) fn get_wb(&self) -> Option<[f64; 4]> {
+        let mosaic = self.minolta_prd().ok()?.mosaic;
         self.wbg.as_ref().and_then(|wbg| {
-            let rd = wbg
-                .uint8_value(Wbg::DenominatorR as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
-            let gd = wbg
-                .uint8_value(Wbg::DenominatorG1 as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
-            let bd = wbg
-                .uint8_value(Wbg::DenominatorB as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
-            let rn = wbg.uint16_value(Wbg::NominatorR as u64, self)? as f64;
-            let gn = wbg.uint16_value(Wbg::NominatorG1 as u64, self)? as f64;
-            let bn = wbg.uint16_value(Wbg::NominatorB as u64, self)? as f64;
-
-            Some([rd / rn, gd / gn, bd / bn, f64::NAN])
+            // `index` is the position of the coefficient in the block.
+            let coefficient = |index: u64| {
+                let denom = wbg.uint8_value(Wbg::DenominatorR as u64 + index, self)?;
+                let nom = wbg.uint16_value(Wbg::NominatorR as u64 + 2 * index, self)?;
+                Some(2_f64.powi(6 + denom as i32) / nom as f64)
+            };
+            let (r, g, b) = match mosaic {
+                Pattern::Gbrg => (2, 0, 1),
+                _ => (0, 1, 3),
+            };
+
+            Some([coefficient(r)?, coefficient(g)?, coefficient(b)?, f64::NAN])
         })
     }
 
-- 
2.43.0


From cb4d044764f970f110713471658f840e9d558a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 023/101] fix: minolta: the bit depth of packed raw data is
 that of the file

---
 src/minolta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index b13530d..3fb083e 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -289,7 +289,7 @@ impl RawFileImpl for MrwFile {
                     RawImage::with_data16(
                         rawinfo.x,
                         rawinfo.y,
-                        16,
+                        rawinfo.bps,
                         DataType::Raw,
                         unpacked,
                         rawinfo.mosaic,
-- 
2.43.0


From c9751a126a6f30d9968ff0f3d373fb90fb502a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:27 +0000
Subject: [PATCH 024/101] fix: minolta: offsets in the maker note count from
 the TIFF header

---
 src/tiff/dir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 08f0ba5..1627085 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -461,7 +461,7 @@ impl Dir {
                         container,
                         container::Endian::Unset,
                         offset,
-                        offset,
+                        0,
                         &minolta::MNOTE_TAG_NAMES,
                     );
                 }
-- 
2.43.0


From a9132583fa9baa6cca91ca6c9ae4f2431417cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:36 +0000
Subject: [PATCH 025/101] fix: panasonic: the last pixel of a color that is all
 zero is 12 bits

---
 src/panasonic/decompress.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/panasonic/decompress.rs b/src/panasonic/decompress.rs
index 12aa38f..ee48e7d 100644
--- a/src/panasonic/decompress.rs
+++ b/src/panasonic/decompress.rs
@@ -92,7 +92,7 @@ fn decode_next_px(j: u8, shift: u8, prev: u16) -> u16 {
 /// Every chunk contains pixels of 2 colors, with the initial pixels
 /// stored losslessly.
 /// Pixels are composed of either 8 or 12 bits.
-/// Zero pixels are 8 bits.
+/// Zero pixels are 8 bits, except for the last of each color.
 /// Then, the first nonzero pixel of each color is 12 bits, requiring
 /// an additional read of 4 bits.
 /// Following pixels are 8 bits.
@@ -107,9 +107,12 @@ fn decode_chunk(bits: ReverseBits) -> [u16; 14] {
     let mut color_nonzero = [false, false];
     let mut out = [0u16; 14];
 
-    fn load_initial_px(color_idx: usize, nonzero: &mut [bool; 2], bits: &mut BitsCursor) -> u16 {
+    fn load_initial_px(px_idx: usize, nonzero: &mut [bool; 2], bits: &mut BitsCursor) -> u16 {
+        let color_idx = px_idx & 1;
         let top = bits.next(8);
-        let bottom = if top == 0 && !nonzero[color_idx] {
+        // The last pixel of each color is 12 bits if they were all
+        // zero until then: a chunk is always 128 bits.
+        let bottom = if top == 0 && px_idx <= 11 {
             0
         } else {
             nonzero[color_idx] = true;
@@ -133,18 +136,8 @@ fn decode_chunk(bits: ReverseBits) -> [u16; 14] {
             let px = if color_nonzero[coloridx] {
                 decode_next_px(bits.next(8), shift, prev)
             } else {
-                load_initial_px(coloridx, &mut color_nonzero, &mut bits)
+                load_initial_px(px_allidx, &mut color_nonzero, &mut bits)
             };
-            /* TODO (done? this seems to be the "first nonzero pixel
-             * is lossless" problem):
-             * dcraw code does an odd thing:
-             * it will read extra 4 bits for the last 2 pixels if
-             * there's all 0's in the chunk. This should send the
-             * stream out of whack.  The pana_bits reader strongly
-             * suggests that the stream of data is separated into
-             * 16-byte chunks, so reading another byte (or half-byte
-             * if interrupted) would contradict it.
-             */
             out[px_allidx] = px;
         }
     }
-- 
2.43.0


From 09a59ab457e08d89aa53ea5a2fe2cd4a78d0f31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:24 +0000
Subject: [PATCH 026/101] fix: panasonic: default levels: no black level, and
 of any bit depth

---
 src/panasonic.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/panasonic.rs b/src/panasonic.rs
index dbcf8a2..d5fe11a 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -1129,27 +1129,23 @@ impl RawFileImpl for Rw2File {
             };
             raw_data.set_user_crop(Some(user_crop), None);
 
+            // By default all the values for the bit depth.
+            let white = if bpc < 16 { (1 << bpc) - 1 } else { 0xffff };
             let wr = cfa
                 .uint_value(exif::RW2_TAG_LINEARITY_LIMIT_RED)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(white) as u16;
             let wg = cfa
                 .uint_value(exif::RW2_TAG_LINEARITY_LIMIT_GREEN)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(white) as u16;
             let wb = cfa
                 .uint_value(exif::RW2_TAG_LINEARITY_LIMIT_BLUE)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(white) as u16;
 
             raw_data.set_whites([wr, wg, wb, wg]);
 
-            let br = cfa
-                .uint_value(exif::RW2_TAG_BLACK_LEVEL_RED)
-                .unwrap_or((1 << bpc) - 1) as u16;
-            let bg = cfa
-                .uint_value(exif::RW2_TAG_BLACK_LEVEL_GREEN)
-                .unwrap_or((1 << bpc) - 1) as u16;
-            let bb = cfa
-                .uint_value(exif::RW2_TAG_BLACK_LEVEL_BLUE)
-                .unwrap_or((1 << bpc) - 1) as u16;
+            let br = cfa.uint_value(exif::RW2_TAG_BLACK_LEVEL_RED).unwrap_or(0) as u16;
+            let bg = cfa.uint_value(exif::RW2_TAG_BLACK_LEVEL_GREEN).unwrap_or(0) as u16;
+            let bb = cfa.uint_value(exif::RW2_TAG_BLACK_LEVEL_BLUE).unwrap_or(0) as u16;
             raw_data.set_blacks([br, bg, bb, bg]);
 
             let wbr = cfa.uint_value(exif::RW2_TAG_WB_RED_LEVEL);
-- 
2.43.0


From 68c63d52fe63ceda3bd2eba1ef5e146a912c8db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 027/101] fix: olympus: short or odd raw data doesn't panic

---
 src/olympus.rs            | 31 +++++++++++++------------------
 src/olympus/decompress.rs | 10 ++++++++--
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/olympus.rs b/src/olympus.rs
index 1037fd7..2f65944 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -215,18 +215,16 @@ impl OrfFile {
         let half = (height + 1) >> 1;
         // Interlaced data seems to be 2048 bytes aligned
         let interlaced_offset = (((half * width * 3 / 2) >> 11) + 1) << 11;
-        let interlaced = &buf[interlaced_offset..];
+        // Short data only has the first rows.
+        let interlaced = buf.get(interlaced_offset..).unwrap_or(&[]);
 
         let mut out: Vec<u16> = vec![0; width * height];
         out.par_chunks_mut(width)
             .enumerate()
             .for_each(|(row, outb)| {
                 let off = row / 2 * width * 12 / 8;
-                let inb = if (row % 2) == 0 {
-                    &buf[off..]
-                } else {
-                    &interlaced[off..]
-                };
+                let inb = if (row % 2) == 0 { buf } else { interlaced };
+                let inb = inb.get(off..).unwrap_or(&[]);
 
                 let mut i = 0;
                 let mut o = 0;
@@ -238,7 +236,9 @@ impl OrfFile {
                     }
                     let out_slice = &mut outb[o..];
                     out_slice[0] = ((in_slice[0] as u16) << 4) | ((in_slice[1] as u16) >> 4);
-                    out_slice[1] = ((in_slice[1] as u16 & 0x0f) << 8) | in_slice[2] as u16;
+                    if let Some(out) = out_slice.get_mut(1) {
+                        *out = ((in_slice[1] as u16 & 0x0f) << 8) | in_slice[2] as u16;
+                    }
                     i += 3;
                     o += 2;
                 }
@@ -252,12 +252,8 @@ impl OrfFile {
     fn decode_12be_olympus(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
         let mut out: Vec<u16> = vec![0; width * height];
 
-        let mut i = 0;
-        let mut o = 0;
-        while i < buf.len() {
-            let in_slice = &buf[i..];
-            let out_slice = &mut out[o..];
-
+        // Each 12 bytes are 8 pixels. What is left isn't whole.
+        for (in_slice, out_slice) in buf.chunks_exact(12).zip(out.chunks_exact_mut(8)) {
             out_slice[0] = ((in_slice[3] as u16) << 4) | (in_slice[2] as u16 >> 4);
             out_slice[1] = ((in_slice[2] as u16 & 0x0f) << 8) | in_slice[1] as u16;
             out_slice[2] = ((in_slice[0] as u16) << 4) | (in_slice[7] as u16 >> 4);
@@ -266,9 +262,6 @@ impl OrfFile {
             out_slice[5] = ((in_slice[4] as u16 & 0x0f) << 8) | in_slice[11] as u16;
             out_slice[6] = ((in_slice[10] as u16) << 4) | (in_slice[9] as u16 >> 4);
             out_slice[7] = ((in_slice[9] as u16 & 0x0f) << 8) | in_slice[8] as u16;
-
-            i += 12;
-            o += 8;
         }
 
         out
@@ -283,7 +276,9 @@ impl OrfFile {
             .data8()
             .or_else(|| data.data16_as_u8())
             .and_then(|data8| {
-                if data8.len() == (height * ((width * 12 / 8) + ((width + 2) / 10))) as usize {
+                let (w, h) = (width as u64, height as u64);
+                let len = data8.len() as u64;
+                if len == h * ((w * 12 / 8) + ((w + 2) / 10)) {
                     probe!(self.probe, "orf.decompress.unpack", "true");
                     let mut buf = data8;
                     crate::decompress::unpack_from_reader(
@@ -297,7 +292,7 @@ impl OrfFile {
                         Endian::Little,
                     )
                     .ok()
-                } else if data8.len() == (height * width * 3 / 2) as usize {
+                } else if len == h * w * 3 / 2 {
                     // It seems that this is the only way™.
                     // Some decoder like rawloader use 3500,
                     // but SP565UZ is 3664 and interlaced.
diff --git a/src/olympus/decompress.rs b/src/olympus/decompress.rs
index 37f519d..e870399 100644
--- a/src/olympus/decompress.rs
+++ b/src/olympus/decompress.rs
@@ -35,6 +35,12 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
             "ORF: Compressed data too small.".into(),
         ));
     }
+    // A pixel is at least 6 bits.
+    if (input.len() - 7).saturating_mul(8) / 6 < h.saturating_mul(w & !1) {
+        return Err(Error::Decompression(
+            "ORF: Compressed data too small.".into(),
+        ));
+    }
     let mut output: Vec<u16> = vec![0; h * w];
     let data = output.as_mut_slice();
 
@@ -125,7 +131,7 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
                         nw[p]
                     };
                     // Set predictor
-                    wo[p] = pred + ((diff << 2) | low);
+                    wo[p] = (pred + ((diff << 2) | low)) as u16 as i32;
                     wo[p] as u16
                 } else {
                     let n: i32 = data[(y - 2) * w + col + p] as i32;
@@ -144,7 +150,7 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
 
                     nw[p] = n;
                     // Set predictors
-                    wo[p] = pred + ((diff << 2) | low);
+                    wo[p] = (pred + ((diff << 2) | low)) as u16 as i32;
                     wo[p] as u16
                 };
             }
-- 
2.43.0


From 6cb8b7eebf55604711288d6efc1b80735552247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:38 +0000
Subject: [PATCH 028/101] fix: LJPEG: error at the end of truncated data
 instead of a panic

---
 src/decompress/bit_reader.rs | 25 +++++++++-----
 src/decompress/ljpeg.rs      | 64 ++++++++++++++++++------------------
 2 files changed, 49 insertions(+), 40 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index 2862b05..83530d8 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -173,17 +173,22 @@ impl<'a> LJpegBitReader<'a> {
     }
 
     /// Read a byte out of the buffer.
-    pub(crate) fn read_u8(&mut self) -> u8 {
-        let b = self.buffer[self.pos];
+    pub(crate) fn read_u8(&mut self) -> Result<u8> {
+        let b = *self.buffer.get(self.pos).ok_or(Error::UnexpectedEOF)?;
         self.pos += 1;
-        b
+        Ok(b)
     }
 
     /// Read an u16 from the bit reader. JPEG is always BigEndian.
-    pub(crate) fn read_u16(&mut self) -> u16 {
-        let b = BigEndian::read_u16(&self.buffer[self.pos..]);
+    pub(crate) fn read_u16(&mut self) -> Result<u16> {
+        let b = self
+            .buffer
+            .get(self.pos..)
+            .and_then(|buffer| buffer.get(..2))
+            .map(BigEndian::read_u16)
+            .ok_or(Error::UnexpectedEOF)?;
         self.pos += 2;
-        b
+        Ok(b)
     }
 
     /// Skip `seek` bytes.
@@ -201,10 +206,14 @@ impl<'a> LJpegBitReader<'a> {
     // Process any stuffed bytes at this time.
     fn fill_bit_buffer(&mut self, nbits: u8) -> Result<()> {
         while self.bits_left < MIN_GET_BITS {
-            let mut c = self.read_u8();
+            if self.pos == self.buffer.len() && self.bits_left >= nbits {
+                // There is no more data, but enough bits.
+                break;
+            }
+            let mut c = self.read_u8()?;
             // If it's 0xFF, check and discard stuffed zero byte
             if c == 0xff {
-                let c2 = self.read_u8();
+                let c2 = self.read_u8()?;
                 if c2 != 0 {
                     // Oops, it's actually a marker indicating end of
                     // compressed data.  Better put it back for use later.
diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 6120d52..3c9d97f 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -281,8 +281,8 @@ impl LJpeg {
     fn read_file_header(&self, dc: &mut DecompressInfo, reader: &mut LJpegBitReader) -> Result<()> {
         // Demand an SOI marker at the start of the file --- otherwise it's
         // probably not a JPEG file at all.
-        let c = reader.read_u8();
-        let c2 = reader.read_u8();
+        let c = reader.read_u8()?;
+        let c2 = reader.read_u8()?;
         if c != 0xff || c2 != M_SOI {
             return Err(Error::Decompression(format!(
                 "LJPEG: Not a JPEG file. Marker is {c:x} {c2:x}"
@@ -515,18 +515,18 @@ impl LJpeg {
         let mut c = 0;
         while c == 0 {
             // nbytes += 1;
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             // skip any non-FF bytes
             while c != 0xff {
                 // nbytes += 1;
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
 
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             // skip any duplicate FFs
             while c == 0xff {
                 //  we don't increment nbytes here since extra FFs are legal
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
         } // repeat if it was a stuffed FF/00
 
@@ -936,11 +936,11 @@ impl DecompressInfo {
     }
 
     fn get_sof(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
-        self.data_precision = reader.read_u8();
-        self.image_height = reader.read_u16();
-        self.image_width = reader.read_u16();
-        self.num_components = reader.read_u8();
+        let length = reader.read_u16()?;
+        self.data_precision = reader.read_u8()?;
+        self.image_height = reader.read_u16()?;
+        self.image_width = reader.read_u16()?;
+        self.num_components = reader.read_u8()?;
 
         // We don't support files in which the image height is initially
         // specified as 0 and is later redefined by DNL.  As long as we
@@ -967,11 +967,11 @@ impl DecompressInfo {
         for ci in 0..self.num_components {
             let compptr = &mut self.comp_info[ci as usize];
             compptr.component_index = ci as u16;
-            compptr.component_id = reader.read_u8() as u16;
-            let c = reader.read_u8();
+            compptr.component_id = reader.read_u8()? as u16;
+            let c = reader.read_u8()?;
             compptr.h_samp_factor = ((c >> 4) & 15) as u16;
             compptr.v_samp_factor = (c & 15) as u16;
-            reader.read_u8(); // skip Tq
+            reader.read_u8()?; // skip Tq
         }
 
         Ok(())
@@ -979,9 +979,9 @@ impl DecompressInfo {
 
     fn get_dht(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
         // length as a signed i32 is safer
-        let mut length = reader.read_u16() as i32 - 2;
+        let mut length = reader.read_u16()? as i32 - 2;
         while length > 0 {
-            let index = reader.read_u8();
+            let index = reader.read_u8()?;
 
             if index >= 4 {
                 return Err(Error::JpegFormat(format!("LJPEG: Bogus DHT index {index}")));
@@ -994,7 +994,7 @@ impl DecompressInfo {
             htblptr.bits[0] = 0;
             let mut count = 0_u16;
             for i in 1..=16 {
-                let b = reader.read_u8();
+                let b = reader.read_u8()?;
                 htblptr.bits[i] = b;
                 count += b as u16;
             }
@@ -1003,7 +1003,7 @@ impl DecompressInfo {
                 return Err(Error::JpegFormat("LJPEG: Bogus DHT counts".into()));
             }
             for i in 0_usize..count as usize {
-                htblptr.huffval[i] = reader.read_u8();
+                htblptr.huffval[i] = reader.read_u8()?;
             }
             length -= 1 + 16 + count as i32;
         }
@@ -1011,7 +1011,7 @@ impl DecompressInfo {
     }
 
     fn skip_variable(&self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
+        let length = reader.read_u16()?;
         if length < 2 {
             return Err(Error::JpegFormat("LJPEG: invalid variable length".into()));
         }
@@ -1026,14 +1026,14 @@ impl DecompressInfo {
 
         loop {
             // skip any non-FF bytes
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             while c != 0xff {
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
 
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             while c == 0xff {
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
             if c != 0 {
                 break;
@@ -1044,16 +1044,16 @@ impl DecompressInfo {
     }
 
     fn get_dri(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        if reader.read_u16() != 4 {
+        if reader.read_u16()? != 4 {
             return Err(Error::JpegFormat("LJPEG: Invalid DRI length.".into()));
         }
-        self.restart_interval = reader.read_u16();
+        self.restart_interval = reader.read_u16()?;
         Ok(())
     }
 
     /// Process APP0 marker.
     fn get_app0(&self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
+        let length = reader.read_u16()?;
         if length < 2 {
             return Err(Error::JpegFormat("LJPEG: Invalid APP0 length.".into()));
         }
@@ -1063,12 +1063,12 @@ impl DecompressInfo {
     }
 
     fn get_sos(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        let mut length = reader.read_u16();
+        let mut length = reader.read_u16()?;
         if length < 3 {
             return Err(Error::JpegFormat("LJPEG: invalid SOS length".into()));
         }
 
-        let n = reader.read_u8();
+        let n = reader.read_u8()?;
         self.comps_in_scan = n as u16;
         length -= 3;
 
@@ -1077,8 +1077,8 @@ impl DecompressInfo {
         }
 
         for i in 0..n {
-            let cc = reader.read_u8() as u16;
-            let c = reader.read_u8();
+            let cc = reader.read_u8()? as u16;
+            let c = reader.read_u8()?;
             length -= 2;
 
             let mut ci = 0;
@@ -1100,9 +1100,9 @@ impl DecompressInfo {
             self.cur_comp_info[i as usize] = compptr.clone();
         }
 
-        self.ss = reader.read_u8();
+        self.ss = reader.read_u8()?;
         reader.skip(1);
-        let c = reader.read_u8();
+        let c = reader.read_u8()?;
         self.pt = c & 0x0f;
 
         Ok(())
-- 
2.43.0


From fd1d98da2c39cec374f5da6e475d890c1b345ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:02 +0000
Subject: [PATCH 029/101] fix: LJPEG: differences of category 16 have no extra
 bits

---
 src/decompress/ljpeg.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 3c9d97f..92767fe 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -446,11 +446,7 @@ impl LJpeg {
                 if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                     // Section F.2.2.1: decode the difference
                     let s = self.huff_decode(dctbl, reader)? as u8;
-                    let d = if s != 0 {
-                        extend(reader.get_bits(s)?, s)
-                    } else {
-                        0
-                    };
+                    let d = decode_diff(reader, s)?;
                     self.mcu_row[self.cur_row][0][cur_comp] =
                         (d + self.mcu_row[self.prev_row][0][cur_comp] as i32) as u16;
                 } else {
@@ -470,11 +466,7 @@ impl LJpeg {
                     if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                         // Section F.2.2.1: decode the difference
                         let s = self.huff_decode(dctbl, reader)? as u8;
-                        let d = if s != 0 {
-                            extend(reader.get_bits(s)?, s)
-                        } else {
-                            0
-                        };
+                        let d = decode_diff(reader, s)?;
                         let predictor = self.quick_predict(
                             col as i32,
                             cur_comp as i16,
@@ -566,11 +558,7 @@ impl LJpeg {
             if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                 // Section F.2.2.1: decode the difference
                 let s = self.huff_decode(dctbl, reader)? as u8;
-                let d = if s != 0 {
-                    extend(reader.get_bits(s)?, s)
-                } else {
-                    0
-                };
+                let d = decode_diff(reader, s)?;
 
                 // Add the predictor to the difference.
                 let cur_row_buf = &mut self.mcu_row[self.cur_row];
@@ -591,11 +579,7 @@ impl LJpeg {
                 if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                     // Section F.2.2.1: decode the difference
                     let s = self.huff_decode(dctbl, reader)? as u8;
-                    let d = if s != 0 {
-                        extend(reader.get_bits(s)?, s)
-                    } else {
-                        0
-                    };
+                    let d = decode_diff(reader, s)?;
                     // Add the predictor to the difference.
                     let cur_row_buf = &mut self.mcu_row[self.cur_row];
                     cur_row_buf[col as usize][cur_comp as usize] =
@@ -1109,6 +1093,17 @@ impl DecompressInfo {
     }
 }
 
+#[inline]
+/// Decode the difference of category `s`. Category 16 (H.1.2.2) has
+/// no extra bits.
+fn decode_diff(reader: &mut LJpegBitReader, s: u8) -> Result<i32> {
+    Ok(match s {
+        0 => 0,
+        16 => 32768,
+        _ => extend(reader.get_bits(s)?, s),
+    })
+}
+
 #[inline]
 /// F.2.2.1 Code and table for Figure F.12: extend sign bit
 fn extend(x: u16, s: u8) -> i32 {
-- 
2.43.0


From 8abcb5a66a03f018bdeafcbb05e3b62cc032404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:49 +0000
Subject: [PATCH 030/101] fix: LJPEG: no out of bounds access with invalid
 Huffman tables

---
 src/decompress/ljpeg.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 92767fe..e2af4ee 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -622,7 +622,12 @@ impl LJpeg {
                 // log::warn!("Corrupt JPEG data: bad huffman code")
                 rv = 0;
             } else {
-                rv = htbl.huffval[((htbl.valptr[l] as i32) + (code - htbl.mincode[l])) as usize]
+                // With an invalid table, the code might not be in it.
+                rv = htbl
+                    .huffval
+                    .get(((htbl.valptr[l] as i32) + (code - htbl.mincode[l])) as usize)
+                    .copied()
+                    .ok_or_else(|| Error::JpegFormat("LJPEG: Invalid Huffman code".into()))?
                     as u16;
             }
         }
-- 
2.43.0


From c63c8d8a7d513f12d6220b4db26d307c3cca3d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:13 +0000
Subject: [PATCH 031/101] fix: LJPEG: check the number of components and the
 size before decoding

---
 src/decompress/ljpeg.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index e2af4ee..8cfc657 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -188,6 +188,20 @@ impl LJpeg {
                 dc_info.num_components
             )));
         }
+        if dc_info.comps_in_scan != dc_info.num_components as u16 {
+            return Err(Error::JpegFormat(format!(
+                "LJPEG: {} components in the scan instead of {}",
+                dc_info.comps_in_scan, dc_info.num_components
+            )));
+        }
+        // Each sample is at least one bit.
+        if dc_info.image_width as usize
+            * dc_info.image_height as usize
+            * dc_info.num_components as usize
+            > buffer.len() * 8
+        {
+            return Err(Error::UnexpectedEOF);
+        }
         let bpc = dc_info.data_precision;
         let mut output: SlicedBuffer<ComponentType> = SlicedBuffer::new(
             dc_info.image_width as u32 * dc_info.num_components as u32,
-- 
2.43.0


From c7ee1854cd031b40f5bf51a829b9fdc02dcc9807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:40 +0000
Subject: [PATCH 032/101] fix: LJPEG: the slices are in the final image, and
 have to match it

---
 src/canon/cr2.rs        |  2 +-
 src/decompress/ljpeg.rs | 32 ++++++++++++++++++++------------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index 947b49f..d8249d7 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -105,7 +105,7 @@ impl Cr2File {
             let mut decompressor = decompress::LJpeg::new(true);
             // in fact on Canon CR2 files slices either do not exists
             // or is 3.
-            if slices.len() > 1 {
+            if slices.len() > 2 {
                 probe!(self.probe, "cr2.slices", "true");
                 decompressor.set_slices(slices);
             }
diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 8cfc657..4eb8cf7 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -156,6 +156,10 @@ impl LJpeg {
     pub fn set_slices(&mut self, slices: &[u32]) {
         let mut v = Vec::new();
         let n = slices[0] as usize;
+        if n > u16::MAX as usize {
+            log::error!("LJPEG: Too many slices: {n}");
+            return;
+        }
         v.resize(n + 1, slices[1]);
         v[n] = slices[2];
 
@@ -203,21 +207,12 @@ impl LJpeg {
             return Err(Error::UnexpectedEOF);
         }
         let bpc = dc_info.data_precision;
-        let mut output: SlicedBuffer<ComponentType> = SlicedBuffer::new(
-            dc_info.image_width as u32 * dc_info.num_components as u32,
-            dc_info.image_height as u32,
-            self.slices.clone().as_deref(),
-        );
-        output.reserve(
-            dc_info.image_width as usize
-                * dc_info.image_height as usize
-                * dc_info.num_components as usize,
-        );
         log::debug!(
             "dc width = {} dc height = {}",
             dc_info.image_width,
             dc_info.image_height
         );
+        let slice_width = |slices: &[u32]| slices.iter().map(|w| *w as u64).sum::<u64>();
         let (width, height) = if tiled {
             // Tiled seems to have the actual width.
             (dc_info.image_width as u32, dc_info.image_height as u32)
@@ -229,10 +224,10 @@ impl LJpeg {
             // Some CR2 files have 4 components so we need to double the height.
             // Includes 6DMkII.
             // The 7D has proper width and height. We check against the slices.
-            let slice_width: u32 = self.slices.as_ref().map(|s| s.iter().sum()).unwrap_or(0);
+            let slice_width = self.slices.as_deref().map(slice_width).unwrap_or(0);
             if self.is_raw && dc_info.num_components == 4 {
                 if slice_width != 0
-                    && (dc_info.image_width as u32 * dc_info.num_components as u32) == slice_width
+                    && (dc_info.image_width as u64 * dc_info.num_components as u64) == slice_width
                 {
                     (
                         dc_info.image_width as u32 * dc_info.num_components as u32,
@@ -251,6 +246,19 @@ impl LJpeg {
                 )
             }
         };
+        let slices = self
+            .slices
+            .as_deref()
+            .filter(|slices| !slices.contains(&0) && slice_width(slices) == width as u64);
+        if slices.is_none() && self.slices.is_some() {
+            log::warn!("LJPEG: The slices don't match the width. Ignoring.");
+        }
+        let len = dc_info.image_width as usize
+            * dc_info.image_height as usize
+            * dc_info.num_components as usize;
+        // The slices are in the final image.
+        let mut output: SlicedBuffer<ComponentType> =
+            SlicedBuffer::new((len / height as usize) as u32, height, slices);
         // XXX RawImage::set_slices?
         self.decoder_struct_init(&mut dc_info)?;
         self.huff_decoder_init(&mut dc_info, &mut bit_reader)?;
-- 
2.43.0


From 4c5398c1e68fd03e056e53f86fb6838837ba880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:14 +0000
Subject: [PATCH 033/101] fix: tiled LJPEG: missing or short tiles leave their
 place empty

---
 src/decompress/tiled.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/decompress/tiled.rs b/src/decompress/tiled.rs
index fde4b10..ed9c91b 100644
--- a/src/decompress/tiled.rs
+++ b/src/decompress/tiled.rs
@@ -38,7 +38,7 @@ impl TiledLJpeg {
     /// Combine tiles into the final buffer. `width` and `height` are the final dimensions.
     fn combine_tiles(width: usize, height: usize, tiles: &[Option<Tile>]) -> Vec<u16> {
         let data_size = width * height;
-        let mut buffer = uninit_vec!(data_size);
+        let mut buffer = vec![0_u16; data_size];
 
         let mut first_row = 0_usize;
         let mut first_col = 0_usize;
@@ -62,7 +62,10 @@ impl TiledLJpeg {
                 }
                 let pos = (first_row + r) * width + first_col;
                 let tile_pos = r * tile.u_width as usize;
-                buf_slice[pos..][..row_len].copy_from_slice(&tile.buf[tile_pos..][..row_len]);
+                // The tile might be missing or too small.
+                if let Some(row) = tile.buf.get(tile_pos..tile_pos + row_len) {
+                    buf_slice[pos..][..row_len].copy_from_slice(row);
+                }
             }
             first_col += tile.u_width as usize;
             if first_col >= width {
@@ -99,16 +102,23 @@ impl TiledLJpeg {
                             #[cfg(feature = "probe")]
                             &None,
                         )
+                        .inspect_err(|err| log::error!("Couldn't decompress tile: {err}"))
                         .ok()
                 })
                 .map(|tile| {
-                    tile.map(|mut tile| {
-                        if let Some(tile_size) = tile_size {
-                            tile.u_width = tile_size.0;
-                            tile.u_height = tile_size.1;
-                        }
+                    if let Some(tile_size) = tile_size {
+                        // A tile we couldn't decompress still takes its place.
+                        Some(Tile {
+                            width: tile_size.0,
+                            height: tile_size.1,
+                            u_width: tile_size.0,
+                            u_height: tile_size.1,
+                            bpc: tile.as_ref().map(|tile| tile.bpc).unwrap_or_default(),
+                            buf: tile.map(|tile| tile.buf).unwrap_or_default(),
+                        })
+                    } else {
                         tile
-                    })
+                    }
                 })
                 .collect();
 
-- 
2.43.0


From 7b88527234ebf8b8b222de12eefe7b62a189534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:04 +0000
Subject: [PATCH 034/101] fix: bit reader: don't consume bits past the end

---
 src/decompress/bit_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index 83530d8..a84a2b6 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -44,10 +44,10 @@ pub(crate) trait BitReader {
                 "BitReader: Tried to request {nbits} bits (max 16)."
             )));
         }
-        let value = self.peek(nbits);
+        let value = self.peek(nbits)?;
         self.consume(nbits);
 
-        value
+        Ok(value)
     }
 
     #[inline]
-- 
2.43.0


From 382b1ce0ec2e8b799e0cddae8ceb84e60677a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:19 +0000
Subject: [PATCH 035/101] fix: linearize: black level of mapped values, and no
 panic with inconsistent levels or values

---
 src/rawimage.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index 8e2378f..0091e60 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -420,6 +420,7 @@ impl RawImage {
     /// Linearization will:
     /// - lookup the linearization table to directly map indexed values:
     ///   this is notable on Leica M8 files.
+    /// - subtract black
     /// - scale by range / white
     ///
     fn linearize(&self, buffer: ImageBuffer<u16>) -> ImageBuffer<f64> {
@@ -427,7 +428,7 @@ impl RawImage {
         // XXX fix this to use the 4 component
         let white = self.whites()[0];
         let black = self.blacks()[0];
-        let range = (white - black) as f64;
+        let range = white.saturating_sub(black) as f64;
         let table = if self
             .linearization_table
             .as_ref()
@@ -443,13 +444,11 @@ impl RawImage {
             .data
             .iter()
             .map(|v| {
-                table.map(|t| t[*v as usize] as f64).unwrap_or_else(|| {
-                    if *v < black {
-                        0.0
-                    } else {
-                        (*v - black) as f64
-                    }
-                }) / range
+                // Values past the end of the table map to its last value.
+                let v = table
+                    .and_then(|t| t.get(*v as usize).or(t.last()).copied())
+                    .unwrap_or(*v);
+                v.saturating_sub(black) as f64 / range
             })
             .collect();
 
-- 
2.43.0


From 13b8ff99b6ae838d4f838f40e6dca8e09de2227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:40 +0000
Subject: [PATCH 036/101] fix: demosaic: images too small to interpolate are an
 error

---
 src/render/demosaic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/render/demosaic.rs b/src/render/demosaic.rs
index 9ffd26e..ecd13db 100644
--- a/src/render/demosaic.rs
+++ b/src/render/demosaic.rs
@@ -76,6 +76,11 @@ pub(crate) fn bimedian(
         }
     };
 
+    if input.width < 3 || input.height < 3 {
+        log::error!("Image is too small to interpolate");
+        return Err(Error::InvalidFormat);
+    }
+
     let mut dst: Vec<f64> = vec![0.0; input.width as usize * input.height as usize * 3];
 
     #[allow(non_snake_case)]
@@ -165,7 +170,7 @@ pub(crate) fn bimedian(
     // This is necessary to have a consistent size with the output.
     // Notably, the `image` crate doesn't like it.
     // The assumption is that the resize should shrink the buffer.
-    dst.resize((3 * out_w * out_h) as usize, 0.0);
+    dst.resize(3 * out_w as usize * out_h as usize, 0.0);
 
     Ok(ImageBuffer::with_data(dst, out_w, out_h, input.bpc, 3))
 }
-- 
2.43.0


From 8aa098a4502debfa0c01412e74dc0441aa179ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:02 +0000
Subject: [PATCH 037/101] fix: colour correction: don't panic without an
 invertible 3x3 matrix

---
 src/rawimage.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index 0091e60..94d0b50 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -502,8 +502,9 @@ impl RawImage {
         for i in 1..=2 {
             cm = self
                 .colour_matrix(i)
-                .filter(|m| m.illuminant == exif::LightsourceValue::D65)
-                .map(|m| Matrix3::from_row_slice(&m.matrix));
+                .filter(|m| m.illuminant == exif::LightsourceValue::D65 && m.matrix.len() == 9)
+                .map(|m| Matrix3::from_row_slice(&m.matrix))
+                .filter(|m| m.is_invertible());
             if cm.is_some() {
                 break;
             }
@@ -514,10 +515,10 @@ impl RawImage {
             log::debug!("pixel cam at 1000, 1000: {:?}", buffer.pixel_at(1000, 1000));
             log::debug!("Applying colour matrix");
             for row in 0..height {
-                let pos = row * width * 3;
+                let pos = row as usize * width as usize * 3;
                 let mut col = 0;
-                while col < width * 3 {
-                    let c = (pos + col) as usize;
+                while col < width as usize * 3 {
+                    let c = pos + col;
                     let abc = Vector3::from_row_iterator(buffer.data[c..c + 3].iter().copied());
                     let rgb = cam_rgb * abc;
                     col += 3;
-- 
2.43.0


From bdf82bc8e4da50c8125bd799499d285ec3ca356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:02 +0000
Subject: [PATCH 038/101] fix: pixel_at: no pixel past the edges

---
 src/bitmap.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bitmap.rs b/src/bitmap.rs
index 6984325..2f4048f 100644
--- a/src/bitmap.rs
+++ b/src/bitmap.rs
@@ -66,11 +66,11 @@ impl<T> ImageBuffer<T> {
     where
         T: Copy,
     {
-        if x > self.width || y > self.height {
+        if x >= self.width || y >= self.height {
             return None;
         }
-        let pos = ((y * self.width * self.cc) + x * self.cc) as usize;
-        let pixel = &self.data[pos..pos + self.cc as usize];
+        let pos = (y as usize * self.width as usize + x as usize) * self.cc as usize;
+        let pixel = self.data.get(pos..pos + self.cc as usize)?;
 
         Some(pixel.to_vec())
     }
-- 
2.43.0


From 54c9e224ab5b1b625133233f9e833090c5f3d990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:32 +0000
Subject: [PATCH 039/101] fix: rendering: render exactly the pixels of the
 image

---
 src/rawimage.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index 94d0b50..e745b33 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -547,7 +547,10 @@ impl RawImage {
         let y = self.height();
         let mut pattern = self.mosaic_pattern().clone();
         let data16 = ImageBuffer::with_data(
-            self.data16().ok_or(Error::InvalidFormat)?.to_vec(),
+            self.data16()
+                .and_then(|data| data.get(..x as usize * y as usize))
+                .ok_or(Error::InvalidFormat)?
+                .to_vec(),
             x,
             y,
             16,
-- 
2.43.0


From 07917f4e55d690855abddf71917c30b6340005c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:16 +0000
Subject: [PATCH 040/101] fix: NEF: lossless data has no curve, an empty curve
 is an error

---
 src/nikon.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index 3c93805..da3ac21 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -181,7 +181,8 @@ impl CompressionInfo {
     fn new() -> Self {
         Self {
             vpred: [[0; 2]; 2],
-            curve: vec![0; 0x8000],
+            // Values are unchanged if there is no curve.
+            curve: (0..0x8000).collect(),
             huffman: None,
         }
     }
@@ -300,12 +301,13 @@ impl NefFile {
                             log::error!("DecodeTable2 not found");
                             Error::NotFound
                         })?;
-                let pos = curve_entry.offset().ok_or(Error::NotFound)? + mnote.mnote_offset;
+                let pos =
+                    curve_entry.offset().ok_or(Error::NotFound)? as u64 + mnote.mnote_offset as u64;
                 let bpc = rawdata.bpc();
 
                 let container = self.container.get().unwrap();
                 let mut view = container.borrow_view_mut();
-                view.seek(SeekFrom::Start(pos as u64))?;
+                view.seek(SeekFrom::Start(pos))?;
                 let header0 = view.read_u8()?;
                 let header1 = view.read_u8()?;
 
@@ -406,6 +408,10 @@ impl NefFile {
                     probe!(self.probe, "nef.compression_curve.direct", "true");
                 }
 
+                if ceiling == 0 {
+                    log::error!("NEF: empty curve");
+                    return Err(Error::FormatError);
+                }
                 let black = curve.curve[0];
                 let white = curve.curve[ceiling as usize - 1];
                 for i in ceiling..0x8000 {
@@ -432,7 +438,7 @@ impl NefFile {
                 let rows = rawdata.height() as usize;
                 let raw_columns = rawdata.width() as usize;
                 // XXX not always true
-                let columns = raw_columns - 1;
+                let columns = raw_columns.saturating_sub(1);
 
                 let data8 = rawdata.data8();
                 if data8.is_none() {
-- 
2.43.0


From 67acf11564f446a0497342064a865aa345aa15a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:23 +0000
Subject: [PATCH 041/101] fix: PEF: decode the last 4 bytes of the compressed
 data

---
 src/pentax/decompress.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pentax/decompress.rs b/src/pentax/decompress.rs
index 8c316dd..fdfa0cb 100644
--- a/src/pentax/decompress.rs
+++ b/src/pentax/decompress.rs
@@ -298,11 +298,13 @@ impl BitPump for BitPumpMSB<'_> {
     #[inline(always)]
     fn peek_bits(&mut self, num: u32) -> u32 {
         if num > self.nbits {
-            let inbits = if self.pos + 4 >= self.buffer.len() {
-                0_u64
-            } else {
-                Endian::Big.read_u32(&self.buffer[self.pos..]) as u64
-            };
+            // Past the end of the data, bits are 0.
+            let mut bytes = [0_u8; 4];
+            if let Some(rest) = self.buffer.get(self.pos..) {
+                let len = std::cmp::min(rest.len(), bytes.len());
+                bytes[..len].copy_from_slice(&rest[..len]);
+            }
+            let inbits = u32::from_be_bytes(bytes) as u64;
             self.bits = (self.bits << 32) | inbits;
             self.pos += 4;
             self.nbits += 32;
-- 
2.43.0


From b85f63d5059c0e1630f531e1ca9b80e4edea0e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:19 +0000
Subject: [PATCH 042/101] fix: PEF: invalid Huffman table, odd width or too
 short data don't panic

---
 src/pentax/decompress.rs | 41 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/pentax/decompress.rs b/src/pentax/decompress.rs
index fdfa0cb..ec77edf 100644
--- a/src/pentax/decompress.rs
+++ b/src/pentax/decompress.rs
@@ -30,7 +30,7 @@
 use std::io::BufRead;
 
 use crate::container::Endian;
-use crate::Result;
+use crate::{Error, Result};
 
 const DECODE_CACHE_BITS: u32 = 13;
 
@@ -48,6 +48,10 @@ pub(super) fn decompress(
         let mut cursor = std::io::Cursor::new(huff);
         let depth: usize = (endian.read_u16_from(&mut cursor)? as usize + 12) & 0xf;
         // XXX depth > 16 will cause issues.
+        if depth == 0 {
+            log::error!("PEF: empty Huffman table");
+            return Err(Error::FormatError);
+        }
 
         cursor.consume(12);
 
@@ -65,6 +69,10 @@ pub(super) fn decompress(
         // Calculate codes and store bitcounts
         let mut v2: [u32; 16] = [0; 16];
         for c in 0..depth {
+            if v1[c] == 0 || v1[c] > 12 {
+                log::error!("PEF: invalid Huffman code length {}", v1[c]);
+                return Err(Error::FormatError);
+            }
             v2[c] = v0[c] >> (12 - v1[c]);
             htable.bits[v1[c] as usize] += 1;
         }
@@ -106,18 +114,32 @@ pub(super) fn decompress(
     let mut pred_left1: i32;
     let mut pred_left2: i32;
 
+    if width % 2 != 0 {
+        log::error!("PEF: odd width {width}");
+        return Err(Error::InvalidFormat);
+    }
     for row in 0..height {
-        pred_up1[row & 1] += htable.huff_decode(&mut pump)?;
-        pred_up2[row & 1] += htable.huff_decode(&mut pump)?;
+        if width == 0 {
+            break;
+        }
+        pred_up1[row & 1] = pred_up1[row & 1].wrapping_add(htable.huff_decode(&mut pump)?);
+        pred_up2[row & 1] = pred_up2[row & 1].wrapping_add(htable.huff_decode(&mut pump)?);
         pred_left1 = pred_up1[row & 1];
         pred_left2 = pred_up2[row & 1];
         out[row * width] = pred_left1 as u16;
         out[row * width + 1] = pred_left2 as u16;
         for col in (2..width).step_by(2) {
-            pred_left1 += htable.huff_decode(&mut pump)?;
-            pred_left2 += htable.huff_decode(&mut pump)?;
+            pred_left1 = pred_left1.wrapping_add(htable.huff_decode(&mut pump)?);
+            pred_left2 = pred_left2.wrapping_add(htable.huff_decode(&mut pump)?);
             out[row * width + col] = pred_left1 as u16;
             out[row * width + col + 1] = pred_left2 as u16;
+            if pump.is_exhausted() {
+                break;
+            }
+        }
+        if pump.is_exhausted() {
+            log::error!("PEF: compressed data is too short");
+            return Err(Error::UnexpectedEOF);
         }
     }
     Ok(out)
@@ -161,6 +183,10 @@ impl HuffTable {
         let mut pos = 0;
         for len in 0..self.nbits {
             for _ in 0..self.bits[len as usize + 1] {
+                if h + (1 << (self.nbits - len - 1)) > self.hufftable.len() {
+                    log::error!("PEF: invalid Huffman table");
+                    return Err(Error::FormatError);
+                }
                 for _ in 0..(1 << (self.nbits - len - 1)) {
                     self.hufftable[h] = (len as u8 + 1, self.huffval[pos] as u8);
                     h += 1;
@@ -292,6 +318,11 @@ impl<'a> BitPumpMSB<'a> {
             nbits: 0,
         }
     }
+
+    /// More bits than the buffer has were consumed.
+    fn is_exhausted(&self) -> bool {
+        self.pos * 8 > self.buffer.len() * 8 + self.nbits as usize
+    }
 }
 
 impl BitPump for BitPumpMSB<'_> {
-- 
2.43.0


From a5db4c6fc072659a55e1847b0f33c8057522ba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:19 +0000
Subject: [PATCH 043/101] fix: PEF: don't decompress the raw data when asked
 not to

---
 src/pentax.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pentax.rs b/src/pentax.rs
index 9eb19a0..021577a 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -442,7 +442,7 @@ impl RawFileImpl for PefFile {
         }
     }
 
-    fn load_rawdata(&self, _skip_decompress: bool) -> Result<RawImage> {
+    fn load_rawdata(&self, skip_decompress: bool) -> Result<RawImage> {
         self.container()?;
         let type_id = self.type_id()?;
         let container = self.container.get().unwrap();
@@ -536,6 +536,9 @@ impl RawFileImpl for PefFile {
                     "pef.compression",
                     &format!("{:?}", rawdata.compression())
                 );
+                if skip_decompress {
+                    return rawdata;
+                }
                 if let Some(data8) = rawdata.data8() {
                     let huffman = self
                         .ifd(tiff::IfdType::MakerNote)
-- 
2.43.0


From 8d999a93c443fef29c42ef9501e56cc39e33a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:28 +0000
Subject: [PATCH 044/101] fix: CIFF: an invalid header or heap doesn't panic

---
 src/canon/crw.rs                |  2 +-
 src/canon/crw/ciff.rs           | 13 ++++++--
 src/canon/crw/ciff/container.rs | 58 +++++++++++++++++++--------------
 3 files changed, 44 insertions(+), 29 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index c5f4a41..a81727e 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -274,7 +274,7 @@ impl RawFileImpl for CrwFile {
             let mut thumbnails = Vec::new();
             self.container()?;
             let container = self.container.get().unwrap();
-            let heap = container.heap();
+            let heap = container.heap()?;
             heap.records().get(&ciff::Tag::JpegImage).and_then(|r| {
                 if let ciff::Record::InHeap((pos, len)) = r.data {
                     Viewer::create_subview(&container.borrow_view_mut(), pos as u64)
diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index a3e231a..89e646b 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -263,7 +263,10 @@ impl RecordEntry {
             Record::InRec(bytes)
         } else {
             let len = view.read_endian_u32(endian)?;
-            let offset = view.read_endian_u32(endian)? + base;
+            let offset = view
+                .read_endian_u32(endian)?
+                .checked_add(base)
+                .ok_or(Error::FormatError)?;
             Record::InHeap((offset, len))
         };
 
@@ -395,7 +398,11 @@ impl RecordEntry {
             let mut heap = Heap::new(pos, len);
             let mut view = container.borrow_view_mut();
             heap.load(&mut view, container.endian())
-                .expect("Failed to load heap");
+                .map_err(|err| {
+                    log::error!("Failed to load heap: {}", err);
+                    err
+                })
+                .ok()?;
             Some(heap)
         } else {
             None
@@ -488,7 +495,7 @@ impl Heap {
         if self.len as u64 + self.pos as u64 > view.len() {
             log::error!(
                 "CIFF Heap too big: {} for {}",
-                self.len + self.pos,
+                self.len as u64 + self.pos as u64,
                 view.len()
             );
             return Err(Error::FormatError);
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 65f9cc5..3fd1470 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -34,7 +34,7 @@ use crate::io::View;
 use crate::metadata;
 use crate::tiff::{exif, Dir, Entry, IfdType, TagType};
 use crate::utils;
-use crate::{Dump, Type};
+use crate::{Dump, Error, Result, Type};
 
 use super::{
     CameraSettings, Heap, HeapFileHeader, ImageSpec, Record, RecordData, RecordEntry, Tag,
@@ -247,7 +247,9 @@ impl Container {
 
     fn dirs(&self) -> &Vec<Dir> {
         self.dirs.get_or_init(|| {
-            self.header();
+            if self.header().is_err() {
+                return vec![];
+            }
 
             let mut main_ifd = Dir::new(self.endian(), IfdType::Main);
             if let Some(image_spec) = self.image_spec() {
@@ -344,37 +346,39 @@ impl Container {
     }
 
     pub(crate) fn main_ifd(&self) -> Option<&Dir> {
-        Some(&self.dirs()[0])
+        self.dirs().first()
     }
 
     pub(crate) fn exif_ifd(&self) -> Option<&Dir> {
-        Some(&self.dirs()[1])
+        self.dirs().get(1)
     }
 
-    fn header(&self) -> &HeapFileHeader {
-        self.header.get_or_init(|| {
+    fn header(&self) -> Result<&HeapFileHeader> {
+        self.header.get_or_try_init(|| {
             let mut view = self.borrow_view_mut();
-            let header = HeapFileHeader::from_view(&mut view).expect("Coudln't read file header");
+            view.rewind()?;
+            let header = HeapFileHeader::from_view(&mut view)?;
             self.endian.replace(header.endian);
-            header
+            Ok(header)
         })
     }
 
-    pub(crate) fn heap(&self) -> &Heap {
-        self.heap.get_or_init(|| {
-            let header = self.header();
+    pub(crate) fn heap(&self) -> Result<&Heap> {
+        self.heap.get_or_try_init(|| {
+            let header = self.header()?;
             if header.type_ != *b"HEAP" && header.sub_type != *b"CCDR" {
                 log::error!("Wrong CIFF header types");
             }
             let mut view = self.borrow_view_mut();
-            // XXX check that header.len < view.len()
-            let heaplen = view.len() - header.len as u64;
-            // XXX heaplen should be < u32::MAX
-            let mut heap = Heap::new(header.len, heaplen as u32);
-            heap.load(&mut view, self.endian())
-                .expect("Failed to load heap");
-
-            heap
+            let heaplen = view
+                .len()
+                .checked_sub(header.len as u64)
+                .and_then(|len| u32::try_from(len).ok())
+                .ok_or(Error::FormatError)?;
+            let mut heap = Heap::new(header.len, heaplen);
+            heap.load(&mut view, self.endian())?;
+
+            Ok(heap)
         })
     }
 
@@ -391,7 +395,7 @@ impl Container {
     fn image_props(&self) -> Option<&Heap> {
         self.image_props
             .get_or_init(|| {
-                let heap = self.heap();
+                let heap = self.heap().ok()?;
                 self.heap_from_heap(heap, super::Tag::ImageProps)
             })
             .as_ref()
@@ -496,7 +500,9 @@ impl Container {
     }
 
     pub(crate) fn raw_data_record(&self) -> Option<&RecordEntry> {
-        self.heap().records().get(&super::Tag::RawImageData)
+        self.heap()
+            .ok()
+            .and_then(|heap| heap.records().get(&super::Tag::RawImageData))
     }
 }
 
@@ -507,11 +513,13 @@ impl Dump for Container {
         {
             let indent = indent + 1;
 
-            let header = self.header();
-            header.write_dump(out, indent);
+            if let Ok(header) = self.header() {
+                header.write_dump(out, indent);
+            }
 
-            let heap = self.heap();
-            heap.write_dump(out, indent, self);
+            if let Ok(heap) = self.heap() {
+                heap.write_dump(out, indent, self);
+            }
         }
         dump_writeln!(out, indent, "</CIFF Container>");
     }
-- 
2.43.0


From e42ee19519adf0415f4a28299dd70f52312ebf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:52 +0000
Subject: [PATCH 045/101] fix: CIFF: a heap containing itself doesn't recurse
 forever

---
 src/canon/crw/ciff.rs           | 10 ++++++++--
 src/canon/crw/ciff/container.rs | 22 +++++++++++++++++-----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index 89e646b..3be1357 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -38,6 +38,8 @@ const STORAGELOC_MASK: u16 = 0xc000;
 const FORMAT_MASK: u16 = 0x3800;
 /// Include the format, as it is significant
 const TAGCODE_MASK: u16 = 0x3fff;
+/// How deep heaps can be nested. A heap could contain itself.
+const MAX_HEAP_DEPTH: usize = 4;
 
 /// Tags for the CIFF records.
 ///
@@ -415,6 +417,7 @@ impl RecordEntry {
         out: &mut W,
         indent: u32,
         container: &Container,
+        depth: usize,
     ) {
         let type_ = self.type_();
         dump_writeln!(
@@ -457,7 +460,9 @@ impl RecordEntry {
                 }
                 RecordType::Heap1 | RecordType::Heap2 => {
                     if let Some(RecordData::Heap(heap)) = self.data(container) {
-                        heap.write_dump(out, indent, container);
+                        if depth < MAX_HEAP_DEPTH {
+                            heap.write_dump(out, indent, container, depth + 1);
+                        }
                     }
                 }
                 _ => {
@@ -532,13 +537,14 @@ impl Heap {
         out: &mut W,
         indent: u32,
         container: &Container,
+        depth: usize,
     ) {
         dump_writeln!(out, indent, "<HEAP pos={} len={}>", self.pos, self.len);
         {
             let indent = indent + 1;
             dump_writeln!(out, indent, "Num records: {}", self.records.len());
             for record in self.records().values() {
-                record.write_dump(out, indent, container);
+                record.write_dump(out, indent, container, depth);
             }
         }
         dump_writeln!(out, indent, "</HEAP");
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 3fd1470..9e24928 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -38,6 +38,7 @@ use crate::{Dump, Error, Result, Type};
 
 use super::{
     CameraSettings, Heap, HeapFileHeader, ImageSpec, Record, RecordData, RecordEntry, Tag,
+    MAX_HEAP_DEPTH,
 };
 
 type Converter = fn(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry>;
@@ -306,7 +307,7 @@ impl Container {
             let mut exif_ifd = Dir::new(self.endian(), IfdType::Exif);
             if let Some(image_props) = self.image_props() {
                 image_props.records().iter().for_each(|(_, record)| {
-                    let entries = self.translate_record_entry(record, IfdType::Exif);
+                    let entries = self.translate_record_entry(record, IfdType::Exif, 0);
                     for entry in entries {
                         exif_ifd.entries.insert(entry.id, entry);
                     }
@@ -314,7 +315,7 @@ impl Container {
             }
             if let Some(exif_info) = self.exif_info() {
                 exif_info.records().iter().for_each(|(_, record)| {
-                    let entries = self.translate_record_entry(record, IfdType::Exif);
+                    let entries = self.translate_record_entry(record, IfdType::Exif, 0);
                     for entry in entries {
                         exif_ifd.entries.insert(entry.id, entry);
                     }
@@ -325,13 +326,24 @@ impl Container {
         })
     }
 
-    fn translate_record_entry(&self, record: &RecordEntry, ifd_type: IfdType) -> Vec<Entry> {
+    fn translate_record_entry(
+        &self,
+        record: &RecordEntry,
+        ifd_type: IfdType,
+        depth: usize,
+    ) -> Vec<Entry> {
         if record.is_heap() {
+            if depth >= MAX_HEAP_DEPTH {
+                log::error!("CIFF: Heaps nested too deep");
+                return vec![];
+            }
             if let Some(heap) = record.heap(self) {
                 return heap
                     .records()
                     .iter()
-                    .flat_map(|(_, record)| self.translate_record_entry(record, ifd_type))
+                    .flat_map(|(_, record)| {
+                        self.translate_record_entry(record, ifd_type, depth + 1)
+                    })
                     .collect();
             }
         }
@@ -518,7 +530,7 @@ impl Dump for Container {
             }
 
             if let Ok(heap) = self.heap() {
-                heap.write_dump(out, indent, self);
+                heap.write_dump(out, indent, self, 0);
             }
         }
         dump_writeln!(out, indent, "</CIFF Container>");
-- 
2.43.0


From dce2dac13ea842d5dbd91e2097f646811a08e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:30 +0000
Subject: [PATCH 046/101] fix: CIFF: records too short don't panic

---
 src/canon/crw.rs                |  5 ++++-
 src/canon/crw/ciff/container.rs | 28 ++++++++++++++++++++--------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index a81727e..c89c966 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -244,7 +244,10 @@ impl RawFileImpl for CrwFile {
                             .and_then(|r| r.data(container))
                             .and_then(|data| {
                                 if let ciff::RecordData::DWord(id) = data {
-                                    return canon::CANON_MODEL_ID_MAP.get(&id[0]).copied();
+                                    return id
+                                        .first()
+                                        .and_then(|id| canon::CANON_MODEL_ID_MAP.get(id))
+                                        .copied();
                                 }
                                 None
                             })
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 9e24928..77170e3 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -74,7 +74,11 @@ fn translate_string(record: &RecordEntry, container: &Container, tag: u16) -> Ve
 
 fn translate_serial(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry> {
     if let Some(RecordData::DWord(ref serial)) = record.data(container) {
-        vec![Entry::from_string(tag, &format!("{:X}", serial[0]))]
+        serial
+            .first()
+            .map(|serial| Entry::from_string(tag, &format!("{serial:X}")))
+            .into_iter()
+            .collect()
     } else {
         vec![]
     }
@@ -83,8 +87,10 @@ fn translate_serial(record: &RecordEntry, container: &Container, tag: u16) -> Ve
 fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) -> Vec<Entry> {
     let mut entries = vec![];
     if let Some(camera_settings) = container.camera_settings() {
+        // Settings past the end are 0.
+        let setting = |idx: usize| camera_settings.get(idx).copied().unwrap_or(0);
         // Macro mode
-        let value = camera_settings[1];
+        let value = setting(1);
         if value == 1 {
             let mut buf = [0_u8; 4];
             container.endian_write_u16(&mut buf, 1);
@@ -93,7 +99,7 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         }
 
         // Flash mode
-        let value = camera_settings[4];
+        let value = setting(4);
         let flash = match value {
             0 => 0_u16,        // off,
             1 => 0x19_u16,     // Auto
@@ -107,7 +113,7 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         entries.push(entry);
 
         // Metering mode
-        let value = camera_settings[17];
+        let value = setting(17);
         let metering = match value {
             0 => 0, // default
             1 => 3, // Spot
@@ -123,7 +129,7 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         entries.push(entry);
 
         // Exposure mode
-        let value = camera_settings[20];
+        let value = setting(20);
         let exposure = match value {
             0 => 0, // Easy
             1 => 2, // Program AE
@@ -148,10 +154,13 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
 
 fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry> {
     if let Some(RecordData::Word(ref value)) = record.data(container) {
-        let fl = value[1] as u32;
+        let fl = match value.get(1) {
+            Some(fl) => *fl as u32,
+            None => return vec![],
+        };
         let mut fu = 0;
         if let Some(camera_settings) = container.camera_settings() {
-            fu = camera_settings[25] as u32
+            fu = camera_settings.get(25).copied().unwrap_or(0) as u32
         }
         let mut buf = vec![0_u8; 8];
         container.endian_write_u32(&mut buf, fl);
@@ -165,7 +174,10 @@ fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16)
 
 fn translate_date(record: &RecordEntry, container: &Container, _: u16) -> Vec<Entry> {
     if let Some(RecordData::DWord(ref value)) = record.data(container) {
-        if let Some(date_time) = chrono::Utc.timestamp_opt(value[0] as i64, 0).single() {
+        if let Some(date_time) = value
+            .first()
+            .and_then(|value| chrono::Utc.timestamp_opt(*value as i64, 0).single())
+        {
             let date = format!("{}", date_time.format("%Y:%m:%d %H:%M:%S"));
 
             let original = Entry::from_string(exif::EXIF_TAG_DATE_TIME_ORIGINAL, &date);
-- 
2.43.0


From 4580a9fbe2ccd25492392003eb3dc3a29b621b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:13 +0000
Subject: [PATCH 047/101] fix: CRW: macro mode, metering mode and exposure
 program have their own Exif tags

---
 src/canon/crw/ciff/container.rs | 16 +++++++++++++---
 src/tiff/exif/tags.rs           |  4 ++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 77170e3..0db8287 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -94,7 +94,12 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         if value == 1 {
             let mut buf = [0_u8; 4];
             container.endian_write_u16(&mut buf, 1);
-            let entry = Entry::new(exif::EXIF_TAG_FLASH, TagType::Short as i16, 1, buf);
+            let entry = Entry::new(
+                exif::EXIF_TAG_SUBJECT_DISTANCE_RANGE,
+                TagType::Short as i16,
+                1,
+                buf,
+            );
             entries.push(entry);
         }
 
@@ -125,7 +130,7 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         };
         let mut buf = [0_u8; 4];
         container.endian_write_u16(&mut buf, metering);
-        let entry = Entry::new(exif::EXIF_TAG_FLASH, TagType::Short as i16, 1, buf);
+        let entry = Entry::new(exif::EXIF_TAG_METERING_MODE, TagType::Short as i16, 1, buf);
         entries.push(entry);
 
         // Exposure mode
@@ -145,7 +150,12 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
 
         let mut buf = [0_u8; 4];
         container.endian_write_u16(&mut buf, exposure);
-        let entry = Entry::new(exif::EXIF_TAG_METERING_MODE, TagType::Short as i16, 1, buf);
+        let entry = Entry::new(
+            exif::EXIF_TAG_EXPOSURE_PROGRAM,
+            TagType::Short as i16,
+            1,
+            buf,
+        );
         entries.push(entry);
     }
 
diff --git a/src/tiff/exif/tags.rs b/src/tiff/exif/tags.rs
index f8f8819..4d28f5c 100644
--- a/src/tiff/exif/tags.rs
+++ b/src/tiff/exif/tags.rs
@@ -76,7 +76,7 @@ pub const _EXIF_TAG_IPTC_NAA: u16 = 0x83bb;
 pub const _EXIF_TAG_IMAGE_RESOURCES: u16 = 0x8649;
 pub const EXIF_TAG_EXIF_IFD_POINTER: u16 = 0x8769;
 pub const _EXIF_TAG_INTER_COLOR_PROFILE: u16 = 0x8773;
-pub const _EXIF_TAG_EXPOSURE_PROGRAM: u16 = 0x8822;
+pub const EXIF_TAG_EXPOSURE_PROGRAM: u16 = 0x8822;
 pub const _EXIF_TAG_SPECTRAL_SENSITIVITY: u16 = 0x8824;
 pub const EXIF_TAG_GPS_INFO_IFD_POINTER: u16 = 0x8825;
 pub const _EXIF_TAG_ISO_SPEED_RATINGS: u16 = 0x8827;
@@ -131,7 +131,7 @@ pub const _EXIF_TAG_CONTRAST: u16 = 0xa408;
 pub const _EXIF_TAG_SATURATION: u16 = 0xa409;
 pub const _EXIF_TAG_SHARPNESS: u16 = 0xa40a;
 pub const _EXIF_TAG_DEVICE_SETTING_DESCRIPTION: u16 = 0xa40b;
-pub const _EXIF_TAG_SUBJECT_DISTANCE_RANGE: u16 = 0xa40c;
+pub const EXIF_TAG_SUBJECT_DISTANCE_RANGE: u16 = 0xa40c;
 pub const _EXIF_TAG_IMAGE_UNIQUE_ID: u16 = 0xa420;
 pub const EXIF_TAG_CAMERA_OWNER_NAME: u16 = 0xa430;
 pub const EXIF_TAG_BODY_SERIAL_NUMBER: u16 = 0xa431;
-- 
2.43.0


From 7b9777936915fae1edaf1b85a427c6c9ef90b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:35 +0000
Subject: [PATCH 048/101] fix: CRW: the orientation is a short

---
 src/canon/crw/ciff/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 0db8287..87c2447 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -310,7 +310,7 @@ impl Container {
                 self.endian_write_u16(&mut buffer, image_spec.exif_orientation());
                 let entry = Entry::new(
                     exif::EXIF_TAG_ORIENTATION,
-                    exif::TagType::Long as i16,
+                    exif::TagType::Short as i16,
                     1,
                     buffer,
                 );
-- 
2.43.0


From 882721270358b8a49e3e06b91e2c36266646d67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:56 +0000
Subject: [PATCH 049/101] fix: CRW: focal length without units isn't a division
 by zero

---
 src/canon/crw/ciff/container.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 87c2447..dd003c6 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -168,9 +168,10 @@ fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16)
             Some(fl) => *fl as u32,
             None => return vec![],
         };
-        let mut fu = 0;
+        // The unit is a divisor: without it the length is in mm.
+        let mut fu = 1;
         if let Some(camera_settings) = container.camera_settings() {
-            fu = camera_settings.get(25).copied().unwrap_or(0) as u32
+            fu = camera_settings.get(25).copied().unwrap_or(1).max(1) as u32
         }
         let mut buf = vec![0_u8; 8];
         container.endian_write_u32(&mut buf, fl);
-- 
2.43.0


From eacc7b0e0a5739287ca21ec1831211750620a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:20 +0000
Subject: [PATCH 050/101] fix: CRW: the low bits go with the high bits of the
 same sample

---
 src/canon/crw/decompress.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index 26da8fb..adf901b 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -314,10 +314,7 @@ impl Decompress {
                 for _ in 0..16 {
                     let c = reader.read_u8()? as u16;
                     for r in 0..4 {
-                        // outbuf is 64, so we must check for it to not
-                        // overflow (read out of bounds)
-                        let next = if i < 63 { outbuf[i + 1] } else { 0 };
-                        outbuf[i] = (next << 2) + ((c >> (r * 2)) & 3);
+                        outbuf[i] = (outbuf[i] << 2) + ((c >> (r * 2)) & 3);
 
                         i += 1;
                     }
-- 
2.43.0


From 9d0cf816d7dfd56400d8d726f2245ff3455d5546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:41 +0000
Subject: [PATCH 051/101] fix: CRW: detect the low bits when the data is short
 or has no 0xff

---
 src/canon/crw/decompress.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index adf901b..b72afa6 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -19,7 +19,7 @@
  * <http://www.gnu.org/licenses/>.
  */
 
-use std::io::SeekFrom;
+use std::io::{Read, SeekFrom};
 
 use byteorder::ReadBytesExt;
 
@@ -218,12 +218,16 @@ fn make_decoder(
     }
 }
 
+/// Tell if the data starts with uncompressed low-order bits, instead
+/// of compressed data. In compressed data, 0xff is always followed by
+/// 0x00.
 fn canon_has_lowbits(reader: &mut dyn ReadAndSeek) -> Result<bool> {
-    let mut test = [0_u8; 0x4000 - 26];
-    let mut ret = false;
+    let mut test = Vec::new();
+    let mut ret = true;
     reader.rewind()?;
-    reader.read_exact(&mut test)?;
-    for i in 514..test.len() - 1 {
+    // The data can be shorter than that.
+    reader.take(0x4000 - 26).read_to_end(&mut test)?;
+    for i in 514..std::cmp::max(test.len(), 515) - 1 {
         if test[i] == 0xff {
             if test[i + 1] != 0 {
                 return Ok(true);
-- 
2.43.0


From d2db4564765bbbc599d03385d157bfccc2d4c4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:03 +0000
Subject: [PATCH 052/101] fix: CRW: data ending with the image is not an error

---
 src/canon/crw/decompress.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index b72afa6..97e1778 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -98,6 +98,8 @@ struct DecoderNode {
 struct BitPump {
     bitbuf: u32,
     vbits: i32,
+    /// How many of the bits are past the end of the data.
+    past_end: i32,
 }
 
 impl BitPump {
@@ -113,16 +115,26 @@ impl BitPump {
             ret = 0;
             self.bitbuf = 0;
             self.vbits = 0;
+            self.past_end = 0;
         } else {
             ret = (self.bitbuf << (32 - self.vbits) >> (32 - nbits)) as i32;
             self.vbits -= nbits as i32;
+            if self.vbits < self.past_end {
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
         }
         while self.vbits < 25 {
-            let c = reader.read_u8()?;
+            let mut c = [0_u8];
+            if reader.read(&mut c)? == 0 {
+                // It's an error only if these bits are needed.
+                self.past_end += 8;
+            }
+            let c = c[0];
             self.bitbuf = (self.bitbuf << 8) + c as u32;
             if c == 0xff {
                 // there is always 00 after ff
-                reader.read_u8()?;
+                let mut zero = [0_u8];
+                let _ = reader.read(&mut zero)?;
             }
             self.vbits += 8;
         }
-- 
2.43.0


From 0ef3a2c021e52c5dbf0007ba5c201c71bbcd3944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:25 +0000
Subject: [PATCH 053/101] fix: CRW: exactly the image, and invalid dimensions
 don't panic

---
 src/canon/crw/decompress.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index 97e1778..3f8aa75 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -25,7 +25,7 @@ use byteorder::ReadBytesExt;
 
 use crate::mosaic::Pattern;
 use crate::rawfile::ReadAndSeek;
-use crate::{DataType, RawImage, Result};
+use crate::{DataType, Error, RawImage, Result};
 
 const FIRST_TREE: [[u8; 29]; 3] = [
     [
@@ -265,7 +265,13 @@ impl Decompress {
     }
 
     pub(super) fn decompress(&mut self, reader: &mut dyn ReadAndSeek) -> Result<RawImage> {
-        let mut data = Vec::with_capacity(self.width as usize * self.height as usize);
+        if self.width == 0 || self.height == 0 {
+            log::error!("CRW: invalid dimensions {} x {}", self.width, self.height);
+            return Err(Error::FormatError);
+        }
+        let size = self.width as usize * self.height as usize;
+        // Don't trust the dimensions for a large amount of memory.
+        let mut data = Vec::with_capacity(std::cmp::min(size, 1 << 24));
 
         let lowbits = if canon_has_lowbits(reader)? { 1 } else { 0 };
         reader.seek(SeekFrom::Start(
@@ -275,12 +281,12 @@ impl Decompress {
         let mut pump = BitPump::default();
         pump.get_bits(reader, -1)?;
 
-        let mut column = 0_u32;
+        let mut column = 0_u64;
         let mut base = [0_i32; 2];
         let mut carry = 0_i32;
         let mut outbuf = [0_u16; 64];
 
-        while column < self.width * self.height {
+        while (column as usize) < size {
             let mut diffbuf = [0_i32; 64];
             let mut decoder: &[DecoderNode] = &self.first_decoder;
             let mut i = 0_usize;
@@ -312,20 +318,20 @@ impl Decompress {
 
                 i += 1;
             }
-            diffbuf[0] += carry;
+            diffbuf[0] = diffbuf[0].wrapping_add(carry);
             carry = diffbuf[0];
             for i in 0..64 {
-                if column % self.width == 0 {
+                if column % self.width as u64 == 0 {
                     base[0] = 512;
                     base[1] = 512;
                 }
                 column += 1;
-                base[i & 1] += diffbuf[i];
+                base[i & 1] = base[i & 1].wrapping_add(diffbuf[i]);
                 outbuf[i] = base[i & 1] as u16;
             }
             if lowbits != 0 {
                 let save = reader.stream_position()?;
-                reader.seek(SeekFrom::Start((column as u64 - 64) / 4))?;
+                reader.seek(SeekFrom::Start((column - 64) / 4))?;
                 let mut i = 0;
                 for _ in 0..16 {
                     let c = reader.read_u8()? as u16;
@@ -339,6 +345,8 @@ impl Decompress {
             }
             data.extend_from_slice(&outbuf);
         }
+        // The last block can be larger than what is left.
+        data.truncate(size);
 
         Ok(RawImage::with_data16(
             self.width,
-- 
2.43.0


From 94ad1ceb91fe10da1d56ea5a64e33df750a5cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 054/101] fix: CRW: samples with low bits are 12 bits

---
 src/canon/crw.rs            | 3 ++-
 src/canon/crw/decompress.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index c89c966..d961602 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -30,6 +30,7 @@ use std::rc::Rc;
 
 use once_cell::unsync::OnceCell;
 
+use crate::bitmap::Bitmap;
 use crate::camera_ids::canon as canon_id;
 use crate::canon;
 use crate::canon::SensorInfo;
@@ -394,7 +395,7 @@ impl RawFileImpl for CrwFile {
                                 decompressor
                                     .decompress(&mut view)
                                     .map(|mut rawdata| {
-                                        let bpc = 10_u32;
+                                        let bpc = rawdata.bpc() as u32;
                                         let (black, white) = MATRICES
                                             .iter()
                                             .find(|m| m.camera == type_id)
diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index 3f8aa75..3769a50 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -351,7 +351,7 @@ impl Decompress {
         Ok(RawImage::with_data16(
             self.width,
             self.height,
-            10,
+            if lowbits != 0 { 12 } else { 10 },
             DataType::Raw,
             data,
             Pattern::default(),
-- 
2.43.0


From d8bdb13b393d747e1257a5eedd154fd0e6e9bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:21 +0000
Subject: [PATCH 055/101] fix: CRW: white balance data doesn't panic

---
 src/canon/crw.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index d961602..9e01591 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -135,7 +135,7 @@ impl CrwFile {
                     let mut wb_data = [0_u16; 4];
                     view.read_endian_u16_array(&mut wb_data, container.endian())
                         .ok();
-                    let g = (wb_data[0] + wb_data[3]) as f64 / 2.0;
+                    let g = (wb_data[0] as f64 + wb_data[3] as f64) / 2.0;
                     Some(vec![g / wb_data[1] as f64, 1.0, g / wb_data[2] as f64])
                 } else {
                     log::warn!("Unexpected ColourInfo2 magic {magic}");
@@ -212,7 +212,8 @@ impl CrwFile {
             let r = heap.records().get(&ciff::Tag::WhiteBalanceTable)?;
             if let ciff::Record::InHeap((pos, _)) = r.data {
                 // Some dark magic lifted from both rawspeed and dcraw
-                let wb_offset = 1 + (b"0134567028"[wb_idx as usize] - b'0') as u64 * 4;
+                let wb_offset =
+                    1 + (b"0134567028"[std::cmp::min(wb_idx as usize, 9)] - b'0') as u64 * 4;
                 let mut view = container.borrow_view_mut();
                 view.seek(SeekFrom::Start(pos as u64 + wb_offset * 2))
                     .ok()?;
-- 
2.43.0


From 7307655ccbaa1c2d6710967a90aad0954f972986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:59 +0000
Subject: [PATCH 056/101] fix: dumping a file whose container can't be loaded
 doesn't panic

---
 src/canon/cr2.rs |  4 +++-
 src/canon/cr3.rs |  4 +++-
 src/dng.rs       |  4 +++-
 src/epson.rs     |  4 +++-
 src/fujifilm.rs  |  4 +++-
 src/jpeg.rs      |  4 +++-
 src/nikon.rs     |  4 +++-
 src/olympus.rs   |  4 +++-
 src/panasonic.rs | 25 +++++++++++++------------
 src/pentax.rs    |  4 +++-
 src/sony.rs      |  4 +++-
 11 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index d8249d7..fcda789 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -443,7 +443,9 @@ impl Dump for Cr2File {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Canon CR2 File>");
     }
diff --git a/src/canon/cr3.rs b/src/canon/cr3.rs
index c3e3bab..d28312d 100644
--- a/src/canon/cr3.rs
+++ b/src/canon/cr3.rs
@@ -254,7 +254,9 @@ impl Dump for Cr3File {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Canon CR3 File>");
     }
diff --git a/src/dng.rs b/src/dng.rs
index d3a84a1..3651d02 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -442,7 +442,9 @@ impl Dump for DngFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</DNG File>");
     }
diff --git a/src/epson.rs b/src/epson.rs
index eb4b305..2b671b0 100644
--- a/src/epson.rs
+++ b/src/epson.rs
@@ -243,7 +243,9 @@ impl Dump for ErfFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Epson ERF File>");
     }
diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 090911f..0109feb 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -587,7 +587,9 @@ impl Dump for RafFile {
     fn write_dump<W: std::io::Write + ?Sized>(&self, out: &mut W, indent: u32) {
         dump_writeln!(out, indent, "<Fujifilm RAF File>");
         let _ = self.container();
-        self.container.get().unwrap().write_dump(out, indent + 1);
+        if let Some(container) = self.container.get() {
+            container.write_dump(out, indent + 1);
+        }
         dump_writeln!(out, indent, "</Fujfilm RAF File>");
     }
 }
diff --git a/src/jpeg.rs b/src/jpeg.rs
index a1a73b9..07fa8aa 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -146,7 +146,9 @@ impl Dump for JpegFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</JPEG File>");
     }
diff --git a/src/nikon.rs b/src/nikon.rs
index da3ac21..0ad580a 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -732,7 +732,9 @@ impl Dump for NefFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Nikon NEF File>");
     }
diff --git a/src/olympus.rs b/src/olympus.rs
index 2f65944..42240be 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -623,7 +623,9 @@ impl Dump for OrfFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
             if let Some(mnote) = self.maker_note_ifd() {
                 if let Some(dir) = self.olympus_cs_ifd(mnote) {
                     dir.write_dump(out, indent);
diff --git a/src/panasonic.rs b/src/panasonic.rs
index d5fe11a..7fa8007 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -1199,18 +1199,19 @@ impl Dump for Rw2File {
         {
             let indent = indent + 1;
             let _ = self.container();
-            let container = self.container.get().unwrap();
-            container.write_dump(out, indent);
-            if let Some(camera_tiff) = self.main_ifd().and_then(|dir| {
-                // id = "PanasonicRaw.CameraIfd"
-                dir.tiff_in_entry(
-                    container,
-                    exif::RW2_TAG_CAMERA_IFD,
-                    Some(&RAW_CAMERAIFD_TAG_NAMES),
-                )
-            }) {
-                if let Some(camera_ifd) = camera_tiff.directory(0) {
-                    camera_ifd.write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+                if let Some(camera_tiff) = self.main_ifd().and_then(|dir| {
+                    // id = "PanasonicRaw.CameraIfd"
+                    dir.tiff_in_entry(
+                        container,
+                        exif::RW2_TAG_CAMERA_IFD,
+                        Some(&RAW_CAMERAIFD_TAG_NAMES),
+                    )
+                }) {
+                    if let Some(camera_ifd) = camera_tiff.directory(0) {
+                        camera_ifd.write_dump(out, indent);
+                    }
                 }
             }
         }
diff --git a/src/pentax.rs b/src/pentax.rs
index 021577a..909acd6 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -581,7 +581,9 @@ impl Dump for PefFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Pentax PEF File>");
     }
diff --git a/src/sony.rs b/src/sony.rs
index 1aaf383..26de9c9 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -1190,7 +1190,9 @@ impl Dump for ArwFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Sony ARW File>");
     }
-- 
2.43.0


From 0dc5f2b7f05c0ec94d7e138c91fb6d7d8658ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:11 +0000
Subject: [PATCH 057/101] fix: compressed PEF and NEF: not a code is an error,
 and too short data doesn't allocate the image

---
 src/nikon.rs             |  9 +++++++++
 src/pentax/decompress.rs | 20 ++++++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index 0ad580a..7240ea7 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -448,6 +448,15 @@ impl NefFile {
                     DiffIterator::new(curve.huffman.unwrap(), rawdata.data8().as_ref().unwrap());
                 let mut iter = CfaIterator::new(diffs, raw_columns, curve.vpred);
 
+                // Each sample is at least one bit.
+                let len = rawdata.data8().map(|data| data.len()).unwrap_or(0);
+                if !rows
+                    .checked_mul(raw_columns)
+                    .is_some_and(|samples| samples <= len * 8)
+                {
+                    log::error!("NEF: compressed data is too short");
+                    return Err(Error::UnexpectedEOF);
+                }
                 // Using uninit_vec! here is slower.
                 let mut new_data = vec![0; rows * columns];
                 for i in 0..rows {
diff --git a/src/pentax/decompress.rs b/src/pentax/decompress.rs
index ec77edf..da80f0b 100644
--- a/src/pentax/decompress.rs
+++ b/src/pentax/decompress.rs
@@ -40,6 +40,14 @@ pub(super) fn decompress(
     width: usize,
     height: usize,
 ) -> Result<Vec<u16>> {
+    // Each sample is at least one bit.
+    if !width
+        .checked_mul(height)
+        .is_some_and(|samples| samples <= src.len() * 8)
+    {
+        log::error!("PEF: compressed data is too short");
+        return Err(Error::UnexpectedEOF);
+    }
     let mut out = vec![0_u16; width * height];
     let mut htable = HuffTable::default();
 
@@ -216,13 +224,17 @@ impl HuffTable {
 
     pub(super) fn huff_decode(&self, pump: &mut dyn BitPump) -> Result<i32> {
         let code = pump.peek_bits(DECODE_CACHE_BITS) as usize;
-        if let Some((bits, decode)) = self.decodecache[code] {
+        let (bits, decode) = if let Some((bits, decode)) = self.decodecache[code] {
             pump.consume_bits(bits as u32);
-            Ok(decode as i32)
+            (bits, decode as i32)
         } else {
-            let decode = self.huff_decode_slow(pump);
-            Ok(decode.1)
+            self.huff_decode_slow(pump)
+        };
+        if bits == 0 {
+            log::error!("PEF: not a code of the Huffman table");
+            return Err(Error::FormatError);
         }
+        Ok(decode)
     }
 
     fn huff_decode_slow(&self, pump: &mut dyn BitPump) -> (u8, i32) {
-- 
2.43.0


From b89aa231d7fcdc21067c4150e458971ab4b4fcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:02 +0000
Subject: [PATCH 058/101] fix: no black or white level value isn't a panic

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 88e0913..6777916 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -40,7 +40,7 @@ macro_rules! uninit_vec {
 /// value for the quad.
 pub(crate) fn to_quad(slice: &[u32]) -> [u16; 4] {
     if slice.len() != 4 {
-        [slice[0] as u16; 4]
+        [slice.first().copied().unwrap_or(0) as u16; 4]
     } else {
         let mut sl = [0_u16; 4];
         for (idx, v) in slice[0..4].iter().enumerate() {
-- 
2.43.0


From 1463d328fc07d2f1bcda59e863d3eddec5859268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:02 +0000
Subject: [PATCH 059/101] fix: CIFF records are limited by the size of the file

---
 src/canon/crw.rs                |  9 ++++-----
 src/canon/crw/ciff.rs           | 22 ++++++++++------------
 src/canon/crw/ciff/container.rs | 16 +++++++++++-----
 3 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index 9e01591..df57b11 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -25,7 +25,7 @@
 pub(crate) mod ciff;
 mod decompress;
 
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{Seek, SeekFrom};
 use std::rc::Rc;
 
 use once_cell::unsync::OnceCell;
@@ -368,10 +368,9 @@ impl RawFileImpl for CrwFile {
                         if let ciff::Record::InHeap((pos, len)) = r.data {
                             // XXX pattern is RGGB
                             if skip_decompression {
-                                let mut view = container.borrow_view_mut();
-                                view.seek(SeekFrom::Start(pos as u64))?;
-                                let mut data = vec![0; len as usize];
-                                view.read_exact(&mut data)?;
+                                let data = container
+                                    .load_record(pos, len)
+                                    .ok_or(Error::UnexpectedEOF)?;
                                 let mut rawdata = RawImage::with_data8(
                                     x,
                                     y,
diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index 3be1357..2b78938 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -353,18 +353,10 @@ impl RecordEntry {
             Record::InRec(_) => self.inline_data(container),
             Record::InHeap((pos, len)) => match self.type_() {
                 RecordType::Byte | RecordType::Byte2 => {
-                    let mut bytes = vec![0; len as usize];
-                    let mut view = container.borrow_view_mut();
-                    view.seek(SeekFrom::Start(pos as u64))
-                        .and_then(|_| view.read_exact(&mut bytes))
-                        .ok()
-                        .map(|_| RecordData::Byte(bytes))
+                    container.load_record(pos, len).map(RecordData::Byte)
                 }
                 RecordType::Ascii => {
-                    let mut s = vec![0; len as usize];
-                    let mut view = container.borrow_view_mut();
-                    view.seek(SeekFrom::Start(pos as u64)).ok()?;
-                    view.read_exact(&mut s).ok()?;
+                    let s = container.load_record(pos, len)?;
                     Some(RecordData::Ascii(
                         s.split(|b| *b == 0)
                             .map(utils::from_maybe_nul_terminated)
@@ -373,8 +365,11 @@ impl RecordEntry {
                 }
                 RecordType::Word => {
                     let count = self.count()?;
-                    let mut values = vec![0_u16; count as usize];
                     let mut view = container.borrow_view_mut();
+                    if pos as u64 + len as u64 > view.len() {
+                        return None;
+                    }
+                    let mut values = vec![0_u16; count as usize];
                     view.seek(SeekFrom::Start(pos as u64)).ok()?;
                     view.read_endian_u16_array(&mut values, container.endian())
                         .ok()?;
@@ -382,8 +377,11 @@ impl RecordEntry {
                 }
                 RecordType::DWord => {
                     let count = self.count()?;
-                    let mut values = vec![0_u32; count as usize];
                     let mut view = container.borrow_view_mut();
+                    if pos as u64 + len as u64 > view.len() {
+                        return None;
+                    }
+                    let mut values = vec![0_u32; count as usize];
                     view.seek(SeekFrom::Start(pos as u64)).ok()?;
                     view.read_endian_u32_array(&mut values, container.endian())
                         .ok()?;
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index dd003c6..06335cd 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -23,7 +23,7 @@
 
 use std::cell::{RefCell, RefMut};
 use std::collections::HashMap;
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{Seek, SeekFrom};
 
 use byteorder::{BigEndian, ByteOrder, LittleEndian};
 use chrono::TimeZone;
@@ -217,6 +217,15 @@ pub(crate) struct Container {
     dirs: OnceCell<Vec<Dir>>,
 }
 
+impl Container {
+    /// Load the data of a record: `len` bytes at `pos`. `None` if they
+    /// aren't all in the file.
+    pub(crate) fn load_record(&self, pos: u32, len: u32) -> Option<Vec<u8>> {
+        let data = self.load_buffer8(pos as u64, len as u64);
+        (data.len() == len as usize).then_some(data)
+    }
+}
+
 impl RawContainer for Container {
     fn endian(&self) -> Endian {
         *self.endian.borrow()
@@ -485,10 +494,7 @@ impl Container {
                 .get(&super::Tag::RawMakeModel)
                 .and_then(|r| {
                     if let Record::InHeap((pos, len)) = r.data {
-                        let mut s = vec![0; len as usize];
-                        let mut view = self.borrow_view_mut();
-                        view.seek(SeekFrom::Start(pos as u64)).ok()?;
-                        view.read_exact(&mut s).ok()?;
+                        let s = self.load_record(pos, len)?;
                         let mut s = s.split(|b| *b == 0);
                         let mut v = s.next()?;
                         if tag == exif::EXIF_TAG_MODEL {
-- 
2.43.0


From 31d5f0ccca91219a610d8cae283cc03fe799c13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:56 +0000
Subject: [PATCH 060/101] fix: unpack: don't allocate for data that isn't there

---
 src/decompress.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index 6022938..c25f705 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -223,7 +223,7 @@ pub(crate) fn unpack_from_reader(
                 || compression == tiff::Compression::Olympus
                 || compression == tiff::Compression::PanasonicRaw1
             {
-                ((width / 2 * 3) + width / 10) as usize
+                width as usize / 2 * 3 + width as usize / 10
             } else {
                 (width as usize * 12 + 7) / 8
             }
@@ -235,18 +235,18 @@ pub(crate) fn unpack_from_reader(
         }
     };
     log::debug!("Block size = {}", block_size);
-    let mut block = vec![0; block_size];
     let out_size = width as usize * height as usize;
-    let mut out_data = Vec::with_capacity(out_size);
-    let mut fetched = 0_usize;
-    let mut written = 0_usize;
-
-    let image_len = block_size * height as usize;
-    if byte_len < image_len {
+    let image_len = block_size.saturating_mul(height as usize);
+    if byte_len < image_len || (image_len == 0 && out_size != 0) {
         log::error!("Unpack: {byte_len} bytes is too short for the image");
         return Err(Error::UnexpectedEOF);
     }
     let byte_len = image_len;
+    let mut out_data = Vec::with_capacity(out_size);
+    let mut block = vec![0; if byte_len == 0 { 0 } else { block_size }];
+    let mut fetched = 0_usize;
+    let mut written = 0_usize;
+
     while fetched < byte_len {
         reader.read_exact(block.as_mut_slice())?;
         fetched += block.len();
-- 
2.43.0


From fe1836bb15863ddecf89fc74fd1b61f00cba00fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:56 +0000
Subject: [PATCH 061/101] fix: CRW camera settings are limited by the size of
 the file

---
 src/canon/crw/ciff/container.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 06335cd..523879a 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -520,8 +520,12 @@ impl Container {
                         .get(&super::Tag::CameraSettings)
                         .and_then(|r| {
                             let count = r.count()?;
-                            if let Record::InHeap((pos, _)) = r.data {
+                            if let Record::InHeap((pos, len)) = r.data {
                                 let mut view = self.borrow_view_mut();
+                                if pos as u64 + len as u64 > view.len() {
+                                    log::error!("CIFF: Not enough data for camera settings");
+                                    return None;
+                                }
                                 view.seek(SeekFrom::Start(pos as u64)).ok()?;
                                 let mut settings = vec![0_u16; count as usize];
                                 view.read_endian_u16_array(&mut settings, self.endian())
-- 
2.43.0


From 410575dcbf88bbdbfcfa054021e2862b690cbbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:56 +0000
Subject: [PATCH 062/101] fix: an image without its tiles is an error

---
 src/decompress/tiled.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/decompress/tiled.rs b/src/decompress/tiled.rs
index ed9c91b..f5429ca 100644
--- a/src/decompress/tiled.rs
+++ b/src/decompress/tiled.rs
@@ -24,7 +24,7 @@
 use rayon::prelude::*;
 
 use crate::bitmap::Bitmap;
-use crate::{DataType, RawImage, Result};
+use crate::{DataType, Error, RawImage, Result};
 
 use super::ljpeg::{LJpeg, Tile};
 
@@ -114,7 +114,12 @@ impl TiledLJpeg {
                             u_width: tile_size.0,
                             u_height: tile_size.1,
                             bpc: tile.as_ref().map(|tile| tile.bpc).unwrap_or_default(),
-                            buf: tile.map(|tile| tile.buf).unwrap_or_default(),
+                            buf: tile
+                                .map(|tile| tile.buf)
+                                .filter(|buf| {
+                                    buf.len() as u64 >= tile_size.0 as u64 * tile_size.1 as u64
+                                })
+                                .unwrap_or_default(),
                         })
                     } else {
                         tile
@@ -122,6 +127,24 @@ impl TiledLJpeg {
                 })
                 .collect();
 
+            // Don't make an image that is mostly not there.
+            if dec_tiles
+                .iter()
+                .flatten()
+                .all(|tile| tile.buf.is_empty() || tile.u_width == 0 || tile.u_height == 0)
+            {
+                log::error!("No tile could be decompressed");
+                return Err(Error::UnexpectedEOF);
+            }
+            if let Some(tile_size) = tile_size {
+                let across = rawdata.width().div_ceil(tile_size.0) as usize;
+                let down = rawdata.height().div_ceil(tile_size.1) as usize;
+                if dec_tiles.len() < across.saturating_mul(down) {
+                    log::error!("Not enough tiles for the image");
+                    return Err(Error::UnexpectedEOF);
+                }
+            }
+
             let data = Self::combine_tiles(
                 rawdata.width() as usize,
                 rawdata.height() as usize,
-- 
2.43.0


From 344d7b19a0cc99463cecb4536e91caf41eb14f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:18 +0000
Subject: [PATCH 063/101] fix: white balance values that are too short don't
 panic

---
 src/canon/cr2.rs |  1 +
 src/dng.rs       |  4 +++-
 src/epson.rs     | 12 +++++++-----
 src/nikon.rs     | 33 ++++++++++++++++++---------------
 src/pentax.rs    |  5 ++++-
 src/rawimage.rs  |  4 ++++
 src/sony.rs      | 12 ++++++++----
 7 files changed, 45 insertions(+), 26 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index fcda789..e4ce925 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -149,6 +149,7 @@ impl Cr2File {
     fn old_white_balance(&self) -> Option<[f64; 3]> {
         self.maker_note_ifd()
             .and_then(|mnote| mnote.uint_value_array(exif::MNOTE_CANON_WHITE_BALANCE_TABLE))
+            .filter(|v| v.len() >= 3)
             .map(|v| {
                 probe!(self.probe, "cr2.old_wb", "true");
                 let g = v[1] as f64;
diff --git a/src/dng.rs b/src/dng.rs
index 3651d02..f212678 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -406,7 +406,9 @@ impl RawFileImpl for DngFile {
                             .main_ifd()
                             .and_then(|dir| dir.float_value_array(exif::DNG_TAG_AS_SHOT_WHITE_XY))
                         {
-                            rawdata.set_as_shot_white_xy((as_shot_xy[0], as_shot_xy[1]));
+                            if let [x, y, ..] = as_shot_xy[..] {
+                                rawdata.set_as_shot_white_xy((x, y));
+                            }
                         }
                         rawdata
                     })
diff --git a/src/epson.rs b/src/epson.rs
index 2b671b0..1b792ee 100644
--- a/src/epson.rs
+++ b/src/epson.rs
@@ -211,11 +211,13 @@ impl RawFileImpl for ErfFile {
                                     log::error!("EPSON white balance len {}", wb_values.len());
                                 }
                                 // These values are taken directly from dcraw.
-                                rawdata.set_as_shot_neutral(&[
-                                    (0x10000 as f64) / ((wb_values[24] as f64) * 508.0 * 1.078),
-                                    1.0,
-                                    (0x10000 as f64) / ((wb_values[25] as f64) * 382.0 * 1.173),
-                                ]);
+                                if let Some([r, b]) = wb_values.get(24..26) {
+                                    rawdata.set_as_shot_neutral(&[
+                                        (0x10000 as f64) / ((*r as f64) * 508.0 * 1.078),
+                                        1.0,
+                                        (0x10000 as f64) / ((*b as f64) * 382.0 * 1.173),
+                                    ]);
+                                }
                             }
                             None::<()>
                         });
diff --git a/src/nikon.rs b/src/nikon.rs
index 7240ea7..ed6745e 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -492,7 +492,7 @@ impl NefFile {
     fn encrypted_white_balance(&self, mnote: &Dir, entry: &tiff::Entry) -> Option<[f64; 3]> {
         probe!(self.probe, "nef.wb.encrypted", "true");
         let data = entry.data();
-        let version = &data[0..4];
+        let version = data.get(0..4)?;
         let endian = mnote.endian();
         probe!(
             self.probe,
@@ -523,11 +523,11 @@ impl NefFile {
             let r = BigEndian::read_u16(data) as f64;
             let b = BigEndian::read_u16(&data[2..]) as f64;
             Some([256.0 / r, 1.0, 256.0 / b])
-        } else if &data[0..4] == b"NRW " {
+        } else if data.starts_with(b"NRW ") {
             probe!(self.probe, "nef.wb.nrw", "true");
-            let offset = if &data[4..8] != b"0100" && entry.count > 72 {
+            let offset = if data.get(4..8)? != b"0100" && data.len() > 72 {
                 56
-            } else if entry.count > 1572 {
+            } else if data.len() > 1572 {
                 1556
             } else {
                 log::error!("ColorBalanceA format unknown");
@@ -535,10 +535,10 @@ impl NefFile {
             };
             probe!(self.probe, "nef.wb.nrw.offset", offset);
             let data = &data[offset..];
-            let r = (LittleEndian::read_u32(data) << 2) as f64;
-            let g =
-                (LittleEndian::read_u32(&data[4..]) + LittleEndian::read_u32(&data[8..])) as f64;
-            let b = (LittleEndian::read_u32(&data[12..]) << 2) as f64;
+            let r = LittleEndian::read_u32(data) as f64 * 4.0;
+            let g = LittleEndian::read_u32(&data[4..]) as f64
+                + LittleEndian::read_u32(&data[8..]) as f64;
+            let b = LittleEndian::read_u32(&data[12..]) as f64 * 4.0;
             Some([g / r, 1.0, b / r])
         } else {
             log::error!("ColorBalanceA format unknown");
@@ -554,13 +554,16 @@ impl NefFile {
                 // `ColorBalanceA` (see [`nrw_white_balance`])
                 if entry.count >= 4 {
                     probe!(self.probe, "nef.wb.nikon", "true");
-                    entry.float_value_array(mnote.endian()).map(|v| {
-                        let mut g = v[2];
-                        if g <= 0.0 {
-                            g = 1.0;
-                        }
-                        [1.0 / v[0], g, 1.0 / v[1]]
-                    })
+                    entry
+                        .float_value_array(mnote.endian())
+                        .filter(|v| v.len() >= 3)
+                        .map(|v| {
+                            let mut g = v[2];
+                            if g <= 0.0 {
+                                g = 1.0;
+                            }
+                            [1.0 / v[0], g, 1.0 / v[1]]
+                        })
                 } else {
                     probe!(self.probe, "nef.wb.nikon", "false");
                     None
diff --git a/src/pentax.rs b/src/pentax.rs
index 909acd6..d7988ae 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -523,7 +523,10 @@ impl RawFileImpl for PefFile {
                             rawdata.set_blacks([black; 4]);
                         }
                     }
-                    if let Some(wb) = mnote.uint_value_array(exif::MNOTE_PENTAX_WHITE_BALANCE) {
+                    if let Some(wb) = mnote
+                        .uint_value_array(exif::MNOTE_PENTAX_WHITE_BALANCE)
+                        .filter(|wb| wb.len() >= 4)
+                    {
                         // ExifTool and the MNOTE_PENTAX_TAG_NAMES have this as WhitePoint
                         let g = wb[1] as f64;
                         let wb = [g / wb[0] as f64, 1.0, g / wb[3] as f64];
diff --git a/src/rawimage.rs b/src/rawimage.rs
index e745b33..e38dc3a 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -276,6 +276,10 @@ impl RawImage {
 
     /// Set the white balance.
     pub fn set_as_shot_neutral(&mut self, as_shot: &[f64]) {
+        if as_shot.len() < 3 {
+            log::error!("As shot neutral: not enough values");
+            return;
+        }
         let mut as_shot_neutral = [0_f64; 4];
         as_shot_neutral[0] = as_shot[0];
         as_shot_neutral[1] = as_shot[1];
diff --git a/src/sony.rs b/src/sony.rs
index 26de9c9..8ba2dec 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -1029,10 +1029,14 @@ impl ArwFile {
                     });
                 let aspect_ratio = self.aspect_ratio();
                 rawimage.set_user_crop(user_crop, aspect_ratio);
-                if let Some(wb) = dir.int_value_array(exif::ARW_TAG_WB_RGGB_LEVELS).map(|v| {
-                    let g = v[1] as f64;
-                    [g / v[0] as f64, 1.0, g / v[3] as f64]
-                }) {
+                if let Some(wb) = dir
+                    .int_value_array(exif::ARW_TAG_WB_RGGB_LEVELS)
+                    .filter(|v| v.len() >= 4)
+                    .map(|v| {
+                        let g = v[1] as f64;
+                        [g / v[0] as f64, 1.0, g / v[3] as f64]
+                    })
+                {
                     rawimage.set_as_shot_neutral(&wb);
                 }
                 // XXX This here and Pentax get the levels from the builtins.
-- 
2.43.0


From 23b7443087b00846b50b93f445b98730a5d7682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:18 +0000
Subject: [PATCH 064/101] fix: the blue multiplier of NRW white balance

---
 src/nikon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index ed6745e..54a853d 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -539,7 +539,7 @@ impl NefFile {
             let g = LittleEndian::read_u32(&data[4..]) as f64
                 + LittleEndian::read_u32(&data[8..]) as f64;
             let b = LittleEndian::read_u32(&data[12..]) as f64 * 4.0;
-            Some([g / r, 1.0, b / r])
+            Some([g / r, 1.0, g / b])
         } else {
             log::error!("ColorBalanceA format unknown");
             None
-- 
2.43.0


From 79341915cb071db6ccf42d2f360f929c9b52ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:19 +0000
Subject: [PATCH 065/101] fix: DNG active area is top, left, bottom, right

---
 src/dng.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dng.rs b/src/dng.rs
index f212678..1cbfc7f 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -357,11 +357,14 @@ impl RawFileImpl for DngFile {
                             .and_then(|e| e.uint_value_array(container.endian()))
                             // check the size of the array. Should be 4
                             .and_then(|a| if a.len() >= 4 { Some(a) } else { None })
-                            .map(|a| Rect {
-                                x: a[1],
-                                y: a[0],
-                                height: a[2],
-                                width: a[3],
+                            // The values are top, left, bottom, right.
+                            .and_then(|a| {
+                                Some(Rect {
+                                    x: a[1],
+                                    y: a[0],
+                                    height: a[2].checked_sub(a[0])?,
+                                    width: a[3].checked_sub(a[1])?,
+                                })
                             })
                             .or_else(|| {
                                 Some(Rect {
-- 
2.43.0


From 9d45eac513dfe3c9dacd6a92b6fb67d85ef52e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:19 +0000
Subject: [PATCH 066/101] fix: crop areas out of range don't panic

---
 src/canon/cr2.rs | 10 +++++-----
 src/dng.rs       |  8 +++++---
 src/nikon.rs     |  1 +
 src/olympus.rs   |  8 ++++----
 4 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index e4ce925..b9115d0 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -180,7 +180,7 @@ impl Cr2File {
                 probe!(self.probe, "cr2.no_tiff_raw_data_len", "true");
                 // not found on the 1D, so we calculate it.
                 let len = std::cmp::min(container.borrow_view_mut().len(), u32::MAX as u64) as u32;
-                len - offset
+                len.saturating_sub(offset)
             });
         let mut rawdata =
             self.get_raw_bytes(0, 0, offset as u64, byte_len as u64, &[], skip_decompress)?;
@@ -266,13 +266,13 @@ impl Cr2File {
         if let Some(aspect_info) =
             maker_note_ifd
                 .and_then(super::AspectInfo::new)
-                .map(|mut aspect_info| {
+                .and_then(|mut aspect_info| {
                     probe!(self.probe, "cr2.aspect_info", true);
                     if let Some(sensor_info) = &sensor_info {
-                        aspect_info.1.x += sensor_info.x;
-                        aspect_info.1.y += sensor_info.y;
+                        aspect_info.1.x = aspect_info.1.x.checked_add(sensor_info.x)?;
+                        aspect_info.1.y = aspect_info.1.y.checked_add(sensor_info.y)?;
                     }
-                    aspect_info
+                    Some(aspect_info)
                 })
         {
             rawdata.set_user_crop(Some(aspect_info.1), aspect_info.0);
diff --git a/src/dng.rs b/src/dng.rs
index 1cbfc7f..e19e2dc 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -380,9 +380,11 @@ impl RawFileImpl for DngFile {
                             let origin = dir
                                 .uint_value_array(exif::DNG_TAG_DEFAULT_CROP_ORIGIN)
                                 .and_then(|v| if v.len() < 2 { None } else { Some(v) })
-                                .map(|v| Point {
-                                    x: v[0] + active_area.x,
-                                    y: v[1] + active_area.y,
+                                .and_then(|v| {
+                                    Some(Point {
+                                        x: v[0].checked_add(active_area.x)?,
+                                        y: v[1].checked_add(active_area.y)?,
+                                    })
                                 })?;
                             let size = dir
                                 .uint_value_array(exif::DNG_TAG_DEFAULT_CROP_SIZE)
diff --git a/src/nikon.rs b/src/nikon.rs
index 54a853d..5b94cad 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -708,6 +708,7 @@ impl RawFileImpl for NefFile {
                         let user_crop = self
                             .maker_note_ifd()
                             .and_then(|dir| dir.uint_value_array(exif::MNOTE_NIKON_CROP_AREA))
+                            .filter(|user_crop| user_crop.len() >= 4)
                             .map(|user_crop| Rect {
                                 x: user_crop[0],
                                 y: user_crop[1],
diff --git a/src/olympus.rs b/src/olympus.rs
index 42240be..7fd68e1 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -585,12 +585,12 @@ impl RawFileImpl for OrfFile {
                             let mut crop = Rect {
                                 x,
                                 y,
-                                width: values[2] + 1 - x,
-                                height: values[3] + 1 - y,
+                                width: values[2].checked_add(1)?.checked_sub(x)?,
+                                height: values[3].checked_add(1)?.checked_sub(y)?,
                             };
                             if let Some(active_area) = active_area {
-                                crop.x += active_area.x;
-                                crop.y += active_area.y;
+                                crop.x = crop.x.checked_add(active_area.x)?;
+                                crop.y = crop.y.checked_add(active_area.y)?;
                             }
 
                             Some(crop)
-- 
2.43.0


From becca27d49c8b8ca60e9daf27ab866c8a7e78808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:20 +0000
Subject: [PATCH 067/101] fix: ARW: short camera settings and no built-in white
 level

---
 src/sony.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sony.rs b/src/sony.rs
index 8ba2dec..ec29038 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -900,7 +900,7 @@ impl ArwFile {
     /// get it at the specified `offset`.
     fn aspect_ratio_2010(&self, offset: usize) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings_2010()?;
-        match camera_settings[offset] {
+        match camera_settings.get(offset).copied()? {
             0 => Some(AspectRatio(16, 9)),
             1 => Some(AspectRatio(4, 3)),
             2 => Some(AspectRatio(3, 2)),
@@ -916,7 +916,7 @@ impl ArwFile {
 
     fn aspect_ratio_cs(&self, offset: usize) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings(Endian::Big)?;
-        match camera_settings[offset] {
+        match camera_settings.get(offset).copied()? {
             1 => Some(AspectRatio(3, 2)),
             2 => Some(AspectRatio(16, 9)),
             _ => None,
@@ -925,7 +925,7 @@ impl ArwFile {
 
     fn aspect_ratio_cs3(&self) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings3()?;
-        match camera_settings[10] {
+        match camera_settings.get(10).copied()? {
             4 => Some(AspectRatio(3, 2)),
             8 => Some(AspectRatio(16, 9)),
             _ => None,
@@ -1053,7 +1053,7 @@ impl ArwFile {
                 }
                 if let Some(whites) = dir.uint_value_array(exif::DNG_TAG_WHITE_LEVEL) {
                     rawimage.set_whites(utils::to_quad(&whites));
-                } else if let Some((_, white)) = levels {
+                } else if let Some((_, white)) = levels.filter(|(_, white)| *white != 0) {
                     rawimage.set_whites([white; 4]);
                 }
                 rawimage
-- 
2.43.0


From b3ecec5c3eb5c71141c2566117be8a1b9728f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:21 +0000
Subject: [PATCH 068/101] fix: short Canon colour data doesn't panic

---
 src/canon/colour.rs | 83 +++++++++++++++++----------------------------
 1 file changed, 31 insertions(+), 52 deletions(-)

diff --git a/src/canon/colour.rs b/src/canon/colour.rs
index 6b76032..547d15b 100644
--- a/src/canon/colour.rs
+++ b/src/canon/colour.rs
@@ -50,6 +50,10 @@ impl ColourFormat {
     /// used.
     pub(crate) fn identify(colour_data: &[u16]) -> Option<Self> {
         use ColourFormat::*;
+        if colour_data.is_empty() {
+            log::error!("No ColourData");
+            return None;
+        }
         log::debug!(
             "Probing ColourData. (len={} version={})",
             colour_data.len(),
@@ -120,45 +124,45 @@ impl ColourFormat {
         let version = colour_data[0];
         match *self {
             ColourData1 | ColourData2 => None,
-            ColourData3 => colour_data[196..200].try_into().ok(),
+            ColourData3 => colour_data.get(196..200)?.try_into().ok(),
             ColourData4 => match version {
                 2 | 3 => None,
-                4 | 5 => colour_data[692..696].try_into().ok(),
-                6 | 7 => colour_data[715..719].try_into().ok(),
-                9 => colour_data[719..723].try_into().ok(),
+                4 | 5 => colour_data.get(692..696)?.try_into().ok(),
+                6 | 7 => colour_data.get(715..719)?.try_into().ok(),
+                9 => colour_data.get(719..723)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", colour_data[0], self);
                     None
                 }
             },
             ColourData5 => match version as i16 {
-                -4 => colour_data[333..337].try_into().ok(),
-                -3 => colour_data[264..268].try_into().ok(),
+                -4 => colour_data.get(333..337)?.try_into().ok(),
+                -3 => colour_data.get(264..268)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
-            ColourData6 => colour_data[479..483].try_into().ok(),
+            ColourData6 => colour_data.get(479..483)?.try_into().ok(),
             ColourData7 => match version {
-                10 => colour_data[504..508].try_into().ok(),
-                11 => colour_data[728..732].try_into().ok(),
+                10 => colour_data.get(504..508)?.try_into().ok(),
+                11 => colour_data.get(728..732)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
             ColourData8 => match version {
-                14 => colour_data[556..560].try_into().ok(),
-                12 | 13 | 15 => colour_data[778..782].try_into().ok(),
+                14 => colour_data.get(556..560)?.try_into().ok(),
+                12 | 13 | 15 => colour_data.get(778..782)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
-            ColourData9 => colour_data[329..333].try_into().ok(),
-            ColourData10 => colour_data[343..347].try_into().ok(),
-            ColourData11 => colour_data[363..367].try_into().ok(),
+            ColourData9 => colour_data.get(329..333)?.try_into().ok(),
+            ColourData10 => colour_data.get(343..347)?.try_into().ok(),
+            ColourData11 => colour_data.get(363..367)?.try_into().ok(),
         }
     }
 
@@ -167,43 +171,18 @@ impl ColourFormat {
     pub(crate) fn as_shot(&self, colour_data: &[u16]) -> Option<[f64; 3]> {
         use ColourFormat::*;
 
-        match *self {
-            ColourData1 => {
-                let r = colour_data[25] as f64;
-                let g = colour_data[25 + 1] as f64;
-                let b = colour_data[25 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData2 => {
-                let r = colour_data[24] as f64;
-                let g = colour_data[24 + 1] as f64;
-                let b = colour_data[24 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData3 | ColourData4 | ColourData6 | ColourData7 | ColourData8 => {
-                let r = colour_data[63] as f64;
-                let g = colour_data[63 + 1] as f64;
-                let b = colour_data[63 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData5 | ColourData9 => {
-                let r = colour_data[71] as f64;
-                let g = colour_data[71 + 1] as f64;
-                let b = colour_data[71 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData10 => {
-                let r = colour_data[85] as f64;
-                let g = colour_data[85 + 1] as f64;
-                let b = colour_data[85 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData11 => {
-                let r = colour_data[105] as f64;
-                let g = colour_data[105 + 1] as f64;
-                let b = colour_data[105 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-        }
+        let index = match *self {
+            ColourData1 => 25,
+            ColourData2 => 24,
+            ColourData3 | ColourData4 | ColourData6 | ColourData7 | ColourData8 => 63,
+            ColourData5 | ColourData9 => 71,
+            ColourData10 => 85,
+            ColourData11 => 105,
+        };
+        let levels = colour_data.get(index..index + 4)?;
+        let r = levels[0] as f64;
+        let g = levels[1] as f64;
+        let b = levels[3] as f64;
+        Some([g / r, 1.0, g / b])
     }
 }
-- 
2.43.0


From c2af4bf948e27ae99a51bb8912c6282f8df0c972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:28 +0000
Subject: [PATCH 069/101] fix: ARW: a bad A100 raw information block doesn't
 panic

---
 src/sony.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sony.rs b/src/sony.rs
index ec29038..8e97e16 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -824,12 +824,13 @@ impl ArwFile {
         let offset = dir
             .entry(exif::DNG_TAG_DNG_PRIVATE)
             .and_then(|entry| entry.value_array::<u8>(dir.endian()))
+            .filter(|bytes| bytes.len() >= 4)
             .map(|bytes| u32::read::<LittleEndian>(&bytes))
             .ok_or(Error::NotFound)?;
-        let view = Viewer::create_view(&self.reader, offset as u64).expect("Created view");
+        let view = Viewer::create_view(&self.reader, offset as u64)?;
         let mut container = MrwContainer::new(view);
         container.set_endian(Endian::Little);
-        container.load().expect("Failed to load container");
+        container.load()?;
 
         Ok(container)
     }
@@ -1074,8 +1075,8 @@ impl ArwFile {
         // They don't match the ImageWidth and ImageHeight
         let width = prd.x; //3881;
         let height = prd.y; //2608;
-        let byte_len = width * height * 2;
-        let data = container.load_buffer8(offset as u64, byte_len as u64);
+        let byte_len = width as u64 * height as u64 * 2;
+        let data = container.load_buffer8(offset as u64, byte_len);
 
         let mut rawimage = RawImage::with_data8(
             width,
-- 
2.43.0


From 66fe00739624c5f8d2930e9fe44df2ea66d6c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:49 +0000
Subject: [PATCH 070/101] fix: CRW: identifying the camera for the white
 balance offset doesn't panic

---
 src/canon/crw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index df57b11..4077f45 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -152,6 +152,8 @@ impl CrwFile {
         // D30, G, S.
         let wb = heap.records().get(&ciff::Tag::ColourInfo1).and_then(|r| {
             if let ciff::Record::InHeap((pos, len)) = r.data {
+                // This needs the view to identify the camera.
+                let offset = self.crw_wb_offset();
                 let mut view = container.borrow_view_mut();
                 match len {
                     768 => {
@@ -170,7 +172,6 @@ impl CrwFile {
                     }
                     769.. => {
                         // Pro, G6, S60, S70, S45, S50, G3, G5
-                        let offset = self.crw_wb_offset();
                         // magic values from rawspeed if not the default offset.
                         // Pro, G6, S60, S70
                         let key = if offset != Self::CRW_WB_DEFAULT_OFFSET {
-- 
2.43.0


From f6e8c4b5d4d63584b1da3ed15ae7aa301ee76a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 071/101] fix: C header: the id of the Hasselblad L2D-20c is
 the library's

---
 include/libopenraw/cameraids.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libopenraw/cameraids.h b/include/libopenraw/cameraids.h
index bc83974..c93720f 100644
--- a/include/libopenraw/cameraids.h
+++ b/include/libopenraw/cameraids.h
@@ -937,7 +937,7 @@ enum _OR_TYPEID_VENDOR_HASSELBLAD {
     OR_TYPEID_HASSELBLAD_UNKNOWN = 0,
     OR_TYPEID_HASSELBLAD_LUNAR = 1,
     OR_TYPEID_HASSELBLAD_L1D_20C = 2,
-    OR_TYPEID_HASSELBLAD_L2D_20C = 2,
+    OR_TYPEID_HASSELBLAD_L2D_20C = 3,
 
     _OR_TYPEID_HASSELBLAD_LAST
 };
-- 
2.43.0


From ef3771ac5ca319ecfc53850d0140de1b7b7626f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:31 +0000
Subject: [PATCH 072/101] fix: C API: colour matrix in a bigger buffer, and the
 size when it is too small

---
 src/capi/rawfile.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index a3051b7..8e7634d 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -312,12 +312,14 @@ fn rawfile_get_colour_matrix(
             |err| err.into(),
             |cm| {
                 let out_size = unsafe { *size } as usize;
+                unsafe { *size = cm.1.len() as u32 };
                 if out_size < cm.1.len() {
                     return or_error::BUF_TOO_SMALL;
                 }
-                let slice = unsafe { std::slice::from_raw_parts_mut(matrix, out_size) };
-                slice.copy_from_slice(&cm.1[..out_size]);
-                unsafe { *size = cm.1.len() as u32 };
+                if matrix.is_null() {
+                    return or_error::INVALID_PARAM;
+                }
+                unsafe { matrix.copy_from_nonoverlapping(cm.1.as_ptr(), cm.1.len()) };
                 or_error::NONE
             },
         )
-- 
2.43.0


From 37d1a9547d891235157952b0a61325da32867228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:32 +0000
Subject: [PATCH 073/101] fix: C API: the tag names are NUL terminated

---
 src/capi/ifd.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/capi/ifd.rs b/src/capi/ifd.rs
index 6176c58..9846db2 100644
--- a/src/capi/ifd.rs
+++ b/src/capi/ifd.rs
@@ -19,6 +19,12 @@
  * <http://www.gnu.org/licenses/>.
  */
 
+use std::collections::HashMap;
+use std::ffi::{c_char, CString};
+use std::sync::Mutex;
+
+use once_cell::sync::Lazy;
+
 use crate::tiff::{Ifd, IfdType};
 
 use crate::or_unwrap;
@@ -79,6 +85,20 @@ impl From<or_ifd_dir_type> for IfdType {
     }
 }
 
+/// The NUL terminated version of the static strings returned.
+static STATIC_NAMES: Lazy<Mutex<HashMap<&'static str, CString>>> =
+    Lazy::new(|| Mutex::new(HashMap::new()));
+
+/// Get the NUL terminated version of a static string. It is never freed.
+fn static_c_string(s: &'static str) -> *const c_char {
+    STATIC_NAMES
+        .lock()
+        .unwrap()
+        .entry(s)
+        .or_insert_with(|| CString::new(s).unwrap_or_default())
+        .as_ptr()
+}
+
 #[no_mangle]
 /// Count the tags in the IFD. Returns -1 if the dir in `nullptr`.
 extern "C" fn or_ifd_count_tags(dir: ORIfdDirRef) -> i32 {
@@ -101,8 +121,6 @@ extern "C" fn or_ifd_get_type(dir: ORIfdDirRef) -> or_ifd_dir_type {
 #[no_mangle]
 extern "C" fn or_ifd_get_tag_name(dir: ORIfdDirRef, tag: u32) -> *const std::ffi::c_char {
     or_unwrap!(dir, std::ptr::null(), {
-        dir.tag_name(tag as u16)
-            // XXX this is very very unsafe, it is not NUL terminated
-            .as_ptr() as *const std::ffi::c_char
+        static_c_string(dir.tag_name(tag as u16))
     })
 }
-- 
2.43.0


From 5892a62d0c5775a4f605280d8954027a584156f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:33 +0000
Subject: [PATCH 074/101] fix: C API: always set the error code

---
 src/capi/rawfile.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index 8e7634d..52b0993 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -53,6 +53,14 @@ pub struct ORRawFile(RawFileHandle);
 /// Pointer to a [`ORRawFile`] object wrapper exported to the C API.
 pub type ORRawFileRef = *mut ORRawFile;
 
+/// Report in `error` that the raw file is `null`, and return `null`.
+fn not_a_ref<T>(error: *mut or_error) -> *mut T {
+    if !error.is_null() {
+        unsafe { *error = or_error::NOT_AREF };
+    }
+    std::ptr::null_mut()
+}
+
 #[no_mangle]
 /// Open a new raw file located at `filename` (a path to the file system).
 ///
@@ -155,7 +163,7 @@ extern "C" fn or_rawfile_get_rawdata(
     options: u32,
     error: *mut or_error,
 ) -> ORRawDataRef {
-    or_unwrap!(rawfile, std::ptr::null_mut(), {
+    or_unwrap!(rawfile, not_a_ref(error), {
         let skip_decompression = options == or_options::DONT_DECOMPRESS as u32;
         rawfile
             .0
@@ -186,7 +194,7 @@ extern "C" fn or_rawfile_get_thumbnail(
     preferred_size: u32,
     error: *mut or_error,
 ) -> ORThumbnailRef {
-    or_unwrap!(rawfile, std::ptr::null_mut(), {
+    or_unwrap!(rawfile, not_a_ref(error), {
         rawfile
             .0
             .thumbnail(preferred_size)
@@ -250,11 +258,16 @@ extern "C" fn or_rawfile_get_rendered_image(
     error: *mut or_error,
 ) -> ORBitmapDataRef {
     let options = RenderingOptions::from(options);
-    or_unwrap!(rawfile, std::ptr::null_mut(), {
+    or_unwrap!(rawfile, not_a_ref(error), {
         rawfile
             .0
             .rendered_image(options)
-            .map(|r| Box::into_raw(Box::new(r)))
+            .map(|r| {
+                if !error.is_null() {
+                    unsafe { *error = or_error::NONE };
+                }
+                Box::into_raw(Box::new(r))
+            })
             .unwrap_or_else(|e| {
                 if !error.is_null() {
                     unsafe { *error = e.into() };
-- 
2.43.0


From d37ac1abe126f6991205a7d8fb681eddb3fd5b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:34 +0000
Subject: [PATCH 075/101] fix: C API: or_get_extract_* return what
 or_rawfile_get_* do

---
 src/capi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 27fa11a..0f4de0b 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -313,7 +313,7 @@ unsafe extern "C" fn or_get_extract_thumbnail(
     }
     let filename = unsafe { CStr::from_ptr(filename) };
     let thumbnail = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None)
-        .and_then(|rawfile| rawfile.thumbnail_for_size(preferred_size))
+        .and_then(|rawfile| rawfile.thumbnail(preferred_size))
         .map(Box::new)
         .map_err(or_error::from);
     if let Err(err) = thumbnail {
@@ -352,7 +352,7 @@ unsafe extern "C" fn or_get_extract_rawdata(
     let filename = unsafe { CStr::from_ptr(filename) };
     let skip_decompression = options == or_options::DONT_DECOMPRESS as u32;
     let rawdata_ = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None)
-        .and_then(|rawfile| rawfile.load_rawdata(skip_decompression))
+        .and_then(|rawfile| rawfile.raw_data(skip_decompression))
         .map(Box::new)
         .map_err(or_error::from);
     if let Err(err) = rawdata_ {
-- 
2.43.0


From 3d832088d414f22566674fb8a07fa8a105f3f278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:35 +0000
Subject: [PATCH 076/101] fix: C API: the data of a bitmap at the raw stage

---
 src/capi/bitmap.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/capi/bitmap.rs b/src/capi/bitmap.rs
index 849c306..2d1a379 100644
--- a/src/capi/bitmap.rs
+++ b/src/capi/bitmap.rs
@@ -21,7 +21,7 @@
 
 //! This contain all the `or_bitmapdata_*` APIs.
 
-use crate::{or_unwrap, Bitmap, DataType, RawImage};
+use crate::{or_unwrap, Bitmap, RawImage};
 
 use super::{or_data_type, or_error};
 
@@ -53,17 +53,15 @@ extern "C" fn or_bitmapdata_data(bitmap: ORBitmapDataRef) -> *const libc::c_void
     or_unwrap!(
         bitmap,
         std::ptr::null(),
-        if bitmap.data_type() == DataType::PixmapRgb16 {
-            bitmap
-                .data16()
-                .map(|data| data.as_ptr())
-                .unwrap_or_else(std::ptr::null) as *const libc::c_void
-        } else {
-            bitmap
-                .data8()
-                .map(|data| data.as_ptr())
-                .unwrap_or_else(std::ptr::null) as *const libc::c_void
-        }
+        bitmap
+            .data8()
+            .map(|data| data.as_ptr() as *const libc::c_void)
+            .or_else(|| {
+                bitmap
+                    .data16()
+                    .map(|data| data.as_ptr() as *const libc::c_void)
+            })
+            .unwrap_or_else(std::ptr::null)
     )
 }
 
-- 
2.43.0


From cfe7c898e4a95295151f13ef17eb5723522e057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:36 +0000
Subject: [PATCH 077/101] fix: C API: or_bitmapdata_bpc is declared, provide it

---
 src/capi/bitmap.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/capi/bitmap.rs b/src/capi/bitmap.rs
index 2d1a379..bf6db63 100644
--- a/src/capi/bitmap.rs
+++ b/src/capi/bitmap.rs
@@ -81,3 +81,9 @@ extern "C" fn or_bitmapdata_dimensions(bitmap: ORBitmapDataRef, x: *mut u32, y:
         }
     })
 }
+
+#[no_mangle]
+/// Return the bits per component of the bitmap.
+extern "C" fn or_bitmapdata_bpc(bitmap: ORBitmapDataRef) -> u32 {
+    or_unwrap!(bitmap, 0, bitmap.bpc() as u32)
+}
-- 
2.43.0


From ec315a53725a7b769a5e29d0110a7a8ca0154be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:36 +0000
Subject: [PATCH 078/101] fix: C API: or_mosaicinfo_get_pattern doesn't abort

---
 src/capi/mosaic.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/capi/mosaic.rs b/src/capi/mosaic.rs
index afb7444..0006895 100644
--- a/src/capi/mosaic.rs
+++ b/src/capi/mosaic.rs
@@ -34,8 +34,19 @@ extern "C" fn or_mosaicinfo_get_type(mosaic_info: ORMosaicInfoRef) -> or_cfa_pat
 }
 
 #[no_mangle]
-/// Get the pattern. Currently unimplemented.
-extern "C" fn or_mosaicinfo_get_pattern(_mosaic_info: ORMosaicInfoRef) -> *const u8 {
-    // XXX todo
-    unreachable!();
+/// Get the pattern: the array of the `PatternColour`. `count` is its size.
+/// It is owned by the mosaic info.
+extern "C" fn or_mosaicinfo_get_pattern(
+    mosaic_info: ORMosaicInfoRef,
+    count: *mut u16,
+) -> *const u8 {
+    let pattern = or_unwrap!(mosaic_info, &[][..], mosaic_info.pattern());
+    if !count.is_null() {
+        unsafe { *count = pattern.len() as u16 };
+    }
+    if pattern.is_empty() {
+        return std::ptr::null();
+    }
+    // `PatternColour` is `repr(u8)`.
+    pattern.as_ptr() as *const u8
 }
-- 
2.43.0


From ed4f4b9755644dc575ac85807077e27998e436b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:37 +0000
Subject: [PATCH 079/101] fix: C API: null parameters of or_rawfile_new* and
 or_rawfile_get_metavalue

---
 src/capi/rawfile.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index 52b0993..9a18cc0 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -69,6 +69,9 @@ fn not_a_ref<T>(error: *mut or_error) -> *mut T {
 /// It will return a [`ORRawFileRef`], that must be freed in with
 /// [`or_rawfile_release`].
 extern "C" fn or_rawfile_new(filename: *mut c_char, type_: Type) -> ORRawFileRef {
+    if filename.is_null() {
+        return std::ptr::null_mut();
+    }
     let filename = unsafe { CStr::from_ptr(filename) };
     let type_ = if type_ == Type::Unknown {
         None
@@ -89,6 +92,9 @@ extern "C" fn or_rawfile_new(filename: *mut c_char, type_: Type) -> ORRawFileRef
 /// It will return a [`ORRawFileRef`], that must be freed in with
 /// [`or_rawfile_release`].
 extern "C" fn or_rawfile_new_from_memory(buffer: *const u8, len: u32, type_: Type) -> ORRawFileRef {
+    if buffer.is_null() {
+        return std::ptr::null_mut();
+    }
     let bytes = unsafe { std::slice::from_raw_parts(buffer, len as usize) };
     let type_ = if type_ == Type::Unknown {
         None
@@ -239,6 +245,9 @@ extern "C" fn or_rawfile_get_metavalue(
     key: *const std::ffi::c_char,
 ) -> ORMetaValueRef {
     or_unwrap!(rawfile, std::ptr::null_mut(), {
+        if key.is_null() {
+            return std::ptr::null_mut();
+        }
         let key = unsafe { std::ffi::CStr::from_ptr(key) };
         rawfile
             .0
-- 
2.43.0


From d387cc122322a7fe6c3c2531222320c277f51801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:45 +0000
Subject: [PATCH 080/101] fix: C API: or_get_extract_* report a file that can't
 be opened

---
 src/capi.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 0f4de0b..85ef9fb 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -122,6 +122,8 @@ pub enum or_error {
     BUF_TOO_SMALL = 1,
     /// The expected pointer / ref is invalid.
     NOT_AREF = 2,
+    /// Can't open the file.
+    CANT_OPEN = 3,
     /// Not found.
     NOT_FOUND = 5,
     /// Invalid parameter
@@ -147,6 +149,7 @@ impl From<or_error> for Error {
             or_error::NONE => Error::None,
             or_error::BUF_TOO_SMALL => Error::BufferTooSmall,
             or_error::NOT_AREF => Error::InvalidAddress,
+            or_error::CANT_OPEN => Error::UnrecognizedFormat,
             or_error::NOT_FOUND => Error::NotFound,
             or_error::INVALID_PARAM => Error::InvalidParam,
             or_error::INVALID_FORMAT => Error::InvalidFormat,
@@ -313,9 +316,9 @@ unsafe extern "C" fn or_get_extract_thumbnail(
     }
     let filename = unsafe { CStr::from_ptr(filename) };
     let thumbnail = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None)
-        .and_then(|rawfile| rawfile.thumbnail(preferred_size))
-        .map(Box::new)
-        .map_err(or_error::from);
+        .map_err(|_| or_error::CANT_OPEN)
+        .and_then(|rawfile| rawfile.thumbnail(preferred_size).map_err(or_error::from))
+        .map(Box::new);
     if let Err(err) = thumbnail {
         err
     } else {
@@ -352,9 +355,9 @@ unsafe extern "C" fn or_get_extract_rawdata(
     let filename = unsafe { CStr::from_ptr(filename) };
     let skip_decompression = options == or_options::DONT_DECOMPRESS as u32;
     let rawdata_ = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None)
-        .and_then(|rawfile| rawfile.raw_data(skip_decompression))
-        .map(Box::new)
-        .map_err(or_error::from);
+        .map_err(|_| or_error::CANT_OPEN)
+        .and_then(|rawfile| rawfile.raw_data(skip_decompression).map_err(or_error::from))
+        .map(Box::new);
     if let Err(err) = rawdata_ {
         err
     } else {
-- 
2.43.0


From 575030bd3b63d65f49b6eb89f4e546f554013ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:38 +0000
Subject: [PATCH 081/101] fix: olympus: a single column isn't an image of any
 height

---
 src/olympus/decompress.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/olympus/decompress.rs b/src/olympus/decompress.rs
index e870399..daa9725 100644
--- a/src/olympus/decompress.rs
+++ b/src/olympus/decompress.rs
@@ -35,6 +35,10 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
             "ORF: Compressed data too small.".into(),
         ));
     }
+    if w == 1 {
+        // The pixels come by pairs.
+        return Err(Error::Decompression("ORF: Image too narrow.".into()));
+    }
     // A pixel is at least 6 bits.
     if (input.len() - 7).saturating_mul(8) / 6 < h.saturating_mul(w & !1) {
         return Err(Error::Decompression(
-- 
2.43.0


From b3bba64fbc2c9dfb20a40a97d515781a8b1fa8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:47 +0000
Subject: [PATCH 082/101] fix: nikon: don't allocate the image before checking
 there is enough data

---
 src/nikon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index 5b94cad..92cd1a2 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -259,7 +259,6 @@ impl NefFile {
         let data = rawdata.data8().ok_or(Error::NotFound)?;
 
         let out_size = width as usize * height as usize;
-        let mut out_data = Vec::with_capacity(out_size);
         let mut fetched = 0_usize;
         let mut written = 0_usize;
 
@@ -268,6 +267,7 @@ impl NefFile {
             log::error!("NEF: {} bytes is too short for the image", data.len());
             return Err(Error::UnexpectedEOF);
         }
+        let mut out_data = Vec::with_capacity(std::cmp::min(out_size, byte_len));
         while fetched < byte_len {
             let block = &data[fetched..fetched + block_size];
             fetched += block.len();
-- 
2.43.0


From 54dcbcbbd9c071e6a0f31c6ad3bfe31584e9e93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:56 +0000
Subject: [PATCH 083/101] fix: nikon: the size of packed rows doesn't overflow

---
 src/nikon.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index 92cd1a2..7de5842 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -240,7 +240,7 @@ impl NefFile {
 
     /// Unpack Nikon.
     fn unpack_nikon(&self, rawdata: RawImage) -> Result<RawImage> {
-        let mut width = rawdata.width();
+        let mut width = rawdata.width() as usize;
         if self.is_d100() {
             width += 6;
         }
@@ -248,7 +248,7 @@ impl NefFile {
         let height = rawdata.height();
         let bpc = rawdata.bpc();
         let block_size: usize = match bpc {
-            12 => ((width / 2 * 3) + width / 10) as usize,
+            12 => (width / 2 * 3) + width / 10,
             _ => {
                 log::warn!("Invalid BPC {}", bpc);
                 return Err(Error::InvalidFormat);
@@ -258,7 +258,7 @@ impl NefFile {
 
         let data = rawdata.data8().ok_or(Error::NotFound)?;
 
-        let out_size = width as usize * height as usize;
+        let out_size = width * height as usize;
         let mut fetched = 0_usize;
         let mut written = 0_usize;
 
-- 
2.43.0


From c770c5f215d2e170d8c72ce4923adfc16fd4b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:41 +0000
Subject: [PATCH 084/101] fix: raf: the size of the raw data entry is in bytes

---
 src/fujifilm/raf.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fujifilm/raf.rs b/src/fujifilm/raf.rs
index 0372d71..42bd014 100644
--- a/src/fujifilm/raf.rs
+++ b/src/fujifilm/raf.rs
@@ -8,7 +8,7 @@ use std::collections::{BTreeMap, HashMap};
 use std::convert::TryFrom;
 use std::io::{Read, Seek, SeekFrom};
 
-use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
+use byteorder::{BigEndian, ByteOrder, LittleEndian, ReadBytesExt};
 use once_cell::unsync::OnceCell;
 
 use crate::container;
@@ -595,9 +595,11 @@ impl MetaContainer {
                 let v = view.read_u32::<BigEndian>()?;
                 Value::Int(v)
             } else if tag == TAG_RAF_DATA {
-                let mut v = uninit_vec!(sz as usize);
-                view.read_u32_into::<LittleEndian>(&mut v)?;
-                Value::U32s(v)
+                // `sz` is in bytes.
+                let mut bytes = vec![0_u8; sz as usize];
+                view.read_exact(&mut bytes)?;
+                let v = bytes.chunks_exact(4).map(LittleEndian::read_u32);
+                Value::U32s(v.collect())
             } else {
                 let mut v = uninit_vec!(sz as usize);
                 view.read_exact(&mut v)?;
-- 
2.43.0


From d2a7e71a676572bb297864874eb86f6a0f9b71ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:42 +0000
Subject: [PATCH 085/101] fix: raf: short white balance values

---
 src/fujifilm.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 0109feb..6a21f33 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -366,9 +366,9 @@ impl RawFileImpl for RafFile {
                     raf::Value::Bytes(wb) => {
                         // XXX Unsure of the format here.
                         probe!(self.probe, "raf.wb.old", true);
-                        let g = u16::from_be_bytes(wb[0..2].try_into().ok()?) as f64;
-                        let r = u16::from_be_bytes(wb[2..4].try_into().ok()?) as f64;
-                        let b = u16::from_be_bytes(wb[6..8].try_into().ok()?) as f64;
+                        let g = u16::from_be_bytes(wb.get(0..2)?.try_into().ok()?) as f64;
+                        let r = u16::from_be_bytes(wb.get(2..4)?.try_into().ok()?) as f64;
+                        let b = u16::from_be_bytes(wb.get(6..8)?.try_into().ok()?) as f64;
                         Some([g / r, 1.0, g / b, f64::NAN])
                     }
                     _ => None,
@@ -432,11 +432,14 @@ impl RawFileImpl for RafFile {
                             .uint_value_array(raf::FUJI_TAG_RAW_BLACK_LEVEL_GRB)
                             .unwrap_or_else(|| vec![0_u32; 4]);
                         if wb.is_none() {
-                            let wb_grb = dir.uint_value_array(raf::FUJI_TAG_RAW_WB_GRB).map(|v| {
-                                probe!(self.probe, "raf.wb.grb", true);
-                                let g = v[0] as f64;
-                                [g / v[1] as f64, 1.0, g / v[2] as f64, f64::NAN]
-                            });
+                            let wb_grb = dir
+                                .uint_value_array(raf::FUJI_TAG_RAW_WB_GRB)
+                                .filter(|v| v.len() >= 3)
+                                .map(|v| {
+                                    probe!(self.probe, "raf.wb.grb", true);
+                                    let g = v[0] as f64;
+                                    [g / v[1] as f64, 1.0, g / v[2] as f64, f64::NAN]
+                                });
                             wb = wb_grb;
                         }
                     }
-- 
2.43.0


From eb375516f767f3054a83f16caf1e43058c444787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:42 +0000
Subject: [PATCH 086/101] fix: raf: offsets, sizes and bits per sample out of
 range

---
 src/fujifilm.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 6a21f33..1fb462b 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -424,8 +424,8 @@ impl RawFileImpl for RafFile {
                     }) {
                         cfa_offset = dir
                             .value::<u32>(raf::FUJI_TAG_RAW_OFFSET)
-                            .map(|v| v + raw_container.cfa_offset())
-                            .unwrap_or(0) as u64;
+                            .map(|v| v as u64 + raw_container.cfa_offset() as u64)
+                            .unwrap_or(0);
                         cfa_len = dir.value::<u32>(raf::FUJI_TAG_RAW_BYTE_LEN).unwrap_or(0) as u64;
                         bps = dir.value::<u32>(raf::FUJI_TAG_RAW_BPS).unwrap_or(0) as u16;
                         blacks = dir
@@ -445,7 +445,7 @@ impl RawFileImpl for RafFile {
                     }
                 } else {
                     cfa_offset = raw_container.cfa_offset() as u64 + 2048;
-                    cfa_len = raw_container.cfa_len() as u64 - 2048;
+                    cfa_len = (raw_container.cfa_len() as u64).saturating_sub(2048);
                     // XXX likely 12 is incorrect for 14.
                     bps = if compressed { 12 } else { 16 };
                 }
@@ -547,7 +547,7 @@ impl RawFileImpl for RafFile {
                         // But it is assumed that as long as a value is
                         // bigger than width then it's not right.
                         let mut idx = 0_usize;
-                        while v[idx] >= raw_size.width && idx < v.len() {
+                        while idx < v.len() && v[idx] >= raw_size.width {
                             idx += 1;
                         }
                         // We definitely want the index in probe in case
@@ -563,7 +563,7 @@ impl RawFileImpl for RafFile {
                     }
                 };
                 rawdata.set_blacks(utils::to_quad(&blacks));
-                rawdata.set_whites([((1 << bps as u32) - 1) as u16; 4]);
+                rawdata.set_whites([((1_u32 << bps.min(16)) - 1) as u16; 4]);
                 rawdata.set_active_area(active_area);
                 rawdata.set_user_crop(crop, aspect_ratio);
                 if let Some(wb) = wb {
-- 
2.43.0


From 7181f5ef78cda32de36146750ac9d372675a4a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:42 +0000
Subject: [PATCH 087/101] fix: raf: raw data that isn't in the file is an error

---
 src/fujifilm.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 1fb462b..8bb0bfa 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -460,6 +460,10 @@ impl RawFileImpl for RafFile {
                 let mut rawdata = if !compressed {
                     if cfa_len == (2 * raw_size.width as u64 * raw_size.height as u64) {
                         let buffer = raw_container.load_buffer16_le(cfa_offset, cfa_len);
+                        if (buffer.len() as u64) < cfa_len / 2 {
+                            log::error!("RAF raw data is too short");
+                            return Err(Error::UnexpectedEOF);
+                        }
                         RawImage::with_data16(
                             raw_size.width,
                             raw_size.height,
@@ -469,13 +473,16 @@ impl RawFileImpl for RafFile {
                             mosaic,
                         )
                     } else {
-                        let mut view = raw_container.borrow_view_mut();
                         let unpacked = if bps == 14 {
+                            let packed = raw_container.load_buffer8(cfa_offset, cfa_len);
+                            if (packed.len() as u64) < cfa_len {
+                                log::error!("RAF raw data is too short");
+                                return Err(Error::UnexpectedEOF);
+                            }
                             let mut unpacked = Vec::with_capacity(
                                 raw_size.width as usize * raw_size.height as usize,
                             );
-                            let view = crate::io::Viewer::create_subview(&view, cfa_offset)?;
-                            let mut reader = BitReaderLe32::new(view);
+                            let mut reader = BitReaderLe32::new(std::io::Cursor::new(packed));
                             unpack::unpack_14to16(
                                 &mut reader,
                                 raw_size.width as usize * raw_size.height as usize,
@@ -487,6 +494,7 @@ impl RawFileImpl for RafFile {
                             })?;
                             unpacked
                         } else {
+                            let mut view = raw_container.borrow_view_mut();
                             view.seek(SeekFrom::Start(cfa_offset))?;
                             unpack::unpack_from_reader(
                                 &mut *view,
-- 
2.43.0


From d6b5355b1fd0f8350aa4a6c3c74142b278b452cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:42 +0000
Subject: [PATCH 088/101] fix: raf: don't pad the compressed data

---
 src/fujifilm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 8bb0bfa..070a81e 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -522,6 +522,7 @@ impl RawFileImpl for RafFile {
                 } else {
                     let mut raw = raw_container.load_buffer8(cfa_offset, cfa_len);
                     // The decompressor needs some extra bytes. We add 16.
+                    let raw_len = raw.len();
                     raw.extend(&[0; 16]);
                     let mut rawbuffer = None;
                     if !skip_decompress {
@@ -537,6 +538,7 @@ impl RawFileImpl for RafFile {
                     if let Some(rawbuffer) = rawbuffer {
                         RawImage::with_image_buffer(rawbuffer, DataType::Raw, mosaic)
                     } else {
+                        raw.truncate(raw_len);
                         RawImage::with_data8(
                             raw_size.width,
                             raw_size.height,
-- 
2.43.0


From 1a1def12cd72f48e526b4d07c3a3e88ceaedb7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:47 +0000
Subject: [PATCH 089/101] fix: raf: the colour filter array pattern must be 6x6

---
 src/fujifilm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 070a81e..0ac76fb 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -384,7 +384,9 @@ impl RawFileImpl for RafFile {
                             .collect::<Vec<u8>>()
                             .as_slice(),
                     )
-                    .map_err(|_| Error::FormatError)?
+                    .ok()
+                    .filter(|mosaic| mosaic.pattern().len() == mosaic.width() * mosaic.height())
+                    .ok_or(Error::FormatError)?
                 } else {
                     let type_id = self.type_id()?;
                     match type_id.1 {
-- 
2.43.0


From f17e8323fe7e54a4259bc18c4aa685bc17f9f95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:10 +0000
Subject: [PATCH 090/101] fix: raf: a preview that isn't a JPEG isn't a
 thumbnail

---
 src/fujifilm.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 0ac76fb..344cec2 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -216,18 +216,20 @@ impl RawFileImpl for RafFile {
                 let height = jpeg.height();
                 let dim = std::cmp::max(width, height) as u32;
 
-                thumbnails.push((
-                    dim,
-                    thumbnail::ThumbDesc {
-                        width: width as u32,
-                        height: height as u32,
-                        data_type: DataType::Jpeg,
-                        data: Data::Offset(DataOffset {
-                            offset: container.jpeg_offset() as u64,
-                            len: container.jpeg_len() as u64,
-                        }),
-                    },
-                ));
+                if dim > 0 {
+                    thumbnails.push((
+                        dim,
+                        thumbnail::ThumbDesc {
+                            width: width as u32,
+                            height: height as u32,
+                            data_type: DataType::Jpeg,
+                            data: Data::Offset(DataOffset {
+                                offset: container.jpeg_offset() as u64,
+                                len: container.jpeg_len() as u64,
+                            }),
+                        },
+                    ));
+                }
 
                 jpeg.exif()
                     .and_then(|exif| {
-- 
2.43.0


From 1fcc2041f9bec2325d28b22cd0aa4f4cddcbc2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:53 +0000
Subject: [PATCH 091/101] fix: raf: decompression doesn't panic on corrupted
 data

---
 src/decompress/bit_reader.rs |  13 +-
 src/fujifilm/decompress.rs   | 240 +++++++++++++++++++----------------
 2 files changed, 141 insertions(+), 112 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index a84a2b6..ba4f217 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -52,12 +52,12 @@ pub(crate) trait BitReader {
 
     #[inline]
     /// Consume all leading zeros.
-    fn consume_zerobits(&mut self) -> u32 {
+    fn try_consume_zerobits(&mut self) -> Result<u32> {
         const NUM_BITS: u32 = u16::BITS - 1;
         let mut count = 0;
         loop {
             // u16::leading_zeros require at least one bit set.
-            let bits = (self.peek(NUM_BITS as u8).unwrap() << 1) | 0x1;
+            let bits = (self.peek(NUM_BITS as u8)? << 1) | 0x1;
             let n = bits.leading_zeros();
             self.consume(n as u8);
             count += n;
@@ -66,7 +66,14 @@ pub(crate) trait BitReader {
                 break;
             }
         }
-        count
+        Ok(count)
+    }
+
+    #[inline]
+    /// Consume all leading zeros.
+    #[cfg(test)]
+    fn consume_zerobits(&mut self) -> u32 {
+        self.try_consume_zerobits().unwrap()
     }
 }
 
diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index b656830..a156edd 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -36,7 +36,7 @@ use rayon::prelude::*;
 use crate::bitmap::ImageBuffer;
 use crate::decompress::bit_reader::{BitReader, BitReaderBe32};
 use crate::mosaic::{Pattern, PatternColour};
-use crate::{Error, Result, Size};
+use crate::{Error, Result};
 
 /// Calculate the required bits to encode as many states.
 pub fn log2ceil(mut states: usize) -> usize {
@@ -200,7 +200,8 @@ impl Header {
     }
 
     fn is_valid(&self, cfa: &Pattern) -> bool {
-        !(self.signature != 0x4953
+        !(cfa.height() == 0
+      || self.signature != 0x4953
       //|| self.lossless != 1
       || self.raw_height > 0x3000
       || (self.raw_height as usize) < cfa.height()
@@ -212,6 +213,7 @@ impl Header {
       || self.block_size != 0x300
       || self.raw_rounded_width < self.block_size
       || self.raw_rounded_width % self.block_size != 0
+      || self.raw_rounded_width < self.raw_width
       || self.raw_rounded_width - self.raw_width >= self.block_size
       || self.blocks_in_row > 0x10
       || self.blocks_in_row == 0
@@ -234,19 +236,13 @@ impl Strip {
         params: &Params,
         q_bases: Option<&[u8]>,
         out: &mut ImageBuffer<u16>,
-    ) {
+    ) -> Result<()> {
         let mut info_block = CompressedBlock::new(header, params);
         log::debug!("Fuji strip offset: {}, len: {}", self.offset, self.size);
 
-        let mut pump = if self.offset + self.size == src.len() {
-            let cursor = std::io::Cursor::new(&src[self.offset..]);
-            BitReaderBe32::new(cursor)
-        } else {
-            let extra_bytes = 16;
-            let cursor =
-                std::io::Cursor::new(&src[self.offset..self.offset + self.size + extra_bytes]);
-            BitReaderBe32::new(cursor)
-        };
+        let extra_bytes = 16;
+        let end = src.len().min(self.offset + self.size + extra_bytes);
+        let mut pump = BitReaderBe32::new(std::io::Cursor::new(&src[self.offset..end]));
 
         let mtable = [
             (XT_LINE_R0, XT_LINE_R3),
@@ -262,10 +258,12 @@ impl Strip {
         let mut params = params.clone();
 
         for cur_line in 0..self.height() as usize {
-            debug_assert_eq!(header.is_lossless(), q_bases.is_none());
             // init grads and main qtable
             if !header.is_lossless() {
-                let q_base = q_bases.as_ref().unwrap()[cur_line] as i32;
+                let q_base = q_bases
+                    .and_then(|q_bases| q_bases.get(cur_line).copied())
+                    .ok_or_else(|| Error::Decompression("Fuji Q bases are missing".into()))?
+                    as i32;
                 if cur_line == 0 || q_base != params.qtables[0].q_base {
                     let max_value = (1 << header.raw_bits) - 1; // todo: put into header as function?
                     let main_qtable = Params::new_main_qtable(header, max_value, q_base);
@@ -289,9 +287,9 @@ impl Strip {
             }
 
             if header.raw_type == 16 {
-                info_block.fuji_xtrans_decode_block(&mut pump, &params);
+                info_block.fuji_xtrans_decode_block(&mut pump, &params)?;
             } else {
-                info_block.fuji_bayer_decode_block(&mut pump, &params);
+                info_block.fuji_bayer_decode_block(&mut pump, &params)?;
             }
 
             // copy data from line buffers and advance
@@ -321,6 +319,8 @@ impl Strip {
                     info_block.linebuf[i.0 - 1][params.line_width];
             }
         }
+
+        Ok(())
     }
 }
 
@@ -337,40 +337,43 @@ pub(super) fn decompress_fuji(
 ) -> Result<ImageBuffer<u16>> {
     let mut stream = std::io::Cursor::new(buf);
     let header = Header {
-        signature: stream.read_u16::<BigEndian>().unwrap(),
-        lossless: stream.read_u8().unwrap(),
-        raw_type: stream.read_u8().unwrap(),
-        raw_bits: stream.read_u8().unwrap(),
-        raw_height: stream.read_u16::<BigEndian>().unwrap(),
-        raw_rounded_width: stream.read_u16::<BigEndian>().unwrap(),
-        raw_width: stream.read_u16::<BigEndian>().unwrap(),
-        block_size: stream.read_u16::<BigEndian>().unwrap(),
-        blocks_in_row: stream.read_u8().unwrap(),
-        total_lines: stream.read_u16::<BigEndian>().unwrap(),
+        signature: stream.read_u16::<BigEndian>()?,
+        lossless: stream.read_u8()?,
+        raw_type: stream.read_u8()?,
+        raw_bits: stream.read_u8()?,
+        raw_height: stream.read_u16::<BigEndian>()?,
+        raw_rounded_width: stream.read_u16::<BigEndian>()?,
+        raw_width: stream.read_u16::<BigEndian>()?,
+        block_size: stream.read_u16::<BigEndian>()?,
+        blocks_in_row: stream.read_u8()?,
+        total_lines: stream.read_u16::<BigEndian>()?,
     };
     log::debug!("Header: {:?}", header);
     if !header.is_valid(corrected_cfa) {
         log::error!("Invalid header");
         return Err(Error::Decompression("Fuji header is not valid".into()));
     }
-    assert_eq!(
-        Size {
-            width: width as u32,
-            height: height as u32
-        },
-        Size {
-            width: header.raw_width.into(),
-            height: header.raw_height.into()
-        },
-        "RAF header specifies different dimensions!"
-    );
-
-    let params = Params::new(&header);
+    if width != header.raw_width as usize || height != header.raw_height as usize {
+        log::error!("RAF header specifies different dimensions!");
+        return Err(Error::Decompression(
+            "Fuji header specifies different dimensions".into(),
+        ));
+    }
+    if corrected_cfa.pattern().iter().any(|c| {
+        !matches!(
+            c,
+            PatternColour::Red | PatternColour::Green | PatternColour::Blue
+        )
+    }) {
+        return Err(Error::Decompression("Fuji CFA pattern is not RGB".into()));
+    }
+
+    let params = Params::new(&header)?;
     log::debug!("Params: {:?}", params);
 
     let block_sizes: Vec<usize> = (0..header.blocks_in_row)
-        .map(|_| stream.read_u32::<BigEndian>().unwrap() as usize)
-        .collect();
+        .map(|_| stream.read_u32::<BigEndian>().map(|size| size as usize))
+        .collect::<std::io::Result<Vec<usize>>>()?;
     let raw_offset = header.blocks_in_row as usize * size_of::<u32>();
     let raw_offset_padded = (raw_offset + 0xF) & !0xF;
     stream.seek(SeekFrom::Current((raw_offset_padded - raw_offset) as i64))?;
@@ -379,48 +382,51 @@ pub(super) fn decompress_fuji(
     let q_bases: Option<Vec<u8>> = if !header.is_lossless() {
         let total_q_bases = block_sizes.len() * ((header.total_lines as usize + 0xF) & !0xF);
         let mut bytes = vec![0_u8; total_q_bases];
-        let byteslice = bytes.as_mut_slice();
-        if stream.read_exact(byteslice).is_ok() {
-            Some(bytes)
-        } else {
-            // XXX log
-            None
-        }
+        stream.read_exact(&mut bytes)?;
+        Some(bytes)
     } else {
         None
     };
 
     // calculating raw block offsets
+    let mut offset = stream.position() as usize;
     let strips: Vec<Strip> = block_sizes
         .iter()
         .enumerate()
         .map(|(n, &block_size)| {
             let strip = Strip {
-                offset: stream.stream_position().unwrap() as usize,
+                offset,
                 size: block_size,
                 n,
                 header: header.clone(),
                 cfa: corrected_cfa.clone(),
             };
-            stream.seek(SeekFrom::Current(block_size as i64)).unwrap();
+            offset += block_size;
             strip
         })
         .collect();
+    // Each sample of a strip takes at least one bit.
+    let min_size =
+        header.total_lines as usize * Strip::line_height() * header.block_size as usize / 8;
+    if offset > buf.len() || strips.iter().any(|strip| strip.size < min_size) {
+        log::error!("Fuji strips are too short");
+        return Err(Error::UnexpectedEOF);
+    }
 
     //  assert!(stream.remaining_bytes() <= 16);
 
     let out = SharedPix2D::new(ImageBuffer::new(width as u32, height as u32, 16, 1));
 
     // Process each strip
-    strips.par_iter().for_each(|strip| {
+    strips.par_iter().try_for_each(|strip| {
         let line_step = (header.total_lines as usize + 0xF) & !0xF;
         // Each strip has it's own q_bases
         let q_bases_strip = q_bases.as_ref().map(|buf| &buf[strip.n * line_step..]);
         // DANGEROUS: We need multiple mut refs here. This should be
         // safe as be only write pixels to pre-allocated memory.
         let outbuf = unsafe { out.inner_mut() };
-        strip.decompress_strip(buf, &header, &params, q_bases_strip, outbuf);
-    });
+        strip.decompress_strip(buf, &header, &params, q_bases_strip, outbuf)
+    })?;
 
     Ok(out.into_inner())
 }
@@ -585,7 +591,7 @@ impl CompressedBlock {
         &mut self,
         pump: &mut BitReaderBe32<T>,
         params: &Params,
-    ) {
+    ) -> Result<()> {
         let line_width = params.line_width;
         let mut colours = Colours::new();
 
@@ -594,7 +600,8 @@ impl CompressedBlock {
                               block: &mut CompressedBlock,
                               c0: usize,
                               c1: usize,
-                              grad: usize| {
+                              grad: usize|
+         -> Result<()> {
             while colours.g().even < line_width || colours.g().odd < line_width {
                 if colours.g().even < line_width {
                     fuji_decode_sample_even(
@@ -604,7 +611,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.r().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                     fuji_decode_sample_even(
                         pump,
                         params,
@@ -612,7 +619,7 @@ impl CompressedBlock {
                         c1,
                         &mut colours.g().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
                 if colours.g().even > 8 {
                     fuji_decode_sample_odd(
@@ -622,7 +629,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.r().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                     fuji_decode_sample_odd(
                         pump,
                         params,
@@ -630,11 +637,12 @@ impl CompressedBlock {
                         c1,
                         &mut colours.g().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                 }
             }
             block.fuji_extend_red(line_width);
             block.fuji_extend_green(line_width);
+            Ok(())
         };
 
         let pass_green_blue = |colours: &mut Colours,
@@ -642,7 +650,8 @@ impl CompressedBlock {
                                block: &mut CompressedBlock,
                                c0: usize,
                                c1: usize,
-                               grad: usize| {
+                               grad: usize|
+         -> Result<()> {
             while colours.g().even < line_width || colours.g().odd < line_width {
                 if colours.g().even < line_width {
                     fuji_decode_sample_even(
@@ -652,7 +661,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.g().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                     fuji_decode_sample_even(
                         pump,
                         params,
@@ -660,7 +669,7 @@ impl CompressedBlock {
                         c1,
                         &mut colours.b().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
                 if colours.g().even > 8 {
                     fuji_decode_sample_odd(
@@ -670,7 +679,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.g().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                     fuji_decode_sample_odd(
                         pump,
                         params,
@@ -678,33 +687,34 @@ impl CompressedBlock {
                         c1,
                         &mut colours.b().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                 }
             }
             block.fuji_extend_green(line_width);
             block.fuji_extend_blue(line_width);
+            Ok(())
         };
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R2, XT_LINE_G2, 0);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R2, XT_LINE_G2, 0)?;
         colours.g().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G3, XT_LINE_B2, 1);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G3, XT_LINE_B2, 1)?;
         colours.r().reset();
         colours.g().reset();
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R3, XT_LINE_G4, 2);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R3, XT_LINE_G4, 2)?;
         colours.g().reset();
         colours.b().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G5, XT_LINE_B3, 0);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G5, XT_LINE_B3, 0)?;
         colours.r().reset();
         colours.g().reset();
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R4, XT_LINE_G6, 1);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R4, XT_LINE_G6, 1)?;
         colours.g().reset();
         colours.b().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G7, XT_LINE_B4, 2);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G7, XT_LINE_B4, 2)
     }
 
     #[allow(clippy::too_many_arguments)]
@@ -719,7 +729,8 @@ impl CompressedBlock {
         c1: usize,
         grad: usize,
         even_func: F,
-    ) where
+    ) -> Result<()>
+    where
         F: Fn(
             &mut CompressedBlock,
             &mut BitReaderBe32<T>,
@@ -728,14 +739,14 @@ impl CompressedBlock {
             usize,
             &mut ColourPos,
             &mut ColourPos,
-        ),
+        ) -> Result<()>,
     {
         let line_width = params.line_width;
         while colours.g().even < line_width || colours.g().odd < line_width {
             if colours.g().even < line_width {
                 let mut c0_pos = *colours.at(C0);
                 let mut c1_pos = *colours.at(C1);
-                even_func(self, pump, c0, c1, grad, &mut c0_pos, &mut c1_pos);
+                even_func(self, pump, c0, c1, grad, &mut c0_pos, &mut c1_pos)?;
                 *colours.at(C0) = c0_pos; // Write back
                 *colours.at(C1) = c1_pos;
             }
@@ -747,7 +758,7 @@ impl CompressedBlock {
                     c0,
                     &mut colours.at(C0).odd,
                     &mut self.grad_odd[grad],
-                );
+                )?;
                 fuji_decode_sample_odd(
                     pump,
                     params,
@@ -755,9 +766,10 @@ impl CompressedBlock {
                     c1,
                     &mut colours.at(C1).odd,
                     &mut self.grad_odd[grad],
-                );
+                )?;
             }
         }
+        Ok(())
     }
 
     /// Decode X-Trans pattern from block
@@ -765,7 +777,7 @@ impl CompressedBlock {
         &mut self,
         pump: &mut BitReaderBe32<T>,
         params: &Params,
-    ) {
+    ) -> Result<()> {
         let mut colours = Colours::new();
         let line_width = params.line_width;
 
@@ -786,9 +798,10 @@ impl CompressedBlock {
                     c1,
                     &mut c1_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -809,10 +822,11 @@ impl CompressedBlock {
                     c0,
                     &mut c0_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
                 fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
         colours.r().reset();
@@ -835,13 +849,14 @@ impl CompressedBlock {
                         c0,
                         &mut c0_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 } else {
                     fuji_decode_interpolation_even(block, c0, &mut c0_pos.even);
                 }
                 fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -863,7 +878,7 @@ impl CompressedBlock {
                     c0,
                     &mut c0_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
 
                 if c1_pos.even & 3 == 2 {
                     fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
@@ -875,10 +890,11 @@ impl CompressedBlock {
                         c1,
                         &mut c1_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
         colours.r().reset();
@@ -903,7 +919,7 @@ impl CompressedBlock {
                         c0,
                         &mut c0_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
 
                 fuji_decode_sample_even(
@@ -913,9 +929,10 @@ impl CompressedBlock {
                     c1,
                     &mut c1_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -940,14 +957,16 @@ impl CompressedBlock {
                         c1,
                         &mut c1_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 } else {
                     fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
                 }
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
+        Ok(())
     }
 
     fn fuji_extend_generic(&mut self, line_width: usize, start: usize, end: usize) {
@@ -1050,11 +1069,11 @@ impl Params {
     }
 
     /// Create new parameter
-    fn new(header: &Header) -> Self {
+    fn new(header: &Header) -> Result<Self> {
         if (header.block_size % 3 != 0 && header.raw_type == 16)
             || (header.block_size & 1 != 0 && header.raw_type == 0)
         {
-            panic!("Invalid FUJI header");
+            return Err(Error::Decompression("Fuji header is not valid".into()));
         }
         let min_value = 0x40;
         let max_value = (1 << header.raw_bits) - 1;
@@ -1123,24 +1142,23 @@ impl Params {
             qtables
         };
 
-        Self {
+        Ok(Self {
             qtables,
             max_bits,
             min_value,
             max_value,
             line_width,
-        }
+        })
     }
 }
 
 /// Count and consume all zero bits
 /// Additionally, consume the first 1 bit.
 #[inline(always)]
-fn fuji_zerobits<T: std::io::Read>(pump: &mut BitReaderBe32<T>) -> u32 {
-    let count = pump.consume_zerobits();
-    debug_assert_eq!(pump.peek(1).unwrap(), 1);
-    pump.consume(1); // consume the next bit which is 0b1
-    count
+fn fuji_zerobits<T: std::io::Read>(pump: &mut BitReaderBe32<T>) -> Result<u32> {
+    let count = pump.try_consume_zerobits()?;
+    pump.get_bits(1)?; // consume the next bit which is 0b1
+    Ok(count)
 }
 
 /// Calculate bit difference between two values
@@ -1173,22 +1191,22 @@ fn read_code<T: std::io::Read>(
     params: &Params,
     gradient: &mut Gradient,
     q_table: &QTable,
-) -> i32 {
-    let sample = fuji_zerobits(pump);
+) -> Result<i32> {
+    let sample = fuji_zerobits(pump)?;
     let mut code: i32 = if (sample as usize) < params.max_bits - q_table.raw_bits - 1 {
         let dec_bits = bit_diff(gradient.0, gradient.1);
         let extra_bits = if dec_bits == 0 {
             0
         } else {
-            pump.get_bits(dec_bits).unwrap() as i32
+            pump.get_bits(dec_bits)? as i32
         };
         (sample << dec_bits) as i32 + extra_bits
     } else {
-        1 + pump.get_bits(q_table.raw_bits as u8).unwrap() as i32
+        1 + pump.get_bits(q_table.raw_bits as u8)? as i32
     };
     // Validate code
     if code < 0 || code >= q_table.total_values {
-        panic!("Invalid code: {}", code);
+        return Err(Error::Decompression(format!("Fuji invalid code: {code}")));
     }
     // Adjust code
     if (code & 1) != 0 {
@@ -1203,7 +1221,7 @@ fn read_code<T: std::io::Read>(
         gradient.1 >>= 1;
     }
     gradient.1 += 1;
-    code
+    Ok(code)
 }
 
 /// Decode samples for even positions
@@ -1214,7 +1232,7 @@ fn fuji_decode_sample_even<T: std::io::Read>(
     line: usize,
     pos: &mut usize,
     grads: &mut GradientList,
-) {
+) -> Result<()> {
     // Line -2 |   | f |   |
     // Line -1 | c | b | d |
     // Line  0 | a | x | g |
@@ -1255,7 +1273,7 @@ fn fuji_decode_sample_even<T: std::io::Read>(
         params,
         &mut gradients[grad.unsigned_abs() as usize],
         qtable,
-    );
+    )?;
 
     // Adjustments specific to even positions
     if grad < 0 {
@@ -1278,6 +1296,8 @@ fn fuji_decode_sample_even<T: std::io::Read>(
     }
 
     *pos += 2;
+
+    Ok(())
 }
 
 /// Decode samples for odd positions
@@ -1288,7 +1308,7 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
     line: usize,
     pos: &mut usize,
     grads: &mut GradientList,
-) {
+) -> Result<()> {
     // Line -2 |   | f |   |
     // Line -1 | c | b | d |
     // Line  0 | a | x | g |
@@ -1327,7 +1347,7 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
         params,
         &mut gradients[grad.unsigned_abs() as usize],
         qtable,
-    );
+    )?;
 
     // Adjustments specific to odd positions
     if grad < 0 {
@@ -1350,6 +1370,8 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
     }
 
     *pos += 2;
+
+    Ok(())
 }
 
 /// Interpolate x value from surrounding pixels
-- 
2.43.0


From 923988c0287be04879dabbfe841abda2edcdd8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:15 +0000
Subject: [PATCH 092/101] fix: raf: the colour filter array of compressed data
 isn't transposed

---
 src/fujifilm/decompress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index a156edd..371a20e 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -555,7 +555,7 @@ impl CompressedBlock {
         let cfa_height = strip.cfa.height();
         for row_count in 0..Strip::line_height() {
             for pixel_count in 0..strip.width() {
-                let line_idx = match strip.cfa[(row_count % cfa_height, pixel_count % cfa_width)] {
+                let line_idx = match strip.cfa[(pixel_count % cfa_width, row_count % cfa_height)] {
                     PatternColour::Red => line_buf_r[row_count >> 1],
                     PatternColour::Green => line_buf_g[row_count],
                     PatternColour::Blue => line_buf_b[row_count >> 1],
-- 
2.43.0


From 8066c5a675d6eb79ca6a947167de1155f6cff8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:44 +0000
Subject: [PATCH 093/101] fix: nikon: the maker note has its own byte order

---
 src/nikon.rs          |  6 +++---
 src/tiff/container.rs |  4 +++-
 src/tiff/dir.rs       | 10 +++++++++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index 7de5842..ad99fb0 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -333,7 +333,7 @@ impl NefFile {
                 let mut curve = CompressionInfo::new();
                 for i in 0..2 {
                     for j in 0..2 {
-                        curve.vpred[i][j] = view.read_endian_u16(container.endian())?;
+                        curve.vpred[i][j] = view.read_endian_u16(mnote.endian())?;
                     }
                 }
 
@@ -372,7 +372,7 @@ impl NefFile {
                     return Err(Error::FormatError);
                 }
 
-                let nelems = view.read_endian_u16(container.endian()).unwrap_or(0);
+                let nelems = view.read_endian_u16(mnote.endian()).unwrap_or(0);
                 log::debug!("Num elems {}", nelems);
 
                 let mut ceiling: u16 = (1 << bpc) & 0x7fff;
@@ -384,7 +384,7 @@ impl NefFile {
 
                 if header0 == 0x44 && header1 == 0x20 && step > 0 {
                     for i in 0..nelems {
-                        let value = view.read_endian_u16(container.endian())?;
+                        let value = view.read_endian_u16(mnote.endian())?;
                         curve.curve[i as usize * step] = value;
                     }
                     for i in 0..ceiling as usize {
diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index 834603f..76a4edc 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -191,13 +191,14 @@ impl Container {
     pub(crate) fn dir_at(
         &self,
         view: &mut View,
+        endian: container::Endian,
         offset: u32,
         base_offset: u32,
         t: IfdType,
         id: Option<&'static str>,
         tag_names: Option<&'static HashMap<u16, &'static str>>,
     ) -> Result<Dir> {
-        let mut dir = match *self.endian.borrow() {
+        let mut dir = match endian {
             container::Endian::Little => Dir::read::<LittleEndian>(view, offset, base_offset, t),
             container::Endian::Big => Dir::read::<BigEndian>(view, offset, base_offset, t),
             _ => {
@@ -248,6 +249,7 @@ impl Container {
                 } else {
                     self.dir_at(
                         &mut self.view.borrow_mut(),
+                        self.endian(),
                         dir_offset,
                         0,
                         t.0,
diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 1627085..16bdf5e 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -143,10 +143,15 @@ impl Dir {
                         );
                     } else if data[6] == 2 {
                         // this one has an endian / TIFF header after the magic
+                        let endian = match &data[10..12] {
+                            b"II" => container::Endian::Little,
+                            b"MM" => container::Endian::Big,
+                            _ => container::Endian::Unset,
+                        };
                         return Dir::new_makernote(
                             b"Exif.Nikon\0",
                             container,
-                            container::Endian::Unset,
+                            endian,
                             offset + 18,
                             offset + 10,
                             &nikon::MNOTE_TAG_NAMES,
@@ -665,6 +670,7 @@ impl Dir {
                 container
                     .dir_at(
                         &mut view,
+                        self.endian(),
                         offset,
                         self.mnote_offset,
                         IfdType::Exif,
@@ -701,6 +707,7 @@ impl Dir {
                 container
                     .dir_at(
                         &mut view,
+                        self.endian(),
                         offset,
                         self.mnote_offset,
                         IfdType::GpsInfo,
@@ -767,6 +774,7 @@ impl Dir {
                 container
                     .dir_at(
                         &mut view,
+                        self.endian(),
                         val_offset,
                         self.mnote_offset,
                         IfdType::Other,
-- 
2.43.0


From ecd7588ad931b7621985a1228fec4004d4fd09b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:33 +0000
Subject: [PATCH 094/101] fix: jpeg, panasonic: the thumbnail is in the Exif
 data wherever that is

---
 src/jpeg.rs      | 10 +++++++---
 src/panasonic.rs | 13 +++++++------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/jpeg.rs b/src/jpeg.rs
index 07fa8aa..1114cc8 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -94,8 +94,12 @@ impl RawFileImpl for JpegFile {
                 let dir = exif.directory(1)?;
                 let len = dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT_LENGTH)? as u64;
                 let offset = dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT)? as u64;
-                // XXX this +12 should be "calculated"
-                let offset = offset + 12;
+                // The offset is in the Exif data.
+                let data = exif.load_buffer8(offset, len);
+                if data.is_empty() || data.len() as u64 != len {
+                    log::error!("JPEG: Exif thumbnail is too short");
+                    return None;
+                }
                 // XXX as a shortcut we assume it's Exif 160x120
                 thumbnails.push((
                     160,
@@ -103,7 +107,7 @@ impl RawFileImpl for JpegFile {
                         width: 160,
                         height: 120,
                         data_type: DataType::Jpeg,
-                        data: thumbnail::Data::Offset(thumbnail::DataOffset { offset, len }),
+                        data: thumbnail::Data::Bytes(data),
                     },
                 ));
 
diff --git a/src/panasonic.rs b/src/panasonic.rs
index 7fa8007..27568b9 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -861,8 +861,12 @@ impl RawFileImpl for Rw2File {
                             dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT_LENGTH)? as u64;
                         let offset =
                             dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT)? as u64;
-                        // XXX this +12 should be "calculated"
-                        let offset = jpeg_offset.offset + offset + 12;
+                        // The offset is in the Exif data.
+                        let data = exif.load_buffer8(offset, len);
+                        if data.is_empty() || data.len() as u64 != len {
+                            log::error!("RW2: Exif thumbnail is too short");
+                            return None;
+                        }
                         // XXX as a shortcut we assume it's Exif 160x120
                         thumbnails.push((
                             160,
@@ -870,10 +874,7 @@ impl RawFileImpl for Rw2File {
                                 width: 160,
                                 height: 120,
                                 data_type: DataType::Jpeg,
-                                data: thumbnail::Data::Offset(thumbnail::DataOffset {
-                                    offset,
-                                    len,
-                                }),
+                                data: thumbnail::Data::Bytes(data),
                             },
                         ));
 
-- 
2.43.0


From 3913e7758bc83c8088a3f8eb9ce7e0c63c96f195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:55 +0000
Subject: [PATCH 095/101] fix: jpeg: the main and Exif directories

---
 src/jpeg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpeg.rs b/src/jpeg.rs
index 1114cc8..be949d8 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -121,9 +121,9 @@ impl RawFileImpl for JpegFile {
         self.container().ok()?;
         let container = self.container.get().unwrap();
         match ifd_type {
-            tiff::IfdType::Main | tiff::IfdType::Raw => None,
-            tiff::IfdType::Exif => container.exif().and_then(|exif| exif.directory(0)),
-            tiff::IfdType::MakerNote => container.exif().and_then(|exif| exif.mnote_dir()),
+            tiff::IfdType::Main => container.exif().and_then(|exif| exif.directory(0)),
+            tiff::IfdType::Exif => container.exif_dir(),
+            tiff::IfdType::MakerNote => container.mnote_dir(),
             _ => None,
         }
     }
-- 
2.43.0


From eb2b2442b9e5bf8af48fada7c5a8f8416cf81895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:54 +0000
Subject: [PATCH 096/101] fix: nikon: the curve is in the byte order of the
 maker note

---
 src/nikon.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index ad99fb0..25bbf65 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -396,13 +396,8 @@ impl NefFile {
                     // split flag is at offset 562.
                     // XXX
                 } else if header0 != 0x46 && nelems <= 0x4001 {
-                    let num_read =
-                        container.read_u16_array(&mut view, &mut curve.curve, nelems as usize)?;
-                    // XXX It's likly not possible for the short read to appear.
-                    // As an error might be thrown first.
-                    if num_read < nelems as usize {
-                        log::error!("NEF short read of {} elems, expected {}", num_read, nelems);
-                        return Err(Error::UnexpectedEOF);
+                    for value in curve.curve.iter_mut().take(nelems as usize) {
+                        *value = view.read_endian_u16(mnote.endian())?;
                     }
                     ceiling = nelems;
                     probe!(self.probe, "nef.compression_curve.direct", "true");
-- 
2.43.0


From b69c4887d6a16f2b11f962a194c09393c8fc445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:30 +0000
Subject: [PATCH 097/101] fix: mp4: only allocate for the data that is in the
 file

---
 src/mp4/parse/mod.rs | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/mp4/parse/mod.rs b/src/mp4/parse/mod.rs
index 4711a8f..9a18b21 100644
--- a/src/mp4/parse/mod.rs
+++ b/src/mp4/parse/mod.rs
@@ -1560,7 +1560,8 @@ impl<T: Read> Read for BMFFBox<'_, T> {
 
 impl<T: Read> TryRead for BMFFBox<'_, T> {
     fn try_read_to_end(&mut self, buf: &mut TryVec<u8>) -> std::io::Result<usize> {
-        fallible_collections::try_read_up_to(self, self.bytes_left(), buf)
+        let limit = self.bytes_left();
+        read_up_to(self, limit, buf)
     }
 }
 
@@ -3604,7 +3605,7 @@ fn read_ftyp<T: Read>(src: &mut BMFFBox<T>) -> Result<FileTypeBox> {
     }
     // Is a brand_count of zero valid?
     let brand_count = bytes_left / 4;
-    let mut brands = TryVec::with_capacity(brand_count.try_into()?)?;
+    let mut brands = TryVec::new();
     for _ in 0..brand_count {
         brands.push(be_u32(src)?.into())?;
     }
@@ -3704,7 +3705,7 @@ fn read_tkhd<T: Read>(src: &mut BMFFBox<T>) -> Result<TrackHeaderBox> {
 fn read_elst<T: Read>(src: &mut BMFFBox<T>) -> Result<EditListBox> {
     let (version, _) = read_fullbox_extra(src)?;
     let edit_count = be_u32(src)?;
-    let mut edits = TryVec::with_capacity(edit_count.to_usize())?;
+    let mut edits = TryVec::new();
     for _ in 0..edit_count {
         let (segment_duration, media_time) = match version {
             1 => {
@@ -3780,7 +3781,7 @@ fn read_mdhd<T: Read>(src: &mut BMFFBox<T>) -> Result<MediaHeaderBox> {
 fn read_stco<T: Read>(src: &mut BMFFBox<T>) -> Result<ChunkOffsetBox> {
     let (_, _) = read_fullbox_extra(src)?;
     let offset_count = be_u32(src)?;
-    let mut offsets = TryVec::with_capacity(offset_count.to_usize())?;
+    let mut offsets = TryVec::new();
     for _ in 0..offset_count {
         offsets.push(be_u32(src)?.into())?;
     }
@@ -3796,7 +3797,7 @@ fn read_stco<T: Read>(src: &mut BMFFBox<T>) -> Result<ChunkOffsetBox> {
 fn read_co64<T: Read>(src: &mut BMFFBox<T>) -> Result<ChunkOffsetBox> {
     let (_, _) = read_fullbox_extra(src)?;
     let offset_count = be_u32(src)?;
-    let mut offsets = TryVec::with_capacity(offset_count.to_usize())?;
+    let mut offsets = TryVec::new();
     for _ in 0..offset_count {
         offsets.push(be_u64(src)?)?;
     }
@@ -3812,7 +3813,7 @@ fn read_co64<T: Read>(src: &mut BMFFBox<T>) -> Result<ChunkOffsetBox> {
 fn read_stss<T: Read>(src: &mut BMFFBox<T>) -> Result<SyncSampleBox> {
     let (_, _) = read_fullbox_extra(src)?;
     let sample_count = be_u32(src)?;
-    let mut samples = TryVec::with_capacity(sample_count.to_usize())?;
+    let mut samples = TryVec::new();
     for _ in 0..sample_count {
         samples.push(be_u32(src)?)?;
     }
@@ -3828,7 +3829,7 @@ fn read_stss<T: Read>(src: &mut BMFFBox<T>) -> Result<SyncSampleBox> {
 fn read_stsc<T: Read>(src: &mut BMFFBox<T>) -> Result<SampleToChunkBox> {
     let (_, _) = read_fullbox_extra(src)?;
     let sample_count = be_u32(src)?;
-    let mut samples = TryVec::with_capacity(sample_count.to_usize())?;
+    let mut samples = TryVec::new();
     for _ in 0..sample_count {
         let first_chunk = be_u32(src)?;
         let samples_per_chunk = be_u32(src)?;
@@ -3860,7 +3861,7 @@ fn read_ctts<T: Read>(src: &mut BMFFBox<T>) -> Result<CompositionOffsetBox> {
         return Err(Error::InvalidData("insufficient data in 'ctts' box"));
     }
 
-    let mut offsets = TryVec::with_capacity(counts.to_usize())?;
+    let mut offsets = TryVec::new();
     for _ in 0..counts {
         let (sample_count, time_offset) = match version {
             // According to spec, Version0 shoule be used when version == 0;
@@ -3894,7 +3895,6 @@ fn read_stsz<T: Read>(src: &mut BMFFBox<T>) -> Result<SampleSizeBox> {
     let sample_count = be_u32(src)?;
     let mut sample_sizes = TryVec::new();
     if sample_size == 0 {
-        sample_sizes.reserve(sample_count.to_usize())?;
         for _ in 0..sample_count {
             sample_sizes.push(be_u32(src)?)?;
         }
@@ -3914,7 +3914,7 @@ fn read_stsz<T: Read>(src: &mut BMFFBox<T>) -> Result<SampleSizeBox> {
 fn read_stts<T: Read>(src: &mut BMFFBox<T>) -> Result<TimeToSampleBox> {
     let (_, _) = read_fullbox_extra(src)?;
     let sample_count = be_u32(src)?;
-    let mut samples = TryVec::with_capacity(sample_count.to_usize())?;
+    let mut samples = TryVec::new();
     for _ in 0..sample_count {
         let sample_count = be_u32(src)?;
         let sample_delta = be_u32(src)?;
@@ -5275,9 +5275,25 @@ fn skip<T: Read>(src: &mut T, bytes: u64) -> Result<()> {
     Ok(())
 }
 
+/// Read up to `limit` bytes into `buf`. `limit` is what the file
+/// claims: only allocate for what is read.
+fn read_up_to<T: Read>(src: &mut T, limit: u64, buf: &mut TryVec<u8>) -> std::io::Result<usize> {
+    const CHUNK: u64 = 65536;
+    let mut total = 0_usize;
+    loop {
+        let chunk = CHUNK.min(limit - total.to_u64());
+        let read = fallible_collections::try_read_up_to(src, chunk, buf)?;
+        total += read;
+        if read == 0 || total.to_u64() == limit {
+            return Ok(total);
+        }
+    }
+}
+
 /// Read size bytes into a Vector or return error.
 fn read_buf<T: Read>(src: &mut T, size: u64) -> Result<TryVec<u8>> {
-    let buf = src.take(size).read_into_try_vec()?;
+    let mut buf = TryVec::new();
+    read_up_to(src, size, &mut buf)?;
     if buf.len().to_u64() != size {
         return Err(Error::InvalidData("failed buffer read"));
     }
-- 
2.43.0


From b0aaba72c813d5b5755f27ac9c56e388c35daec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:04 +0000
Subject: [PATCH 098/101] fix: mp4: a metadata block that isn't a TIFF isn't
 there

---
 src/mp4/container.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/mp4/container.rs b/src/mp4/container.rs
index 7e65ecf..9cc0c87 100644
--- a/src/mp4/container.rs
+++ b/src/mp4/container.rs
@@ -182,16 +182,14 @@ impl Container {
                     let viewer = Viewer::new(cursor, length as u64);
                     if let Ok(view) = Viewer::create_view(&viewer, 0) {
                         let mut ifd = tiff::Container::new(view, vec![(t, None)], raw_type);
-                        ifd.load(None).expect("ifd load");
-                        return Some((viewer, ifd));
+                        return ifd.load(None).ok().map(|_| (viewer, ifd));
                     }
                 }
                 None
             })
         }
 
-        let len = self
-            .meta_ifds
+        self.meta_ifds
             .get_or_init(|| {
                 if let Ok(craw) = self.craw_header() {
                     vec![
@@ -208,13 +206,8 @@ impl Container {
                     vec![]
                 }
             })
-            .len();
-
-        if len < idx as usize {
-            None
-        } else {
-            self.meta_ifds.get().and_then(|v| v[idx as usize].as_ref())
-        }
+            .get(idx as usize)
+            .and_then(|holder| holder.as_ref())
     }
 
     /// Number of tracks in the ISO container
-- 
2.43.0


From 9c4b0d06cd8e96dd0d71b613a820f9ca0e212f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:23 +0000
Subject: [PATCH 099/101] fix: mp4: a track or a preview table without entries
 doesn't panic

---
 src/mp4/container.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mp4/container.rs b/src/mp4/container.rs
index 9cc0c87..e910502 100644
--- a/src/mp4/container.rs
+++ b/src/mp4/container.rs
@@ -134,7 +134,10 @@ impl Container {
         // box (24) + content (8) + prvw box (8) + unknown (4)
         // We need to skip the "boxes" (ISO container)
         // And skip a short (16bits) value.
-        let offset = preview_offset.0 + 44 + 2;
+        let offset = preview_offset
+            .0
+            .checked_add(44 + 2)
+            .ok_or(Error::FormatError)?;
 
         let mut view = self.view.borrow_mut();
         view.seek(SeekFrom::Start(offset))?;
@@ -253,7 +256,7 @@ impl Container {
 
         let video = match track.stsd {
             // We assume there is only one.
-            Some(ref data) => &data.descriptions[0],
+            Some(ref data) => data.descriptions.first().ok_or(Error::FormatError)?,
             None => return Err(Error::FormatError),
         };
 
@@ -270,13 +273,13 @@ impl Container {
             if stsz.sample_size > 0 {
                 stsz.sample_size as u64
             } else {
-                stsz.sample_sizes[0] as u64
+                *stsz.sample_sizes.first().ok_or(Error::FormatError)? as u64
             }
         } else {
             0
         };
         track_info.offset = if let Some(ref stco) = track.stco {
-            stco.offsets[0]
+            *stco.offsets.first().ok_or(Error::FormatError)?
         } else {
             0
         };
-- 
2.43.0


From 8d8a153dc1b9895813c7d687ba956c7480ac5483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:01 +0000
Subject: [PATCH 100/101] fix: mp4: the uuid of a box is read in full

---
 src/mp4/parse/mod.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/mp4/parse/mod.rs b/src/mp4/parse/mod.rs
index 9a18b21..0eb7df0 100644
--- a/src/mp4/parse/mod.rs
+++ b/src/mp4/parse/mod.rs
@@ -1629,14 +1629,9 @@ fn read_box_header<T: ReadBytesExt>(src: &mut T) -> Result<BoxHeader> {
     let uuid = if name == BoxType::UuidBox {
         if size >= offset + 16 {
             let mut buffer = [0u8; 16];
-            let count = src.read(&mut buffer)?;
-            offset += count.to_u64();
-            if count == 16 {
-                Some(buffer)
-            } else {
-                debug!("malformed uuid (short read), skipping");
-                None
-            }
+            src.read_exact(&mut buffer)?;
+            offset += buffer.len().to_u64();
+            Some(buffer)
         } else {
             debug!("malformed uuid, skipping");
             None
@@ -3303,10 +3298,7 @@ fn read_moov<T: Read>(f: &mut BMFFBox<T>, context: Option<MediaContext>) -> Resu
                     }
                 }
                 if !box_known {
-                    debug!(
-                        "Unknown UUID box {:?} (skipping)",
-                        b.head.uuid.as_ref().unwrap()
-                    );
+                    debug!("Unknown UUID box {:?} (skipping)", b.head.uuid.as_ref());
                     skip_box_content(&mut b)?;
                 }
             }
-- 
2.43.0


From f4ba317b9ad0709176f35e154db3106a9e2d9a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:24 +0000
Subject: [PATCH 101/101] fix: mp4: the last box can extend to the end of the
 file

---
 src/mp4/parse/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mp4/parse/mod.rs b/src/mp4/parse/mod.rs
index 0eb7df0..717296f 100644
--- a/src/mp4/parse/mod.rs
+++ b/src/mp4/parse/mod.rs
@@ -3192,10 +3192,16 @@ pub fn read_mp4<T: Read>(f: &mut T) -> Result<MediaContext> {
     let mut context = None;
     let mut found_ftyp = false;
     let mut brand: Option<FourCC> = None;
-    // TODO(kinetik): Top-level parsing should handle zero-sized boxes
-    // rather than throwing an error.
     let mut iter = BoxIter::new(f);
-    while let Some(mut b) = iter.next_box()? {
+    loop {
+        let mut b = match iter.next_box() {
+            Ok(Some(b)) => b,
+            Ok(None) => break,
+            // A box of size zero extends to the end of the file: there is
+            // no box after it.
+            Err(Error::Unsupported(_)) if context.is_some() => break,
+            Err(e) => return Err(e),
+        };
         // box ordering: ftyp before any variable length box (inc. moov),
         // but may not be first box in file if file signatures etc. present
         // fragmented mp4 order: ftyp, moov, pairs of moof/mdat (1-multiple), mfra
-- 
2.43.0

