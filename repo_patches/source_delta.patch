From a02092eedbbfc10cd0394ec34dc1756937bf0608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 01/22] fix: start a ByteStream converted from a ByteRegion at
 the region's begin

---
 src/reader/byte_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/byte_stream.rs b/src/reader/byte_stream.rs
index 893d781..70f2d5b 100644
--- a/src/reader/byte_stream.rs
+++ b/src/reader/byte_stream.rs
@@ -58,6 +58,6 @@ impl Read for ByteStream {
 
 impl From<ByteRegion> for ByteStream {
     fn from(bregion: ByteRegion) -> Self {
-        Self::new_from_parts(bregion.source, bregion.region, Offset::zero())
+        Self::new_from_parts(bregion.source, bregion.region, bregion.region.begin())
     }
 }
-- 
2.43.0


From 814e511a10a2ce9a9ad4d23ef219a6dcb6522e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 02/22] fix: read the manifest header after the whole pack
 header block in set_location

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 8f3f9d0..958b072 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -52,7 +52,7 @@ pub fn set_location(
     let manifest_pack_reader = manifest_pack_reader.unwrap();
     let pack_header = manifest_pack_reader.parse_block_at::<PackHeader>(jbk::Offset::zero())?;
     let header = manifest_pack_reader
-        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::SIZE))?;
+        .parse_block_at::<ManifestPackHeader>(jbk::Offset::from(PackHeader::BLOCK_SIZE))?;
     let pack_offsets = PackOffsetsIter::new(pack_header.check_info_pos, header.pack_count);
     for pack_offset in pack_offsets {
         let mut pack_info =
-- 
2.43.0


From 8ccd9235b007a9f6314318e918de3d0ce25a9f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 03/22] fix: reject in jbk locate the locations which don't fit
 in a pack info

---
 src/bin/jbk/locate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/jbk/locate.rs b/src/bin/jbk/locate.rs
index 5a4907a..6b5f8a3 100644
--- a/src/bin/jbk/locate.rs
+++ b/src/bin/jbk/locate.rs
@@ -29,8 +29,8 @@ pub fn run(options: Options) -> jbk::Result<()> {
         },
     };
     if let Some(location) = &options.new_location {
-        if location.len() > 217 {
-            eprintln!("{location} is too long. Only 217 bytes allowed");
+        if location.len() > 213 {
+            eprintln!("{location} is too long. Only 213 bytes allowed");
             return Ok(());
         }
 
-- 
2.43.0


From 7998944689d0e987ce53b2ee45a792be7d91303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 04/22] fix: locate packs on the filesystem by uuid, even when
 they are in a container pack

---
 src/reader/locator.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reader/locator.rs b/src/reader/locator.rs
index a3544ad..2a8390f 100644
--- a/src/reader/locator.rs
+++ b/src/reader/locator.rs
@@ -1,3 +1,4 @@
+use super::jubako::open_as_container_pack;
 use crate::bases::*;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -20,10 +21,12 @@ impl FsLocator {
 }
 
 impl PackLocatorTrait for FsLocator {
-    fn locate(&self, _uuid: Uuid, path: &str) -> Result<Option<Reader>> {
+    fn locate(&self, uuid: Uuid, path: &str) -> Result<Option<Reader>> {
         let path = self.base_dir.join(path);
         if path.is_file() {
-            Ok(Some(Reader::from(FileSource::open(path)?)))
+            // The pack may be stored directly in the file or be in a container pack.
+            let container = open_as_container_pack(Reader::from(FileSource::open(path)?))?;
+            Ok(container.get_pack_reader(&uuid))
         } else {
             Ok(None)
         }
-- 
2.43.0


From 93097de8b4c8a48447fde652ee1fd4adcabac3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 05/22] fix: count the check info block in the size of
 container packs

---
 src/creator/container_pack.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/creator/container_pack.rs b/src/creator/container_pack.rs
index 8a89860..933f32b 100644
--- a/src/creator/container_pack.rs
+++ b/src/creator/container_pack.rs
@@ -1,7 +1,9 @@
 use camino::{Utf8Path, Utf8PathBuf};
 
 use crate::bases::*;
-use crate::common::{CheckInfo, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator};
+use crate::common::{
+    CheckInfo, CheckKind, ContainerPackHeader, PackHeader, PackHeaderInfo, PackLocator,
+};
 use crate::creator::Result;
 use std::io::{self, Read, Seek, SeekFrom, Write};
 
@@ -65,7 +67,8 @@ impl<F: PackRecipient> ContainerPackCreator<F> {
         let check_info_pos = self.file.tell();
 
         // Write pack header
-        let pack_size = Size::from(check_info_pos + PackHeader::BLOCK_SIZE);
+        let pack_size: Size =
+            (check_info_pos + CheckKind::None.block_size() + PackHeader::BLOCK_SIZE).into();
         let pack_header = PackHeader::new(
             crate::common::PackKind::Container,
             PackHeaderInfo::new(VendorId::from([0, 0, 0, 0]), pack_size, check_info_pos),
-- 
2.43.0


From 433b633e395f9f916f207d9101b70c00eb92faa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 06/22] fix: open containers located at the end of another file

---
 src/reader/jubako.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index 162075c..a602d91 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -38,11 +38,19 @@ pub struct Container {
 pub fn open_as_container_pack(reader: Reader) -> Result<ContainerPack> {
     // Check at beginning
     // First try to check without Check as we want a nice message to the user if version has changed.
-    reader.parse_block_unchecked_at::<PackHeader>(Offset::zero())?;
+    // Any other error is not fatal, the pack may be at the end of the reader.
+    if let Err(e) = reader.parse_block_unchecked_at::<PackHeader>(Offset::zero()) {
+        if let ErrorKind::Version(_) = *e {
+            return Err(e);
+        }
+    }
     let (pack_header, offset) = match reader.parse_block_at::<PackHeader>(Offset::zero()) {
         Ok(pack_header) => (pack_header, Offset::zero()),
         Err(_) => {
             //Check at end
+            if reader.size() < Size::from(PackHeader::BLOCK_SIZE) {
+                return Err(ErrorKind::NotAJbk.into());
+            }
             let mut buffer_reader = [0u8; 64];
             reader
                 .create_stream((reader.size() - Size::new(64)).into(), Size::new(64), false)?
@@ -50,6 +58,9 @@ pub fn open_as_container_pack(reader: Reader) -> Result<ContainerPack> {
             buffer_reader.reverse();
             let end_reader: Reader = buffer_reader.into();
             let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;
+            if pack_header.file_size > reader.size() {
+                return Err(format_error!("Pack size is bigger than the file"));
+            }
             let origin = reader.size() - pack_header.file_size;
             (pack_header, origin.into())
         }
-- 
2.43.0


From 71b53e7a915fe535796a8d07500b9a92b1361335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 07/22] fix: size the offsets of a cluster tail for its raw
 (compressed) size too

---
 src/creator/content_pack/clusterwriter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/creator/content_pack/clusterwriter.rs b/src/creator/content_pack/clusterwriter.rs
index 20d434e..36bf491 100644
--- a/src/creator/content_pack/clusterwriter.rs
+++ b/src/creator/content_pack/clusterwriter.rs
@@ -88,7 +88,11 @@ fn serialize_cluster_tail(
     raw_data_size: Size,
     ser: &mut Serializer,
 ) -> std::io::Result<()> {
-    let offset_size = needed_bytes(cluster.data_size().into_u64());
+    // The compressed data may be bigger than the uncompressed one.
+    let offset_size = needed_bytes(std::cmp::max(
+        raw_data_size.into_u64(),
+        cluster.data_size().into_u64(),
+    ));
     let cluster_header = ClusterHeader::new(
         compression.into(),
         offset_size,
-- 
2.43.0


From 418366123784464cec04ae4ca915b0b3452b503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:53 +0000
Subject: [PATCH 08/22] fix: size signed integer columns for the sign bit and
 for negative values

---
 src/creator/directory_pack/schema/property.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index 4ba74de..81b49f5 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -54,6 +54,12 @@ where
     }
 }
 
+/// A positive value needing as many (unsigned) bytes as `v` needs in two's complement.
+fn signed_magnitude(v: i64) -> i64 {
+    let magnitude = if v < 0 { !v } else { v };
+    magnitude.saturating_mul(2)
+}
+
 #[derive(Default, Debug)]
 pub enum ValueCounter<T> {
     #[default]
@@ -242,11 +248,11 @@ impl<PN: PropertyName> Property<PN> {
             } => match entry.value(name).as_ref() {
                 Value::Signed(value) => {
                     counter.process(*value);
-                    size.process(*value);
+                    size.process(signed_magnitude(*value));
                 }
                 Value::SignedWord(value) => {
                     counter.process(value.get());
-                    size.process(value.get());
+                    size.process(signed_magnitude(value.get()));
                 }
                 _ => {
                     panic!("Value type doesn't correspond to property");
-- 
2.43.0


From 6c3d6e10f3034dfb52732b4bfe15ab83bfc3b719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 09/22] fix: read variants ending with properties that take no
 place in the entry

---
 src/reader/directory_pack/layout/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/reader/directory_pack/layout/mod.rs b/src/reader/directory_pack/layout/mod.rs
index 9249217..ca80b6d 100644
--- a/src/reader/directory_pack/layout/mod.rs
+++ b/src/reader/directory_pack/layout/mod.rs
@@ -135,7 +135,7 @@ impl Parsable for Layout {
             let mut variants_map = HashMap::new();
             let mut variant_def = Vec::new();
             let mut variant_name: Option<SmallString> = None;
-            for raw_property in property_iter {
+            while let Some(raw_property) = property_iter.next() {
                 if !raw_property.is_variant_id() && variant_name.is_none() {
                     return Err(format_error!(
                         "Variant definition must start with a VariantId.",
@@ -151,10 +151,12 @@ impl Parsable for Layout {
                 if raw_property.is_variant_id() {
                     // This is a special property
                     variant_name = Some(raw_property.name);
-                    continue;
+                } else {
+                    variant_size += raw_property.size;
+                    variant_def.push(raw_property);
                 }
-                variant_size += raw_property.size;
-                variant_def.push(raw_property);
+                // A variant may end with properties taking no place in the entry.
+                let is_last = property_iter.peek().map_or(true, |p| p.is_variant_id());
                 match variant_size.cmp(&(entry_size - common_size)) {
                     Ordering::Greater => {
                         return Err(format_error!(
@@ -164,14 +166,14 @@ impl Parsable for Layout {
                             parser
                         ))
                     }
-                    Ordering::Equal => {
+                    Ordering::Equal if is_last => {
                         variants.push(Properties::new(common_size, variant_def).into());
                         variants_map.insert(variant_name.unwrap(), variants.len() as u8 - 1);
                         variant_def = Vec::new();
                         variant_size = 0;
                         variant_name = None;
                     }
-                    Ordering::Less => {
+                    Ordering::Less | Ordering::Equal => {
                         /* Noting to do */
                         continue;
                     }
-- 
2.43.0


From 20c8292edac07a73bfe58d9468c243759bfa3aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 10/22] fix: refuse inline array parts that do not fit in 5
 bits

---
 src/creator/directory_pack/schema/property.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/creator/directory_pack/schema/property.rs b/src/creator/directory_pack/schema/property.rs
index 81b49f5..44ffe53 100644
--- a/src/creator/directory_pack/schema/property.rs
+++ b/src/creator/directory_pack/schema/property.rs
@@ -328,6 +328,8 @@ impl<PN: PropertyName> Property<PN> {
                 store_handle,
                 name,
             } => {
+                // The length of the inlined part is stored on 5 bits.
+                assert!(fixed_array_len <= 0x1F_usize);
                 let value_id_size = store_handle.key_size();
                 layout::Property::Array {
                     array_len_size: Some(max_array_size.into()),
-- 
2.43.0


From f4ee6b70872bf0789200ae2bff1569dcdba2b0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:02 +0000
Subject: [PATCH 11/22] fix: refuse schemas with more properties or variants
 than their one-byte counts

---
 src/creator/directory_pack/layout/entry.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/creator/directory_pack/layout/entry.rs b/src/creator/directory_pack/layout/entry.rs
index e790498..9949b61 100644
--- a/src/creator/directory_pack/layout/entry.rs
+++ b/src/creator/directory_pack/layout/entry.rs
@@ -14,6 +14,16 @@ pub(crate) struct Entry<PN: PropertyName, VN: VariantName> {
     pub entry_size: u16,
 }
 
+/// Counts are stored on one byte.
+fn count_to_u8(count: usize, what: &str) -> IoResult<u8> {
+    count.try_into().map_err(|_| {
+        std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            format!("Too many {what} in the schema: {count}"),
+        )
+    })
+}
+
 impl<PN: PropertyName, VN: VariantName> Entry<PN, VN> {
     pub fn serialize_entry(
         &self,
@@ -35,8 +45,9 @@ impl<PN: PropertyName, VN: VariantName> Entry<PN, VN> {
         Ok(written)
     }
 
-    fn key_count(&self) -> Count<u8> {
-        (self.common.len() as u8 + self.variants.iter().map(|v| v.len() as u8).sum::<u8>()).into()
+    fn key_count(&self) -> IoResult<Count<u8>> {
+        let count = self.common.len() + self.variants.iter().map(|v| v.len()).sum::<usize>();
+        Ok(count_to_u8(count, "properties")?.into())
     }
 }
 
@@ -44,8 +55,8 @@ impl<PN: PropertyName, VN: VariantName> Serializable for Entry<PN, VN> {
     fn serialize(&self, ser: &mut Serializer) -> IoResult<usize> {
         let mut written = 0;
         written += ser.write_u16(self.entry_size)?;
-        written += ser.write_u8(self.variants.len() as u8)?;
-        written += self.key_count().serialize(ser)?;
+        written += ser.write_u8(count_to_u8(self.variants.len(), "variants")?)?;
+        written += self.key_count()?.serialize(ser)?;
         written += self.common.serialize(ser)?;
         for variant in &self.variants {
             written += variant.serialize(ser)?;
-- 
2.43.0


From 8bad0da7a3c6f851cf60e8142382ff2ff576aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 12/22] fix: refuse to create a directory pack with more than
 255 value stores

---
 src/creator/directory_pack/directory_pack.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index 6acb990..1e11da2 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -58,6 +58,14 @@ impl DirectoryPackCreator {
     pub fn finalize(self) -> std::io::Result<FinalizedDirectoryPackCreator> {
         info!("======= Finalize creation =======");
 
+        // The count of value stores is stored on one byte.
+        if self.value_stores.len() > u8::MAX as usize {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!("Too many value stores: {}", self.value_stores.len()),
+            ));
+        }
+
         info!("----- Finalize value_stores -----");
         for (idx, value_store) in &mut self.value_stores.iter().enumerate() {
             value_store.finalize(ValueStoreIdx::from(idx as u8));
-- 
2.43.0


From 929a16f9a9ba468a1306ab7ac0155bf883eb8a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:08 +0000
Subject: [PATCH 13/22] fix: refuse to reference a block whose size does not
 fit in a sized offset

---
 src/bases/types/sized_offset.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bases/types/sized_offset.rs b/src/bases/types/sized_offset.rs
index a405257..9e5ba9a 100644
--- a/src/bases/types/sized_offset.rs
+++ b/src/bases/types/sized_offset.rs
@@ -35,6 +35,15 @@ impl Parsable for SizedOffset {
 
 impl Serializable for SizedOffset {
     fn serialize(&self, ser: &mut Serializer) -> IoResult<usize> {
+        if self.size.into_u64() > 0xFF_FF_u64 {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                format!(
+                    "A block of {} bytes is too big to be referenced",
+                    self.size.into_u64()
+                ),
+            ));
+        }
         let data: u64 = (self.offset.into_u64() << 16) + (self.size.into_u64() & 0xFF_FF_u64);
         ser.write_u64(data)
     }
-- 
2.43.0


From 86ebc4bd999f792c89d6ac9684cf4d7ca12d8ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 14/22] fix: compare entries with equal sort keys as equal

---
 src/creator/directory_pack/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/creator/directory_pack/mod.rs b/src/creator/directory_pack/mod.rs
index 284cd4c..592c9da 100644
--- a/src/creator/directory_pack/mod.rs
+++ b/src/creator/directory_pack/mod.rs
@@ -42,7 +42,7 @@ pub trait FullEntryTrait<PN: PropertyName, VN: VariantName>: EntryTrait<PN, VN>
                 },
             }
         }
-        cmp::Ordering::Greater
+        cmp::Ordering::Equal
     }
 }
 
-- 
2.43.0


From 95efd5140370c8ce9b42b83b70dcbce175eafa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 15/22] fix: never put the content or directory pack at the
 path of the container itself

With an output path which already has the `jbkc` extension, the content pack of the
TwoFiles and NoConcat modes was written at the very path of the container, which then
replaced it.
---
 src/creator/basic_creator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/creator/basic_creator.rs b/src/creator/basic_creator.rs
index dd1ce1f..717e96c 100644
--- a/src/creator/basic_creator.rs
+++ b/src/creator/basic_creator.rs
@@ -55,6 +55,10 @@ pub struct BasicCreator {
 fn new_with_extension(path: &Utf8Path, extension: &str) -> Utf8PathBuf {
     let mut buf = path.to_path_buf();
     buf.set_extension(extension);
+    if buf == path {
+        // `path` already has this extension: the pack must not take the place of the file itself.
+        buf.set_extension(format!("{extension}.{extension}"));
+    }
     buf
 }
 
-- 
2.43.0


From f1cd6e309c55d4a13546f05473e4a63cdf8a1abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 16/22] fix: a container embedded after a pack (or after an
 older jubako header) is opened

---
 src/reader/jubako.rs | 64 ++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index a602d91..b1adb1f 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -36,34 +36,27 @@ pub struct Container {
 /// - We don't know what we will open
 /// - Pack may be located at end of the reader so we have to check for footer
 pub fn open_as_container_pack(reader: Reader) -> Result<ContainerPack> {
-    // Check at beginning
-    // First try to check without Check as we want a nice message to the user if version has changed.
-    // Any other error is not fatal, the pack may be at the end of the reader.
-    if let Err(e) = reader.parse_block_unchecked_at::<PackHeader>(Offset::zero()) {
-        if let ErrorKind::Version(_) = *e {
-            return Err(e);
-        }
-    }
+    // A pack which fills the reader starts with its header.
+    // A header at beginning is not enough: whatever is before a pack located at end of the reader
+    // may be (or start with) a pack.
     let (pack_header, offset) = match reader.parse_block_at::<PackHeader>(Offset::zero()) {
-        Ok(pack_header) => (pack_header, Offset::zero()),
-        Err(_) => {
-            //Check at end
-            if reader.size() < Size::from(PackHeader::BLOCK_SIZE) {
-                return Err(ErrorKind::NotAJbk.into());
-            }
-            let mut buffer_reader = [0u8; 64];
-            reader
-                .create_stream((reader.size() - Size::new(64)).into(), Size::new(64), false)?
-                .read_exact(&mut buffer_reader)?;
-            buffer_reader.reverse();
-            let end_reader: Reader = buffer_reader.into();
-            let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;
-            if pack_header.file_size > reader.size() {
-                return Err(format_error!("Pack size is bigger than the file"));
+        Ok(pack_header) if pack_header.file_size == reader.size() => (pack_header, Offset::zero()),
+        at_beginning => match find_pack_at_end(&reader) {
+            Ok(found) => found,
+            Err(end_error) => {
+                // There is nothing at end, so we have to open what is at beginning.
+                // First try to check without Check as we want a nice message to the user if version has changed.
+                if let Err(e) = reader.parse_block_unchecked_at::<PackHeader>(Offset::zero()) {
+                    if let ErrorKind::Version(_) = *e {
+                        return Err(e);
+                    }
+                }
+                match at_beginning {
+                    Ok(pack_header) => (pack_header, Offset::zero()),
+                    Err(_) => return Err(end_error),
+                }
             }
-            let origin = reader.size() - pack_header.file_size;
-            (pack_header, origin.into())
-        }
+        },
     };
 
     match pack_header.magic {
@@ -77,6 +70,25 @@ pub fn open_as_container_pack(reader: Reader) -> Result<ContainerPack> {
     }
 }
 
+/// Search for a pack ending at the end of the reader, using its (reversed) tail header.
+fn find_pack_at_end(reader: &Reader) -> Result<(PackHeader, Offset)> {
+    if reader.size() < Size::from(PackHeader::BLOCK_SIZE) {
+        return Err(ErrorKind::NotAJbk.into());
+    }
+    let mut buffer_reader = [0u8; 64];
+    reader
+        .create_stream((reader.size() - Size::new(64)).into(), Size::new(64), false)?
+        .read_exact(&mut buffer_reader)?;
+    buffer_reader.reverse();
+    let end_reader: Reader = buffer_reader.into();
+    let pack_header = end_reader.parse_block_at::<PackHeader>(Offset::zero())?;
+    if pack_header.file_size > reader.size() {
+        return Err(format_error!("Pack size is bigger than the file"));
+    }
+    let origin = reader.size() - pack_header.file_size;
+    Ok((pack_header, origin.into()))
+}
+
 impl Container {
     /// Open a new container
     ///
-- 
2.43.0


From 2b5a286b537de0d80c9c3c12c258300dbbcdaa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 17/22] fix: a content pack with id 65535 is readable

---
 src/reader/jubako.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index b1adb1f..f83f373 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -133,7 +133,7 @@ impl Container {
         let value_storage = directory_pack.create_value_storage();
         let entry_storage = directory_pack.create_entry_storage();
         let mut packs = Vec::new();
-        packs.resize_with((manifest_pack.max_id() + 1) as usize, Default::default);
+        packs.resize_with(manifest_pack.max_id() as usize + 1, Default::default);
         Ok(Self {
             manifest_pack,
             locator,
-- 
2.43.0


From 285547bed285fde1dff273b641d9bf8260a13bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 18/22] fix: an extra content pack created with a relative path
 made the finalization panic

---
 src/creator/basic_creator.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/creator/basic_creator.rs b/src/creator/basic_creator.rs
index 717e96c..ec726b2 100644
--- a/src/creator/basic_creator.rs
+++ b/src/creator/basic_creator.rs
@@ -121,9 +121,11 @@ impl BasicCreator {
             .expect("outfile is absolute and have a parent");
         let relative_locator = |p: Utf8PathBuf| {
             if p.as_str().is_empty() {
-                p
+                Ok(p)
             } else {
-                diff_utf8_paths(p, parent_path).expect("outfile is absolute")
+                // Extra packs may have been created with a relative path.
+                // There is no relative path if we would have to go up a `..`.
+                camino::absolute_utf8(p).map(|p| diff_utf8_paths(&p, parent_path).unwrap_or(p))
             }
         };
         entry_store_creator.finalize(&mut self.directory_pack);
@@ -191,11 +193,11 @@ impl BasicCreator {
 
         // Time to build our manifest
         let mut manifest_creator = ManifestPackCreator::new(self.vendor_id, Default::default());
-        manifest_creator.add_pack(directory_pack_info, relative_locator(directory_locator));
-        manifest_creator.add_pack(content_pack_info, relative_locator(content_locator));
+        manifest_creator.add_pack(directory_pack_info, relative_locator(directory_locator)?);
+        manifest_creator.add_pack(content_pack_info, relative_locator(content_locator)?);
 
         for (extra_pack_info, extra_locator) in extra_locators {
-            manifest_creator.add_pack(extra_pack_info, relative_locator(extra_locator));
+            manifest_creator.add_pack(extra_pack_info, relative_locator(extra_locator)?);
         }
 
         match container.take() {
-- 
2.43.0


From 12a6ca2a619f93657af4a446445fee1d4c3764e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 19/22] fix: entries referencing another entry store were
 finalized with positions which were not final

---
 src/creator/directory_pack/directory_pack.rs | 19 ++++++++++++++++++-
 src/creator/directory_pack/entry_store.rs    | 19 ++++++++++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/creator/directory_pack/directory_pack.rs b/src/creator/directory_pack/directory_pack.rs
index 1e11da2..5bd67ff 100644
--- a/src/creator/directory_pack/directory_pack.rs
+++ b/src/creator/directory_pack/directory_pack.rs
@@ -55,7 +55,7 @@ impl DirectoryPackCreator {
         self.indexes.push(index);
     }
 
-    pub fn finalize(self) -> std::io::Result<FinalizedDirectoryPackCreator> {
+    pub fn finalize(mut self) -> std::io::Result<FinalizedDirectoryPackCreator> {
         info!("======= Finalize creation =======");
 
         // The count of value stores is stored on one byte.
@@ -71,6 +71,23 @@ impl DirectoryPackCreator {
             value_store.finalize(ValueStoreIdx::from(idx as u8));
         }
 
+        info!("----- Sort entry_stores -----");
+        // Entries may reference entries of other stores, so all the entries must have
+        // their final position before we finalize any store.
+        for entry_store in &mut self.entry_stores {
+            entry_store.sort();
+        }
+        let mut watchdog = 50;
+        while !self.entry_stores.iter().all(|e| e.is_sorted()) {
+            for entry_store in &mut self.entry_stores {
+                entry_store.sort();
+            }
+            watchdog -= 1;
+            if watchdog == 0 {
+                panic!("Cannot sort entry stores");
+            }
+        }
+
         info!("----- Finalize entry_stores -----");
         let finalized_entry_stores: Vec<Box<dyn WritableTell>> = self
             .entry_stores
diff --git a/src/creator/directory_pack/entry_store.rs b/src/creator/directory_pack/entry_store.rs
index 279a252..790c933 100644
--- a/src/creator/directory_pack/entry_store.rs
+++ b/src/creator/directory_pack/entry_store.rs
@@ -62,6 +62,11 @@ where
 }
 
 pub trait EntryStoreTrait {
+    /// Sort the entries and give them their positions.
+    fn sort(&mut self);
+    /// Sort keys may depend on positions in other stores. Are entries still sorted ?
+    fn is_sorted(&self) -> bool;
+    /// Every entry of every store must have its final position.
     fn finalize(self: Box<Self>) -> Box<dyn WritableTell>;
 }
 
@@ -71,7 +76,7 @@ where
     VN: VariantName + std::fmt::Debug + Sync + 'static,
     Entry: FullEntryTrait<PN, VN> + Send + 'static,
 {
-    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
+    fn sort(&mut self) {
         set_entry_idx(&mut self.entries);
         if let Some(keys) = &self.schema.sort_keys {
             let compare = |a: &Entry, b: &Entry| a.compare(&keys, b);
@@ -92,7 +97,19 @@ where
                 }
             }
         }
+    }
+
+    fn is_sorted(&self) -> bool {
+        match &self.schema.sort_keys {
+            None => true,
+            Some(keys) => self
+                .entries
+                .windows(2)
+                .all(|w| w[0].compare(&keys, &w[1]).is_le()),
+        }
+    }
 
+    fn finalize(mut self: Box<Self>) -> Box<dyn WritableTell> {
         for entry in &mut self.entries {
             self.schema.process(entry);
         }
-- 
2.43.0


From 803cb4000899d7cd29ff938490c4e2dd6aa2d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:59 +0000
Subject: [PATCH 20/22] fix: store a content from its start wherever its reader
 stands

---
 src/creator/content_pack/creator.rs | 2 ++
 src/creator/content_pack/mod.rs     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/creator/content_pack/creator.rs b/src/creator/content_pack/creator.rs
index fe2a418..724a01e 100644
--- a/src/creator/content_pack/creator.rs
+++ b/src/creator/content_pack/creator.rs
@@ -222,6 +222,8 @@ impl<O: PackRecipient + 'static + ?Sized> ContentPackCreator<O> {
         let content_size = content.size();
         self.progress.content_added(content_size);
         let should_compress = self.detect_compression(content.as_mut(), comp_hint)?;
+        // We store the whole content, wherever its reader stands.
+        content.rewind()?;
         let cluster = self.get_open_cluster(should_compress, content_size)?;
         let content_info = cluster.add_content(content)?;
         self.content_infos.push(content_info);
diff --git a/src/creator/content_pack/mod.rs b/src/creator/content_pack/mod.rs
index 8785780..a1ad49d 100644
--- a/src/creator/content_pack/mod.rs
+++ b/src/creator/content_pack/mod.rs
@@ -94,6 +94,7 @@ impl<Wrapped: ContentAdder> CachedContentAdder<Wrapped> {
         comp_hint: CompHint,
     ) -> std::io::Result<crate::ContentAddress> {
         let mut hasher = blake3::Hasher::new();
+        reader.rewind()?;
         if reader.size() < cluster::CLUSTER_SIZE {
             let mut buf = Vec::with_capacity(reader.size().into_u64() as usize);
             reader.read_to_end(&mut buf)?;
-- 
2.43.0


From 53dce6dc759bbb919f7336bd357c41194af24d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:08 +0000
Subject: [PATCH 21/22] fix: a cluster which cannot be decompressed is an error
 for its readers

A damaged compressed cluster made the decoding thread panic (which aborts the
process), and a truncated one made it loop for ever, its readers waiting for it.
---
 src/bases/io/compression.rs | 67 +++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/src/bases/io/compression.rs b/src/bases/io/compression.rs
index 41314b5..bf79982 100644
--- a/src/bases/io/compression.rs
+++ b/src/bases/io/compression.rs
@@ -27,11 +27,18 @@ Individual elements of the vec don't have to be deallocated as they are u8.
 
 static DECOMPRESSION_POOL: OnceLock<rayon::ThreadPool> = OnceLock::new();
 
+// How far the decoding went. `failed` says that no more byte will come.
+#[derive(Default)]
+struct Progress {
+    size: usize,
+    failed: bool,
+}
+
 struct SyncVecWr {
     _arc: Arc<Vec<u8>>,
     data: ManuallyDrop<Vec<u8>>,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<Progress>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecWr {}
@@ -40,7 +47,7 @@ struct SyncVecRd {
     _arc: Arc<Vec<u8>>,
     buffer: *const u8,
     total_size: usize,
-    decoded: Arc<(Mutex<usize>, Condvar)>,
+    decoded: Arc<(Mutex<Progress>, Condvar)>,
 }
 
 unsafe impl Send for SyncVecRd {}
@@ -53,14 +60,18 @@ impl SyncVecRd {
         F: Fn(&mut usize) -> bool,
     {
         let (lock, cvar) = &*self.decoded;
-        let decoded = cvar.wait_while(lock.lock().unwrap(), function).unwrap();
-        *decoded
+        let decoded = cvar
+            .wait_while(lock.lock().unwrap(), |progress| {
+                function(&mut progress.size) && !progress.failed
+            })
+            .unwrap();
+        decoded.size
     }
 
     #[inline]
     pub fn current_size(&self) -> usize {
         let (lock, _cvar) = &*self.decoded;
-        *lock.lock().unwrap()
+        lock.lock().unwrap().size
     }
 
     #[inline]
@@ -77,7 +88,7 @@ impl SyncVecRd {
 
 fn create_sync_vec(size: usize) -> (SyncVecWr, SyncVecRd) {
     let buffer = Arc::new(Vec::with_capacity(size));
-    let decoded = Arc::new((Mutex::new(0), Condvar::new()));
+    let decoded = Arc::new((Mutex::new(Progress::default()), Condvar::new()));
     let buffer_ptr = buffer.as_ptr();
     let rd = SyncVecRd {
         _arc: Arc::clone(&buffer),
@@ -101,11 +112,7 @@ pub(crate) struct SeekableDecoder {
     buffer: SyncVecRd,
 }
 
-fn decode_to_end<T: Read + Send>(
-    mut decoder: T,
-    mut buffer: SyncVecWr,
-    chunk_size: usize,
-) -> std::io::Result<()> {
+fn decode_to_end<T: Read + Send>(mut decoder: T, mut buffer: SyncVecWr, chunk_size: usize) {
     let total_size = buffer.total_size;
     let mut uncompressed = 0;
     //println!("Decompressing to {total_size}");
@@ -113,17 +120,27 @@ fn decode_to_end<T: Read + Send>(
         let size = std::cmp::min(total_size - uncompressed, chunk_size);
         //  println!("decompress {size}");
 
-        uncompressed += decoder
+        let read = decoder
             .by_ref()
             .take(size as u64)
-            .read_to_end(&mut buffer.data)?;
+            .read_to_end(&mut buffer.data);
         let (lock, cvar) = &*buffer.decoded;
         let mut decoded = lock.lock().unwrap();
-        *decoded = uncompressed;
-        cvar.notify_all();
+        match read {
+            Ok(read) if read > 0 => {
+                uncompressed += read;
+                decoded.size = uncompressed;
+                cvar.notify_all();
+            }
+            // The compressed data is damaged or too short, no one must wait for the rest.
+            _ => {
+                decoded.failed = true;
+                cvar.notify_all();
+                return;
+            }
+        }
     }
     //println!("Decompress done");
-    Ok(())
 }
 
 impl SeekableDecoder {
@@ -139,14 +156,20 @@ impl SeekableDecoder {
                     .unwrap()
             })
             .spawn(move || {
-                decode_to_end(decoder, write_hand, 4 * 1024).unwrap();
+                decode_to_end(decoder, write_hand, 4 * 1024);
             });
         Self { buffer: read_hand }
     }
 
     #[inline]
-    pub fn decode_to(&self, end: usize) {
-        self.buffer.wait_while(|d: &mut usize| *d < end);
+    pub fn decode_to(&self, end: usize) -> std::io::Result<()> {
+        if self.buffer.wait_while(|d: &mut usize| *d < end) < end {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "Cannot decompress the data",
+            ));
+        }
+        Ok(())
     }
 
     #[inline]
@@ -164,7 +187,7 @@ impl Source for SeekableDecoder {
             offset.force_into_usize() + buf.len(),
             self.buffer.total_size(),
         );
-        self.decode_to(end);
+        self.decode_to(end)?;
         let mut slice = &self.decoded_slice()[offset.force_into_usize()..];
         Read::read(&mut slice, buf)
     }
@@ -177,7 +200,7 @@ impl Source for SeekableDecoder {
                 "Out of slice",
             ));
         }
-        self.decode_to(end);
+        self.decode_to(end)?;
         let slice = self.decoded_slice();
         assert!(end <= slice.len());
         buf.copy_from_slice(&self.decoded_slice()[o..end]);
@@ -195,7 +218,7 @@ impl Source for SeekableDecoder {
                 self.size()
             )));
         }
-        self.decode_to(region.end().force_into_usize());
+        self.decode_to(region.end().force_into_usize())?;
         Ok(Cow::Borrowed(
             &self.decoded_slice()
                 [region.begin().force_into_usize()..region.end().force_into_usize()],
-- 
2.43.0


From 6e0afe74bd3fd98f177feabe474fe3ca033fb19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:42 +0000
Subject: [PATCH 22/22] fix: reading out of the file is an error and no more a
 panic

A truncated file has structures which are (partly) out of it, and a directory pack which may not be found.
---
 src/bases/reader.rs  | 12 ++++++++++++
 src/reader/jubako.rs |  9 ++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/bases/reader.rs b/src/bases/reader.rs
index 02cc252..6bc891a 100644
--- a/src/bases/reader.rs
+++ b/src/bases/reader.rs
@@ -98,6 +98,18 @@ impl Reader {
         block_check: BlockCheck,
         in_memory: bool,
     ) -> Result<(Arc<dyn Source>, Region)> {
+        // What we are asked to cut is read from the file, and the file may be truncated.
+        let available = self
+            .size()
+            .into_u64()
+            .checked_sub(block_check.size() as u64)
+            .and_then(|available| available.checked_sub(offset.into_u64()));
+        if available.map_or(true, |available| size.into_u64() > available) {
+            return Err(format_error!(
+                &format!("Cannot read {size} bytes at {offset} of {}", self.size()),
+                self
+            ));
+        }
         let region = self.region.cut_rel(offset, size);
         Arc::clone(&self.source).cut(region, block_check, in_memory)
     }
diff --git a/src/reader/jubako.rs b/src/reader/jubako.rs
index f83f373..4ed7279 100644
--- a/src/reader/jubako.rs
+++ b/src/reader/jubako.rs
@@ -125,11 +125,10 @@ impl Container {
         let locator = Arc::new(ChainedLocator::new(locators));
 
         let pack_info = manifest_pack.get_directory_pack_info();
-        let directory_pack = Arc::new(DirectoryPack::new(
-            locator
-                .locate(pack_info.uuid, &pack_info.pack_location)?
-                .unwrap(),
-        )?);
+        let directory_pack = match locator.locate(pack_info.uuid, &pack_info.pack_location)? {
+            Some(reader) => Arc::new(DirectoryPack::new(reader)?),
+            None => return Err(format_error!("Impossible to locate the directory_pack")),
+        };
         let value_storage = directory_pack.create_value_storage();
         let entry_storage = directory_pack.create_entry_storage();
         let mut packs = Vec::new();
-- 
2.43.0

