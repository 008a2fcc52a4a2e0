From 9b8fd73ee594a924f24bcb72969da02411527059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 01/14] fix: size of slices and vectors with elements of
 different sizes

size_in_bytes multiplied the first element's size by the length, which is
wrong for elements like Option<T>.
---
 ssbh_write/src/lib.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/ssbh_write/src/lib.rs b/ssbh_write/src/lib.rs
index 9db1125..00ea232 100644
--- a/ssbh_write/src/lib.rs
+++ b/ssbh_write/src/lib.rs
@@ -123,11 +123,8 @@ impl<T: SsbhWrite> SsbhWrite for &[T] {
     }
 
     fn size_in_bytes(&self) -> u64 {
-        // TODO: This won't work for Vec<Option<T>> since only the first element is checked.
-        match self.first() {
-            Some(element) => self.len() as u64 * element.size_in_bytes(),
-            None => 0,
-        }
+        // Elements may have different sizes like with Option<T>.
+        self.iter().map(|element| element.size_in_bytes()).sum()
     }
 
     fn alignment_in_bytes() -> u64 {
@@ -277,11 +274,7 @@ impl<T: SsbhWrite> SsbhWrite for Vec<T> {
     }
 
     fn size_in_bytes(&self) -> u64 {
-        // Assume each element has the same size.
-        match self.first() {
-            Some(first) => self.len() as u64 * first.size_in_bytes(),
-            None => 0,
-        }
+        self.as_slice().size_in_bytes()
     }
 
     fn alignment_in_bytes() -> u64 {
-- 
2.43.0


From ce43e4b8dbf110aa0f6aa077f5f634f0e3a0ba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 02/14] fix: include the null terminator in the size of a
 CString

Inline strings were declared one byte (or N bytes if empty) smaller than
what is written, so data pointed to by earlier fields could overlap them.
---
 ssbh_lib/src/strings.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ssbh_lib/src/strings.rs b/ssbh_lib/src/strings.rs
index 310d2e6..3d2376d 100644
--- a/ssbh_lib/src/strings.rs
+++ b/ssbh_lib/src/strings.rs
@@ -147,7 +147,12 @@ impl<const N: usize> crate::SsbhWrite for CString<N> {
     }
 
     fn size_in_bytes(&self) -> u64 {
-        self.0.size_in_bytes()
+        if self.0.is_empty() {
+            N as u64
+        } else {
+            // Include the null terminator.
+            self.0.len() as u64 + 1
+        }
     }
 
     fn alignment_in_bytes() -> u64 {
-- 
2.43.0


From d04cbe62b2f4e49064fbe337a61c37a57b029c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 03/14] fix: write the magic and count the padding for every
 derived type

A magic on tuple structs and enums was counted in the declared size but not
written, and padding after repr enums was written but not counted.
---
 ssbh_write_derive/src/lib.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/ssbh_write_derive/src/lib.rs b/ssbh_write_derive/src/lib.rs
index 52fbcb5..192e936 100644
--- a/ssbh_write_derive/src/lib.rs
+++ b/ssbh_write_derive/src/lib.rs
@@ -85,9 +85,13 @@ pub fn ssbh_write_derive(input: TokenStream) -> TokenStream {
             quote! {
                 (*self as #repr).ssbh_write(writer, data_ptr)?;
             },
-            quote! {
-                (*self as #repr).size_in_bytes()
-            },
+            generate_size_calculation(
+                quote! {
+                    size += (*self as #repr).size_in_bytes();
+                },
+                write_options.pad_after,
+                write_options.magic.clone(),
+            ),
         ),
         None => match &input.data {
             Data::Struct(DataStruct {
@@ -240,22 +244,10 @@ fn write_data_calculate_size_named(
 ) -> (TokenStream2, TokenStream2) {
     let write_fields = write_named_fields(fields, true);
 
-    // TODO: This is shared with enums, unnamed fields, etc?
-    let write_magic = if let Some(magic) = &write_options.magic {
-        quote! { #magic.ssbh_write(writer, data_ptr)?; }
-    } else {
-        quote! {}
-    };
-
-    let write_fields = quote! {
-        #write_magic
-        #(#write_fields)*;
-    };
-
     let add_fields = size_named_fields(fields, true);
 
     (
-        write_fields,
+        quote! { #(#write_fields)* },
         generate_size_calculation(
             quote! {
                 size += ( #(#add_fields)+* );
@@ -308,6 +300,11 @@ fn generate_ssbh_write(
 
     let write_pad_after = write_pad_after(write_options);
 
+    let write_magic = match &write_options.magic {
+        Some(magic) => quote! { #magic.ssbh_write(writer, data_ptr)?; },
+        None => quote! {},
+    };
+
     // Alignment can be user specified or determined by the type.
     let calculate_alignment = match write_options.alignment {
         Some(alignment) => quote! { #alignment as u64 },
@@ -330,6 +327,8 @@ fn generate_ssbh_write(
                     *data_ptr = current_pos + self.size_in_bytes();
                 }
 
+                #write_magic
+
                 #write_data
 
                 #write_pad_after
-- 
2.43.0


From 9c76849fb641419dbfc53dcfeab5303b2e9aa749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:42 +0000
Subject: [PATCH 04/14] fix: keep pattern index values of compressed tracks
 with large ranges

---
 ssbh_data/src/anim_data/compression.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index a6356d0..b876483 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -785,12 +785,20 @@ impl CompressedData for u32 {
     fn get_args(_: &CompressedHeader<Self>) -> Self::CompressionArgs {}
 
     fn get_default_and_compression(values: &[Self], _: bool) -> (Self, Self::Compression) {
+        let min = values.iter().copied().min().unwrap_or(0);
+        let max = values.iter().copied().max().unwrap_or(0);
+        // Integer values are stored exactly, so large ranges need more than the default bit count.
+        let bit_count = if max - min < (1 << DEFAULT_F32_BIT_COUNT) {
+            DEFAULT_F32_BIT_COUNT
+        } else {
+            u32::BITS as u64
+        };
         (
             0, // TODO: Better default?
             U32Compression {
-                min: values.iter().copied().min().unwrap_or(0),
-                max: values.iter().copied().max().unwrap_or(0),
-                bit_count: super::compression::DEFAULT_F32_BIT_COUNT, // TODO: How should this work for u32?
+                min,
+                max,
+                bit_count, // TODO: How should this work for u32?
             },
         )
     }
-- 
2.43.0


From 5fb099a34fb11cb281783f7fc61b6c829bb8abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:36 +0000
Subject: [PATCH 05/14] fix: return an error for compressed transforms missing
 the rotation sign bit

---
 ssbh_data/src/anim_data/compression.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index b876483..070ad01 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -363,14 +363,13 @@ impl Compression for UvTransformCompression {
     }
 }
 
-fn calculate_rotation_w(reader: &mut BitReader, rotation: Vector3) -> f32 {
+fn calculate_rotation_w(reader: &mut BitReader, rotation: Vector3) -> Result<f32, BitReadError> {
     // Rotations are encoded as xyzw unit quaternions.
     // For a unit quaternion, x^2 + y^2 + z^2 + w^2 = 1.
     // Solving for the missing w gives two expressions:
     // w = sqrt(1 - x^2 + y^2 + z^2), w = -sqrt(1 - x^2 + y^2 + z^2).
     // Thus, we need only need to store the sign bit to uniquely determine w.
-    // TODO: Possible to read past end of stream?
-    let flip_w = reader.read_bit().unwrap();
+    let flip_w = reader.read_bit()?;
 
     let w2 = 1.0 - (rotation.x * rotation.x + rotation.y * rotation.y + rotation.z * rotation.z);
     let w = if w2.is_sign_negative() {
@@ -380,11 +379,7 @@ fn calculate_rotation_w(reader: &mut BitReader, rotation: Vector3) -> f32 {
         w2.sqrt()
     };
 
-    if flip_w {
-        -w
-    } else {
-        w
-    }
+    Ok(if flip_w { -w } else { w })
 }
 
 fn bit_mask(bit_count: NonZeroU64) -> u64 {
@@ -461,7 +456,7 @@ impl CompressedData for UncompressedTransform {
         };
 
         let rotation_w = if args.has_rotation() {
-            calculate_rotation_w(reader, rotation_xyz)
+            calculate_rotation_w(reader, rotation_xyz)?
         } else {
             default.rotation.w
         };
-- 
2.43.0


From b3af76dfba7bb77cf9429516f5a8915e0addffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:36 +0000
Subject: [PATCH 06/14] fix: avoid overflow when decompressing pattern index
 values

---
 ssbh_data/src/anim_data/compression.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index 070ad01..524ac0d 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -760,7 +760,10 @@ impl CompressedData for u32 {
         let value = if compression.bit_count == 0 {
             compression.min
         } else {
-            reader.read_u32(compression.bit_count as usize)? + compression.min
+            // Damaged files may store values outside the range of u32.
+            reader
+                .read_u32(compression.bit_count as usize)?
+                .wrapping_add(compression.min)
         };
         Ok(value)
     }
-- 
2.43.0


From 4e8f4a0c98d80155bbb9f85ac368e8497279159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:21 +0000
Subject: [PATCH 07/14] fix: return errors for damaged version 1.2 animation
 tracks

---
 ssbh_data/src/anim_data.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 470f9a5..e8b84d8 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -395,12 +395,11 @@ fn read_groups_v12(
     // Group by the track type.
     let mut tracks_by_type = HashMap::new();
 
-    // TODO: Avoid unwrap.
     // Node names like bones names are set at the track level for anim 1.2.
     // Save the track name to use for the nodes later.
     for track in tracks {
         let group_type = group_type_v12(track.track_type);
-        let track_data = create_track_data_v12(track, buffers).unwrap();
+        let track_data = create_track_data_v12(track, buffers)?;
         tracks_by_type
             .entry(group_type)
             .or_insert(Vec::new())
@@ -466,18 +465,27 @@ fn create_track_data_v12(
             0x3409 => {
                 println!("{:?}", reader.read_le::<V12Test1>()?);
                 // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 52 - 4);
+                println!(
+                    "Compressed: {:?} bytes",
+                    data.elements.len().saturating_sub(52 + 4)
+                );
             }
             0x4308 => {
                 println!("{:?}", reader.read_le::<V12Test3>()?);
                 // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 72 - 4);
+                println!(
+                    "Compressed: {:?} bytes",
+                    data.elements.len().saturating_sub(72 + 4)
+                );
             }
             0x4409 => {
                 let test = reader.read_le::<V12Test2>()?;
                 println!("{test:?}");
                 // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 64 - 4);
+                println!(
+                    "Compressed: {:?} bytes",
+                    data.elements.len().saturating_sub(64 + 4)
+                );
             }
             x => println!("Unrecognized header: {x:?}"),
         }
-- 
2.43.0


From 6cbef3c360d19280ca395555dc4e703fa5469925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 08/14] fix: avoid reserving memory based on the frame count of
 version 1.2 animation tracks

---
 ssbh_data/src/anim_data.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index e8b84d8..fa6bccf 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -36,7 +36,7 @@ for group in anim.groups {
 //! When converting to [Anim], compression is enabled for a track if compression would save space.
 //! This may produce differences with the original due to compression differences.
 //! These errors are small in practice but may cause gameplay differences such as online desyncs.
-use binrw::io::{Cursor, Seek, Write};
+use binrw::io::{Cursor, Read, Seek, Write};
 use binrw::{BinRead, BinReaderExt};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -819,12 +819,26 @@ struct V12Test2 {
     // TODO: Compressed data?
 }
 
+// Don't reserve memory based on the count since damaged files may store any value.
+fn read_bytes<R: Read + Seek>(
+    reader: &mut R,
+    _: binrw::Endian,
+    (count,): (u32,),
+) -> binrw::BinResult<Vec<u8>> {
+    let mut bytes = Vec::new();
+    let bytes_read = reader.take(count as u64).read_to_end(&mut bytes)?;
+    if bytes_read < count as usize {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(bytes)
+}
+
 #[allow(dead_code)]
 #[derive(Debug, BinRead)]
 struct V12Test3 {
     frame_count: u32,
     unk1: f32,
-    #[br(count = frame_count, align_after = 4)] // align to float boundary
+    #[br(parse_with = read_bytes, args(frame_count), align_after = 4)] // align to float boundary
     unk2: Vec<u8>, // TODO: key frames?
     unk3: [Vector3; 3],
     // TODO: Compressed data?
-- 
2.43.0


From 7c73be8c693ca386ad5eaef3ccb3b81cde6dea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 09/14] fix: check for the rotation sign bit of compressed
 transforms before reading it

---
 ssbh_data/src/anim_data/bitutils.rs    |  5 +++++
 ssbh_data/src/anim_data/compression.rs | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/ssbh_data/src/anim_data/bitutils.rs b/ssbh_data/src/anim_data/bitutils.rs
index 9dead58..cacaa23 100644
--- a/ssbh_data/src/anim_data/bitutils.rs
+++ b/ssbh_data/src/anim_data/bitutils.rs
@@ -20,6 +20,11 @@ impl BitReader {
         }
     }
 
+    /// Returns `true` if there are no more bits to read.
+    pub fn is_empty(&self) -> bool {
+        self.index >= self.bits.len()
+    }
+
     pub fn read_u8(&mut self, bit_count: usize) -> Result<u8, BitReadError> {
         let value: u8 = self
             .bits
diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index 524ac0d..c5a7d56 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -363,13 +363,14 @@ impl Compression for UvTransformCompression {
     }
 }
 
-fn calculate_rotation_w(reader: &mut BitReader, rotation: Vector3) -> Result<f32, BitReadError> {
+fn calculate_rotation_w(reader: &mut BitReader, rotation: Vector3) -> f32 {
     // Rotations are encoded as xyzw unit quaternions.
     // For a unit quaternion, x^2 + y^2 + z^2 + w^2 = 1.
     // Solving for the missing w gives two expressions:
     // w = sqrt(1 - x^2 + y^2 + z^2), w = -sqrt(1 - x^2 + y^2 + z^2).
     // Thus, we need only need to store the sign bit to uniquely determine w.
-    let flip_w = reader.read_bit()?;
+    // Callers check that the sign bit is present.
+    let flip_w = reader.read_bit().unwrap();
 
     let w2 = 1.0 - (rotation.x * rotation.x + rotation.y * rotation.y + rotation.z * rotation.z);
     let w = if w2.is_sign_negative() {
@@ -379,7 +380,11 @@ fn calculate_rotation_w(reader: &mut BitReader, rotation: Vector3) -> Result<f32
         w2.sqrt()
     };
 
-    Ok(if flip_w { -w } else { w })
+    if flip_w {
+        -w
+    } else {
+        w
+    }
 }
 
 fn bit_mask(bit_count: NonZeroU64) -> u64 {
@@ -456,7 +461,10 @@ impl CompressedData for UncompressedTransform {
         };
 
         let rotation_w = if args.has_rotation() {
-            calculate_rotation_w(reader, rotation_xyz)?
+            if reader.is_empty() {
+                return Err(BitReadError::NotEnoughBits);
+            }
+            calculate_rotation_w(reader, rotation_xyz)
         } else {
             default.rotation.w
         };
-- 
2.43.0


From adca988e0c0105f006c519c28d9a064b5141a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 10/14] fix: return an error for skel parent indices that do
 not fit

---
 ssbh_data/src/skel_data.rs | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/ssbh_data/src/skel_data.rs b/ssbh_data/src/skel_data.rs
index f86955c..7ac969d 100644
--- a/ssbh_data/src/skel_data.rs
+++ b/ssbh_data/src/skel_data.rs
@@ -76,6 +76,10 @@ pub mod error {
             minor_version: u16,
         },
 
+        /// The index of a parent bone is too large to be stored.
+        #[error("parent bone index {} exceeds the limit of {}", index, limit)]
+        ParentIndexExceedsLimit { index: usize, limit: usize },
+
         /// An error occurred while calculating a transformation matrix.
         #[error(transparent)]
         BoneTransform(#[from] BoneTransformError),
@@ -163,20 +167,28 @@ impl TryFrom<&SkelData> for Skel {
                 .bones
                 .iter()
                 .enumerate()
-                .map(|(i, b)| SkelBoneEntry {
-                    name: b.name.clone().into(),
-                    index: i as u16,
-                    parent_index: match b.parent_index {
-                        Some(index) => index as i16,
-                        None => -1,
-                    },
-                    // TODO: Preserve or calculate flags?
-                    flags: SkelEntryFlags {
-                        unk1: 1,
-                        billboard_type: b.billboard_type,
-                    },
+                .map(|(i, b)| {
+                    Ok(SkelBoneEntry {
+                        name: b.name.clone().into(),
+                        index: i as u16,
+                        parent_index: match b.parent_index {
+                            Some(index) => index.try_into().map_err(|_| {
+                                error::Error::ParentIndexExceedsLimit {
+                                    index,
+                                    limit: i16::MAX as usize,
+                                }
+                            })?,
+                            None => -1,
+                        },
+                        // TODO: Preserve or calculate flags?
+                        flags: SkelEntryFlags {
+                            unk1: 1,
+                            billboard_type: b.billboard_type,
+                        },
+                    })
                 })
-                .collect(),
+                .collect::<Result<Vec<_>, error::Error>>()?
+                .into(),
             world_transforms: world_transforms
                 .iter()
                 .map(Matrix4x4::from_cols_array)
-- 
2.43.0


From b95aad78c567c0ea3c549d40d4dd9b25f64f1080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 11/14] fix: return errors instead of panicking for damaged
 shader binaries

---
 ssbh_data/src/shdr_data.rs | 69 ++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/ssbh_data/src/shdr_data.rs b/ssbh_data/src/shdr_data.rs
index 38ac8fb..19d04d8 100644
--- a/ssbh_data/src/shdr_data.rs
+++ b/ssbh_data/src/shdr_data.rs
@@ -36,38 +36,37 @@ pub struct MetaData {
 }
 
 impl MetaData {
-    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
+    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> BinResult<Self> {
+        Ok(Self {
             buffers: shader
                 .header
                 .buffer_entries
                 .0
                 .iter()
                 .map(|e| Buffer::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             uniforms: shader
                 .header
                 .uniforms
                 .0
                 .iter()
                 .map(|e| Uniform::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             inputs: shader
                 .header
                 .inputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             outputs: shader
                 .header
                 .outputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
-        }
+                .collect::<BinResult<_>>()?,
+        })
     }
 }
 
@@ -85,17 +84,16 @@ pub struct Buffer {
 }
 
 impl Buffer {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &BufferEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &BufferEntry) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             used_size_in_bytes: e.used_size_in_bytes,
             uniform_count: e.uniform_entry_count,
             unk4: e.unk4,
             unk5: e.unk5,
             unk6: e.unk6,
             unk7: e.unk7,
-        }
+        })
     }
 }
 
@@ -111,15 +109,18 @@ pub struct Uniform {
 }
 
 impl Uniform {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &UniformEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(
+        reader: &mut R,
+        header: &UnkHeader,
+        e: &UniformEntry,
+    ) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             buffer_index: e.buffer_index,
             uniform_buffer_offset: e.uniform_buffer_offset,
             unk11: e.unk11,
-        }
+        })
     }
 }
 
@@ -133,13 +134,16 @@ pub struct Attribute {
 }
 
 impl Attribute {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &AttributeEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(
+        reader: &mut R,
+        header: &UnkHeader,
+        e: &AttributeEntry,
+    ) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             location: e.location,
-        }
+        })
     }
 }
 
@@ -150,12 +154,12 @@ impl MetaData {
     ) -> Result<Self, Box<dyn std::error::Error>> {
         let mut reader = Cursor::new(std::fs::read(path)?);
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(&mut reader, &shader))
+        Self::new(&mut reader, &shader).map_err(Into::into)
     }
 
     pub fn read<R: Read + Seek>(reader: &mut R) -> Result<Self, Box<dyn std::error::Error>> {
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(reader, &shader))
+        Self::new(reader, &shader).map_err(Into::into)
     }
 }
 
@@ -381,7 +385,7 @@ fn read_string<R: Read + Seek>(
 }
 
 impl TryFrom<Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: Shdr) -> Result<Self, Self::Error> {
         Self::try_from(&shdr)
@@ -389,11 +393,10 @@ impl TryFrom<Shdr> for ShdrData {
 }
 
 impl TryFrom<&Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: &Shdr) -> Result<Self, Self::Error> {
         // TODO: Rebuild Shdr from ShdrData?
-        // TODO: Avoid unwrap.
         Ok(Self {
             shaders: match shdr {
                 Shdr::V12 { shaders } => shaders
@@ -401,14 +404,14 @@ impl TryFrom<&Shdr> for ShdrData {
                     .iter()
                     .map(|s| {
                         let mut reader = Cursor::new(&s.shader_binary.elements);
-                        let shader: ShaderBinary = reader.read_le().unwrap();
-                        ShaderEntryData {
+                        let shader: ShaderBinary = reader.read_le()?;
+                        Ok(ShaderEntryData {
                             name: s.name.to_string_lossy(),
                             shader_stage: s.shader_stage,
-                            meta_data: MetaData::new(&mut reader, &shader),
-                        }
+                            meta_data: MetaData::new(&mut reader, &shader)?,
+                        })
                     })
-                    .collect(),
+                    .collect::<BinResult<_>>()?,
             },
         })
     }
-- 
2.43.0


From 01a09e0fe67a9dad87cbacef4fc4abd4602fe505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:20 +0000
Subject: [PATCH 12/14] fix: don't allocate by the lengths stored in damaged
 shader binaries

---
 ssbh_data/src/shdr_data.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/ssbh_data/src/shdr_data.rs b/ssbh_data/src/shdr_data.rs
index 19d04d8..0d0ab49 100644
--- a/ssbh_data/src/shdr_data.rs
+++ b/ssbh_data/src/shdr_data.rs
@@ -183,7 +183,7 @@ pub struct ShaderBinary {
     code_length: u32,
 
     // TODO: header size of 80 bytes (0x50)?
-    #[br(seek_before = SeekFrom::Start(2896), count = code_length)]
+    #[br(seek_before = SeekFrom::Start(2896), parse_with = read_bytes, args(code_length as u64))]
     pub program_code: Vec<u8>,
     // float constants?
 }
@@ -370,6 +370,22 @@ pub enum DataType {
     Image2d = 103,
 }
 
+// Avoid allocating more memory than there is data for lengths in damaged files.
+fn read_bytes<R: Read + Seek>(
+    reader: &mut R,
+    _endian: binrw::Endian,
+    (length,): (u64,),
+) -> BinResult<Vec<u8>> {
+    let mut bytes = Vec::new();
+    reader.take(length).read_to_end(&mut bytes)?;
+
+    if bytes.len() as u64 == length {
+        Ok(bytes)
+    } else {
+        Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into())
+    }
+}
+
 fn read_string<R: Read + Seek>(
     reader: &mut R,
     header: &UnkHeader,
@@ -378,8 +394,11 @@ fn read_string<R: Read + Seek>(
     let strings_start = header.entry_offset as u64 + header.string_section_relative_offset as u64;
     reader.seek(SeekFrom::Start(strings_start + s.offset as u64))?;
 
-    let mut bytes = vec![0u8; (s.length as usize).saturating_sub(1)];
-    reader.read_exact(&mut bytes)?;
+    let bytes = read_bytes(
+        reader,
+        binrw::Endian::Little,
+        ((s.length as u64).saturating_sub(1),),
+    )?;
 
     Ok(String::from_utf8_lossy(&bytes).to_string())
 }
-- 
2.43.0


From 95898b70f242ba37ec94f1861378edb807f79f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:19 +0000
Subject: [PATCH 13/14] fix: end imported text at the first null byte

---
 ssbh_lib/src/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssbh_lib/src/strings.rs b/ssbh_lib/src/strings.rs
index 3d2376d..9a897a8 100644
--- a/ssbh_lib/src/strings.rs
+++ b/ssbh_lib/src/strings.rs
@@ -91,8 +91,8 @@ where
 {
     let string = String::deserialize(deserializer)?;
 
-    // TODO: This should check for null bytes?
-    Ok(string.as_bytes().to_vec())
+    // The text ends at the first null byte when written.
+    Ok(CString::<1>::from_bytes(string.as_bytes()).0)
 }
 
 #[cfg(feature = "arbitrary")]
-- 
2.43.0


From 7d9d1d208b002ed8ae24d3cc19d1de75a67101bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:49 +0000
Subject: [PATCH 14/14] fix: keep an existing file when the data to save cannot
 be written

---
 ssbh_lib/src/lib.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/ssbh_lib/src/lib.rs b/ssbh_lib/src/lib.rs
index a2662e4..eae22b6 100644
--- a/ssbh_lib/src/lib.rs
+++ b/ssbh_lib/src/lib.rs
@@ -195,8 +195,7 @@ impl SsbhFile {
     /// Writes the data to the given path.
     /// The entire file is buffered for performance.
     pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
-        write_buffered(&mut file, |c| write_ssbh_header_and_data(c, &self.data))?;
+        write_buffered(path, |c| write_ssbh_header_and_data(c, &self.data))?;
         Ok(())
     }
 }
@@ -251,8 +250,7 @@ macro_rules! ssbh_read_write_impl {
             /// Tries to write the current SSBH type to `path`.
             /// The entire file is buffered for performance.
             pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-                let mut file = std::fs::File::create(path)?;
-                write_buffered(&mut file, |c| write_ssbh_file(c, self, $magic))?;
+                write_buffered(path, |c| write_ssbh_file(c, self, $magic))?;
                 Ok(())
             }
         }
@@ -289,8 +287,7 @@ macro_rules! read_write_impl {
             /// Tries to write the type to `path`.
             /// The entire file is buffered for performance.
             pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-                let mut file = std::fs::File::create(path)?;
-                write_buffered(&mut file, |c| self.write(c))?;
+                write_buffered(path, |c| self.write(c))?;
                 Ok(())
             }
         }
@@ -771,11 +768,8 @@ pub(crate) fn write_ssbh_header_and_data<W: Write + Seek>(
     }
 }
 
-pub(crate) fn write_buffered<
-    W: Write + Seek,
-    F: Fn(&mut Cursor<Vec<u8>>) -> std::io::Result<()>,
->(
-    writer: &mut W,
+pub(crate) fn write_buffered<P: AsRef<Path>, F: Fn(&mut Cursor<Vec<u8>>) -> std::io::Result<()>>(
+    path: P,
     write_data: F,
 ) -> std::io::Result<()> {
     // Buffer the entire write operation into memory to improve performance.
@@ -783,7 +777,8 @@ pub(crate) fn write_buffered<
     let mut cursor = Cursor::new(Vec::new());
     write_data(&mut cursor)?;
 
-    writer.write_all(cursor.get_mut())?;
+    // Create the file last to not lose an existing file if the data can't be written.
+    fs::write(path, cursor.get_ref())?;
     Ok(())
 }
 
-- 
2.43.0

