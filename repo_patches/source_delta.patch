From e87364711dbbedfb464ab00b629f8c80ce34bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:33 +0000
Subject: [PATCH 01/41] fix: keep the rest of a record in BiffReader::get_data
 so over-long records are skipped

---
 src/vpx/biff.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vpx/biff.rs b/src/vpx/biff.rs
index 2f18fc0..104bf26 100644
--- a/src/vpx/biff.rs
+++ b/src/vpx/biff.rs
@@ -403,7 +403,8 @@ impl<'a> BiffReader<'a> {
     pub fn get_data(&mut self, count: usize) -> &[u8] {
         let d = &self.data[self.pos..self.pos + count];
         self.pos += count;
-        self.bytes_in_record_remaining = 0;
+        // anything after the requested bytes is still part of this record
+        self.bytes_in_record_remaining = self.bytes_in_record_remaining.saturating_sub(count);
         d
     }
 
-- 
2.43.0


From 2f6c080a477f6b80807913935fc2cbd44f65e983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 02/41] fix: settings with CLMO no longer read as 10.8 beta
 layout

---
 src/vpx/gamedata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vpx/gamedata.rs b/src/vpx/gamedata.rs
index 9834893..3b7323b 100644
--- a/src/vpx/gamedata.rs
+++ b/src/vpx/gamedata.rs
@@ -2115,7 +2115,8 @@ pub fn read_all_gamedata_records(input: &[u8], version: &Version) -> GameData {
             "SCLY" => gamedata.bg_scale_y_desktop = reader.get_f32(),
             "SCLZ" => gamedata.bg_scale_z_desktop = reader.get_f32(),
             "EFSS" => {
-                if version.u32() == 1080 && previous_tag != "BOTM" {
+                // the optional CLMO is written between BOTM and EFSS
+                if version.u32() == 1080 && previous_tag != "BOTM" && previous_tag != "CLMO" {
                     gamedata.is_10_8_0_beta1_to_beta4 = true;
                 }
                 gamedata.bg_enable_fss = Some(reader.get_bool())
-- 
2.43.0


From 8059dc2ac80e7387f94055b66603bd1403a4fee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:43 +0000
Subject: [PATCH 03/41] fix: find the end of bitmap data by its blocks, not by
 the first ALTV bytes

---
 src/vpx/image.rs | 10 +++++++---
 src/vpx/lzw.rs   | 10 ++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/vpx/image.rs b/src/vpx/image.rs
index 70921b7..5022247 100644
--- a/src/vpx/image.rs
+++ b/src/vpx/image.rs
@@ -1,5 +1,5 @@
 use super::biff::{self, BiffRead, BiffReader, BiffWrite, BiffWriter};
-use crate::vpx::lzw::from_lzw_blocks;
+use crate::vpx::lzw::{self, from_lzw_blocks};
 use image::DynamicImage;
 use log::warn;
 use regex::Regex;
@@ -395,8 +395,12 @@ fn read(reader: &mut BiffReader) -> ImageData {
             }
             "BITS" => {
                 // these have zero as length
-                // read all the data until the next expected tag
-                let data = reader.data_until("ALTV".as_bytes());
+                // read all the blocks until the next expected record (size 8, ALTV),
+                // the tag alone could also occur inside the compressed data
+                let data = match lzw::blocks_len(reader.get_remaining(), b"\x08\0\0\0ALTV") {
+                    Some(len) => reader.get_data(len).to_vec(),
+                    None => reader.data_until("ALTV".as_bytes()),
+                };
                 //let reader = std::io::Cursor::new(data);
 
                 // uncompressed = zlib.decompress(image_data.data[image_data.pos:]) #, wbits=9)
diff --git a/src/vpx/lzw.rs b/src/vpx/lzw.rs
index 788d618..83d4726 100644
--- a/src/vpx/lzw.rs
+++ b/src/vpx/lzw.rs
@@ -25,6 +25,16 @@ fn from_blocks(uncompressed: &[u8]) -> Vec<u8> {
     bytes
 }
 
+/// Length of the run of gif blocks at the start of `data`, ending where a block would start
+/// but `end` is found instead. None if the blocks run past the end of the data.
+pub(crate) fn blocks_len(data: &[u8], end: &[u8]) -> Option<usize> {
+    let mut pos = 0;
+    while !data.get(pos..)?.starts_with(end) {
+        pos += 1 + *data.get(pos)? as usize;
+    }
+    Some(pos)
+}
+
 /// Convert bytes to gif blocks
 /// We could optimize this in an iterator
 /// This is the reverse of unblock
-- 
2.43.0


From 20685a0089f300e3ccb98dd7ecc706696d79f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:07 +0000
Subject: [PATCH 04/41] fix: images_to_webp reports only the bitmaps it
 converted

---
 src/vpx/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index 3ab9304..02a10a1 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -1073,12 +1073,12 @@ fn images_to_webp<F: Read + Write + Seek>(
                     image_data.bits = None;
                     image_data.jpeg = Some(jpg);
                     write_image(comp, index as usize, &image_data, true)?;
+                    conversions.push(ImageToWebpConversion {
+                        name: image_data.name.clone(),
+                        old_extension: "bmp".to_string(),
+                        new_extension: "webp".to_string(),
+                    });
                 }
-                conversions.push(ImageToWebpConversion {
-                    name: image_data.name.clone(),
-                    old_extension: "bmp".to_string(),
-                    new_extension: "webp".to_string(),
-                });
             }
             _ => {}
         }
-- 
2.43.0


From df21f5b23f53b9ed58d2205d57a50f429e48a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:14 +0000
Subject: [PATCH 05/41] fix: report storage errors that streams swallowed when
 dropped

---
 src/vpx/mod.rs       | 25 ++++++++++++++++---------
 src/vpx/tableinfo.rs |  6 ++++--
 src/vpx/version.rs   |  2 +-
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index 02a10a1..c63179b 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -414,7 +414,7 @@ pub fn write(path: &Path, vpx: &VPX) -> io::Result<()> {
         .truncate(true)
         .open(path)?;
     let mut comp = CompoundFile::create(file)?;
-    let result = write_vpx(&mut comp, vpx);
+    let result = write_vpx(&mut comp, vpx).and_then(|_| comp.flush());
     info!("Wrote {}", path.file_name().unwrap().to_string_lossy());
     result
 }
@@ -479,7 +479,8 @@ pub fn new_minimal_vpx<P: AsRef<Path>>(vpx_file_path: P) -> io::Result<()> {
         .truncate(true)
         .open(&vpx_file_path)?;
     let mut comp = CompoundFile::create(file)?;
-    write_minimal_vpx(&mut comp)
+    write_minimal_vpx(&mut comp)?;
+    comp.flush()
 }
 
 fn write_minimal_vpx<F: Read + Write + Seek>(comp: &mut CompoundFile<F>) -> io::Result<()> {
@@ -614,7 +615,9 @@ fn read_mac<F: Read + Write + Seek>(comp: &mut CompoundFile<F>) -> io::Result<Ve
 fn write_mac<F: Read + Write + Seek>(comp: &mut CompoundFile<F>, mac: &[u8]) -> io::Result<()> {
     let mac_path = Path::new(MAIN_SEPARATOR_STR).join("GameStg").join("MAC");
     let mut mac_stream = comp.create_stream(mac_path)?;
-    mac_stream.write_all(mac)
+    mac_stream.write_all(mac)?;
+    // dropping a stream ignores errors, so flush explicitly
+    mac_stream.flush()
 }
 
 #[derive(Clone, Debug)]
@@ -823,9 +826,8 @@ fn write_game_data<F: Read + Write + Seek>(
     // we expect GameStg to exist
     let mut game_data_stream = comp.create_stream(&game_data_path)?;
     let data = gamedata::write_all_gamedata_records(gamedata, version);
-    game_data_stream.write_all(&data)
-    // this flush was required before but now it's working without
-    // game_data_stream.flush()
+    game_data_stream.write_all(&data)?;
+    game_data_stream.flush()
 }
 
 #[instrument(skip(comp, gamedata), fields(gameitem_count = gamedata.gameitems_size))]
@@ -867,7 +869,8 @@ fn write_gameitem<F: Read + Write + Seek>(
 ) -> Result<(), Error> {
     let mut stream = comp.create_stream(path)?;
     let data = gameitem::write(gameitem);
-    stream.write_all(&data)
+    stream.write_all(&data)?;
+    stream.flush()
 }
 
 #[instrument(skip(comp, gamedata), fields(sound_count = gamedata.sounds_size))]
@@ -914,6 +917,7 @@ fn write_sounds<F: Read + Write + Seek>(
         let mut writer = BiffWriter::new();
         sound::write(file_version, sound, &mut writer);
         stream.write_all(writer.get_data())?;
+        stream.flush()?;
     }
     Ok(())
 }
@@ -946,6 +950,7 @@ fn write_collections<F: Read + Write + Seek>(
         let mut stream = comp.create_stream(&path)?;
         let data = collection::write(collection);
         stream.write_all(&data)?;
+        stream.flush()?;
     }
     Ok(())
 }
@@ -996,7 +1001,7 @@ fn write_image<F: Read + Write + Seek>(
     let mut writer = BiffWriter::new();
     image.biff_write(&mut writer);
     stream.write_all(writer.get_data())?;
-    Ok(())
+    stream.flush()
 }
 
 #[derive(Debug, PartialEq, Clone)]
@@ -1112,6 +1117,7 @@ fn write_fonts<F: Read + Write + Seek>(
         let mut stream = comp.create_stream(&path)?;
         let data = font::write(font);
         stream.write_all(&data)?;
+        stream.flush()?;
     }
     Ok(())
 }
@@ -1142,7 +1148,8 @@ fn write_custominfotags<F: Read + Write + Seek>(
 
     let data = custominfotags::write_custominfotags(tags);
     let mut stream = comp.create_stream(path)?;
-    stream.write_all(&data)
+    stream.write_all(&data)?;
+    stream.flush()
 }
 
 /// Table dimensions for UV coordinate calculation
diff --git a/src/vpx/tableinfo.rs b/src/vpx/tableinfo.rs
index 4252ed3..fb9bc06 100644
--- a/src/vpx/tableinfo.rs
+++ b/src/vpx/tableinfo.rs
@@ -308,7 +308,8 @@ fn write_stream_string<F: Read + Write + Seek>(
 ) -> std::io::Result<()> {
     let mut stream = comp.create_stream(path)?;
     let wide = encode_utf16le(str);
-    stream.write_all(&wide)
+    stream.write_all(&wide)?;
+    stream.flush()
 }
 
 fn read_stream_binary<F: Read + Seek>(
@@ -327,7 +328,8 @@ fn write_stream_binary<F: Read + Write + Seek>(
     bytes: &[u8],
 ) -> std::io::Result<()> {
     let mut stream = comp.create_stream(path)?;
-    stream.write_all(bytes)
+    stream.write_all(bytes)?;
+    stream.flush()
 }
 
 #[cfg(test)]
diff --git a/src/vpx/version.rs b/src/vpx/version.rs
index c27125f..350d238 100644
--- a/src/vpx/version.rs
+++ b/src/vpx/version.rs
@@ -93,7 +93,7 @@ fn write_version_data<F: Read + Write + Seek>(
     stream: &mut Stream<F>,
 ) -> io::Result<()> {
     stream.write_u32::<LittleEndian>(version.0)?;
-    Ok(())
+    stream.flush()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0305dafa7748fb5259ef6e51b72bf488e0036627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:43 +0000
Subject: [PATCH 06/41] fix: keep a complete table at the table's path while
 compacting

---
 src/vpx/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index c63179b..7b31668 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -322,7 +322,10 @@ pub fn compact<P: AsRef<Path>>(path: P) -> io::Result<()> {
 /// Rewrites the whole compound file with the same data causing the file to be compacted.
 fn compact_cfb<P: AsRef<Path>>(in_path: P) -> io::Result<()> {
     // requested to be added in https://github.com/mdsteele/rust-cfb/issues/55
-    let out_path: PathBuf = in_path.as_ref().with_extension("compacting");
+    // the extension is appended, replacing it could result in the path of the input file
+    let mut out_name = in_path.as_ref().as_os_str().to_os_string();
+    out_name.push(".compacting");
+    let out_path = PathBuf::from(out_name);
     let mut original = cfb::open(&in_path)?;
     let version = original.version();
     let out_file = std::fs::OpenOptions::new()
@@ -344,13 +347,15 @@ fn compact_cfb<P: AsRef<Path>>(in_path: P) -> io::Result<()> {
         }
     }
     for path in stream_paths.iter() {
-        std::io::copy(
-            &mut original.open_stream(path)?,
-            &mut duplicate.create_new_stream(path)?,
-        )?;
+        let mut copy = duplicate.create_new_stream(path)?;
+        std::io::copy(&mut original.open_stream(path)?, &mut copy)?;
+        // dropping a stream ignores errors, so flush explicitly
+        copy.flush()?;
     }
     duplicate.flush()?;
-    std::fs::remove_file(&in_path)?;
+    duplicate.into_inner().sync_all()?;
+    drop(original);
+    // replaces the original, there is always a complete file at this path
     std::fs::rename(&out_path, &in_path)
 }
 
-- 
2.43.0


From 9cf4dfdfbbe85407203515e6c5464c34aea4f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:51 +0000
Subject: [PATCH 07/41] fix: unique sanitized file names for duplicate images
 and sounds

The de-duplicated name was built from the unsanitized name, so it could
contain path separators, and it was neither checked against nor added to
the names in use, so two parts could end up with the same file.
---
 src/vpx/expanded/images.rs | 17 +++++++++--------
 src/vpx/expanded/sounds.rs | 17 +++++++++--------
 src/vpx/expanded/util.rs   | 17 +++++++++++++++++
 3 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/vpx/expanded/images.rs b/src/vpx/expanded/images.rs
index 17d7245..c16e4c2 100644
--- a/src/vpx/expanded/images.rs
+++ b/src/vpx/expanded/images.rs
@@ -10,7 +10,7 @@ use std::io::{self, BufRead, Seek, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{dedup_file_stem, read_json, sanitize_filename};
 
 struct ImageBmp {
     width: u32,
@@ -51,17 +51,18 @@ pub(super) fn write_images<P: AsRef<Path>>(
                 );
                 json.name_dedup = Some(name_sanitized.clone());
             }
-            let lower_name = name_sanitized.to_lowercase();
-            if image_names_lower.contains(&lower_name) {
-                image_names_dupe_counter += 1;
-                let name_dedup = format!("{}_dedup{}", image.name, image_names_dupe_counter);
+            let file_stem = dedup_file_stem(
+                &mut image_names_lower,
+                &mut image_names_dupe_counter,
+                &name_sanitized,
+            );
+            if file_stem != name_sanitized {
                 info!(
                     "Image name {} is not unique, renaming file to {}",
-                    name_sanitized, name_dedup
+                    name_sanitized, file_stem
                 );
-                json.name_dedup = Some(name_dedup);
+                json.name_dedup = Some(file_stem);
             }
-            image_names_lower.insert(lower_name);
 
             let actual_name = json.name_dedup.as_ref().unwrap_or(&image.name);
             let file_name = format!("{}.{}", actual_name, image.ext());
diff --git a/src/vpx/expanded/sounds.rs b/src/vpx/expanded/sounds.rs
index be8af44..0f1ebfa 100644
--- a/src/vpx/expanded/sounds.rs
+++ b/src/vpx/expanded/sounds.rs
@@ -8,7 +8,7 @@ use std::io::{self, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{dedup_file_stem, read_json, sanitize_filename};
 
 pub(super) fn write_sounds<P: AsRef<Path>>(
     sounds: &[SoundData],
@@ -32,17 +32,18 @@ pub(super) fn write_sounds<P: AsRef<Path>>(
                 );
                 json.name_dedup = Some(name_sanitized.clone());
             }
-            let lower_name = name_sanitized.to_lowercase();
-            if sound_names_lower.contains(&lower_name) {
-                sound_names_dupe_counter += 1;
-                let name_dedup = format!("{}_dedup{}", sound.name, sound_names_dupe_counter);
+            let file_stem = dedup_file_stem(
+                &mut sound_names_lower,
+                &mut sound_names_dupe_counter,
+                &name_sanitized,
+            );
+            if file_stem != name_sanitized {
                 info!(
                     "Sound name {} is not unique, renaming file to {}",
-                    name_sanitized, name_dedup
+                    name_sanitized, file_stem
                 );
-                json.name_dedup = Some(name_dedup);
+                json.name_dedup = Some(file_stem);
             }
-            sound_names_lower.insert(lower_name);
 
             let actual_name = json.name_dedup.as_ref().unwrap_or(&name_sanitized);
             let file_name = format!("{}.{}", actual_name, sound.ext());
diff --git a/src/vpx/expanded/util.rs b/src/vpx/expanded/util.rs
index 9dc8f95..ccbe245 100644
--- a/src/vpx/expanded/util.rs
+++ b/src/vpx/expanded/util.rs
@@ -2,6 +2,7 @@
 
 use crate::filesystem::FileSystem;
 use serde::de;
+use std::collections::HashSet;
 use std::io;
 use std::path::Path;
 
@@ -14,6 +15,22 @@ pub(crate) fn sanitize_filename<S: AsRef<str>>(name: S) -> String {
     sanitize_filename::sanitize(name)
 }
 
+/// Make a file name stem unique within a directory, ignoring case
+///
+/// The returned name is registered in `used_names_lowercase`.
+pub(super) fn dedup_file_stem(
+    used_names_lowercase: &mut HashSet<String>,
+    dupe_counter: &mut usize,
+    stem: &str,
+) -> String {
+    let mut unique = stem.to_string();
+    while !used_names_lowercase.insert(unique.to_lowercase()) {
+        *dupe_counter += 1;
+        unique = format!("{stem}_dedup{dupe_counter}");
+    }
+    unique
+}
+
 /// Read and parse a JSON file from the filesystem
 pub(super) fn read_json<P: AsRef<Path>, T>(json_path: P, fs: &dyn FileSystem) -> io::Result<T>
 where
-- 
2.43.0


From a354ae88cd7ac91d7cd73e4bf3a23f03ff4bf260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:17 +0000
Subject: [PATCH 08/41] fix: extract fonts with the same file name to separate
 files

Fonts whose sanitized names were equal, or differed only in case, overwrote
each other's data file.
---
 src/vpx/expanded/fonts.rs | 53 ++++++++++++++++++++++++++-------------
 src/vpx/font.rs           |  4 +++
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/vpx/expanded/fonts.rs b/src/vpx/expanded/fonts.rs
index 40396ee..c763c5a 100644
--- a/src/vpx/expanded/fonts.rs
+++ b/src/vpx/expanded/fonts.rs
@@ -3,11 +3,12 @@
 use crate::filesystem::FileSystem;
 use crate::vpx::font::{FontData, FontDataJson};
 use log::info;
+use std::collections::HashSet;
 use std::io::{self, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{dedup_file_stem, read_json, sanitize_filename};
 
 pub(super) fn write_fonts<P: AsRef<Path>>(
     fonts: &[FontData],
@@ -16,19 +17,38 @@ pub(super) fn write_fonts<P: AsRef<Path>>(
 ) -> Result<(), WriteError> {
     let fonts_json_path = expanded_dir.as_ref().join("fonts.json");
     let mut fonts_index_file = fs.create_buffered_file(&fonts_json_path)?;
-    let fonts_index: Vec<FontDataJson> = fonts.iter().map(FontDataJson::from_font_data).collect();
+    let mut font_names_lower: HashSet<String> = HashSet::new();
+    let mut font_names_dupe_counter = 0;
+    let mut fonts_index: Vec<FontDataJson> = Vec::with_capacity(fonts.len());
+    let mut file_names: Vec<String> = Vec::with_capacity(fonts.len());
+    for font in fonts {
+        let mut json = FontDataJson::from_font_data(font);
+        let sanitized_name = sanitize_filename(&font.name);
+        let file_stem = dedup_file_stem(
+            &mut font_names_lower,
+            &mut font_names_dupe_counter,
+            &sanitized_name,
+        );
+        file_names.push(format!("{}.{}", file_stem, font.ext()));
+        if file_stem != sanitized_name {
+            info!("Font name {sanitized_name} is not unique, renaming file to {file_stem}");
+            json.name_dedup = Some(file_stem);
+        }
+        fonts_index.push(json);
+    }
     serde_json::to_writer_pretty(&mut fonts_index_file, &fonts_index)?;
     fonts_index_file.flush()?;
 
     let fonts_dir = expanded_dir.as_ref().join("fonts");
     fs.create_dir_all(&fonts_dir)?;
-    fonts.iter().try_for_each(|font| {
-        let sanitized_name = sanitize_filename(&font.name);
-        let file_name = format!("{}.{}", sanitized_name, font.ext());
-        let font_path = fonts_dir.join(file_name);
-        let mut file = fs.create_file(&font_path)?;
-        file.write_all(&font.data)
-    })?;
+    fonts
+        .iter()
+        .zip(file_names)
+        .try_for_each(|(font, file_name)| {
+            let font_path = fonts_dir.join(file_name);
+            let mut file = fs.create_file(&font_path)?;
+            file.write_all(&font.data)
+        })?;
     Ok(())
 }
 
@@ -42,16 +62,15 @@ pub(super) fn read_fonts<P: AsRef<Path>>(
         return Ok(vec![]);
     }
     let fonts_json: Vec<FontDataJson> = read_json(fonts_index_path, fs)?;
-    let fonts_index: Vec<FontData> = fonts_json
-        .iter()
-        .map(|font_data_json| font_data_json.to_font_data())
-        .collect();
     let fonts_dir = expanded_dir.as_ref().join("fonts");
-    let fonts: io::Result<Vec<FontData>> = fonts_index
+    let fonts: io::Result<Vec<FontData>> = fonts_json
         .into_iter()
-        .map(|mut font| {
-            let sanitized_name = sanitize_filename(&font.name);
-            let file_name = format!("{}.{}", sanitized_name, font.ext());
+        .map(|font_data_json| {
+            let mut font = font_data_json.to_font_data();
+            let file_stem = font_data_json
+                .name_dedup
+                .unwrap_or_else(|| sanitize_filename(&font.name));
+            let file_name = format!("{}.{}", file_stem, font.ext());
             let font_path = fonts_dir.join(file_name);
             if fs.exists(&font_path) {
                 let font_data = fs.read_file(&font_path)?;
diff --git a/src/vpx/font.rs b/src/vpx/font.rs
index 3b195aa..21cc3a2 100644
--- a/src/vpx/font.rs
+++ b/src/vpx/font.rs
@@ -16,6 +16,9 @@ pub struct FontData {
 pub(crate) struct FontDataJson {
     name: String,
     path: String,
+    // in case we have a duplicate or invalid file name
+    #[serde(default, skip_serializing_if = "Option::is_none")]
+    pub(crate) name_dedup: Option<String>,
 }
 
 impl FontDataJson {
@@ -23,6 +26,7 @@ impl FontDataJson {
         Self {
             name: font_data.name.clone(),
             path: font_data.path.clone(),
+            name_dedup: None,
         }
     }
     pub fn to_font_data(&self) -> FontData {
-- 
2.43.0


From 2df3f43c07627f9e49f07bc7978bcd579eac4d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 09/41] fix: keep the mesh of a primitive named json

The file name stem of such a primitive is "Primitive.json", of which the
suffix was stripped repeatedly, so its mesh file was not found.
---
 src/vpx/expanded/primitives.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vpx/expanded/primitives.rs b/src/vpx/expanded/primitives.rs
index 49e39ed..7890b46 100644
--- a/src/vpx/expanded/primitives.rs
+++ b/src/vpx/expanded/primitives.rs
@@ -608,8 +608,7 @@ fn write_animation_frames_to_meshes(
         let animation_frame_vertices =
             read_vpx_animation_frame(compressed_frame, compressed_length);
         let full_vertices = replace_vertices(vertices, animation_frame_vertices)?;
-        let file_name_without_ext = json_file_name.trim_end_matches(".json");
-        let file_name = animation_frame_file_name(file_name_without_ext, i, mesh_format);
+        let file_name = animation_frame_file_name(json_file_name, i, mesh_format);
         let mesh_path = gameitems_dir.join(&file_name);
 
         match mesh_format {
@@ -691,7 +690,9 @@ pub(super) fn read_gameitem_binaries(
     fs: &dyn FileSystem,
 ) -> io::Result<GameItemEnum> {
     if let GameItemEnum::Primitive(primitive) = &mut item {
-        let gameitem_file_name = gameitem_file_name.trim_end_matches(".json");
+        let gameitem_file_name = gameitem_file_name
+            .strip_suffix(".json")
+            .unwrap_or(&gameitem_file_name);
 
         // Check for OBJ first (backward compatibility), then GLB
         let obj_path = gameitems_dir.join(format!("{gameitem_file_name}.obj"));
-- 
2.43.0


From cf34cdc24b7cef76fad6a6f133a1bfe65ddbb97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:43 +0000
Subject: [PATCH 10/41] fix: keep primitive meshes apart from animation frame
 files

The mesh of a primitive named like an animation frame of another primitive,
for example A_anim_0, was overwritten by or read as that frame.
---
 src/vpx/expanded/gameitems.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/vpx/expanded/gameitems.rs b/src/vpx/expanded/gameitems.rs
index 948f7a6..c5c5cf6 100644
--- a/src/vpx/expanded/gameitems.rs
+++ b/src/vpx/expanded/gameitems.rs
@@ -139,10 +139,22 @@ fn gameitem_filename_stem(file_name_gen: &mut FileNameGen, gameitem: &GameItemEn
     }
     // escape any characters that are not allowed in file names, for any os
     name = name.replace(|c: char| !c.is_alphanumeric(), "_");
-    let file_name = format!("{}.{}", gameitem.type_name(), name);
+    let mut file_name = format!("{}.{}", gameitem.type_name(), name);
+    if matches!(gameitem, GameItemEnum::Primitive(_)) && looks_like_animation_frame(&file_name) {
+        // the mesh files would be mistaken for an animation frame of another primitive
+        file_name.push('_');
+    }
     file_name_gen.ensure_unique(file_name)
 }
 
+/// True for names ending in `_anim_<number>`, as used for animation frame files
+fn looks_like_animation_frame(file_name: &str) -> bool {
+    file_name
+        .to_lowercase()
+        .trim_end_matches(|c: char| c.is_ascii_digit())
+        .ends_with("_anim_")
+}
+
 pub(super) fn read_gameitems<P: AsRef<Path>>(
     expanded_dir: &P,
     fs: &dyn FileSystem,
-- 
2.43.0


From 62225c40be602926ab15d4dc379a3e80093ae732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 11/41] fix: only the file name decides the extension of images
 and fonts

For a path whose last dot is part of a directory name the rest of the path
was taken for the extension, and became part of the extracted file's path.
---
 src/vpx/font.rs  |  5 +++--
 src/vpx/image.rs | 10 ++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vpx/font.rs b/src/vpx/font.rs
index 21cc3a2..a68e623 100644
--- a/src/vpx/font.rs
+++ b/src/vpx/font.rs
@@ -53,8 +53,9 @@ impl FontData {
     pub(crate) fn ext(&self) -> String {
         // TODO we might want to also check the jpeg fsPath
         match self.path.split('.').next_back() {
-            Some(ext) => ext.to_string(),
-            None => "bin".to_string(),
+            // a dot in a directory name does not start an extension
+            Some(ext) if !ext.contains(['/', '\\']) => ext.to_string(),
+            _ => "bin".to_string(),
         }
     }
 }
diff --git a/src/vpx/image.rs b/src/vpx/image.rs
index 5022247..60d2986 100644
--- a/src/vpx/image.rs
+++ b/src/vpx/image.rs
@@ -174,8 +174,9 @@ impl ImageData {
     pub fn ext(&self) -> String {
         // TODO we might want to also check the jpeg fsPath
         match self.path.split('.').next_back() {
-            Some(ext) => ext.to_string(),
-            None => "bin".to_string(),
+            // a dot in a directory name does not start an extension
+            Some(ext) if !ext.contains(['/', '\\']) => ext.to_string(),
+            _ => "bin".to_string(),
         }
     }
 }
@@ -318,8 +319,9 @@ impl ImageDataJson {
     pub(crate) fn ext(&self) -> String {
         // TODO we might want to also check the jpeg fsPath
         match self.path.split('.').next_back() {
-            Some(ext) => ext.to_string(),
-            None => "bin".to_string(),
+            // a dot in a directory name does not start an extension
+            Some(ext) if !ext.contains(['/', '\\']) => ext.to_string(),
+            _ => "bin".to_string(),
         }
     }
 
-- 
2.43.0


From 790100370a9fcc23ee17b3ae0ee977c46b05a95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:31 +0000
Subject: [PATCH 12/41] fix: report damaged glTF mesh files instead of
 panicking

A truncated GLB or glTF file, or one with missing JSON members, made reading
an extracted table panic.
---
 src/vpx/gltf.rs | 92 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 27 deletions(-)

diff --git a/src/vpx/gltf.rs b/src/vpx/gltf.rs
index a452017..bcb62bd 100644
--- a/src/vpx/gltf.rs
+++ b/src/vpx/gltf.rs
@@ -424,7 +424,7 @@ fn read_glb_payload_from_reader<R: Read>(reader: &mut R) -> io::Result<GltfPaylo
     }
 
     let json_start = cursor.position() as usize;
-    let json_bytes = &glb_data[json_start..json_start + json_length];
+    let json_bytes = bytes_at(&glb_data, json_start, json_length)?;
     let gltf_json: serde_json::Value = serde_json::from_slice(json_bytes).map_err(|e| {
         io::Error::new(
             io::ErrorKind::InvalidData,
@@ -445,7 +445,7 @@ fn read_glb_payload_from_reader<R: Read>(reader: &mut R) -> io::Result<GltfPaylo
     }
 
     let bin_start = cursor.position() as usize;
-    let bin_data = glb_data[bin_start..bin_start + bin_length].to_vec();
+    let bin_data = bytes_at(&glb_data, bin_start, bin_length)?.to_vec();
 
     Ok(GltfPayload {
         json: gltf_json,
@@ -453,6 +453,39 @@ fn read_glb_payload_from_reader<R: Read>(reader: &mut R) -> io::Result<GltfPaylo
     })
 }
 
+/// A range of the data, or an error if the data is too short
+fn bytes_at(data: &[u8], start: usize, length: usize) -> io::Result<&[u8]> {
+    start
+        .checked_add(length)
+        .and_then(|end| data.get(start..end))
+        .ok_or_else(|| {
+            io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                format!("Truncated GLTF data: expected {length} bytes at offset {start}"),
+            )
+        })
+}
+
+fn json_element<'a>(
+    values: &'a [serde_json::Value],
+    index: usize,
+    what: &str,
+) -> io::Result<&'a serde_json::Value> {
+    values.get(index).ok_or_else(|| {
+        io::Error::new(
+            io::ErrorKind::InvalidData,
+            format!("Missing {what} {index}"),
+        )
+    })
+}
+
+fn json_usize(value: &serde_json::Value, key: &str) -> io::Result<usize> {
+    value[key]
+        .as_u64()
+        .and_then(|n| usize::try_from(n).ok())
+        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidData, format!("Missing {key}")))
+}
+
 fn parse_gltf_payload(
     gltf_json: &serde_json::Value,
     bin_data: &[u8],
@@ -484,48 +517,51 @@ fn parse_gltf_payload(
         });
 
     // Read positions (accessor 0)
-    let pos_accessor = &accessors[0];
-    let pos_view_idx = pos_accessor["bufferView"].as_u64().unwrap() as usize;
-    let pos_view = &buffer_views[pos_view_idx];
-    let pos_offset = pos_view["byteOffset"].as_u64().unwrap() as usize;
-    let pos_count = pos_accessor["count"].as_u64().unwrap() as usize;
+    let pos_accessor = json_element(accessors, 0, "accessor")?;
+    let pos_view_idx = json_usize(pos_accessor, "bufferView")?;
+    let pos_view = json_element(buffer_views, pos_view_idx, "bufferView")?;
+    let pos_offset = json_usize(pos_view, "byteOffset")?;
+    let pos_count = json_usize(pos_accessor, "count")?;
 
     // Read normals (accessor 1)
-    let norm_accessor = &accessors[1];
-    let norm_view_idx = norm_accessor["bufferView"].as_u64().unwrap() as usize;
-    let norm_view = &buffer_views[norm_view_idx];
-    let norm_offset = norm_view["byteOffset"].as_u64().unwrap() as usize;
+    let norm_accessor = json_element(accessors, 1, "accessor")?;
+    let norm_view_idx = json_usize(norm_accessor, "bufferView")?;
+    let norm_view = json_element(buffer_views, norm_view_idx, "bufferView")?;
+    let norm_offset = json_usize(norm_view, "byteOffset")?;
 
     // Read texcoords (accessor 2)
-    let tex_accessor = &accessors[2];
-    let tex_view_idx = tex_accessor["bufferView"].as_u64().unwrap() as usize;
-    let tex_view = &buffer_views[tex_view_idx];
-    let tex_offset = tex_view["byteOffset"].as_u64().unwrap() as usize;
+    let tex_accessor = json_element(accessors, 2, "accessor")?;
+    let tex_view_idx = json_usize(tex_accessor, "bufferView")?;
+    let tex_view = json_element(buffer_views, tex_view_idx, "bufferView")?;
+    let tex_offset = json_usize(tex_view, "byteOffset")?;
 
     // Read indices (accessor 3)
-    let idx_accessor = &accessors[3];
-    let idx_view_idx = idx_accessor["bufferView"].as_u64().unwrap() as usize;
-    let idx_view = &buffer_views[idx_view_idx];
-    let idx_offset = idx_view["byteOffset"].as_u64().unwrap() as usize;
-    let idx_count = idx_accessor["count"].as_u64().unwrap() as usize;
-    let idx_component_type = idx_accessor["componentType"].as_u64().unwrap();
-    let use_u32 = idx_component_type == GLTF_COMPONENT_TYPE_UNSIGNED_INT as u64; // UNSIGNED_INT
+    let idx_accessor = json_element(accessors, 3, "accessor")?;
+    let idx_view_idx = json_usize(idx_accessor, "bufferView")?;
+    let idx_view = json_element(buffer_views, idx_view_idx, "bufferView")?;
+    let idx_offset = json_usize(idx_view, "byteOffset")?;
+    let idx_count = json_usize(idx_accessor, "count")?;
+    let idx_component_type = json_usize(idx_accessor, "componentType")?;
+    let use_u32 = idx_component_type == GLTF_COMPONENT_TYPE_UNSIGNED_INT as usize; // UNSIGNED_INT
 
     // Build vertex data in the same format as write_glb accepts
+    let positions = bytes_at(bin_data, pos_offset, pos_count.saturating_mul(12))?;
+    let normals = bytes_at(bin_data, norm_offset, pos_count.saturating_mul(12))?;
+    let texcoords = bytes_at(bin_data, tex_offset, pos_count.saturating_mul(8))?;
     let mut vertices = Vec::with_capacity(pos_count);
 
     for i in 0..pos_count {
-        let mut pos_cursor = io::Cursor::new(&bin_data[pos_offset + i * 12..]);
+        let mut pos_cursor = io::Cursor::new(&positions[i * 12..]);
         let x = pos_cursor.read_f32::<LittleEndian>()?;
         let y = pos_cursor.read_f32::<LittleEndian>()?;
         let z = pos_cursor.read_f32::<LittleEndian>()?;
 
-        let mut norm_cursor = io::Cursor::new(&bin_data[norm_offset + i * 12..]);
+        let mut norm_cursor = io::Cursor::new(&normals[i * 12..]);
         let nx = norm_cursor.read_f32::<LittleEndian>()?;
         let ny = norm_cursor.read_f32::<LittleEndian>()?;
         let nz = norm_cursor.read_f32::<LittleEndian>()?;
 
-        let mut tex_cursor = io::Cursor::new(&bin_data[tex_offset + i * 8..]);
+        let mut tex_cursor = io::Cursor::new(&texcoords[i * 8..]);
         let tu = tex_cursor.read_f32::<LittleEndian>()?;
         let tv = tex_cursor.read_f32::<LittleEndian>()?;
 
@@ -577,11 +613,13 @@ fn read_glb_indices(
     idx_count: usize,
     use_u32: bool,
 ) -> io::Result<Vec<VpxFace>> {
+    let index_size = if use_u32 { 4 } else { 2 };
+    let index_data = bytes_at(bin_data, idx_offset, idx_count.saturating_mul(index_size))?;
     let mut indices = Vec::with_capacity(idx_count / 3);
     for i in 0..idx_count / 3 {
         let idx = if use_u32 {
             // Each face has 3 indices, each u32 is 4 bytes, so offset is i * 12
-            let mut c = io::Cursor::new(&bin_data[idx_offset + i * 12..]);
+            let mut c = io::Cursor::new(&index_data[i * 12..]);
             VpxFace::new(
                 c.read_u32::<LittleEndian>()? as i64,
                 c.read_u32::<LittleEndian>()? as i64,
@@ -589,7 +627,7 @@ fn read_glb_indices(
             )
         } else {
             // Each face has 3 indices, each u16 is 2 bytes, so offset is i * 6
-            let mut c = io::Cursor::new(&bin_data[idx_offset + i * 6..]);
+            let mut c = io::Cursor::new(&index_data[i * 6..]);
             VpxFace::new(
                 c.read_u16::<LittleEndian>()? as i64,
                 c.read_u16::<LittleEndian>()? as i64,
-- 
2.43.0


From 5e269cd14ae386f5806879ff429c4662070a9791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:59 +0000
Subject: [PATCH 13/41] fix: report missing or unreadable table info instead of
 panicking

---
 src/vpx/tableinfo.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vpx/tableinfo.rs b/src/vpx/tableinfo.rs
index fb9bc06..0800f51 100644
--- a/src/vpx/tableinfo.rs
+++ b/src/vpx/tableinfo.rs
@@ -214,7 +214,7 @@ pub(crate) fn read_tableinfo<F: Read + Seek>(
     let table_info_path = Path::new(MAIN_SEPARATOR_STR).join("TableInfo");
     let mut table_info = TableInfo::new();
 
-    let entries = comp.read_storage(table_info_path).unwrap();
+    let entries = comp.read_storage(table_info_path)?;
     // read all the entries in the entrues
     let paths: Vec<_> = entries
         .filter(|entry| entry.is_stream())
@@ -286,9 +286,9 @@ fn read_stream_string<F: Read + Seek>(
     comp: &mut CompoundFile<F>,
     path: &Path,
 ) -> Result<String, std::io::Error> {
-    let mut stream = comp.open_stream(path).unwrap();
+    let mut stream = comp.open_stream(path)?;
     let mut buffer = Vec::new();
-    stream.read_to_end(&mut buffer).unwrap();
+    stream.read_to_end(&mut buffer)?;
 
     match decode_utf16le(&buffer) {
         Ok(str) => Ok(str),
-- 
2.43.0


From 7c82e2fb1239258d7a888d34d28987e04aad52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:48 +0000
Subject: [PATCH 14/41] fix: extracting no longer overflows the stack for huge
 curve coordinates

With coordinates whose products are not finite in f32 the flatness test was
never met, and smoothing a curve recursed until the process aborted.
---
 src/vpx/mesh/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vpx/mesh/mod.rs b/src/vpx/mesh/mod.rs
index e5d726e..159a471 100644
--- a/src/vpx/mesh/mod.rs
+++ b/src/vpx/mesh/mod.rs
@@ -273,7 +273,10 @@ pub(super) fn flat_with_accuracy_2d(
     let dblarea = (vmid.x - v1.x) * (v2.y - v1.y) - (v2.x - v1.x) * (vmid.y - v1.y);
 
     // VPinball compares area squared directly against accuracy (not accuracy squared!)
-    dblarea * dblarea < accuracy
+    let dblareasq = dblarea * dblarea;
+
+    // Subdividing further does not help if the coordinates are too large to compute with
+    !dblareasq.is_finite() || dblareasq < accuracy
 }
 
 /// Recursively subdivide a 2D curve segment until it's flat enough
@@ -545,7 +548,8 @@ pub(super) fn flat_with_accuracy_3d(
     let cross = Vec3::cross(&mid_v1, &v2_v1);
     let dblareasq = cross.x * cross.x + cross.y * cross.y + cross.z * cross.z;
 
-    dblareasq < accuracy
+    // Subdividing further does not help if the coordinates are too large to compute with
+    !dblareasq.is_finite() || dblareasq < accuracy
 }
 
 /// Recursively subdivide a 3D curve segment until it's flat enough
-- 
2.43.0


From a9b1d1e7cabda50b95b6e09370cbca0f4b5fa359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:46 +0000
Subject: [PATCH 15/41] fix: a rubber whose points all coincide has no mesh

Extracting or exporting such a table panicked.
---
 src/vpx/mesh/rubbers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpx/mesh/rubbers.rs b/src/vpx/mesh/rubbers.rs
index 684d9c1..deab5b2 100644
--- a/src/vpx/mesh/rubbers.rs
+++ b/src/vpx/mesh/rubbers.rs
@@ -121,7 +121,7 @@ fn generate_mesh(rubber: &Rubber, detail_level: u32) -> Option<(Vec<Vertex3dNoTe
     let (_, middle_points) =
         get_spline_vertex(&rubber.drag_points, rubber.thickness as f32, accuracy);
 
-    let num_rings = middle_points.len() - 1; // splinePoints - 1
+    let num_rings = middle_points.len().saturating_sub(1); // splinePoints - 1
     if num_rings < 1 {
         return None;
     }
-- 
2.43.0


From 3246f7f63627b03fb92176d70c684d01ff441f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 16/41] fix: plunger springs with more than 65535 vertices

The vertex indices of the spring were computed in 16 bits and overflowed.
---
 src/vpx/mesh/plungers/mod.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/vpx/mesh/plungers/mod.rs b/src/vpx/mesh/plungers/mod.rs
index cdbfaa8..5dde909 100644
--- a/src/vpx/mesh/plungers/mod.rs
+++ b/src/vpx/mesh/plungers/mod.rs
@@ -658,7 +658,7 @@ fn generate_spring_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>)
         let ny = bz * tx - bx * tz;
         let nz = bx * ty - by * tx;
 
-        let base_idx = vertices.len() as u16;
+        let base_idx = vertices.len() as i64;
 
         // Generate cross-section circle
         // VPinball spring uses tv 0.76-0.98 (bottom quarter of texture)
@@ -701,20 +701,20 @@ fn generate_spring_mesh(plunger: &Plunger) -> (Vec<VertexWrapper>, Vec<VpxFace>)
 
         // Connect to next ring (if not last)
         if i < total_segments - 1 {
-            let next_base = base_idx + coil_segments as u16;
+            let next_base = base_idx + coil_segments as i64;
             for j in 0..coil_segments {
-                let j0 = j as u16;
-                let j1 = ((j + 1) % coil_segments) as u16;
+                let j0 = j as i64;
+                let j1 = ((j + 1) % coil_segments) as i64;
 
                 indices.push(VpxFace::new(
-                    (base_idx + j0) as i64,
-                    (base_idx + j1) as i64,
-                    (next_base + j0) as i64,
+                    base_idx + j0,
+                    base_idx + j1,
+                    next_base + j0,
                 ));
                 indices.push(VpxFace::new(
-                    (base_idx + j1) as i64,
-                    (next_base + j1) as i64,
-                    (next_base + j0) as i64,
+                    base_idx + j1,
+                    next_base + j1,
+                    next_base + j0,
                 ));
             }
         }
-- 
2.43.0


From e787127a9bdac5b2c83fabb6727beef41db3b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:49 +0000
Subject: [PATCH 17/41] fix: a path ending in a dot has no extension

The extension of an image or font whose path ends in a dot was taken to be
empty. With an empty name the file was then named '.', the directory itself,
and the table could not be extracted.
---
 src/vpx/font.rs  | 2 +-
 src/vpx/image.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vpx/font.rs b/src/vpx/font.rs
index a68e623..3c75104 100644
--- a/src/vpx/font.rs
+++ b/src/vpx/font.rs
@@ -54,7 +54,7 @@ impl FontData {
         // TODO we might want to also check the jpeg fsPath
         match self.path.split('.').next_back() {
             // a dot in a directory name does not start an extension
-            Some(ext) if !ext.contains(['/', '\\']) => ext.to_string(),
+            Some(ext) if !ext.is_empty() && !ext.contains(['/', '\\']) => ext.to_string(),
             _ => "bin".to_string(),
         }
     }
diff --git a/src/vpx/image.rs b/src/vpx/image.rs
index 60d2986..f16c552 100644
--- a/src/vpx/image.rs
+++ b/src/vpx/image.rs
@@ -175,7 +175,7 @@ impl ImageData {
         // TODO we might want to also check the jpeg fsPath
         match self.path.split('.').next_back() {
             // a dot in a directory name does not start an extension
-            Some(ext) if !ext.contains(['/', '\\']) => ext.to_string(),
+            Some(ext) if !ext.is_empty() && !ext.contains(['/', '\\']) => ext.to_string(),
             _ => "bin".to_string(),
         }
     }
@@ -320,7 +320,7 @@ impl ImageDataJson {
         // TODO we might want to also check the jpeg fsPath
         match self.path.split('.').next_back() {
             // a dot in a directory name does not start an extension
-            Some(ext) if !ext.contains(['/', '\\']) => ext.to_string(),
+            Some(ext) if !ext.is_empty() && !ext.contains(['/', '\\']) => ext.to_string(),
             _ => "bin".to_string(),
         }
     }
-- 
2.43.0


From 39be6e5624798dcd5fdfe8b483ba617a0f826de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:43 +0000
Subject: [PATCH 18/41] fix: a line break in a primitive's name does not end
 the OBJ object statement

An extracted OBJ mesh of a primitive whose name contains a line break could
not be read back: the rest of the name was taken for a statement.
---
 src/vpx/obj.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vpx/obj.rs b/src/vpx/obj.rs
index 4be9231..7fb4a91 100644
--- a/src/vpx/obj.rs
+++ b/src/vpx/obj.rs
@@ -125,7 +125,8 @@ pub(crate) fn write_obj_to_writer<W: io::Write>(
         vpx_vertices.len(),
         vpx_indices.len()
     ))?;
-    obj_writer.write_object_name(name)?;
+    // a line break would end the statement
+    obj_writer.write_object_name(name.replace(['\r', '\n'], "_"))?;
 
     for VertexWrapper { vertex, .. } in vpx_vertices {
         obj_writer.write_vertex(vertex.x, vertex.y, -vertex.z, None)?;
-- 
2.43.0


From 863988fcf4a6b2d0ec245eb853a96571419012a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:33 +0000
Subject: [PATCH 19/41] fix: the in-memory file system finds a file by its
 path, not by the path's text

Two paths that are not valid Unicode and differ only there were taken for the
same file, so that one overwrote the other, and a path spelled differently
(a//b or a/./b instead of a/b) was not found, unlike on a disk.
---
 src/filesystem.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/filesystem.rs b/src/filesystem.rs
index 46bad39..1d3cb29 100644
--- a/src/filesystem.rs
+++ b/src/filesystem.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 use std::fs::File;
 use std::io::{self, BufReader, BufWriter, Cursor, Read, Write};
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use std::sync::{Arc, RwLock};
 
 pub trait FileSystem: Sync {
@@ -64,7 +64,7 @@ impl FileSystem for RealFileSystem {
 
 #[derive(Default, Clone)]
 pub struct MemoryFileSystem {
-    files: Arc<RwLock<HashMap<String, Vec<u8>>>>,
+    files: Arc<RwLock<HashMap<PathBuf, Vec<u8>>>>,
 }
 
 impl MemoryFileSystem {
@@ -73,13 +73,12 @@ impl MemoryFileSystem {
     #[cfg(test)]
     pub(crate) fn rename(&self, from: &Path, to: &Path) -> io::Result<()> {
         let from_str = from.to_string_lossy().to_string();
-        let to_str = to.to_string_lossy().to_string();
         let mut files = self.files.write().unwrap();
 
         // Clone the data instead of removing it first
-        if let Some(data) = files.get(&from_str).cloned() {
-            files.insert(to_str, data);
-            files.remove(&from_str);
+        if let Some(data) = files.get(from).cloned() {
+            files.insert(to.to_path_buf(), data);
+            files.remove(from);
             Ok(())
         } else {
             Err(io::Error::new(
@@ -98,7 +97,7 @@ impl MemoryFileSystem {
     pub(crate) fn read_to_string(&self, path: &Path) -> io::Result<String> {
         let path_str = path.to_string_lossy().to_string();
         let files = self.files.read().unwrap();
-        match files.get(&path_str) {
+        match files.get(path) {
             Some(data) => String::from_utf8(data.clone()).map_err(|e| {
                 io::Error::new(
                     io::ErrorKind::InvalidData,
@@ -122,12 +121,15 @@ impl MemoryFileSystem {
 
     pub fn get_file(&self, path: &str) -> Option<Vec<u8>> {
         let files = self.files.read().unwrap();
-        files.get(path).cloned()
+        files.get(Path::new(path)).cloned()
     }
 
     pub fn list_files(&self) -> Vec<String> {
         let files = self.files.read().unwrap();
-        files.keys().cloned().collect()
+        files
+            .keys()
+            .map(|path| path.to_string_lossy().to_string())
+            .collect()
     }
 
     pub fn clear(&self) {
@@ -137,14 +139,14 @@ impl MemoryFileSystem {
 
     pub fn delete_file(&self, path: &str) {
         let mut files = self.files.write().unwrap();
-        files.remove(path);
+        files.remove(Path::new(path));
     }
 }
 
 struct MemoryFileWriter {
-    path: String,
+    path: PathBuf,
     buffer: Vec<u8>,
-    files: Arc<RwLock<HashMap<String, Vec<u8>>>>,
+    files: Arc<RwLock<HashMap<PathBuf, Vec<u8>>>>,
 }
 
 impl Write for MemoryFileWriter {
@@ -169,9 +171,8 @@ impl Drop for MemoryFileWriter {
 
 impl FileSystem for MemoryFileSystem {
     fn create_file(&self, path: &Path) -> io::Result<Box<dyn Write>> {
-        let path_str = path.to_string_lossy().to_string();
         Ok(Box::new(MemoryFileWriter {
-            path: path_str,
+            path: path.to_path_buf(),
             buffer: Vec::new(),
             files: Arc::clone(&self.files),
         }))
@@ -180,7 +181,7 @@ impl FileSystem for MemoryFileSystem {
     fn open_file(&self, path: &Path) -> io::Result<Box<dyn Read>> {
         let path_str = path.to_string_lossy().to_string();
         let files = self.files.read().unwrap();
-        match files.get(&path_str) {
+        match files.get(path) {
             Some(data) => Ok(Box::new(Cursor::new(data.clone()))),
             None => Err(io::Error::new(
                 io::ErrorKind::NotFound,
@@ -192,7 +193,7 @@ impl FileSystem for MemoryFileSystem {
     fn read_file(&self, path: &Path) -> io::Result<Vec<u8>> {
         let path_str = path.to_string_lossy().to_string();
         let files = self.files.read().unwrap();
-        files.get(&path_str).cloned().ok_or_else(|| {
+        files.get(path).cloned().ok_or_else(|| {
             io::Error::new(
                 io::ErrorKind::NotFound,
                 format!("File not found: {}", path_str),
@@ -201,9 +202,8 @@ impl FileSystem for MemoryFileSystem {
     }
 
     fn write_file(&self, path: &Path, data: &[u8]) -> io::Result<()> {
-        let path_str = path.to_string_lossy().to_string();
         let mut files = self.files.write().unwrap();
-        files.insert(path_str, data.to_vec());
+        files.insert(path.to_path_buf(), data.to_vec());
         Ok(())
     }
 
@@ -212,9 +212,8 @@ impl FileSystem for MemoryFileSystem {
     }
 
     fn exists(&self, path: &Path) -> bool {
-        let path_str = path.to_string_lossy().to_string();
         let files = self.files.read().unwrap();
-        files.contains_key(&path_str)
+        files.contains_key(path)
     }
 
     // The in-memory writer is already Vec<u8>-backed and the reader is a Cursor
-- 
2.43.0


From 6bf412c6562252a1720293de17832186677c3b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:44 +0000
Subject: [PATCH 20/41] fix: exported wave files are well-formed and keep the
 format, reading takes only the data chunk

The size of the data chunk of non-PCM sounds was the cbSize of the format, the
average bytes per second were recalculated (and overflowed for large values)
and chunks that follow the data chunk were read as audio data.
---
 src/vpx/sound.rs | 66 +++++++++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/src/vpx/sound.rs b/src/vpx/sound.rs
index 79e2325..5150ec2 100644
--- a/src/vpx/sound.rs
+++ b/src/vpx/sound.rs
@@ -171,44 +171,36 @@ impl SoundDataJson {
 const WAV_HEADER_SIZE: usize = 44;
 
 fn write_wav_header2(sound_data: &SoundData) -> Vec<u8> {
-    let data_len = if sound_data.wave_form.format_tag == 1 {
-        // In the vpx file for PCM this is always 0,
-        // so we use the length of the data.
-        sound_data.data.len() as u32 // 4
-    } else {
-        sound_data.wave_form.cb_size as u32 // 4
-    };
-    //let bytes_per_sec = sound_data.wave_form.avg_bytes_per_sec;
-    let bytes_per_sec = sound_data.wave_form.samples_per_sec
-        * sound_data.wave_form.bits_per_sample as u32
-        * sound_data.wave_form.channels as u32
-        / 8;
-    let extension_size = if sound_data.wave_form.format_tag == 1 {
+    let wave_form = &sound_data.wave_form;
+    // PCM has no extension, other formats always have a cbSize field
+    let extension_size = if wave_form.format_tag == 1 && wave_form.cb_size == 0 {
         None
     } else {
-        Some(0)
+        Some(wave_form.cb_size)
     };
     // a fmt chunk with a cbSize field is 18 bytes instead of 16
     let fmt_size = if extension_size.is_some() { 18 } else { 16 };
+    let data_size = sound_data.data.len() as u32;
 
     let wav_header = WavHeader {
-        size: sound_data.data.len() as u32 + 36,
+        // everything after the size field: WAVE, the fmt chunk and the padded data chunk
+        size: 4 + 8 + fmt_size + 8 + data_size + data_size % 2,
         fmt_size,
-        format_tag: sound_data.wave_form.format_tag,
-        channels: sound_data.wave_form.channels,
-        samples_per_sec: sound_data.wave_form.samples_per_sec,
-        avg_bytes_per_sec: bytes_per_sec,
-        block_align: sound_data.wave_form.block_align,
-        bits_per_sample: sound_data.wave_form.bits_per_sample,
+        format_tag: wave_form.format_tag,
+        channels: wave_form.channels,
+        samples_per_sec: wave_form.samples_per_sec,
+        avg_bytes_per_sec: wave_form.avg_bytes_per_sec,
+        block_align: wave_form.block_align,
+        bits_per_sample: wave_form.bits_per_sample,
         extension_size,
         extension_fields: Vec::new(),
         pre_fmt_fields: Vec::new(),
         extra_fields: Vec::new(),
-        data_size: data_len,
+        data_size,
     };
     let mut buf = BytesMut::with_capacity(WAV_HEADER_SIZE);
     write_wav_header(&wav_header, &mut buf);
-    buf.to_vec() // total 44 bytes
+    buf.to_vec() // total 44 bytes, 46 with a cbSize field
 }
 
 impl From<WavHeader> for WaveForm {
@@ -220,7 +212,7 @@ impl From<WavHeader> for WaveForm {
             avg_bytes_per_sec: header.avg_bytes_per_sec,
             block_align: header.block_align,
             bits_per_sample: header.bits_per_sample,
-            cb_size: 0,
+            cb_size: header.extension_size.unwrap_or(0),
         }
     }
 }
@@ -230,6 +222,10 @@ pub fn write_sound(sound_data: &SoundData) -> Vec<u8> {
         let mut buf = BytesMut::with_capacity(WAV_HEADER_SIZE + sound_data.data.len());
         buf.put_slice(&write_wav_header2(sound_data));
         buf.put_slice(&sound_data.data);
+        if sound_data.data.len() % 2 == 1 {
+            // RIFF chunks are word aligned
+            buf.put_u8(0);
+        }
         buf.to_vec()
     } else {
         sound_data.data.clone()
@@ -248,15 +244,23 @@ pub fn read_sound(data: &[u8], sound_data: &mut SoundData) -> io::Result<()> {
                 ),
             )
         })?;
-        let header_data_size = header.data_size;
-        // read all remaining bits
+        // vpin up to 0.27.0 wrote the cb_size of non-PCM formats as size of the data chunk,
+        // and a size field that assumes a 16 byte fmt chunk.
+        let legacy_cb_size = (header.format_tag != 1
+            && header.extension_size == Some(0)
+            && header.size as usize == reader.len() + 36)
+            .then_some(header.data_size as u16);
+        // the header of a streamed file is never completed
+        let unknown_size = header.data_size == u32::MAX
+            || (header.data_size == 0 && header.size as usize + 8 != data.len());
+        if !unknown_size && legacy_cb_size.is_none() {
+            // other chunks or a pad byte can follow the data
+            reader.truncate(header.data_size as usize);
+        }
         sound_data.data = reader.to_vec();
         let mut wave_form: WaveForm = header.into();
-        if wave_form.format_tag == 1 {
-            // in the vpx file this is always 0 for PCM
-            wave_form.cb_size = 0;
-        } else {
-            wave_form.cb_size = header_data_size as u16;
+        if let Some(cb_size) = legacy_cb_size {
+            wave_form.cb_size = cb_size;
         }
         sound_data.wave_form = wave_form;
     } else {
-- 
2.43.0


From 88dcec11a231a98956d86c62afa1743df3ab01ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:49 +0000
Subject: [PATCH 21/41] fix: a compressed bitmap with a block that looks like
 the next record was cut off there

---
 src/vpx/lzw.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/vpx/lzw.rs b/src/vpx/lzw.rs
index 83d4726..a87e8cf 100644
--- a/src/vpx/lzw.rs
+++ b/src/vpx/lzw.rs
@@ -27,12 +27,32 @@ fn from_blocks(uncompressed: &[u8]) -> Vec<u8> {
 
 /// Length of the run of gif blocks at the start of `data`, ending where a block would start
 /// but `end` is found instead. None if the blocks run past the end of the data.
+///
+/// A block can look like `end`, in that case the run ends where the compressed data is complete.
 pub(crate) fn blocks_len(data: &[u8], end: &[u8]) -> Option<usize> {
+    let mut candidates: Vec<usize> = vec![];
     let mut pos = 0;
-    while !data.get(pos..)?.starts_with(end) {
-        pos += 1 + *data.get(pos)? as usize;
+    while let Some(rest) = data.get(pos..)
+        && let Some(block_size) = rest.first()
+    {
+        if rest.starts_with(end) {
+            candidates.push(pos);
+        }
+        pos += 1 + *block_size as usize;
+    }
+    if candidates.len() > 1
+        && let Some(complete) = candidates.iter().find(|pos| is_complete(&data[..**pos]))
+    {
+        return Some(*complete);
     }
-    Some(pos)
+    candidates.first().copied()
+}
+
+/// True if the compressed data in the gif blocks ends with an end code
+fn is_complete(blocks: &[u8]) -> bool {
+    weezl::decode::Decoder::new(BitOrder::Lsb, 8)
+        .decode(&from_blocks(blocks))
+        .is_ok()
 }
 
 /// Convert bytes to gif blocks
-- 
2.43.0


From 39ac0619da99d01cdb5efe9e7806c06e008cea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:57 +0000
Subject: [PATCH 22/41] fix: a mesh number whose OBJ text narrows to its
 neighbour keeps its value

---
 src/vpx/obj.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/vpx/obj.rs b/src/vpx/obj.rs
index 7fb4a91..859a037 100644
--- a/src/vpx/obj.rs
+++ b/src/vpx/obj.rs
@@ -103,7 +103,7 @@ pub(crate) fn write_obj_to_writer<W: io::Write>(
     vpx_indices: &[VpxFace],
     writer: &mut W,
 ) -> Result<(), Box<dyn Error>> {
-    let mut obj_writer: wavefront_obj_io::IoObjWriter<_, f32> =
+    let mut obj_writer: wavefront_obj_io::IoObjWriter<_, f64> =
         wavefront_obj_io::IoObjWriter::new(&mut *writer);
 
     // // material library
@@ -129,7 +129,12 @@ pub(crate) fn write_obj_to_writer<W: io::Write>(
     obj_writer.write_object_name(name.replace(['\r', '\n'], "_"))?;
 
     for VertexWrapper { vertex, .. } in vpx_vertices {
-        obj_writer.write_vertex(vertex.x, vertex.y, -vertex.z, None)?;
+        obj_writer.write_vertex(
+            obj_number(vertex.x),
+            obj_number(vertex.y),
+            obj_number(-vertex.z),
+            None,
+        )?;
     }
     drop(obj_writer);
     let mut tv_exact = Vec::with_capacity(vpx_vertices.len());
@@ -138,10 +143,10 @@ pub(crate) fn write_obj_to_writer<W: io::Write>(
         // These lines are written manually as the V value may need more
         // precision than the f32 obj writer can provide, see flipped_v.
         let v = flipped_v(vertex.tv);
-        writeln!(writer, "vt {} {}", vertex.tu, v.text)?;
+        writeln!(writer, "vt {} {}", obj_number(vertex.tu), v.text)?;
         tv_exact.push(v.exact);
     }
-    let mut obj_writer: wavefront_obj_io::IoObjWriter<_, f32> =
+    let mut obj_writer: wavefront_obj_io::IoObjWriter<_, f64> =
         wavefront_obj_io::IoObjWriter::new(&mut *writer);
     let mut unrepresentable_vertices = 0u32;
     for (
@@ -160,7 +165,7 @@ pub(crate) fn write_obj_to_writer<W: io::Write>(
         let x = if vertex.nx.is_nan() { 0.0 } else { vertex.nx };
         let y = if vertex.ny.is_nan() { 0.0 } else { vertex.ny };
         let z = if vertex.nz.is_nan() { 0.0 } else { -vertex.nz };
-        obj_writer.write_normal(x, y, z)?;
+        obj_writer.write_normal(obj_number(x), obj_number(y), obj_number(z))?;
     }
     if unrepresentable_vertices > 0 {
         warn!(
@@ -185,6 +190,17 @@ pub(crate) fn write_obj_to_writer<W: io::Write>(
     Ok(())
 }
 
+/// The number to write to an obj file for an f32 value: the one with the value's
+/// shortest text, unless the read side would recover another value from it. It
+/// parses at f64 precision and narrows to f32, and that second rounding can go
+/// to the neighbouring value (as for 7.038531e-26).
+fn obj_number(value: f32) -> f64 {
+    match value.to_string().parse::<f64>() {
+        Ok(shortest) if shortest as f32 == value => shortest,
+        _ => f64::from(value),
+    }
+}
+
 /// True when the obj text cannot represent this vertex exactly:
 ///
 /// * a value is NaN, whose payload bits do not survive any text format
-- 
2.43.0


From 5fc648f0bc5f1c10d818af907c0a81c1e3a932e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:26 +0000
Subject: [PATCH 23/41] fix: an OBJ mesh whose faces or coordinate lists do not
 fit its vertices is not misread

---
 src/vpx/obj.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vpx/obj.rs b/src/vpx/obj.rs
index 859a037..3f11e0a 100644
--- a/src/vpx/obj.rs
+++ b/src/vpx/obj.rs
@@ -541,7 +541,13 @@ impl VpxObjReader {
             ));
         }
 
-        if self.needs_normalize {
+        // The arrays can only be returned as-is if they describe the same
+        // vertices and the faces stay within them.
+        let aligned = self.texture_coordinates.len() >= self.vertices.len()
+            && self.normals.len() >= self.vertices.len()
+            && (self.raw_faces.iter().flatten()).all(|c| c.v as usize <= self.vertices.len());
+
+        if self.needs_normalize || !aligned {
             let normalized = triangulate_and_dedup(
                 &self.raw_faces,
                 self.vertices.len(),
-- 
2.43.0


From 9199ded8e5affd17d126fc3afe9295bdff627665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:42 +0000
Subject: [PATCH 24/41] fix: a glTF mesh without the vpx normals keeps its
 normals

---
 src/vpx/gltf.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vpx/gltf.rs b/src/vpx/gltf.rs
index bcb62bd..ff9c8ae 100644
--- a/src/vpx/gltf.rs
+++ b/src/vpx/gltf.rs
@@ -585,6 +585,12 @@ fn parse_gltf_payload(
         byte_cursor.write_f32::<LittleEndian>(y)?;
         byte_cursor.write_f32::<LittleEndian>(z)?;
 
+        // Write normals (12-23), as the extras may be missing
+        let mut byte_cursor = std::io::Cursor::new(&mut bytes[12..24]);
+        byte_cursor.write_f32::<LittleEndian>(nx)?;
+        byte_cursor.write_f32::<LittleEndian>(ny)?;
+        byte_cursor.write_f32::<LittleEndian>(nz)?;
+
         // Restore VPX normal bytes (12-23) from extras
         if let Some(ref normals) = vpx_normals
             && i < normals.len()
-- 
2.43.0


From e7e16980a357b5eea4e5c813bfd20e20296f9c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:44 +0000
Subject: [PATCH 25/41] fix: glTF export keeps invisible flippers, gates,
 targets, triggers and plungers when asked to

The exporter already decides by export_invisible_items; the builders dropped these items once more.
---
 src/vpx/export/gltf_export.rs | 20 ++++++++++----------
 src/vpx/mesh/plungers/mod.rs  |  4 ++++
 src/vpx/mesh/triggers/mod.rs  |  6 ++++++
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 20b3a3d..6fb1eac 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -111,17 +111,17 @@ use crate::vpx::mesh::balls::build_ball_mesh;
 use crate::vpx::mesh::builtin_primitive::effective_primitive_mesh;
 use crate::vpx::mesh::bumpers::build_bumper_meshes;
 use crate::vpx::mesh::flashers::build_flasher_mesh;
-use crate::vpx::mesh::flippers::build_flipper_meshes;
-use crate::vpx::mesh::gates::build_gate_meshes;
-use crate::vpx::mesh::hittargets::build_hit_target_mesh;
+use crate::vpx::mesh::flippers::build_flipper_meshes_unchecked;
+use crate::vpx::mesh::gates::build_gate_meshes_unchecked;
+use crate::vpx::mesh::hittargets::build_hit_target_mesh_unchecked;
 use crate::vpx::mesh::kickers::build_kicker_meshes;
 use crate::vpx::mesh::lights::{build_light_insert_mesh, build_light_meshes};
 use crate::vpx::mesh::playfields::build_playfield_mesh;
-use crate::vpx::mesh::plungers::build_plunger_meshes;
+use crate::vpx::mesh::plungers::build_plunger_meshes_unchecked;
 use crate::vpx::mesh::ramps::build_ramp_mesh;
 use crate::vpx::mesh::rubbers::build_rubber_mesh;
 use crate::vpx::mesh::spinners::build_spinner_meshes;
-use crate::vpx::mesh::triggers::build_trigger_mesh;
+use crate::vpx::mesh::triggers::build_trigger_mesh_unchecked;
 use crate::vpx::mesh::walls::build_wall_meshes;
 use crate::vpx::obj::VpxFace;
 use crate::vpx::units::{ExportUnits, mm_to_vpu, vpu_to_units};
@@ -1092,7 +1092,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                     continue;
                 }
                 // TODO: get surface height from the table
-                if let Some(flipper_meshes) = build_flipper_meshes(flipper, 0.0) {
+                if let Some(flipper_meshes) = build_flipper_meshes_unchecked(flipper, 0.0) {
                     let group_info = item_group_info_for(flipper);
                     let flipper_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1304,7 +1304,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 if !options.export_invisible_items && !hit_target.is_visible {
                     continue;
                 }
-                if let Some((vertices, indices)) = build_hit_target_mesh(hit_target) {
+                if let Some((vertices, indices)) = build_hit_target_mesh_unchecked(hit_target) {
                     let group_info = item_group_info_for(hit_target);
                     let hit_target_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1346,7 +1346,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 }
                 let surface_height =
                     get_surface_height(vpx, &gate.surface, gate.center.x, gate.center.y);
-                if let Some(gate_meshes) = build_gate_meshes(gate) {
+                if let Some(gate_meshes) = build_gate_meshes_unchecked(gate) {
                     let group_info = item_group_info_for(gate);
                     let gate_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1410,7 +1410,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 }
                 let surface_height =
                     get_surface_height(vpx, &trigger.surface, trigger.center.x, trigger.center.y);
-                if let Some((vertices, indices)) = build_trigger_mesh(trigger) {
+                if let Some((vertices, indices)) = build_trigger_mesh_unchecked(trigger) {
                     let group_info = item_group_info_for(trigger);
                     let trigger_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
@@ -1570,7 +1570,7 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 }
                 let surface_height =
                     get_surface_height(vpx, &plunger.surface, plunger.center.x, plunger.center.y);
-                let plunger_meshes = build_plunger_meshes(plunger);
+                let plunger_meshes = build_plunger_meshes_unchecked(plunger);
                 let material_name = if plunger.material.is_empty() {
                     None
                 } else {
diff --git a/src/vpx/mesh/plungers/mod.rs b/src/vpx/mesh/plungers/mod.rs
index 5dde909..a3cbfd3 100644
--- a/src/vpx/mesh/plungers/mod.rs
+++ b/src/vpx/mesh/plungers/mod.rs
@@ -956,7 +956,11 @@ pub fn build_plunger_meshes(plunger: &Plunger) -> PlungerMeshes {
             tip: None,
         };
     }
+    build_plunger_meshes_unchecked(plunger)
+}
 
+/// Like [`build_plunger_meshes`] but skips the runtime visibility check.
+pub(crate) fn build_plunger_meshes_unchecked(plunger: &Plunger) -> PlungerMeshes {
     match plunger.plunger_type {
         PlungerType::Unknown | PlungerType::Flat => {
             // Flat plunger: just a simple rod
diff --git a/src/vpx/mesh/triggers/mod.rs b/src/vpx/mesh/triggers/mod.rs
index 74902e9..ea20b00 100644
--- a/src/vpx/mesh/triggers/mod.rs
+++ b/src/vpx/mesh/triggers/mod.rs
@@ -131,7 +131,13 @@ pub fn build_trigger_mesh(trigger: &Trigger) -> Option<(Vec<VertexWrapper>, Vec<
     if !trigger.is_visible {
         return None;
     }
+    build_trigger_mesh_unchecked(trigger)
+}
 
+/// Like [`build_trigger_mesh`] but skips the runtime visibility check.
+pub(crate) fn build_trigger_mesh_unchecked(
+    trigger: &Trigger,
+) -> Option<(Vec<VertexWrapper>, Vec<VpxFace>)> {
     let (mesh, indices) = get_mesh_for_shape(&trigger.shape)?;
 
     let z_offset = get_z_offset(&trigger.shape);
-- 
2.43.0


From d1370140c3cea22e9502eee56afdbe9c7877129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:01 +0000
Subject: [PATCH 26/41] fix: glTF export does not panic when the playfield
 image has no data

---
 src/vpx/export/gltf_export.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 6fb1eac..c72b3ad 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -658,6 +658,7 @@ fn calculate_playfield_roughness(reflection_strength: f32, fallback_roughness: f
 fn playfield_material(
     vpx: &VPX,
     playfield_image: &ImageData,
+    image_bytes: &[u8],
     playfield_material_name: &str,
     materials: &HashMap<String, GltfMaterial>,
     gltf_samplers: &mut Vec<serde_json::Value>,
@@ -666,8 +667,6 @@ fn playfield_material(
     buffer_views: &mut Vec<serde_json::Value>,
     bin_data: &mut Vec<u8>,
 ) -> Value {
-    let image_bytes = get_image_bytes(playfield_image).unwrap();
-
     // Add sampler
     let sampler_idx = gltf_samplers.len();
     gltf_samplers.push(json!({
@@ -679,7 +678,7 @@ fn playfield_material(
 
     // Write image data to binary buffer
     let image_offset = bin_data.len();
-    bin_data.extend_from_slice(&image_bytes);
+    bin_data.extend_from_slice(image_bytes);
     let image_length = image_bytes.len();
 
     // Pad to 4-byte alignment for next data
@@ -1948,10 +1947,13 @@ fn build_combined_gltf_payload(
     let mut buffer_views = Vec::new();
 
     // Add playfield material with texture if available
-    if let Some(image) = playfield_image {
+    if let Some(image) = playfield_image
+        && let Some(image_bytes) = get_image_bytes(image)
+    {
         let pf_material = playfield_material(
             vpx,
             image,
+            &image_bytes,
             playfield_material_name,
             materials,
             &mut gltf_samplers,
-- 
2.43.0


From 8394f60700832c580f7616e2b00853810d8aad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:05 +0000
Subject: [PATCH 27/41] fix: glTF float data is aligned after an odd number of
 2-byte faces

---
 src/vpx/export/gltf_export.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index c72b3ad..3898ad7 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -2438,6 +2438,11 @@ fn build_combined_gltf_payload(
         }
         let indices_length = bin_data.len() - indices_offset;
 
+        // Pad to 4-byte alignment for the float data that follows
+        while !bin_data.len().is_multiple_of(4) {
+            bin_data.push(0);
+        }
+
         // Calculate bounds in glTF coordinate space (after transformation and scaling)
         // VPX (x, y, z) → glTF (x * scale, gltf_y = z * scale, y * scale)
         let (min_x, max_x, min_y, max_y, min_z, max_z) = mesh.vertices.iter().fold(
-- 
2.43.0


From e890375c1b9757641c777c6b80e75a79e7610e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:11 +0000
Subject: [PATCH 28/41] fix: glTF export skips primitives whose mesh is empty

They became buffer views without bytes and null bounds.
---
 src/vpx/export/gltf_export.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 3898ad7..e7b409b 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -804,7 +804,10 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 if !options.export_invisible_items && !visible {
                     continue;
                 }
-                if let Ok(Some(read_mesh)) = effective_primitive_mesh(primitive) {
+                if let Ok(Some(read_mesh)) = effective_primitive_mesh(primitive)
+                    && !read_mesh.vertices.is_empty()
+                    && !read_mesh.indices.is_empty()
+                {
                     let (transformed, translation) =
                         transform_primitive_vertices(read_mesh.vertices, primitive, options.units);
 
-- 
2.43.0


From 912dba19f93c78e6117ce771cc33bf6a5e3e2dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:57 +0000
Subject: [PATCH 29/41] fix: glTF export skips invisible lights unless
 invisible items are asked for

They were always exported; the point light of an invisible light is now hidden like its meshes.
---
 src/vpx/export/gltf_export.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index e7b409b..b5fe6a0 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -1450,11 +1450,14 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                     continue;
                 }
 
+                let is_visible = light.visible.unwrap_or(true);
+                if !options.export_invisible_items && !is_visible {
+                    continue;
+                }
+
                 let surface_height =
                     get_surface_height(vpx, &light.surface, light.center.x, light.center.y);
 
-                let is_visible = light.visible.unwrap_or(true);
-
                 let group_info = item_group_info_for(light);
                 let light_layer_name = group_info.layer_name.clone();
                 item_groups.push(group_info);
@@ -1930,6 +1933,7 @@ fn build_combined_gltf_payload(
     playfield_image: Option<&ImageData>,
     playfield_material_name: &str,
     units: ExportUnits,
+    export_invisible_items: bool,
 ) -> io::Result<(serde_json::Value, Vec<u8>)> {
     if meshes.is_empty() {
         return Err(io::Error::new(
@@ -2017,7 +2021,7 @@ fn build_combined_gltf_payload(
     let mut uses_transmission_extension = false;
 
     // Track whether we use the KHR_node_visibility extension
-    let uses_node_visibility_extension = meshes.iter().any(|m| !m.visible);
+    let mut uses_node_visibility_extension = meshes.iter().any(|m| !m.visible);
 
     // Track per-mesh material indices for meshes with color tint (unique materials)
     // Key: mesh index, Value: material index
@@ -2715,7 +2719,7 @@ fn build_combined_gltf_payload(
     //   - global_emission_scale: overall multiplier applied to everything
 
     // // Collect game item lights and add them
-    // // Track light info for creating nodes later: (name, x, y, z, layer_name)
+    // // Track light info for creating nodes later: (name, x, y, z, visible)
     // NOTE: VPinball lights can have a polygon shape defined by drag_points,
     // constraining the light to that area. glTF only supports point/spot/directional
     // lights, so we export as point lights positioned at the center. The polygon
@@ -2725,7 +2729,7 @@ fn build_combined_gltf_payload(
     // We only export lights whose names start with "GI" (case-insensitive) to avoid
     // cluttering the scene with too many lights. GI lights are typically the general
     // illumination lights that provide ambient lighting to the table.
-    let mut game_lights: Vec<(String, f32, f32, f32, Option<String>)> = Vec::new();
+    let mut game_lights: Vec<(String, f32, f32, f32, bool)> = Vec::new();
 
     for gameitem in &vpx.gameitems {
         if let GameItemEnum::Light(light) = gameitem {
@@ -2734,6 +2738,12 @@ fn build_combined_gltf_payload(
                 continue;
             }
 
+            // Skip invisible lights, like any other invisible item
+            let visible = light.visible.unwrap_or(true);
+            if !export_invisible_items && !visible {
+                continue;
+            }
+
             // Only include lights whose names start with "gi" (case-insensitive)
             if !light.name.to_lowercase().starts_with("gi") {
                 continue;
@@ -2789,7 +2799,7 @@ fn build_combined_gltf_payload(
                 light.center.x,
                 light.center.y,
                 light_z,
-                get_layer_name(&light.editor_layer_name, light.editor_layer),
+                visible,
             ));
         }
     }
@@ -2827,14 +2837,14 @@ fn build_combined_gltf_payload(
 
     // Add game item light nodes (GI lights only)
     // Light indices start at 2 (after TableLight0 and TableLight1)
-    for (i, (name, x, y, z, _layer_name)) in game_lights.into_iter().enumerate() {
+    for (i, (name, x, y, z, visible)) in game_lights.into_iter().enumerate() {
         let light_idx = i + 2; // Offset by 2 for table lights
 
         let gltf_x = vpu_to_units(x, units);
         let gltf_y = vpu_to_units(z, units); // VPX Z -> glTF Y
         let gltf_z = vpu_to_units(y, units); // VPX Y -> glTF Z
 
-        let light_node = json!({
+        let mut light_node = json!({
             "name": format!("{}_light", name),
             "translation": [gltf_x, gltf_y, gltf_z],
             "extensions": {
@@ -2843,6 +2853,10 @@ fn build_combined_gltf_payload(
                 }
             }
         });
+        if !visible {
+            light_node["extensions"]["KHR_node_visibility"] = json!({ "visible": false });
+            uses_node_visibility_extension = true;
+        }
 
         let node_idx = nodes.len();
         nodes.push(light_node);
@@ -3181,6 +3195,7 @@ pub fn export_gltf(
         playfield_image,
         playfield_material_name,
         options.units,
+        options.export_invisible_items,
     )?;
 
     match options.format {
-- 
2.43.0


From cfa2f1c5ee0b51e9518174a9efffedabdb3c7c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:02 +0000
Subject: [PATCH 30/41] fix: the buffer URI of an exported .gltf is
 percent-encoded

File names with spaces, percent signs or # named no file.
---
 src/vpx/export/gltf_export.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index b5fe6a0..dc312fe 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -3052,6 +3052,20 @@ fn write_glb<W: io::Write>(
     Ok(())
 }
 
+/// Percent-encodes a file name for use as a relative URI reference
+fn uri_encode(file_name: &str) -> String {
+    let mut uri = String::with_capacity(file_name.len());
+    for byte in file_name.bytes() {
+        match byte {
+            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => {
+                uri.push(byte as char)
+            }
+            _ => uri.push_str(&format!("%{byte:02X}")),
+        }
+    }
+    uri
+}
+
 /// Output format for glTF export
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
 pub enum GltfFormat {
@@ -3221,7 +3235,7 @@ pub fn export_gltf(
             if let Some(buffers) = json.get_mut("buffers").and_then(|b| b.as_array_mut())
                 && let Some(buffer) = buffers.first_mut()
             {
-                buffer["uri"] = json!(bin_filename);
+                buffer["uri"] = json!(uri_encode(&bin_filename));
             }
 
             // Write the .bin file
-- 
2.43.0


From bb6e87c3918be7827d63c88ac3aa8f515b679c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:29 +0000
Subject: [PATCH 31/41] fix: a glTF mesh that shares the playfield's material
 does not show the playfield image

---
 src/vpx/export/gltf_export.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index dc312fe..52d4a61 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -1969,15 +1969,12 @@ fn build_combined_gltf_payload(
             &mut buffer_views,
             &mut bin_data,
         );
-        material_index_map.insert(playfield_material_name.to_string(), gltf_materials.len());
+        // Not in material_index_map: other meshes may use the material of this name,
+        // but without the playfield image
         gltf_materials.push(pf_material);
     }
 
     for (name, mat) in materials {
-        // Skip if we already added a playfield material with texture
-        if material_index_map.contains_key(name) {
-            continue;
-        }
         material_index_map.insert(name.clone(), gltf_materials.len());
 
         // Note: VPinball's glossy_color affects specular highlights from lights,
-- 
2.43.0


From f46173029e3451bc8c16d6c6b5f94e7f799af77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:45 +0000
Subject: [PATCH 32/41] fix: glTF export skips meshes without geometry such as
 an unshaped plunger tip

---
 src/vpx/export/gltf_export.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 52d4a61..73b80ab 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -1919,6 +1919,10 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
         meshes.push(build_implicit_playfield_mesh(vpx, &playfield_material_name));
     }
 
+    // A mesh without geometry (e.g. the tip of a plunger whose tip shape has no
+    // points) would get zero-length buffer views
+    meshes.retain(|mesh| !mesh.vertices.is_empty() && !mesh.indices.is_empty());
+
     (meshes, item_groups)
 }
 
-- 
2.43.0


From 6bf354cfed93b052474d376744ebac63ce3d8b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:12 +0000
Subject: [PATCH 33/41] fix: OBJ materials with different names or textures do
 not share one newmtl name

---
 src/vpx/export/obj_export.rs | 44 +++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index fb51d96..4f195cd 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -274,9 +274,10 @@ struct WriterState<'a> {
     /// Whether to extract images and emit `map_*` lines. See
     /// [`ObjExportOptions::extract_textures`].
     extract_textures: bool,
-    /// `(material_name, texture_name)` pairs already emitted as a
-    /// `newmtl` block. Only consulted when `dedup_mtl_blocks` is true.
-    seen_mtl_pairs: HashSet<(String, String)>,
+    /// Name of the `newmtl` block for every `(material_name,
+    /// texture_name)` pair emitted so far. The texture is empty when no
+    /// textures are extracted, as it is not part of the block then.
+    mtl_names: HashMap<(String, String), String>,
     /// Multiplier applied to VPU vertex positions on write. Derived
     /// once from `ObjExportOptions::units`.
     position_scale: f32,
@@ -304,7 +305,7 @@ impl<'a> WriterState<'a> {
             images_written: HashSet::new(),
             dedup_mtl_blocks: options.dedup_mtl_blocks,
             extract_textures: options.extract_textures,
-            seen_mtl_pairs: HashSet::new(),
+            mtl_names: HashMap::new(),
             position_scale: options.units.scale(),
             include_plunger: options.include_plunger,
         }
@@ -1415,16 +1416,33 @@ fn emit_mtl_block<M: MtlWriter<f32>>(
     // recurs. Force dedup whenever we extract textures so we only
     // write the block on first sight.
     let force_dedup = state.extract_textures && map_path.is_some();
-    if state.dedup_mtl_blocks || force_dedup {
-        let key = (
-            material_name.to_string(),
-            texture_name.unwrap_or("").to_string(),
-        );
-        if !state.seen_mtl_pairs.insert(key) {
-            // Pair already emitted - skip this newmtl block.
-            return Ok(mtl_name);
+    let mtl_name = if state.dedup_mtl_blocks || state.extract_textures {
+        let texture = if state.extract_textures {
+            texture_name.unwrap_or("")
+        } else {
+            ""
+        };
+        let key = (material_name.to_string(), texture.to_string());
+        if let Some(known) = state.mtl_names.get(&key) {
+            if state.dedup_mtl_blocks || force_dedup {
+                // Pair already emitted - skip this newmtl block.
+                return Ok(known.clone());
+            }
+            known.clone()
+        } else {
+            // Different pairs can end up with the same sanitised name
+            let mut unique = mtl_name.clone();
+            let mut n = 1;
+            while state.mtl_names.values().any(|name| *name == unique) {
+                n += 1;
+                unique = format!("{mtl_name}_{n}");
+            }
+            state.mtl_names.insert(key, unique.clone());
+            unique
         }
-    }
+    } else {
+        mtl_name
+    };
 
     write_mtl_block(mtl, state, &mtl_name, material_name, map_path.as_deref())?;
     Ok(mtl_name)
-- 
2.43.0


From 4c0f68cde3ab217c48e28c327de39d646b81d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:54 +0000
Subject: [PATCH 34/41] fix: exported flippers stand on their surface

---
 src/vpx/export/gltf_export.rs | 7 +++++--
 src/vpx/export/obj_export.rs  | 3 ++-
 src/vpx/mesh/flippers/mod.rs  | 4 ++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 73b80ab..3c190d0 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -1093,8 +1093,11 @@ fn collect_meshes(vpx: &VPX, options: &GltfExportOptions) -> (Vec<NamedMesh>, Ve
                 if !options.export_invisible_items && !flipper.is_visible {
                     continue;
                 }
-                // TODO: get surface height from the table
-                if let Some(flipper_meshes) = build_flipper_meshes_unchecked(flipper, 0.0) {
+                let surface_height =
+                    get_surface_height(vpx, &flipper.surface, flipper.center.x, flipper.center.y);
+                if let Some(flipper_meshes) =
+                    build_flipper_meshes_unchecked(flipper, surface_height)
+                {
                     let group_info = item_group_info_for(flipper);
                     let flipper_layer_name = group_info.layer_name.clone();
                     item_groups.push(group_info);
diff --git a/src/vpx/export/obj_export.rs b/src/vpx/export/obj_export.rs
index 4f195cd..b1ad3b1 100644
--- a/src/vpx/export/obj_export.rs
+++ b/src/vpx/export/obj_export.rs
@@ -978,7 +978,8 @@ fn write_flipper<O: ObjWriter<f32>, M: MtlWriter<f32>>(
     flipper: &crate::vpx::gameitem::flipper::Flipper,
 ) -> io::Result<()> {
     // VPinball's `Flipper::ExportMesh` has no `m_d.m_visible` guard.
-    let Some(meshes) = build_flipper_meshes_unchecked(flipper, 0.0) else {
+    let surface_height = state.surface_height(&flipper.surface, flipper.center.x, flipper.center.y);
+    let Some(meshes) = build_flipper_meshes_unchecked(flipper, surface_height) else {
         return Ok(());
     };
     let translation = meshes.center;
diff --git a/src/vpx/mesh/flippers/mod.rs b/src/vpx/mesh/flippers/mod.rs
index da2f519..dba31c4 100644
--- a/src/vpx/mesh/flippers/mod.rs
+++ b/src/vpx/mesh/flippers/mod.rs
@@ -608,7 +608,7 @@ pub(crate) fn build_flipper_meshes_unchecked(
         let mut vert = Vertex3dNoTex2 {
             x: rotated.x,
             y: rotated.y,
-            z: rotated.z * flipper.height + surface_height,
+            z: rotated.z * flipper.height,
             nx: FLIPPER_BASE_MESH[i].nx,
             ny: FLIPPER_BASE_MESH[i].ny,
             nz: FLIPPER_BASE_MESH[i].nz,
@@ -739,7 +739,7 @@ pub(crate) fn build_flipper_meshes_unchecked(
             let mut vert = Vertex3dNoTex2 {
                 x: rotated.x,
                 y: rotated.y,
-                z: rotated.z * rubber_width + (surface_height + rubber_height),
+                z: rotated.z * rubber_width + rubber_height,
                 nx: FLIPPER_BASE_MESH[i].nx,
                 ny: FLIPPER_BASE_MESH[i].ny,
                 nz: FLIPPER_BASE_MESH[i].nz,
-- 
2.43.0


From 01030049487fdf952273c54d210d61691e609b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:12 +0000
Subject: [PATCH 35/41] fix: a glTF mesh is read from the accessors its
 primitive refers to

The reader took the accessors 0 to 3 by position, ignored their offsets and
the stride of their view, knew only two index widths and required normals,
texture coordinates and indices, so that files of other tools were misread.
---
 src/vpx/gltf.rs | 257 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 165 insertions(+), 92 deletions(-)

diff --git a/src/vpx/gltf.rs b/src/vpx/gltf.rs
index ff9c8ae..7e5e4e6 100644
--- a/src/vpx/gltf.rs
+++ b/src/vpx/gltf.rs
@@ -12,7 +12,7 @@
 use crate::filesystem::FileSystem;
 use crate::vpx::gameitem::primitive::VertexWrapper;
 use crate::vpx::obj::VpxFace;
-use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
+use byteorder::{LittleEndian, WriteBytesExt};
 use serde_json::json;
 use std::error::Error;
 use std::io::{self, Read};
@@ -29,6 +29,7 @@ pub(crate) const GLB_JSON_CHUNK_TYPE: &[u8; 4] = b"JSON";
 pub(crate) const GLB_BIN_CHUNK_TYPE: &[u8; 4] = b"BIN\0";
 pub(crate) const GLTF_PRIMITIVE_MODE_TRIANGLES: u32 = 4;
 pub(crate) const GLTF_COMPONENT_TYPE_FLOAT: u32 = 5126;
+pub(crate) const GLTF_COMPONENT_TYPE_UNSIGNED_BYTE: u32 = 5121;
 pub(crate) const GLTF_COMPONENT_TYPE_UNSIGNED_SHORT: u32 = 5123;
 pub(crate) const GLTF_COMPONENT_TYPE_UNSIGNED_INT: u32 = 5125;
 pub(crate) const GLTF_TARGET_ARRAY_BUFFER: u32 = 34962;
@@ -491,15 +492,6 @@ fn parse_gltf_payload(
     bin_data: &[u8],
 ) -> io::Result<(String, Vec<VertexWrapper>, Vec<VpxFace>)> {
     use crate::vpx::model::Vertex3dNoTex2;
-    use byteorder::{LittleEndian, ReadBytesExt};
-
-    // Parse GLTF structure
-    let accessors = gltf_json["accessors"]
-        .as_array()
-        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidData, "Missing accessors"))?;
-    let buffer_views = gltf_json["bufferViews"]
-        .as_array()
-        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidData, "Missing bufferViews"))?;
 
     // Extract mesh name
     let name = gltf_json["meshes"][0]["name"]
@@ -507,63 +499,52 @@ fn parse_gltf_payload(
         .unwrap_or("")
         .to_string();
 
+    let primitive = &gltf_json["meshes"][0]["primitives"][0];
+
     // Get VPX normals from extras
-    let vpx_normals = gltf_json["meshes"][0]["primitives"][0]["extras"]["vpx_normals"]
-        .as_array()
-        .map(|arr| {
-            arr.iter()
-                .map(|v| v.as_str().unwrap_or("").to_string())
-                .collect::<Vec<String>>()
-        });
-
-    // Read positions (accessor 0)
-    let pos_accessor = json_element(accessors, 0, "accessor")?;
-    let pos_view_idx = json_usize(pos_accessor, "bufferView")?;
-    let pos_view = json_element(buffer_views, pos_view_idx, "bufferView")?;
-    let pos_offset = json_usize(pos_view, "byteOffset")?;
-    let pos_count = json_usize(pos_accessor, "count")?;
-
-    // Read normals (accessor 1)
-    let norm_accessor = json_element(accessors, 1, "accessor")?;
-    let norm_view_idx = json_usize(norm_accessor, "bufferView")?;
-    let norm_view = json_element(buffer_views, norm_view_idx, "bufferView")?;
-    let norm_offset = json_usize(norm_view, "byteOffset")?;
-
-    // Read texcoords (accessor 2)
-    let tex_accessor = json_element(accessors, 2, "accessor")?;
-    let tex_view_idx = json_usize(tex_accessor, "bufferView")?;
-    let tex_view = json_element(buffer_views, tex_view_idx, "bufferView")?;
-    let tex_offset = json_usize(tex_view, "byteOffset")?;
-
-    // Read indices (accessor 3)
-    let idx_accessor = json_element(accessors, 3, "accessor")?;
-    let idx_view_idx = json_usize(idx_accessor, "bufferView")?;
-    let idx_view = json_element(buffer_views, idx_view_idx, "bufferView")?;
-    let idx_offset = json_usize(idx_view, "byteOffset")?;
-    let idx_count = json_usize(idx_accessor, "count")?;
-    let idx_component_type = json_usize(idx_accessor, "componentType")?;
-    let use_u32 = idx_component_type == GLTF_COMPONENT_TYPE_UNSIGNED_INT as usize; // UNSIGNED_INT
+    let vpx_normals = primitive["extras"]["vpx_normals"].as_array().map(|arr| {
+        arr.iter()
+            .map(|v| v.as_str().unwrap_or("").to_string())
+            .collect::<Vec<String>>()
+    });
+
+    let mode = primitive["mode"].as_u64();
+    if mode.is_some_and(|mode| mode != GLTF_PRIMITIVE_MODE_TRIANGLES as u64) {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            "Expected a mesh made of triangles",
+        ));
+    }
+
+    // Read the accessors the primitive refers to
+    let attributes = &primitive["attributes"];
+    let positions = json_usize(attributes, "POSITION")?;
+    let positions = read_glb_floats(gltf_json, bin_data, positions, "VEC3")?;
+    let optional_floats = |key: &str, accessor_type: &str| match &attributes[key] {
+        serde_json::Value::Null => Ok(None),
+        _ => {
+            let index = json_usize(attributes, key)?;
+            let values = read_glb_floats(gltf_json, bin_data, index, accessor_type)?;
+            if values.len() < positions.len() {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    format!("Expected {} values for {key}", positions.len()),
+                ));
+            }
+            Ok(Some(values))
+        }
+    };
+    let normals = optional_floats("NORMAL", "VEC3")?;
+    let texcoords = optional_floats("TEXCOORD_0", "VEC2")?;
 
     // Build vertex data in the same format as write_glb accepts
-    let positions = bytes_at(bin_data, pos_offset, pos_count.saturating_mul(12))?;
-    let normals = bytes_at(bin_data, norm_offset, pos_count.saturating_mul(12))?;
-    let texcoords = bytes_at(bin_data, tex_offset, pos_count.saturating_mul(8))?;
-    let mut vertices = Vec::with_capacity(pos_count);
-
-    for i in 0..pos_count {
-        let mut pos_cursor = io::Cursor::new(&positions[i * 12..]);
-        let x = pos_cursor.read_f32::<LittleEndian>()?;
-        let y = pos_cursor.read_f32::<LittleEndian>()?;
-        let z = pos_cursor.read_f32::<LittleEndian>()?;
-
-        let mut norm_cursor = io::Cursor::new(&normals[i * 12..]);
-        let nx = norm_cursor.read_f32::<LittleEndian>()?;
-        let ny = norm_cursor.read_f32::<LittleEndian>()?;
-        let nz = norm_cursor.read_f32::<LittleEndian>()?;
-
-        let mut tex_cursor = io::Cursor::new(&texcoords[i * 8..]);
-        let tu = tex_cursor.read_f32::<LittleEndian>()?;
-        let tv = tex_cursor.read_f32::<LittleEndian>()?;
+    let mut vertices = Vec::with_capacity(positions.len());
+
+    for (i, &[x, y, z]) in positions.iter().enumerate() {
+        let [nx, ny, nz] = normals.as_ref().map_or([0.0; 3], |normals| normals[i]);
+        let [tu, tv, _] = texcoords
+            .as_ref()
+            .map_or([0.0; 3], |texcoords| texcoords[i]);
 
         let vertex = Vertex3dNoTex2 {
             x,
@@ -608,41 +589,133 @@ fn parse_gltf_payload(
         vertices.push(VertexWrapper::new(bytes, vertex));
     }
 
-    let indices = read_glb_indices(bin_data, idx_offset, idx_count, use_u32)?;
+    let indices = match &primitive["indices"] {
+        // not indexed, the vertices are used in order
+        serde_json::Value::Null => (0..positions.len() as i64).collect(),
+        _ => read_glb_indices(gltf_json, bin_data, json_usize(primitive, "indices")?)?,
+    };
+    let indices = indices
+        .chunks_exact(3)
+        .map(|face| VpxFace::new(face[0], face[1], face[2]))
+        .collect();
 
     Ok((name, vertices, indices))
 }
 
+/// The component type of an accessor and the bytes of each of its elements
+fn accessor_elements<'a>(
+    gltf_json: &serde_json::Value,
+    bin_data: &'a [u8],
+    index: usize,
+    accessor_type: &str,
+) -> io::Result<(u32, Vec<&'a [u8]>)> {
+    let unsupported = |what: &str| {
+        io::Error::new(
+            io::ErrorKind::InvalidData,
+            format!("Unsupported {what} in accessor {index}"),
+        )
+    };
+    let values = |key: &str| {
+        gltf_json[key]
+            .as_array()
+            .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidData, format!("Missing {key}")))
+    };
+    let optional_usize = |value: &serde_json::Value, key: &str| match value[key] {
+        serde_json::Value::Null => Ok(0),
+        _ => json_usize(value, key),
+    };
+    let accessor = json_element(values("accessors")?, index, "accessor")?;
+    if accessor["type"] != accessor_type {
+        return Err(unsupported("type"));
+    }
+    if !accessor["sparse"].is_null() {
+        return Err(unsupported("sparse data"));
+    }
+    let component_type = json_usize(accessor, "componentType")? as u32;
+    let component_size = match component_type {
+        GLTF_COMPONENT_TYPE_UNSIGNED_BYTE => 1,
+        GLTF_COMPONENT_TYPE_UNSIGNED_SHORT => 2,
+        GLTF_COMPONENT_TYPE_UNSIGNED_INT | GLTF_COMPONENT_TYPE_FLOAT => 4,
+        _ => return Err(unsupported("component type")),
+    };
+    let element_size = match accessor_type {
+        "VEC3" => 3 * component_size,
+        "VEC2" => 2 * component_size,
+        _ => component_size,
+    };
+    let view_index = json_usize(accessor, "bufferView")?;
+    let view = json_element(values("bufferViews")?, view_index, "bufferView")?;
+    if optional_usize(view, "buffer")? != 0 {
+        return Err(unsupported("buffer"));
+    }
+    let stride = match optional_usize(view, "byteStride")? {
+        0 => element_size,
+        stride if stride >= element_size => stride,
+        _ => return Err(unsupported("stride")),
+    };
+    let offset =
+        optional_usize(view, "byteOffset")?.saturating_add(optional_usize(accessor, "byteOffset")?);
+    let count = json_usize(accessor, "count")?;
+    let length = match count {
+        0 => 0,
+        _ => stride
+            .saturating_mul(count - 1)
+            .saturating_add(element_size),
+    };
+    let data = bytes_at(bin_data, offset, length)?;
+    let elements = (0..count)
+        .map(|i| &data[i * stride..i * stride + element_size])
+        .collect();
+    Ok((component_type, elements))
+}
+
+/// The float vectors of an accessor, missing components are 0
+fn read_glb_floats(
+    gltf_json: &serde_json::Value,
+    bin_data: &[u8],
+    index: usize,
+    accessor_type: &str,
+) -> io::Result<Vec<[f32; 3]>> {
+    let (component_type, elements) = accessor_elements(gltf_json, bin_data, index, accessor_type)?;
+    if component_type != GLTF_COMPONENT_TYPE_FLOAT {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            format!("Expected floats in accessor {index}"),
+        ));
+    }
+    Ok(elements
+        .into_iter()
+        .map(|element| {
+            let mut values = [0.0; 3];
+            for (value, bytes) in values.iter_mut().zip(element.chunks_exact(4)) {
+                *value = f32::from_le_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
+            }
+            values
+        })
+        .collect())
+}
+
 fn read_glb_indices(
+    gltf_json: &serde_json::Value,
     bin_data: &[u8],
-    idx_offset: usize,
-    idx_count: usize,
-    use_u32: bool,
-) -> io::Result<Vec<VpxFace>> {
-    let index_size = if use_u32 { 4 } else { 2 };
-    let index_data = bytes_at(bin_data, idx_offset, idx_count.saturating_mul(index_size))?;
-    let mut indices = Vec::with_capacity(idx_count / 3);
-    for i in 0..idx_count / 3 {
-        let idx = if use_u32 {
-            // Each face has 3 indices, each u32 is 4 bytes, so offset is i * 12
-            let mut c = io::Cursor::new(&index_data[i * 12..]);
-            VpxFace::new(
-                c.read_u32::<LittleEndian>()? as i64,
-                c.read_u32::<LittleEndian>()? as i64,
-                c.read_u32::<LittleEndian>()? as i64,
-            )
-        } else {
-            // Each face has 3 indices, each u16 is 2 bytes, so offset is i * 6
-            let mut c = io::Cursor::new(&index_data[i * 6..]);
-            VpxFace::new(
-                c.read_u16::<LittleEndian>()? as i64,
-                c.read_u16::<LittleEndian>()? as i64,
-                c.read_u16::<LittleEndian>()? as i64,
-            )
-        };
-        indices.push(idx);
+    index: usize,
+) -> io::Result<Vec<i64>> {
+    let (component_type, elements) = accessor_elements(gltf_json, bin_data, index, "SCALAR")?;
+    if component_type == GLTF_COMPONENT_TYPE_FLOAT {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            format!("Expected integers in accessor {index}"),
+        ));
     }
-    Ok(indices)
+    Ok(elements
+        .into_iter()
+        .map(|element| {
+            element
+                .iter()
+                .rev()
+                .fold(0, |value, byte| (value << 8) | *byte as i64)
+        })
+        .collect())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 16396b076d54e644f6b0a1079883d395774890d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:12 +0000
Subject: [PATCH 36/41] fix: the buffer URI of a glTF mesh may be
 percent-encoded

---
 src/vpx/gltf.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/vpx/gltf.rs b/src/vpx/gltf.rs
index 7e5e4e6..4d994ff 100644
--- a/src/vpx/gltf.rs
+++ b/src/vpx/gltf.rs
@@ -356,10 +356,11 @@ pub(crate) fn read_gltf(
                 ));
             }
 
-            let bin_path = gltf_path
-                .parent()
-                .unwrap_or_else(|| Path::new(""))
-                .join(buffer_uri);
+            let folder = gltf_path.parent().unwrap_or_else(|| Path::new(""));
+            let mut bin_path = folder.join(buffer_uri);
+            if !fs.exists(&bin_path) {
+                bin_path = folder.join(percent_decoded(buffer_uri));
+            }
             let _span = info_span!("fs_read").entered();
             let bin_data = fs.read_file(&bin_path)?;
             drop(_span);
@@ -371,6 +372,30 @@ pub(crate) fn read_gltf(
     Ok((vertices, indices))
 }
 
+/// The text of a URI with its percent-encoded bytes decoded
+fn percent_decoded(uri: &str) -> String {
+    let mut bytes = Vec::with_capacity(uri.len());
+    let mut rest = uri.as_bytes();
+    while let Some((&byte, tail)) = rest.split_first() {
+        let hex = |digit: u8| (digit as char).to_digit(16);
+        let escaped = match tail {
+            [high, low, ..] if byte == b'%' => hex(*high).zip(hex(*low)),
+            _ => None,
+        };
+        match escaped {
+            Some((high, low)) => {
+                bytes.push((high * 16 + low) as u8);
+                rest = &tail[2..];
+            }
+            None => {
+                bytes.push(byte);
+                rest = tail;
+            }
+        }
+    }
+    String::from_utf8_lossy(&bytes).into_owned()
+}
+
 /// Reads a GLB file from a reader and returns the name, vertices and indices.
 ///
 /// This function parses the GLB binary format and reconstructs the vertex data
-- 
2.43.0


From bec843a28e7fdc80be9889afc2bbe2d0e54afbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:54 +0000
Subject: [PATCH 37/41] fix: no mesh file is written for a generated mesh
 without geometry

---
 src/vpx/expanded/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vpx/expanded/mod.rs b/src/vpx/expanded/mod.rs
index 2e11b23..c34efc5 100644
--- a/src/vpx/expanded/mod.rs
+++ b/src/vpx/expanded/mod.rs
@@ -416,6 +416,11 @@ pub(super) fn write_mesh_to_file(
     mesh_format: PrimitiveMeshFormat,
     fs: &dyn FileSystem,
 ) -> Result<(), WriteError> {
+    // A mesh without geometry (e.g. the tip of a plunger whose tip shape has no
+    // points) would get zero-length buffer views
+    if vertices.is_empty() || indices.is_empty() {
+        return Ok(());
+    }
     match mesh_format {
         PrimitiveMeshFormat::Obj => write_obj(name, vertices, indices, mesh_path, fs)
             .map_err(|e| WriteError::Io(std::io::Error::other(format!("{e}"))))?,
-- 
2.43.0


From 88e89df4235f44f942c253437e57f0daa1f8e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:23 +0000
Subject: [PATCH 38/41] fix: glTF parts naming an image the table lacks keep
 their material

---
 src/vpx/export/gltf_export.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 3c190d0..2e2fc3c 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -2112,6 +2112,15 @@ fn build_combined_gltf_payload(
         }
     }
 
+    // The image a mesh shows: one that the table doesn't have can't be shown,
+    // such a mesh looks like its material only
+    let shown_image = |mesh: &NamedMesh| {
+        let texture_name = mesh.texture_name.clone()?;
+        texture_index_map
+            .contains_key(&texture_name.to_lowercase())
+            .then_some(texture_name)
+    };
+
     // Second pass: create materials for meshes
     for (mesh_idx, mesh) in meshes.iter().enumerate() {
         let vpx_material = mesh
@@ -2248,7 +2257,7 @@ fn build_combined_gltf_payload(
         // Case 3: Mesh has texture but no color_tint and no transmission
         // If mesh also has a material_name, we need to create a unique material that combines
         // the texture with the material's base color (tint)
-        else if let Some(ref texture_name) = mesh.texture_name {
+        else if let Some(ref texture_name) = shown_image(mesh) {
             let texture_key = texture_name.to_lowercase();
 
             // Check if mesh has a material that provides a base color tint
@@ -2554,7 +2563,7 @@ fn build_combined_gltf_payload(
         // Check mesh_material_map first (for meshes with color tint - unique materials)
         if let Some(&mat_idx) = mesh_material_map.get(&mesh_idx) {
             primitive["material"] = json!(mat_idx);
-        } else if let Some(ref texture_name) = mesh.texture_name {
+        } else if let Some(ref texture_name) = shown_image(mesh) {
             // Prioritize texture-based material when mesh has a texture
             // This ensures the texture is applied even if the mesh also has a material_name
             let texture_key = texture_name.to_lowercase();
-- 
2.43.0


From c8c3ca110c05af4c953cd20b9837ff33e14921bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:23 +0000
Subject: [PATCH 39/41] fix: the range of the glTF table lights is capped at
 100 m whatever the unit

---
 src/vpx/export/gltf_export.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 2e2fc3c..37fdc9f 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -2696,9 +2696,10 @@ fn build_combined_gltf_payload(
     let color_brightness = (light_color[0] + light_color[1] + light_color[2]) / 3.0;
     let light_intensity = combined_emission_scale * 0.001 * color_brightness;
 
-    // Light range in meters - cap to reasonable value for glTF
+    // Light range - cap to reasonable value (100 meters) for glTF
     // VPinball light_range is often very large (e.g., 4000000 VPX units)
-    let light_range = vpu_to_units(vpx.gamedata.light_range, units).min(100.0);
+    let max_light_range = mm_to_vpu(100.0 * 1000.0);
+    let light_range = vpu_to_units(vpx.gamedata.light_range.min(max_light_range), units);
 
     // Build lights array for KHR_lights_punctual extension
     // Start with the two default VPinball table lights
-- 
2.43.0


From 81befb0426e85cadd5660508d700ca40b1e16498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:23 +0000
Subject: [PATCH 40/41] fix: glTF parts with an image keep the opacity and
 roughness of their material

---
 src/vpx/export/gltf_export.rs | 58 ++++++++++-------------------------
 1 file changed, 17 insertions(+), 41 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index 37fdc9f..a39a2c9 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -2018,8 +2018,8 @@ fn build_combined_gltf_payload(
     let mut texture_index_map: HashMap<String, usize> = HashMap::new();
 
     // Track materials for meshes without color tint (can be shared)
-    // Key: texture name (lowercase), Value: material index
-    let mut texture_material_map: HashMap<String, usize> = HashMap::new();
+    // Key: texture name (lowercase) and roughness, Value: material index
+    let mut texture_material_map: HashMap<(String, u32), usize> = HashMap::new();
 
     // Track whether we use the KHR_materials_transmission extension
     let mut uses_transmission_extension = false;
@@ -2265,20 +2265,14 @@ fn build_combined_gltf_payload(
                 .material_name
                 .as_ref()
                 .and_then(|mat_name| materials.get(mat_name))
-                .map(|mat| {
-                    (
-                        mat.base_color,
-                        mat.opacity_active,
-                        mat.metallic,
-                        mat.roughness,
-                    )
-                });
+                .map(|mat| (mat.base_color, mat.opacity_active));
 
-            // Check if mesh needs a unique material (non-white color)
-            if let Some((color, opacity_active, metallic, roughness)) = mat_info {
+            // Check if mesh needs a unique material (non-white color or translucent)
+            if let Some((color, opacity_active)) = mat_info {
                 let is_non_white = color[0] < 0.99 || color[1] < 0.99 || color[2] < 0.99;
+                let is_translucent = opacity_active && color[3] < 0.999;
 
-                if is_non_white {
+                if is_non_white || is_translucent {
                     // Create unique material for this texture + color combination
                     if let Some(&texture_idx) = texture_index_map.get(&texture_key) {
                         let material_idx = gltf_materials.len();
@@ -2287,8 +2281,6 @@ fn build_combined_gltf_payload(
                         let img = image_map.get(&texture_key);
                         let image_has_alpha = img.is_some_and(|i| image_has_transparency(i));
 
-                        let material_has_alpha = opacity_active && color[3] < 0.999;
-
                         let material_name =
                             format!("{}_{}", mesh.material_name.as_ref().unwrap(), texture_name);
                         // VPinball does BOTH alpha testing AND alpha blending
@@ -2298,7 +2290,7 @@ fn build_combined_gltf_payload(
                                 .base_color(color)
                                 .texture(texture_idx)
                                 .double_sided();
-                        if material_has_alpha || image_has_alpha {
+                        if is_translucent || image_has_alpha {
                             builder = builder.alpha_blend();
                         }
 
@@ -2316,17 +2308,10 @@ fn build_combined_gltf_payload(
                 .material_name
                 .as_ref()
                 .and_then(|mat_name| materials.get(mat_name))
-                .map(|mat| {
-                    (
-                        mat.metallic,
-                        mat.roughness,
-                        mat.opacity_active,
-                        mat.base_color[3],
-                    )
-                });
+                .map(|mat| (mat.metallic, mat.opacity_active, mat.base_color[3]));
 
             // If material has non-default metallic (> 0), create unique material
-            if let Some((metallic, roughness, opacity_active, opacity)) = mat_properties
+            if let Some((metallic, opacity_active, opacity)) = mat_properties
                 && metallic > 0.0
             {
                 // Create unique material for this texture + metallic combination
@@ -2357,14 +2342,17 @@ fn build_combined_gltf_payload(
             }
 
             // No metallic material - can share material based on texture only
-            // Skip if material already exists for this texture
-            if texture_material_map.contains_key(&texture_key) {
+            // Reuse the material if it already exists for this texture and roughness
+            let shared_key = (texture_key.clone(), roughness.to_bits());
+            if let Some(&material_idx) = texture_material_map.get(&shared_key) {
+                mesh_material_map.insert(mesh_idx, material_idx);
                 continue;
             }
 
             if let Some(&texture_idx) = texture_index_map.get(&texture_key) {
                 let material_idx = gltf_materials.len();
-                texture_material_map.insert(texture_key.clone(), material_idx);
+                texture_material_map.insert(shared_key, material_idx);
+                mesh_material_map.insert(mesh_idx, material_idx);
 
                 // Get image alpha info
                 let img = image_map.get(&texture_key);
@@ -2560,21 +2548,9 @@ fn build_combined_gltf_payload(
         });
 
         // Add material reference if the mesh has a material or texture
-        // Check mesh_material_map first (for meshes with color tint - unique materials)
+        // Check mesh_material_map first (for meshes with a texture, color tint or transmission)
         if let Some(&mat_idx) = mesh_material_map.get(&mesh_idx) {
             primitive["material"] = json!(mat_idx);
-        } else if let Some(ref texture_name) = shown_image(mesh) {
-            // Prioritize texture-based material when mesh has a texture
-            // This ensures the texture is applied even if the mesh also has a material_name
-            let texture_key = texture_name.to_lowercase();
-            if let Some(&mat_idx) = texture_material_map.get(&texture_key) {
-                primitive["material"] = json!(mat_idx);
-            } else {
-                warn!(
-                    "Texture material for '{}' not found for mesh '{}', no material will be applied",
-                    texture_name, mesh.name
-                );
-            }
         } else if let Some(ref mat_name) = mesh.material_name {
             if let Some(&mat_idx) = material_index_map.get(mat_name) {
                 // Fall back to VPX material only if there's no texture
-- 
2.43.0


From 680ad1e1a4be0a21d3d9b71d0bf8ccc5b8422790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:23 +0000
Subject: [PATCH 41/41] fix: glTF export finds materials whatever the letter
 case, as images and OBJ export do

---
 src/vpx/export/gltf_export.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/vpx/export/gltf_export.rs b/src/vpx/export/gltf_export.rs
index a39a2c9..cd708f3 100644
--- a/src/vpx/export/gltf_export.rs
+++ b/src/vpx/export/gltf_export.rs
@@ -381,7 +381,13 @@ struct GltfMaterial {
     opacity_active: bool,
 }
 
-/// Collect all materials from a VPX file
+/// The key of a material in the maps below: material names are case-insensitive,
+/// see [`lookup_material_opacity`]
+fn material_key(name: &str) -> String {
+    name.to_lowercase()
+}
+
+/// Collect all materials from a VPX file, by [`material_key`]
 fn collect_materials(vpx: &VPX) -> HashMap<String, GltfMaterial> {
     let mut materials = HashMap::new();
 
@@ -407,7 +413,7 @@ fn collect_materials(vpx: &VPX) -> HashMap<String, GltfMaterial> {
                 roughness: 1.0 - mat.roughness,
                 opacity_active: mat.opacity_active,
             };
-            materials.insert(mat.name.clone(), gltf_mat);
+            materials.entry(material_key(&mat.name)).or_insert(gltf_mat);
         }
     } else {
         // Fall back to old format
@@ -429,7 +435,7 @@ fn collect_materials(vpx: &VPX) -> HashMap<String, GltfMaterial> {
                 roughness: 1.0 - mat.roughness,
                 opacity_active,
             };
-            materials.insert(mat.name.clone(), gltf_mat);
+            materials.entry(material_key(&mat.name)).or_insert(gltf_mat);
         }
     }
 
@@ -714,7 +720,9 @@ fn playfield_material(
     // Add playfield material with texture
     // Note: VPinball's playfield reflections are a separate screen-space effect
     // controlled by `playfield_reflection_strength`. See calculate_playfield_roughness().
-    let material_roughness = materials.get(playfield_material_name).map(|m| m.roughness);
+    let material_roughness = materials
+        .get(&material_key(playfield_material_name))
+        .map(|m| m.roughness);
     let fallback_roughness = material_roughness.unwrap_or(0.5);
     let reflection_strength = vpx.gamedata.playfield_reflection_strength;
     let playfield_roughness =
@@ -1981,8 +1989,8 @@ fn build_combined_gltf_payload(
         gltf_materials.push(pf_material);
     }
 
-    for (name, mat) in materials {
-        material_index_map.insert(name.clone(), gltf_materials.len());
+    for (key, mat) in materials {
+        material_index_map.insert(key.clone(), gltf_materials.len());
 
         // Note: VPinball's glossy_color affects specular highlights from lights,
         // but playfield reflections are a separate screen-space rendering pass
@@ -2126,7 +2134,7 @@ fn build_combined_gltf_payload(
         let vpx_material = mesh
             .material_name
             .as_ref()
-            .and_then(|mat_name| materials.get(mat_name));
+            .and_then(|mat_name| materials.get(&material_key(mat_name)));
         let metallic = vpx_material.map(|m| m.metallic).unwrap_or(0.0);
         let roughness = if mesh.is_playfield() {
             // Override roughness for playfield mesh based on playfield_reflection_strength
@@ -2205,7 +2213,7 @@ fn build_combined_gltf_payload(
 
                 // Get base material properties if available
                 let (base_color, needs_alpha_blend) = if let Some(ref mat_name) = mesh.material_name
-                    && let Some(mat) = materials.get(mat_name)
+                    && let Some(mat) = materials.get(&material_key(mat_name))
                 {
                     // Check if material needs alpha blending (opacity_active and opacity < 0.999)
                     let needs_blend = mat.opacity_active && mat.base_color[3] < 0.999;
@@ -2264,7 +2272,7 @@ fn build_combined_gltf_payload(
             let mat_info = mesh
                 .material_name
                 .as_ref()
-                .and_then(|mat_name| materials.get(mat_name))
+                .and_then(|mat_name| materials.get(&material_key(mat_name)))
                 .map(|mat| (mat.base_color, mat.opacity_active));
 
             // Check if mesh needs a unique material (non-white color or translucent)
@@ -2307,7 +2315,7 @@ fn build_combined_gltf_payload(
             let mat_properties = mesh
                 .material_name
                 .as_ref()
-                .and_then(|mat_name| materials.get(mat_name))
+                .and_then(|mat_name| materials.get(&material_key(mat_name)))
                 .map(|mat| (mat.metallic, mat.opacity_active, mat.base_color[3]));
 
             // If material has non-default metallic (> 0), create unique material
@@ -2362,7 +2370,7 @@ fn build_combined_gltf_payload(
                 let material_has_alpha = mesh
                     .material_name
                     .as_ref()
-                    .and_then(|mat_name| materials.get(mat_name))
+                    .and_then(|mat_name| materials.get(&material_key(mat_name)))
                     .is_some_and(|mat| mat.opacity_active && mat.base_color[3] < 0.999);
 
                 let material_name = format!("__texture__{}", texture_name);
@@ -2552,7 +2560,7 @@ fn build_combined_gltf_payload(
         if let Some(&mat_idx) = mesh_material_map.get(&mesh_idx) {
             primitive["material"] = json!(mat_idx);
         } else if let Some(ref mat_name) = mesh.material_name {
-            if let Some(&mat_idx) = material_index_map.get(mat_name) {
+            if let Some(&mat_idx) = material_index_map.get(&material_key(mat_name)) {
                 // Fall back to VPX material only if there's no texture
                 primitive["material"] = json!(mat_idx);
             } else {
-- 
2.43.0

