From b3880856ea5840fd78d0e13b0e66c229c1c3cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 01/24] fix: length of utf-16 data is counted in bytes, not
 code units

---
 src/atom/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom/data.rs b/src/atom/data.rs
index c617a8e..ed084a0 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -133,7 +133,7 @@ impl Data {
         (match self {
             Self::Reserved(v) => v.len(),
             Self::Utf8(s) => s.len(),
-            Self::Utf16(s) => s.encode_utf16().count(),
+            Self::Utf16(s) => s.encode_utf16().count() * 2,
             Self::Jpeg(v) => v.len(),
             Self::Png(v) => v.len(),
             Self::BeSigned(v) => v.len(),
-- 
2.43.0


From 3ec83315fbba041c984a2d8814784173eb7bac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:24 +0000
Subject: [PATCH 02/24] fix: setting or adding no values creates an atom
 without data, which can't be read back

---
 src/tag/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tag/mod.rs b/src/tag/mod.rs
index eed2963..e7ddc25 100644
--- a/src/tag/mod.rs
+++ b/src/tag/mod.rs
@@ -1269,6 +1269,12 @@ impl Tag {
         ident: (impl Ident + Into<DataIdent>),
         data: impl IntoIterator<Item = Data>,
     ) {
+        let mut data = data.into_iter().peekable();
+        if data.peek().is_none() {
+            self.remove_data_of(&ident);
+            return;
+        }
+
         match self.atoms.iter_mut().find(|a| ident == a.ident) {
             Some(a) => {
                 a.data.clear();
@@ -1331,6 +1337,11 @@ impl Tag {
         ident: (impl Ident + Into<DataIdent>),
         data: impl IntoIterator<Item = Data>,
     ) {
+        let mut data = data.into_iter().peekable();
+        if data.peek().is_none() {
+            return;
+        }
+
         match self.atoms.iter_mut().find(|a| ident == a.ident) {
             Some(a) => a.data.extend(data),
             None => self.atoms.push(AtomData::new(ident.into(), data.into_iter().collect())),
-- 
2.43.0


From 37098466939d383d2bbdce0c2620acc1312a8c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:24 +0000
Subject: [PATCH 03/24] fix: take_genre leaves the custom genres in place if
 there is a standard genre

---
 src/tag/genre.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tag/genre.rs b/src/tag/genre.rs
index baaa91d..78e4b4d 100644
--- a/src/tag/genre.rs
+++ b/src/tag/genre.rs
@@ -168,11 +168,10 @@ impl Tag {
 
     /// Removes all custom genres (`©gen`) and returns the first genre (`gnre` or `©gen`).
     pub fn take_genre(&mut self) -> Option<String> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g.to_owned());
-        }
+        let standard_genre = self.standard_genres().find_map(stanard_genre);
+        let custom_genre = self.take_custom_genre();
 
-        self.take_custom_genre()
+        standard_genre.map(str::to_owned).or(custom_genre)
     }
 
     /// Sets the custom genre (`©gen`). This will remove all other standard or custom genres.
-- 
2.43.0


From 2069260e91a019af953e653f4aa3ae809854bfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:24 +0000
Subject: [PATCH 04/24] fix: genre ignores standard genres following an unknown
 code

---
 src/tag/genre.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tag/genre.rs b/src/tag/genre.rs
index 78e4b4d..027549c 100644
--- a/src/tag/genre.rs
+++ b/src/tag/genre.rs
@@ -148,11 +148,7 @@ impl Tag {
 
     /// Returns the first genre (`gnre` or `©gen`).
     pub fn genre(&self) -> Option<&str> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g);
-        }
-
-        self.custom_genre()
+        self.genres().next()
     }
 
     /// Removes all custom genres (`©gen`) and returns all genres, first standard genres (`gnre`)
-- 
2.43.0


From ec4e0359408dc87e2cea8a97348e04518ad849c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:24 +0000
Subject: [PATCH 05/24] fix: removing both halves of a track or disc pair
 leaves an empty pair

---
 src/tag/tuple.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tag/tuple.rs b/src/tag/tuple.rs
index 1a85f21..7179619 100644
--- a/src/tag/tuple.rs
+++ b/src/tag/tuple.rs
@@ -73,7 +73,7 @@ impl Tag {
     pub fn remove_track_number(&mut self) {
         let vec = self.bytes_mut_of(&atom::TRACK_NUMBER).next();
         match vec {
-            Some(v) if total(v) != Some(0) => set_number(v, 0),
+            Some(v) if total(v).is_some() => set_number(v, 0),
             _ => self.remove_track(),
         }
     }
@@ -82,7 +82,7 @@ impl Tag {
     pub fn remove_total_tracks(&mut self) {
         let vec = self.bytes_mut_of(&atom::TRACK_NUMBER).next();
         match vec {
-            Some(v) if number(v) != Some(0) => set_total(v, 0),
+            Some(v) if number(v).is_some() => set_total(v, 0),
             _ => self.remove_track(),
         }
     }
@@ -169,7 +169,7 @@ impl Tag {
     pub fn remove_disc_number(&mut self) {
         let vec = self.bytes_mut_of(&atom::DISC_NUMBER).next();
         match vec {
-            Some(v) if total(v) != Some(0) => set_number(v, 0),
+            Some(v) if total(v).is_some() => set_number(v, 0),
             _ => self.remove_disc(),
         }
     }
@@ -178,7 +178,7 @@ impl Tag {
     pub fn remove_total_discs(&mut self) {
         let vec = self.bytes_mut_of(&atom::DISC_NUMBER).next();
         match vec {
-            Some(v) if number(v) != Some(0) => set_total(v, 0),
+            Some(v) if number(v).is_some() => set_total(v, 0),
             _ => self.remove_disc(),
         }
     }
-- 
2.43.0


From dc50b9696eb189d6e6315131ccf6dc0f01cae005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 06/24] fix: a malformed chunk offset table makes a write fail
 after the file was modified

---
 src/atom/mod.rs | 58 +++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 5fb5b41..fcd351d 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -446,16 +446,9 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     };
     len_diff += new_atom_len as i64;
 
-    // reading moved data
-    let old_file_len = reader.seek(SeekFrom::End(0))?;
-    let moved_data_len = old_file_len - moved_data_start;
-    let mut moved_data = Vec::with_capacity(moved_data_len as usize);
-    reader.seek(SeekFrom::Start(moved_data_start))?;
-    reader.read_to_end(&mut moved_data)?;
-
-    let mut writer = BufWriter::new(file);
-
-    // adjusting sample table chunk offsets
+    // reading sample table chunk offsets
+    let mut chunk_offsets = Vec::new();
+    let mut chunk_offsets_64 = Vec::new();
     if mdat_pos > moov.pos() {
         let stbl_atoms = moov.trak.iter().filter_map(|a| {
             a.mdia.as_ref().and_then(|a| a.minf.as_ref()).and_then(|a| a.stbl.as_ref())
@@ -464,29 +457,42 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         for stbl in stbl_atoms {
             if let Some(a) = &stbl.stco {
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
-                let chunk_offset = Stco::parse(reader, a.size())?;
-
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
-                for co in chunk_offset.offsets.iter() {
-                    let new_offset = (*co as i64 + len_diff) as u32;
-                    writer.write_all(&u32::to_be_bytes(new_offset))?;
-                }
-                writer.flush()?;
+                chunk_offsets.push(Stco::parse(reader, a.size())?);
             }
             if let Some(a) = &stbl.co64 {
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
-                let chunk_offset = Co64::parse(reader, a.size())?;
-
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
-                for co in chunk_offset.offsets.iter() {
-                    let new_offset = (*co as i64 + len_diff) as u64;
-                    writer.write_all(&u64::to_be_bytes(new_offset))?;
-                }
-                writer.flush()?;
+                chunk_offsets_64.push(Co64::parse(reader, a.size())?);
             }
         }
     }
 
+    // reading moved data
+    let old_file_len = reader.seek(SeekFrom::End(0))?;
+    let moved_data_len = old_file_len - moved_data_start;
+    let mut moved_data = Vec::with_capacity(moved_data_len as usize);
+    reader.seek(SeekFrom::Start(moved_data_start))?;
+    reader.read_to_end(&mut moved_data)?;
+
+    let mut writer = BufWriter::new(file);
+
+    // adjusting sample table chunk offsets
+    for chunk_offset in chunk_offsets.iter() {
+        writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+        for co in chunk_offset.offsets.iter() {
+            let new_offset = (*co as i64 + len_diff) as u32;
+            writer.write_all(&u32::to_be_bytes(new_offset))?;
+        }
+        writer.flush()?;
+    }
+    for chunk_offset in chunk_offsets_64.iter() {
+        writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+        for co in chunk_offset.offsets.iter() {
+            let new_offset = (*co as i64 + len_diff) as u64;
+            writer.write_all(&u64::to_be_bytes(new_offset))?;
+        }
+        writer.flush()?;
+    }
+
     // update existing ilst hierarchy atom lengths
     for a in update_atoms.iter().rev() {
         let new_len = a.len() as i64 + len_diff;
-- 
2.43.0


From 34ef8965ce10d8819bb449fca89d1b0d7047a136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 07/24] fix: adjusted chunk offset tables are overwritten with
 the old ones if they are located after the item list

---
 src/atom/mod.rs | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index fcd351d..d4b4f03 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -475,24 +475,6 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
     let mut writer = BufWriter::new(file);
 
-    // adjusting sample table chunk offsets
-    for chunk_offset in chunk_offsets.iter() {
-        writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
-        for co in chunk_offset.offsets.iter() {
-            let new_offset = (*co as i64 + len_diff) as u32;
-            writer.write_all(&u32::to_be_bytes(new_offset))?;
-        }
-        writer.flush()?;
-    }
-    for chunk_offset in chunk_offsets_64.iter() {
-        writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
-        for co in chunk_offset.offsets.iter() {
-            let new_offset = (*co as i64 + len_diff) as u64;
-            writer.write_all(&u64::to_be_bytes(new_offset))?;
-        }
-        writer.flush()?;
-    }
-
     // update existing ilst hierarchy atom lengths
     for a in update_atoms.iter().rev() {
         let new_len = a.len() as i64 + len_diff;
@@ -528,6 +510,28 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     writer.write_all(&moved_data)?;
     writer.flush()?;
 
+    // adjusting sample table chunk offsets, the tables may be part of the moved data
+    let moved_pos = |pos: u64| match pos < moved_data_start {
+        true => pos,
+        false => (pos as i64 + len_diff) as u64,
+    };
+    for chunk_offset in chunk_offsets.iter() {
+        writer.seek(SeekFrom::Start(moved_pos(chunk_offset.table_pos)))?;
+        for co in chunk_offset.offsets.iter() {
+            let new_offset = (*co as i64 + len_diff) as u32;
+            writer.write_all(&u32::to_be_bytes(new_offset))?;
+        }
+        writer.flush()?;
+    }
+    for chunk_offset in chunk_offsets_64.iter() {
+        writer.seek(SeekFrom::Start(moved_pos(chunk_offset.table_pos)))?;
+        for co in chunk_offset.offsets.iter() {
+            let new_offset = (*co as i64 + len_diff) as u64;
+            writer.write_all(&u64::to_be_bytes(new_offset))?;
+        }
+        writer.flush()?;
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From a12f46375c57850d47e053dfc3c58722a86826e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 08/24] fix: chunk offsets of media data that isn't moved are
 adjusted

---
 src/atom/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index d4b4f03..600b3b7 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -510,7 +510,8 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     writer.write_all(&moved_data)?;
     writer.flush()?;
 
-    // adjusting sample table chunk offsets, the tables may be part of the moved data
+    // adjusting sample table chunk offsets, the tables may be part of the moved data, just like the
+    // chunks they refer to
     let moved_pos = |pos: u64| match pos < moved_data_start {
         true => pos,
         false => (pos as i64 + len_diff) as u64,
@@ -518,7 +519,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     for chunk_offset in chunk_offsets.iter() {
         writer.seek(SeekFrom::Start(moved_pos(chunk_offset.table_pos)))?;
         for co in chunk_offset.offsets.iter() {
-            let new_offset = (*co as i64 + len_diff) as u32;
+            let new_offset = moved_pos(*co as u64) as u32;
             writer.write_all(&u32::to_be_bytes(new_offset))?;
         }
         writer.flush()?;
@@ -526,7 +527,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     for chunk_offset in chunk_offsets_64.iter() {
         writer.seek(SeekFrom::Start(moved_pos(chunk_offset.table_pos)))?;
         for co in chunk_offset.offsets.iter() {
-            let new_offset = (*co as i64 + len_diff) as u64;
+            let new_offset = moved_pos(*co);
             writer.write_all(&u64::to_be_bytes(new_offset))?;
         }
         writer.flush()?;
-- 
2.43.0


From 941262cbbdb409d4fc86ab162fe0c7969628c0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 09/24] fix: chunk offsets that no longer fit into their table
 are truncated

---
 src/atom/mod.rs | 47 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 600b3b7..7e292a6 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -446,7 +446,19 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     };
     len_diff += new_atom_len as i64;
 
-    // reading sample table chunk offsets
+    // reading and adjusting sample table chunk offsets, the tables may be part of the moved data,
+    // just like the chunks they refer to
+    let moved_pos = |pos: u64| match (pos < moved_data_start, len_diff < 0) {
+        (true, _) => Some(pos),
+        (_, true) => pos.checked_sub(-len_diff as u64),
+        (_, false) => pos.checked_add(len_diff as u64),
+    };
+    let overflow = || {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Adjusted chunk offset doesn't fit into the sample table".to_owned(),
+        )
+    };
     let mut chunk_offsets = Vec::new();
     let mut chunk_offsets_64 = Vec::new();
     if mdat_pos > moov.pos() {
@@ -457,11 +469,23 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         for stbl in stbl_atoms {
             if let Some(a) = &stbl.stco {
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
-                chunk_offsets.push(Stco::parse(reader, a.size())?);
+                let mut stco = Stco::parse(reader, a.size())?;
+                stco.table_pos = moved_pos(stco.table_pos).ok_or_else(overflow)?;
+                for co in stco.offsets.iter_mut() {
+                    *co = moved_pos(*co as u64)
+                        .and_then(|o| u32::try_from(o).ok())
+                        .ok_or_else(overflow)?;
+                }
+                chunk_offsets.push(stco);
             }
             if let Some(a) = &stbl.co64 {
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
-                chunk_offsets_64.push(Co64::parse(reader, a.size())?);
+                let mut co64 = Co64::parse(reader, a.size())?;
+                co64.table_pos = moved_pos(co64.table_pos).ok_or_else(overflow)?;
+                for co in co64.offsets.iter_mut() {
+                    *co = moved_pos(*co).ok_or_else(overflow)?;
+                }
+                chunk_offsets_64.push(co64);
             }
         }
     }
@@ -510,25 +534,18 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     writer.write_all(&moved_data)?;
     writer.flush()?;
 
-    // adjusting sample table chunk offsets, the tables may be part of the moved data, just like the
-    // chunks they refer to
-    let moved_pos = |pos: u64| match pos < moved_data_start {
-        true => pos,
-        false => (pos as i64 + len_diff) as u64,
-    };
+    // writing adjusted sample table chunk offsets
     for chunk_offset in chunk_offsets.iter() {
-        writer.seek(SeekFrom::Start(moved_pos(chunk_offset.table_pos)))?;
+        writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
         for co in chunk_offset.offsets.iter() {
-            let new_offset = moved_pos(*co as u64) as u32;
-            writer.write_all(&u32::to_be_bytes(new_offset))?;
+            writer.write_all(&u32::to_be_bytes(*co))?;
         }
         writer.flush()?;
     }
     for chunk_offset in chunk_offsets_64.iter() {
-        writer.seek(SeekFrom::Start(moved_pos(chunk_offset.table_pos)))?;
+        writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
         for co in chunk_offset.offsets.iter() {
-            let new_offset = moved_pos(*co);
-            writer.write_all(&u64::to_be_bytes(new_offset))?;
+            writer.write_all(&u64::to_be_bytes(*co))?;
         }
         writer.flush()?;
     }
-- 
2.43.0


From 7b1028101c8c71d555a29138174a63d6dc2cb878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 10/24] fix: lengths of parent atoms are truncated if they
 exceed 32 bits

---
 src/atom/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 7e292a6..17f0446 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -490,6 +490,16 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         }
     }
 
+    // checking the new lengths of the existing ilst hierarchy atoms
+    for a in update_atoms.iter() {
+        if !a.ext() && a.len() as i64 + len_diff > u32::MAX as i64 {
+            return Err(crate::Error::new(
+                crate::ErrorKind::Parsing,
+                "New atom length doesn't fit into a 32 bit atom head".to_owned(),
+            ));
+        }
+    }
+
     // reading moved data
     let old_file_len = reader.seek(SeekFrom::End(0))?;
     let moved_data_len = old_file_len - moved_data_start;
-- 
2.43.0


From dc0fce4391588efa67b6e02b544e8b25cd55848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 11/24] fix: lengths of items with several values are truncated
 if they exceed 32 bits

---
 src/atom/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 17f0446..d1ab493 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -167,16 +167,19 @@ impl AtomData {
 
     /// Returns the external length of the atom in bytes.
     pub fn len(&self) -> u64 {
-        let parent_len = 8;
+        self.size().len()
+    }
+
+    fn size(&self) -> Size {
         let data_len: u64 = self.data.iter().map(|d| 16 + d.len()).sum();
 
         match &self.ident {
-            DataIdent::Fourcc(_) => parent_len + data_len,
+            DataIdent::Fourcc(_) => Size::from(data_len),
             DataIdent::Freeform { mean, name } => {
                 let mean_len = 12 + mean.len() as u64;
                 let name_len = 12 + name.len() as u64;
 
-                parent_len + mean_len + name_len + data_len
+                Size::from(mean_len + name_len + data_len)
             }
         }
     }
@@ -259,16 +262,14 @@ impl AtomData {
 
     /// Attempts to write the atom data to the writer.
     pub fn write(&self, writer: &mut impl Write) -> crate::Result<()> {
-        writer.write_all(&u32::to_be_bytes(self.len() as u32))?;
-
         match &self.ident {
-            DataIdent::Fourcc(ident) => writer.write_all(ident.deref())?,
+            DataIdent::Fourcc(ident) => write_head(writer, Head::from(self.size(), *ident))?,
             _ => {
                 let (mean, name) = match &self.ident {
                     DataIdent::Freeform { mean, name } => (mean.as_str(), name.as_str()),
                     DataIdent::Fourcc(_) => unreachable!(),
                 };
-                writer.write_all(FREEFORM.deref())?;
+                write_head(writer, Head::from(self.size(), FREEFORM))?;
 
                 let mean_len: u32 = 12 + mean.len() as u32;
                 writer.write_all(&u32::to_be_bytes(mean_len))?;
-- 
2.43.0


From d65e113afe0f30ee548ba6eab63ea2cecc734089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 12/24] fix: invalid extended atom lengths cause overflows or
 endless loops

---
 src/atom/head.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index a0e2174..c5bfd02 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -118,6 +118,10 @@ pub fn parse_head(reader: &mut impl Read) -> crate::Result<Head> {
 
     if len == 1 {
         match reader.read_u64() {
+            Ok(l) if l < 16 || l > i64::MAX as u64 => Err(crate::Error::new(
+                crate::ErrorKind::Parsing,
+                format!("Read invalid extended length of '{}': {}", ident, l),
+            )),
             Ok(l) => Ok(Head::new(true, l, ident)),
             Err(e) => Err(crate::Error::new(
                 ErrorKind::Io(e),
-- 
2.43.0


From c2e0a6e132d08432a8bcdcc9cd24b2d49e7e0bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 13/24] fix: atoms exceeding their parent or the file cause
 overflows and broken files

---
 src/atom/head.rs | 20 +++++++++++++++++++-
 src/atom/ilst.rs |  2 +-
 src/atom/mdia.rs |  4 ++--
 src/atom/meta.rs |  4 ++--
 src/atom/minf.rs |  4 ++--
 src/atom/mod.rs  |  8 +++++---
 src/atom/moov.rs |  4 ++--
 src/atom/mp4a.rs | 16 +++++++++++++---
 src/atom/stbl.rs |  4 ++--
 src/atom/stsd.rs |  2 +-
 src/atom/trak.rs |  4 ++--
 src/atom/udta.rs |  4 ++--
 12 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index c5bfd02..de5d401 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -138,6 +138,19 @@ pub fn parse_head(reader: &mut impl Read) -> crate::Result<Head> {
     }
 }
 
+/// Attempts to parse the head of an atom that is located inside another atom, which has the specified
+/// number of bytes left.
+pub fn parse_child_head(reader: &mut impl Read, remaining: u64) -> crate::Result<Head> {
+    let head = parse_head(reader)?;
+    if head.len() > remaining {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            format!("Length of '{}' exceeds its parent: {}", head.fourcc(), head.len()),
+        ));
+    }
+    Ok(head)
+}
+
 pub fn write_head(writer: &mut impl Write, head: Head) -> crate::Result<()> {
     if head.ext {
         writer.write_all(&u32::to_be_bytes(1))?;
@@ -223,7 +236,12 @@ pub fn find_bounds(reader: &mut impl Seek, size: Size) -> crate::Result<AtomBoun
 
 pub fn seek_to_end(reader: &mut impl Seek, bounds: &AtomBounds) -> crate::Result<()> {
     let current = reader.seek(SeekFrom::Current(0))?;
-    let diff = bounds.end() - current;
+    let diff = bounds.end().checked_sub(current).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Content exceeds the length of the atom".to_owned(),
+        )
+    })?;
     reader.seek(SeekFrom::Current(diff as i64))?;
     Ok(())
 }
diff --git a/src/atom/ilst.rs b/src/atom/ilst.rs
index 7f475fd..8b0685f 100644
--- a/src/atom/ilst.rs
+++ b/src/atom/ilst.rs
@@ -27,7 +27,7 @@ impl ParseAtom for Ilst<'_> {
         let mut parsed_bytes = 0;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 FREE => {
diff --git a/src/atom/mdia.rs b/src/atom/mdia.rs
index a8da63b..bacb876 100644
--- a/src/atom/mdia.rs
+++ b/src/atom/mdia.rs
@@ -15,7 +15,7 @@ impl ParseAtom for Mdia {
         let mut parsed_bytes = 0;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 MEDIA_INFORMATION => mdia.minf = Some(Minf::parse(reader, head.size())?),
@@ -45,7 +45,7 @@ impl FindAtom for Mdia {
         let mut parsed_bytes = 0;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 MEDIA_INFORMATION => minf = Some(Minf::find(reader, head.size())?),
diff --git a/src/atom/meta.rs b/src/atom/meta.rs
index 75f0d75..0196d73 100644
--- a/src/atom/meta.rs
+++ b/src/atom/meta.rs
@@ -25,7 +25,7 @@ impl ParseAtom for Meta<'_> {
         let mut parsed_bytes = 4;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 ITEM_LIST => meta.ilst = Some(Ilst::parse(reader, head.size())?),
@@ -107,7 +107,7 @@ impl FindAtom for Meta<'_> {
         let mut parsed_bytes = 4;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 HANDLER_REFERENCE => hdlr = Some(Hdlr::find(reader, head.size())?),
diff --git a/src/atom/minf.rs b/src/atom/minf.rs
index 125d8c6..4bc85bc 100644
--- a/src/atom/minf.rs
+++ b/src/atom/minf.rs
@@ -15,7 +15,7 @@ impl ParseAtom for Minf {
         let mut parsed_bytes = 0;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 SAMPLE_TABLE => minf.stbl = Some(Stbl::parse(reader, head.size())?),
@@ -45,7 +45,7 @@ impl FindAtom for Minf {
         let mut parsed_bytes = 0;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 SAMPLE_TABLE => stbl = Some(Stbl::find(reader, head.size())?),
diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index d1ab493..fa31511 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -29,7 +29,7 @@
 
 use std::convert::TryFrom;
 use std::fs::File;
-use std::io::{BufReader, BufWriter, Read, Seek, SeekFrom, Write};
+use std::io::{self, BufReader, BufWriter, Read, Seek, SeekFrom, Write};
 use std::ops::{Deref, DerefMut};
 
 use crate::{AudioInfo, ErrorKind, Tag};
@@ -196,7 +196,7 @@ impl AtomData {
         let mut parsed_bytes = 0;
 
         while parsed_bytes < len {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, len - parsed_bytes)?;
 
             match head.fourcc() {
                 DATA => {
@@ -503,7 +503,9 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
     // reading moved data
     let old_file_len = reader.seek(SeekFrom::End(0))?;
-    let moved_data_len = old_file_len - moved_data_start;
+    let moved_data_len = old_file_len
+        .checked_sub(moved_data_start)
+        .ok_or_else(|| io::Error::from(io::ErrorKind::UnexpectedEof))?;
     let mut moved_data = Vec::with_capacity(moved_data_len as usize);
     reader.seek(SeekFrom::Start(moved_data_start))?;
     reader.read_to_end(&mut moved_data)?;
diff --git a/src/atom/moov.rs b/src/atom/moov.rs
index 7ce7835..1e32413 100644
--- a/src/atom/moov.rs
+++ b/src/atom/moov.rs
@@ -17,7 +17,7 @@ impl ParseAtom for Moov<'_> {
         let mut parsed_bytes = 0;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 MOVIE_HEADER => moov.mvhd = Some(Mvhd::parse(reader, head.size())?),
@@ -73,7 +73,7 @@ impl FindAtom for Moov<'_> {
         let mut parsed_bytes = 0;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 TRACK => trak.push(Trak::find(reader, head.size())?),
diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index 530482f..c976684 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -77,11 +77,21 @@ impl ParseAtom for Mp4a {
 
         reader.seek(SeekFrom::Current(28))?;
 
-        let head = parse_head(reader)?;
-        if head.fourcc() != ELEMENTARY_STREAM_DESCRIPTION {
-            return Err(crate::Error::new(
+        let remaining = size.content_len().saturating_sub(28);
+        let head = match remaining {
+            0 => None,
+            _ => Some(parse_head(reader)?).filter(|h| h.fourcc() == ELEMENTARY_STREAM_DESCRIPTION),
+        };
+        let head = head.ok_or_else(|| {
+            crate::Error::new(
                 crate::ErrorKind::AtomNotFound(ELEMENTARY_STREAM_DESCRIPTION),
                 "Missing esds atom".to_owned(),
+            )
+        })?;
+        if head.len() > remaining {
+            return Err(crate::Error::new(
+                crate::ErrorKind::Parsing,
+                "Length of esds atom exceeds its parent".to_owned(),
             ));
         }
 
diff --git a/src/atom/stbl.rs b/src/atom/stbl.rs
index 5f99642..4eecec4 100644
--- a/src/atom/stbl.rs
+++ b/src/atom/stbl.rs
@@ -15,7 +15,7 @@ impl ParseAtom for Stbl {
         let mut parsed_bytes = 0;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 SAMPLE_TABLE_SAMPLE_DESCRIPTION => {
@@ -49,7 +49,7 @@ impl FindAtom for Stbl {
         let mut parsed_bytes = 0;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 SAMPLE_TABLE_CHUNK_OFFSET => stco = Some(Stco::find(reader, head.size())?),
diff --git a/src/atom/stsd.rs b/src/atom/stsd.rs
index ba7df89..6fbe6fc 100644
--- a/src/atom/stsd.rs
+++ b/src/atom/stsd.rs
@@ -26,7 +26,7 @@ impl ParseAtom for Stsd {
         let mut parsed_bytes = 8;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 MP4_AUDIO => stsd.mp4a = Some(Mp4a::parse(reader, head.size())?),
diff --git a/src/atom/trak.rs b/src/atom/trak.rs
index 8caabd5..ad0b4b2 100644
--- a/src/atom/trak.rs
+++ b/src/atom/trak.rs
@@ -15,7 +15,7 @@ impl ParseAtom for Trak {
         let mut parsed_bytes = 0;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 MEDIA => trak.mdia = Some(Mdia::parse(reader, head.size())?),
@@ -45,7 +45,7 @@ impl FindAtom for Trak {
         let mut parsed_bytes = 0;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 MEDIA => mdia = Some(Mdia::find(reader, head.size())?),
diff --git a/src/atom/udta.rs b/src/atom/udta.rs
index 051ca7d..928a51d 100644
--- a/src/atom/udta.rs
+++ b/src/atom/udta.rs
@@ -15,7 +15,7 @@ impl ParseAtom for Udta<'_> {
         let mut parsed_bytes = 0;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 METADATA => udta.meta = Some(Meta::parse(reader, head.size())?),
@@ -67,7 +67,7 @@ impl FindAtom for Udta<'_> {
         let mut parsed_bytes = 0;
 
         while parsed_bytes < size.content_len() {
-            let head = parse_head(reader)?;
+            let head = parse_child_head(reader, size.content_len() - parsed_bytes)?;
 
             match head.fourcc() {
                 METADATA => meta = Some(Meta::find(reader, head.size())?),
-- 
2.43.0


From 1e4a6a179ed91c1ecc0d7679fe6aea86aaf07cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 14/24] fix: atoms that are too short for their head cause
 overflows

---
 src/atom/meta.rs | 14 ++++++++++++++
 src/atom/mod.rs  | 15 ++++++++++++---
 src/atom/stsd.rs |  8 ++++++++
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/atom/meta.rs b/src/atom/meta.rs
index 0196d73..f0c69a6 100644
--- a/src/atom/meta.rs
+++ b/src/atom/meta.rs
@@ -12,6 +12,13 @@ impl Atom for Meta<'_> {
 
 impl ParseAtom for Meta<'_> {
     fn parse_atom(reader: &'_ mut (impl Read + Seek), size: Size) -> crate::Result<Self> {
+        if size.content_len() < 4 {
+            return Err(crate::Error::new(
+                ErrorKind::Parsing,
+                "Length of metadata (meta) is too short for its head".to_owned(),
+            ));
+        }
+
         let (version, _) = parse_full_head(reader)?;
 
         if version != 0 {
@@ -93,6 +100,13 @@ impl FindAtom for Meta<'_> {
 
     fn find_atom(reader: &mut (impl Read + Seek), size: Size) -> crate::Result<Self::Bounds> {
         let bounds = find_bounds(reader, size)?;
+        if size.content_len() < 4 {
+            return Err(crate::Error::new(
+                ErrorKind::Parsing,
+                "Length of metadata (meta) is too short for its head".to_owned(),
+            ));
+        }
+
         let (version, _) = parse_full_head(reader)?;
 
         if version != 0 {
diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index fa31511..2eb42c0 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -190,6 +190,12 @@ impl AtomData {
     }
 
     fn parse(reader: &mut (impl Read + Seek), parent: Fourcc, len: u64) -> crate::Result<Self> {
+        let too_short = || {
+            crate::Error::new(
+                crate::ErrorKind::Parsing,
+                format!("Length of an atom inside '{}' is too short for its head", parent),
+            )
+        };
         let mut data = Vec::new();
         let mut mean: Option<String> = None;
         let mut name: Option<String> = None;
@@ -200,6 +206,7 @@ impl AtomData {
 
             match head.fourcc() {
                 DATA => {
+                    let data_len = head.content_len().checked_sub(8).ok_or_else(too_short)?;
                     let (version, flags) = parse_full_head(reader)?;
                     if version != 0 {
                         return Err(crate::Error::new(
@@ -213,9 +220,10 @@ impl AtomData {
                     // Skipping 4 byte locale indicator
                     reader.seek(SeekFrom::Current(4))?;
 
-                    data.push(Data::parse(reader, datatype, head.content_len() - 8)?);
+                    data.push(Data::parse(reader, datatype, data_len)?);
                 }
                 MEAN => {
+                    let mean_len = head.content_len().checked_sub(4).ok_or_else(too_short)?;
                     let (version, _) = parse_full_head(reader)?;
                     if version != 0 {
                         return Err(crate::Error::new(
@@ -224,9 +232,10 @@ impl AtomData {
                         ));
                     }
 
-                    mean = Some(reader.read_utf8(head.content_len() - 4)?);
+                    mean = Some(reader.read_utf8(mean_len)?);
                 }
                 NAME => {
+                    let name_len = head.content_len().checked_sub(4).ok_or_else(too_short)?;
                     let (version, _) = parse_full_head(reader)?;
                     if version != 0 {
                         return Err(crate::Error::new(
@@ -235,7 +244,7 @@ impl AtomData {
                         ));
                     }
 
-                    name = Some(reader.read_utf8(head.content_len() - 4)?);
+                    name = Some(reader.read_utf8(name_len)?);
                 }
                 _ => {
                     reader.seek(SeekFrom::Current(head.content_len() as i64))?;
diff --git a/src/atom/stsd.rs b/src/atom/stsd.rs
index 6fbe6fc..ad00167 100644
--- a/src/atom/stsd.rs
+++ b/src/atom/stsd.rs
@@ -11,6 +11,14 @@ impl Atom for Stsd {
 
 impl ParseAtom for Stsd {
     fn parse_atom(reader: &mut (impl Read + Seek), size: Size) -> crate::Result<Self> {
+        if size.content_len() < 8 {
+            return Err(crate::Error::new(
+                ErrorKind::Parsing,
+                "Length of sample table sample description (stsd) is too short for its head"
+                    .to_owned(),
+            ));
+        }
+
         let (version, _) = parse_full_head(reader)?;
 
         if version != 0 {
-- 
2.43.0


From 6aa1fc29cd7b03a0679d0fed642138d10c689340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 15/24] fix: memory is allocated for claimed lengths that
 exceed the file

---
 src/atom/co64.rs |  2 +-
 src/atom/data.rs | 27 +++++++++++++++++++--------
 src/atom/stco.rs |  2 +-
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/atom/co64.rs b/src/atom/co64.rs
index 16fc9e5..a15f0bd 100644
--- a/src/atom/co64.rs
+++ b/src/atom/co64.rs
@@ -28,7 +28,7 @@ impl ParseAtom for Co64 {
                 }
 
                 let table_pos = reader.seek(SeekFrom::Current(0))?;
-                let mut offsets = Vec::with_capacity(entries as usize);
+                let mut offsets = Vec::new();
                 for _ in 0..entries {
                     let offset = reader.read_u64()?;
                     offsets.push(offset);
diff --git a/src/atom/data.rs b/src/atom/data.rs
index ed084a0..8b9b856 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -464,24 +464,35 @@ pub trait ReadData: Read {
     }
 
     /// Attempts to read 8 bit unsigned integers from the reader to a vector of size length.
-    fn read_u8_vec(&mut self, len: u64) -> io::Result<Vec<u8>> {
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+    fn read_u8_vec(&mut self, len: u64) -> io::Result<Vec<u8>>
+    where
+        Self: Sized,
+    {
+        // the length isn't trusted, so only the memory that is really needed is allocated
+        let mut buf = Vec::new();
+        self.by_ref().take(len).read_to_end(&mut buf)?;
+        if (buf.len() as u64) < len {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         Ok(buf)
     }
 
     /// Attempts to read a utf-8 string from the reader.
-    fn read_utf8(&mut self, len: u64) -> crate::Result<String> {
+    fn read_utf8(&mut self, len: u64) -> crate::Result<String>
+    where
+        Self: Sized,
+    {
         let data = self.read_u8_vec(len)?;
 
         Ok(String::from_utf8(data)?)
     }
 
     /// Attempts to read a utf-16 string from the reader.
-    fn read_utf16(&mut self, len: u64) -> crate::Result<String> {
-        let mut buf = vec![0u8; len as usize];
-
-        self.read_exact(&mut buf)?;
+    fn read_utf16(&mut self, len: u64) -> crate::Result<String>
+    where
+        Self: Sized,
+    {
+        let buf = self.read_u8_vec(len)?;
 
         let data: Vec<u16> =
             buf.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
diff --git a/src/atom/stco.rs b/src/atom/stco.rs
index e1b8ebc..b2fcd71 100644
--- a/src/atom/stco.rs
+++ b/src/atom/stco.rs
@@ -28,7 +28,7 @@ impl ParseAtom for Stco {
                 }
 
                 let table_pos = reader.seek(SeekFrom::Current(0))?;
-                let mut offsets = Vec::with_capacity(entries as usize);
+                let mut offsets = Vec::new();
                 for _ in 0..entries {
                     let offset = reader.read_u32()?;
                     offsets.push(offset);
-- 
2.43.0


From 96c5e63e9fc0ac535cd4c83b05ed7287be4ce65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 16/24] fix: trailing byte of utf-16 data is silently dropped

---
 src/atom/data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/atom/data.rs b/src/atom/data.rs
index 8b9b856..f0d0aec 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -493,6 +493,12 @@ pub trait ReadData: Read {
         Self: Sized,
     {
         let buf = self.read_u8_vec(len)?;
+        if buf.len() % 2 != 0 {
+            return Err(crate::Error::new(
+                crate::ErrorKind::Parsing,
+                "Data is not valid utf-16, incomplete code unit.".to_owned(),
+            ));
+        }
 
         let data: Vec<u16> =
             buf.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
-- 
2.43.0


From 5594fed933d4beb64cc7f707c3d2ddbfb90e3d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 17/24] fix: movie header durations overflow or are divided by
 zero

---
 src/atom/mvhd.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/atom/mvhd.rs b/src/atom/mvhd.rs
index d2a9c4b..0c922cd 100644
--- a/src/atom/mvhd.rs
+++ b/src/atom/mvhd.rs
@@ -33,7 +33,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u32()? as u64;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scale_duration(timescale, duration)?;
             }
             1 => {
                 // # Version 1
@@ -48,7 +48,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u64()?;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scale_duration(timescale, duration)?;
             }
             v => {
                 return Err(crate::Error::new(
@@ -63,3 +63,16 @@ impl ParseAtom for Mvhd {
         Ok(mvhd)
     }
 }
+
+fn scale_duration(timescale: u64, duration: u64) -> crate::Result<Duration> {
+    if timescale == 0 {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Movie header (mvhd) time scale is 0".to_owned(),
+        ));
+    }
+
+    let secs = duration / timescale;
+    let nanos = duration % timescale * 1_000_000_000 / timescale;
+    Ok(Duration::new(secs, nanos as u32))
+}
-- 
2.43.0


From 6ca9b6b4ea56688a565f30fd9ccdbde3e74ede33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 18/24] fix: short audio descriptors cause overflows

---
 src/atom/mp4a.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index c976684..ed3aa54 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -137,7 +137,12 @@ fn parse_esds(reader: &mut (impl Read + Seek), info: &mut Mp4a, size: Size) -> c
         ));
     }
 
-    let max_len = size.content_len() - 4 - head_len;
+    let max_len = size.content_len().checked_sub(4 + head_len).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Length of esds atom is too short for its content".to_owned(),
+        )
+    })?;
     parse_es_desc(reader, info, min(desc_len, max_len))?;
 
     Ok(())
@@ -223,6 +228,12 @@ fn parse_dc_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
 /// 3 bits ?
 /// ```
 fn parse_ds_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) -> crate::Result<()> {
+    let remaining = len.checked_sub(2).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Length of decoder specific descriptor is too short for its content".to_owned(),
+        )
+    })?;
     let num = reader.read_u16()?;
 
     let freq_index = ((num >> 7) & 0x0F) as u8;
@@ -231,7 +242,7 @@ fn parse_ds_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
     let channel_config = ((num >> 3) & 0x0F) as u8;
     info.channel_config = ChannelConfig::try_from(channel_config).ok();
 
-    reader.seek(SeekFrom::Current((len - 2) as i64))?;
+    reader.seek(SeekFrom::Current(remaining as i64))?;
     Ok(())
 }
 
-- 
2.43.0


From 8a1f34fe99e29fbab1304cfaff5bbdbc4303d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 19/24] fix: metadata is written to the last movie atom but
 read from the first one

---
 src/atom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 2eb42c0..ddae156 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -378,7 +378,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         let head = parse_head(reader)?;
 
         match head.fourcc() {
-            MOVIE => moov = Some(Moov::find(reader, head.size())?),
+            MOVIE if moov.is_none() => moov = Some(Moov::find(reader, head.size())?),
             MEDIA_DATA => mdat = Some(Mdat::find(reader, head.size())?),
             _ => {
                 reader.seek(SeekFrom::Current(head.content_len() as i64))?;
-- 
2.43.0


From 5251cefabce641f3d85ad062e979228dbde7fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 20/24] fix: lengths of values are truncated if they exceed 32
 bits

---
 src/atom/mod.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index ddae156..1227910 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -171,13 +171,13 @@ impl AtomData {
     }
 
     fn size(&self) -> Size {
-        let data_len: u64 = self.data.iter().map(|d| 16 + d.len()).sum();
+        let data_len: u64 = self.data.iter().map(|d| Size::from(8 + d.len()).len()).sum();
 
         match &self.ident {
             DataIdent::Fourcc(_) => Size::from(data_len),
             DataIdent::Freeform { mean, name } => {
-                let mean_len = 12 + mean.len() as u64;
-                let name_len = 12 + name.len() as u64;
+                let mean_len = Size::from(4 + mean.len() as u64).len();
+                let name_len = Size::from(4 + name.len() as u64).len();
 
                 Size::from(mean_len + name_len + data_len)
             }
@@ -280,24 +280,18 @@ impl AtomData {
                 };
                 write_head(writer, Head::from(self.size(), FREEFORM))?;
 
-                let mean_len: u32 = 12 + mean.len() as u32;
-                writer.write_all(&u32::to_be_bytes(mean_len))?;
-                writer.write_all(MEAN.deref())?;
+                write_head(writer, Head::from(Size::from(4 + mean.len() as u64), MEAN))?;
                 writer.write_all(&[0u8; 4])?;
                 writer.write_all(mean.as_bytes())?;
 
-                let name_len: u32 = 12 + name.len() as u32;
-                writer.write_all(&u32::to_be_bytes(name_len))?;
-                writer.write_all(NAME.deref())?;
+                write_head(writer, Head::from(Size::from(4 + name.len() as u64), NAME))?;
                 writer.write_all(&[0u8; 4])?;
                 writer.write_all(name.as_bytes())?;
             }
         }
 
         for d in self.data.iter() {
-            let data_len: u32 = 16 + d.len() as u32;
-            writer.write_all(&u32::to_be_bytes(data_len))?;
-            writer.write_all(DATA.deref())?;
+            write_head(writer, Head::from(Size::from(8 + d.len()), DATA))?;
             d.write_typed(writer)?;
         }
 
-- 
2.43.0


From 9ea63b83961e0b26ffa851ab31bb20bab04ca787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:25 +0000
Subject: [PATCH 21/24] fix: setting a half of a track or disc number changes
 the other half

---
 src/tag/tuple.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tag/tuple.rs b/src/tag/tuple.rs
index 7179619..f315f4a 100644
--- a/src/tag/tuple.rs
+++ b/src/tag/tuple.rs
@@ -202,11 +202,21 @@ fn total(vec: &[u8]) -> Option<u16> {
     be_int!(vec, 4, u16).and_then(|n| if n == 0 { None } else { Some(n) })
 }
 
+/// Drops an incomplete trailing half, which is treated as nonexistent and must not become a part of
+/// a number if the vector is extended.
+fn drop_incomplete(vec: &mut Vec<u8>) {
+    if vec.len() == 3 || vec.len() == 5 {
+        vec.pop();
+    }
+}
+
 fn set_number(vec: &mut Vec<u8>, number: u16) {
+    drop_incomplete(vec);
     set_be_int!(vec, 2, number, u16);
 }
 
 fn set_total(vec: &mut Vec<u8>, total: u16) {
+    drop_incomplete(vec);
     set_be_int!(vec, 4, total, u16);
 }
 
-- 
2.43.0


From e5f2a5e7e0ac3769a8ebd7b9691b8a87f4918bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 22/24] fix: decode escaped audio object types and explicit
 frequencies

The fields following an escaped object type or an explicit frequency are
located further behind, they were read from the wrong bits.
---
 src/atom/mp4a.rs | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index ed3aa54..c0ca9e6 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -222,25 +222,45 @@ fn parse_dc_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
 /// ```md
 /// 1 byte tag (0x05)
 /// 1~4 bytes len
-/// 5 bits profile
-/// 4 bits frequency index
+/// 5 bits profile (31: 6 more bits follow)
+/// 4 bits frequency index (15: 24 bits frequency follow)
 /// 4 bits channel config
-/// 3 bits ?
+/// ...
 /// ```
 fn parse_ds_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) -> crate::Result<()> {
-    let remaining = len.checked_sub(2).ok_or_else(|| {
+    let mut remaining = len.checked_sub(2).ok_or_else(|| {
         crate::Error::new(
             crate::ErrorKind::Parsing,
             "Length of decoder specific descriptor is too short for its content".to_owned(),
         )
     })?;
     let num = reader.read_u16()?;
+    let (freq_index, channel_config) = match (num >> 11, (num >> 7) & 0x0F) {
+        (31, _) | (_, 15) => {
+            // An escaped profile or an explicit frequency moves the following fields behind the
+            // first 2 bytes.
+            let mut more = [0u8; 4];
+            let more_len = min(remaining, 4) as usize;
+            reader.read_exact(&mut more[..more_len])?;
+            remaining -= more_len as u64;
+
+            let bits = (num as u64) << 32 | u32::from_be_bytes(more) as u64;
+            let bits_len = 16 + 8 * more_len as u32;
+            let field = |pos: u32| match pos + 4 <= bits_len {
+                true => Some(((bits >> (48 - pos - 4)) & 0x0F) as u8),
+                false => None,
+            };
+
+            let freq_pos = if num >> 11 == 31 { 11 } else { 5 };
+            let freq_index = field(freq_pos);
+            let channel_pos = freq_pos + if freq_index == Some(15) { 28 } else { 4 };
+            (freq_index, field(channel_pos))
+        }
+        (_, freq_index) => (Some(freq_index as u8), Some(((num >> 3) & 0x0F) as u8)),
+    };
 
-    let freq_index = ((num >> 7) & 0x0F) as u8;
-    info.sample_rate = SampleRate::try_from(freq_index).ok();
-
-    let channel_config = ((num >> 3) & 0x0F) as u8;
-    info.channel_config = ChannelConfig::try_from(channel_config).ok();
+    info.sample_rate = freq_index.and_then(|i| SampleRate::try_from(i).ok());
+    info.channel_config = channel_config.and_then(|c| ChannelConfig::try_from(c).ok());
 
     reader.seek(SeekFrom::Current(remaining as i64))?;
     Ok(())
-- 
2.43.0


From b9eca66845451a1363b237af33f1e268b034ff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 23/24] fix: writing panics on atoms with lengths close to 2^63

---
 src/atom/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 1227910..590913f 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -496,10 +496,12 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
     // checking the new lengths of the existing ilst hierarchy atoms
     for a in update_atoms.iter() {
-        if !a.ext() && a.len() as i64 + len_diff > u32::MAX as i64 {
+        let max_len = if a.ext() { i64::MAX } else { u32::MAX as i64 };
+        let new_len = i64::try_from(a.len()).ok().and_then(|l| l.checked_add(len_diff));
+        if !matches!(new_len, Some(l) if l <= max_len) {
             return Err(crate::Error::new(
                 crate::ErrorKind::Parsing,
-                "New atom length doesn't fit into a 32 bit atom head".to_owned(),
+                "New atom length doesn't fit into the atom head".to_owned(),
             ));
         }
     }
-- 
2.43.0


From dc10ef210e9a4cc32ed288877037878686722ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 24/24] fix: find the esds atom behind other atoms of an mp4a
 atom

---
 src/atom/mp4a.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index c0ca9e6..9672a3d 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -77,23 +77,23 @@ impl ParseAtom for Mp4a {
 
         reader.seek(SeekFrom::Current(28))?;
 
-        let remaining = size.content_len().saturating_sub(28);
-        let head = match remaining {
-            0 => None,
-            _ => Some(parse_head(reader)?).filter(|h| h.fourcc() == ELEMENTARY_STREAM_DESCRIPTION),
+        let mut remaining = size.content_len().saturating_sub(28);
+        let head = loop {
+            if remaining == 0 {
+                return Err(crate::Error::new(
+                    crate::ErrorKind::AtomNotFound(ELEMENTARY_STREAM_DESCRIPTION),
+                    "Missing esds atom".to_owned(),
+                ));
+            }
+
+            let head = parse_child_head(reader, remaining)?;
+            if head.fourcc() == ELEMENTARY_STREAM_DESCRIPTION {
+                break head;
+            }
+
+            reader.seek(SeekFrom::Current(head.content_len() as i64))?;
+            remaining -= head.len();
         };
-        let head = head.ok_or_else(|| {
-            crate::Error::new(
-                crate::ErrorKind::AtomNotFound(ELEMENTARY_STREAM_DESCRIPTION),
-                "Missing esds atom".to_owned(),
-            )
-        })?;
-        if head.len() > remaining {
-            return Err(crate::Error::new(
-                crate::ErrorKind::Parsing,
-                "Length of esds atom exceeds its parent".to_owned(),
-            ));
-        }
 
         parse_esds(reader, &mut mp4a, head.size())?;
 
-- 
2.43.0

