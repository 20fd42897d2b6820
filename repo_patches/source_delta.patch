From fb276f950675f2ec0e7ebe29b2812da986c81721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 01/30] fix: dictionary lookup matched words across NUL
 characters in the text

The double array uses label 0 as its terminator, so a NUL byte in the text
could be stepped over and "\0word" looked up as "word"; exact lookup
panicked. No entry contains NUL: stop the search before it.
---
 lindera-core/src/prefix_dict.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lindera-core/src/prefix_dict.rs b/lindera-core/src/prefix_dict.rs
index d077164..de4f227 100644
--- a/lindera-core/src/prefix_dict.rs
+++ b/lindera-core/src/prefix_dict.rs
@@ -34,6 +34,9 @@ impl PrefixDict<&[u8]> {
 
 impl<D: Deref<Target = [u8]>> PrefixDict<D> {
     pub fn prefix<'a>(&'a self, s: &'a str) -> impl Iterator<Item = (usize, WordEntry)> + 'a {
+        // The double array reserves NUL as its terminator, so no entry contains NUL
+        // and the search must not step over one.
+        let s = s.split('\0').next().unwrap_or(s);
         self.da
             .common_prefix_search(s)
             .flat_map(move |(offset_len, prefix_len)| {
@@ -55,6 +58,10 @@ impl<D: Deref<Target = [u8]>> PrefixDict<D> {
 
     /// Find `WordEntry`s with surface
     pub fn find_surface(&self, surface: &str) -> Vec<WordEntry> {
+        // No entry contains NUL, the terminator of the double array.
+        if surface.contains('\0') {
+            return vec![];
+        }
         match self.da.exact_match_search(surface) {
             Some(offset_len) => {
                 let offset = offset_len >> 5u32;
-- 
2.43.0


From ea120dd12b335d4becaa80ef27c5dcf24377ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 02/30] fix: char.def code points U+FEFF, U+FFFE and surrogates
 were misread

They were decoded as UTF-16 text, which drops byte order marks (the build
failed on a range such as 0xFE70..0xFEFF) and maps surrogates to U+FFFD.
---
 lindera-core/src/character_definition.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/lindera-core/src/character_definition.rs b/lindera-core/src/character_definition.rs
index c3fb3dd..54b4372 100644
--- a/lindera-core/src/character_definition.rs
+++ b/lindera-core/src/character_definition.rs
@@ -1,32 +1,19 @@
 use std::collections::{BTreeSet, HashMap};
 
-use byteorder::{ByteOrder, LittleEndian};
-use encoding_rs::UTF_16LE;
 use serde::{Deserialize, Serialize};
 
 use crate::{error::LinderaErrorKind, LinderaResult};
 
 const DEFAULT_CATEGORY_NAME: &str = "DEFAULT";
 
-fn ucs2_to_unicode(ucs2_codepoint: u16) -> LinderaResult<u32> {
-    let mut buf = [0u8; 2];
-    LittleEndian::write_u16(&mut buf[..], ucs2_codepoint);
-
-    let s = UTF_16LE.decode(&buf[..]).0.into_owned();
-    let chrs: Vec<char> = s.chars().collect();
-
-    match chrs.len() {
-        1 => Ok(chrs[0] as u32),
-        _ => Err(LinderaErrorKind::Parse.with_error(anyhow::anyhow!("unusual char length"))),
-    }
-}
-
 fn parse_hex_codepoint(s: &str) -> LinderaResult<u32> {
     let removed_0x = s.trim_start_matches("0x");
+    // A UCS-2 code point is its own Unicode code point. (Decoding it as UTF-16 text would drop
+    // U+FEFF and U+FFFE as byte order marks and turn surrogate bounds into U+FFFD.)
     let ucs2_codepoint = u16::from_str_radix(removed_0x, 16)
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
 
-    ucs2_to_unicode(ucs2_codepoint)
+    Ok(u32::from(ucs2_codepoint))
 }
 
 #[derive(Serialize, Deserialize, Debug, Copy, Clone)]
-- 
2.43.0


From 2e0de2f892715118c32c33b84dc5608dfed48c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 03/30] fix: char.def categories got each other's definitions
 when a range came first

Category ids are given at first mention, but the definitions were kept in the
order of their lines, so a range naming a category before its definition line
shifted invoke/group/length to other categories. Keep definitions by id, and
report a category that is used but never defined instead of panicking later.
---
 lindera-core/src/character_definition.rs  | 29 +++++++++++++++++------
 lindera-dictionary-builder/src/chardef.rs |  2 +-
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/lindera-core/src/character_definition.rs b/lindera-core/src/character_definition.rs
index 54b4372..d1be954 100644
--- a/lindera-core/src/character_definition.rs
+++ b/lindera-core/src/character_definition.rs
@@ -88,7 +88,7 @@ impl CharacterDefinitions {
 
 #[derive(Default)]
 pub struct CharacterDefinitionsBuilder {
-    category_definition: Vec<CategoryData>,
+    category_definition: HashMap<CategoryId, CategoryData>,
     category_index: HashMap<String, CategoryId>,
     char_ranges: Vec<(u32, u32, Vec<CategoryId>)>,
 }
@@ -209,25 +209,40 @@ impl CharacterDefinitionsBuilder {
             length,
         };
         // force a category_id allocation
-        self.category_id(fields[0]);
-        self.category_definition.push(category_data);
+        let category_id = self.category_id(fields[0]);
+        self.category_definition.insert(category_id, category_data);
 
         Ok(())
     }
 
-    pub fn build(self) -> CharacterDefinitions {
+    pub fn build(self) -> LinderaResult<CharacterDefinitions> {
         let mut category_names: Vec<String> = (0..self.category_index.len())
             .map(|_| String::new())
             .collect();
         for (category_name, category_id) in &self.category_index {
             category_names[category_id.0] = category_name.clone();
         }
+        // The definitions are looked up by category id, which is not the order of their lines when
+        // a range mentions a category before its definition.
+        let category_definitions = category_names
+            .iter()
+            .enumerate()
+            .map(|(id, name)| {
+                self.category_definition
+                    .get(&CategoryId(id))
+                    .copied()
+                    .ok_or_else(|| {
+                        LinderaErrorKind::Content
+                            .with_error(anyhow::anyhow!("category {} is not defined", name))
+                    })
+            })
+            .collect::<LinderaResult<Vec<CategoryData>>>()?;
         let mapping = self.build_lookup_table();
-        CharacterDefinitions {
-            category_definitions: self.category_definition,
+        Ok(CharacterDefinitions {
+            category_definitions,
             category_names,
             mapping,
-        }
+        })
     }
 }
 
diff --git a/lindera-dictionary-builder/src/chardef.rs b/lindera-dictionary-builder/src/chardef.rs
index 3a83d45..583f8b9 100644
--- a/lindera-dictionary-builder/src/chardef.rs
+++ b/lindera-dictionary-builder/src/chardef.rs
@@ -35,7 +35,7 @@ impl CharDefBuilder {
 
         let mut char_definitions_builder = CharacterDefinitionsBuilder::default();
         char_definitions_builder.parse(&char_def)?;
-        let char_definitions = char_definitions_builder.build();
+        let char_definitions = char_definitions_builder.build()?;
 
         let mut chardef_buffer = Vec::new();
         bincode::serialize_into(&mut chardef_buffer, &char_definitions)
-- 
2.43.0


From ebd9837c29fd0131aaa580ffa2e88ec83d7b2ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:28 +0000
Subject: [PATCH 04/30] fix: connection matrices with more than 32767 backward
 ids were misread

The matrix width was read back as a signed number.
---
 lindera-core/src/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lindera-core/src/connection.rs b/lindera-core/src/connection.rs
index 707f503..3145887 100644
--- a/lindera-core/src/connection.rs
+++ b/lindera-core/src/connection.rs
@@ -11,7 +11,7 @@ pub struct ConnectionCostMatrix {
 
 impl ConnectionCostMatrix {
     pub fn load_static(conn_data: &'static [u8]) -> ConnectionCostMatrix {
-        let backward_size = LittleEndian::read_i16(&conn_data[2..4]);
+        let backward_size = LittleEndian::read_u16(&conn_data[2..4]);
         ConnectionCostMatrix {
             costs_data: Cow::Borrowed(&conn_data[4..]),
             backward_size: backward_size as u32,
@@ -19,7 +19,7 @@ impl ConnectionCostMatrix {
     }
 
     pub fn load(conn_data: &[u8]) -> ConnectionCostMatrix {
-        let backward_size = LittleEndian::read_i16(&conn_data[2..4]);
+        let backward_size = LittleEndian::read_u16(&conn_data[2..4]);
         ConnectionCostMatrix {
             costs_data: Cow::Owned(conn_data[4..].to_vec()),
             backward_size: backward_size as u32,
-- 
2.43.0


From 32d369b52a3a8bc23ca0ec3523ab4e770dfac1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 05/30] fix: a malformed matrix.def made the builder panic

---
 lindera-dictionary-builder/src/cost_matrix.rs | 43 ++++++++++++++++---
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/lindera-dictionary-builder/src/cost_matrix.rs b/lindera-dictionary-builder/src/cost_matrix.rs
index 53367a1..3e63b7d 100644
--- a/lindera-dictionary-builder/src/cost_matrix.rs
+++ b/lindera-dictionary-builder/src/cost_matrix.rs
@@ -43,17 +43,48 @@ impl CostMatrixBuilder {
         let header = lines_it.next().ok_or_else(|| {
             LinderaErrorKind::Content.with_error(anyhow::anyhow!("unknown error"))
         })?;
-        let forward_size = header[0] as u32;
-        let backward_size = header[1] as u32;
-        let len = 2 + (forward_size * backward_size) as usize;
+        if header.len() < 2 {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("matrix.def should start with its sizes")));
+        }
+        // The sizes are stored in 16 bits.
+        let (forward_size, backward_size) =
+            match (u16::try_from(header[0]), u16::try_from(header[1])) {
+                (Ok(forward_size), Ok(backward_size)) => {
+                    (forward_size as usize, backward_size as usize)
+                }
+                _ => {
+                    return Err(LinderaErrorKind::Content
+                        .with_error(anyhow::anyhow!("invalid size in matrix.def")))
+                }
+            };
+        let len = 2 + forward_size * backward_size;
         let mut costs = vec![i16::MAX; len];
         costs[0] = forward_size as i16;
         costs[1] = backward_size as i16;
         for fields in lines_it {
-            let forward_id = fields[0] as u32;
-            let backward_id = fields[1] as u32;
+            if fields.is_empty() {
+                continue;
+            }
+            if fields.len() < 3 {
+                return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                    "matrix.def should have a cost for each pair of ids"
+                )));
+            }
+            let (forward_id, backward_id) =
+                match (usize::try_from(fields[0]), usize::try_from(fields[1])) {
+                    (Ok(forward_id), Ok(backward_id))
+                        if forward_id < forward_size && backward_id < backward_size =>
+                    {
+                        (forward_id, backward_id)
+                    }
+                    _ => {
+                        return Err(LinderaErrorKind::Content
+                            .with_error(anyhow::anyhow!("id out of range in matrix.def")))
+                    }
+                };
             let cost = fields[2] as u16;
-            costs[2 + (backward_id + forward_id * backward_size) as usize] = cost as i16;
+            costs[2 + backward_id + forward_id * backward_size] = cost as i16;
         }
 
         let wtr_matrix_mtx_path = output_dir.join(Path::new("matrix.mtx"));
-- 
2.43.0


From 604473b746a0455a12a51cf1adee3c7a995adff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 06/30] fix: short rows, NUL surfaces and an empty lexicon made
 the dictionary builder panic

---
 lindera-dictionary-builder/src/dict.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index c0d8f17..cfc2d10 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -95,6 +95,17 @@ impl DictBuilder {
             for result in rdr.records() {
                 let record =
                     result.map_err(|err| LinderaErrorKind::Content.with_error(anyhow!(err)))?;
+                if record.len() < 4 {
+                    return Err(LinderaErrorKind::Content.with_error(anyhow!(
+                        "lexicon rows should have 4 or more fields: {:?}",
+                        record
+                    )));
+                }
+                if record[0].contains('\0') {
+                    // NUL is the terminator of the double array's keys.
+                    return Err(LinderaErrorKind::Content
+                        .with_error(anyhow!("surface contains NUL: {:?}", record)));
+                }
                 rows.push(record);
             }
         }
@@ -231,6 +242,10 @@ impl DictBuilder {
             keyset.push((key.as_bytes(), val));
             id += len;
         }
+        if keyset.is_empty() {
+            // The double array cannot be empty. This key has no word entries.
+            keyset.push((b"", 0));
+        }
 
         let da_bytes = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
-- 
2.43.0


From 8901627d09364a3497118c45994d6354864510e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 07/30] fix: short rows, NUL surfaces and an empty file made
 the user dictionary builder panic

---
 lindera-dictionary-builder/src/user_dict.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lindera-dictionary-builder/src/user_dict.rs b/lindera-dictionary-builder/src/user_dict.rs
index d4a1f4d..a8b4428 100644
--- a/lindera-dictionary-builder/src/user_dict.rs
+++ b/lindera-dictionary-builder/src/user_dict.rs
@@ -51,6 +51,20 @@ impl UserDictBuilder {
         for result in rdr.records() {
             let record =
                 result.map_err(|err| LinderaErrorKind::Content.with_error(anyhow::anyhow!(err)))?;
+            if record.len() != self.simple_userdic_fields_num
+                && record.len() < self.detailed_userdic_fields_num
+            {
+                return Err(LinderaErrorKind::Content.with_error(anyhow::anyhow!(
+                    "user dictionary should be a CSV with {} or {}+ fields",
+                    self.simple_userdic_fields_num,
+                    self.detailed_userdic_fields_num
+                )));
+            }
+            if record[0].contains('\0') {
+                // NUL is the terminator of the double array's keys.
+                return Err(LinderaErrorKind::Content
+                    .with_error(anyhow::anyhow!("surface contains NUL: {:?}", record)));
+            }
             rows.push(record);
         }
         rows.sort_by_key(|row| row[0].to_string());
@@ -133,6 +147,10 @@ impl UserDictBuilder {
             keyset.push((key.as_bytes(), val));
             id += len;
         }
+        if keyset.is_empty() {
+            // The double array cannot be empty. This key has no word entries.
+            keyset.push((b"", 0));
+        }
         let da_bytes = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
         })?;
-- 
2.43.0


From aa14a3fe8f83f85e42c9f2d265f2f06462c8863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 08/30] fix: ko-dic and CC-CEDICT builders panicked instead of
 returning errors

---
 lindera-cc-cedict-builder/src/cc_cedict_builder.rs | 8 ++++----
 lindera-ko-dic-builder/src/ko_dic_builder.rs       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lindera-cc-cedict-builder/src/cc_cedict_builder.rs b/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
index d1845eb..bb92ff6 100644
--- a/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
+++ b/lindera-cc-cedict-builder/src/cc_cedict_builder.rs
@@ -36,10 +36,10 @@ impl DictionaryBuilder for CcCedictBuilder {
         fs::create_dir_all(output_dir)
             .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
 
-        let chardef = self.build_chardef(input_dir, output_dir).unwrap();
-        self.build_unk(input_dir, &chardef, output_dir).unwrap();
-        self.build_dict(input_dir, output_dir).unwrap();
-        self.build_cost_matrix(input_dir, output_dir).unwrap();
+        let chardef = self.build_chardef(input_dir, output_dir)?;
+        self.build_unk(input_dir, &chardef, output_dir)?;
+        self.build_dict(input_dir, output_dir)?;
+        self.build_cost_matrix(input_dir, output_dir)?;
 
         Ok(())
     }
diff --git a/lindera-ko-dic-builder/src/ko_dic_builder.rs b/lindera-ko-dic-builder/src/ko_dic_builder.rs
index 67d0142..123e5f1 100644
--- a/lindera-ko-dic-builder/src/ko_dic_builder.rs
+++ b/lindera-ko-dic-builder/src/ko_dic_builder.rs
@@ -36,10 +36,10 @@ impl DictionaryBuilder for KoDicBuilder {
         fs::create_dir_all(output_dir)
             .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
 
-        let chardef = self.build_chardef(input_dir, output_dir).unwrap();
-        self.build_unk(input_dir, &chardef, output_dir).unwrap();
-        self.build_dict(input_dir, output_dir).unwrap();
-        self.build_cost_matrix(input_dir, output_dir).unwrap();
+        let chardef = self.build_chardef(input_dir, output_dir)?;
+        self.build_unk(input_dir, &chardef, output_dir)?;
+        self.build_dict(input_dir, output_dir)?;
+        self.build_cost_matrix(input_dir, output_dir)?;
 
         Ok(())
     }
-- 
2.43.0


From 0c69d4a90e4bed65aaae59ef46baefd648764dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 09/30] fix: loading a truncated connection cost matrix
 panicked

---
 lindera-dictionary/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lindera-dictionary/src/lib.rs b/lindera-dictionary/src/lib.rs
index adbb391..5eca813 100644
--- a/lindera-dictionary/src/lib.rs
+++ b/lindera-dictionary/src/lib.rs
@@ -144,6 +144,11 @@ impl DictionaryLoader {
     pub fn connection(dir: PathBuf) -> LinderaResult<ConnectionCostMatrix> {
         let path = dir.join("matrix.mtx");
         let data = Self::read_file(path)?;
+        // The matrix starts with its two 16-bit sizes.
+        if data.len() < 4 {
+            return Err(LinderaErrorKind::Content
+                .with_error(anyhow::anyhow!("the connection cost matrix is truncated")));
+        }
 
         Ok(ConnectionCostMatrix::load(data.as_slice()))
     }
-- 
2.43.0


From 325d10fc5086c7e7e21e208c68eb311623cc9020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 10/30] fix: only look at the matched bytes when checking
 dictionary matches for NUL

---
 lindera-core/src/prefix_dict.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lindera-core/src/prefix_dict.rs b/lindera-core/src/prefix_dict.rs
index de4f227..a75609e 100644
--- a/lindera-core/src/prefix_dict.rs
+++ b/lindera-core/src/prefix_dict.rs
@@ -34,11 +34,11 @@ impl PrefixDict<&[u8]> {
 
 impl<D: Deref<Target = [u8]>> PrefixDict<D> {
     pub fn prefix<'a>(&'a self, s: &'a str) -> impl Iterator<Item = (usize, WordEntry)> + 'a {
-        // The double array reserves NUL as its terminator, so no entry contains NUL
-        // and the search must not step over one.
-        let s = s.split('\0').next().unwrap_or(s);
         self.da
             .common_prefix_search(s)
+            // The double array reserves NUL as its terminator: no entry contains NUL, but the
+            // search may step over one in the text.
+            .take_while(move |(_offset_len, prefix_len)| !s.as_bytes()[..*prefix_len].contains(&0))
             .flat_map(move |(offset_len, prefix_len)| {
                 let len = offset_len & ((1u32 << 5) - 1u32);
                 let offset = offset_len >> 5u32;
-- 
2.43.0


From 98a419378c46d5e0449e59484026501bea3ede4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 11/30] fix: empty mappings and NUL made the mapping filters
 panic or match wrongly

---
 lindera-filter/src/character_filter/mapping.rs | 13 +++++++++++++
 lindera-filter/src/token_filter/mapping.rs     | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/lindera-filter/src/character_filter/mapping.rs b/lindera-filter/src/character_filter/mapping.rs
index d76f063..a02da1b 100644
--- a/lindera-filter/src/character_filter/mapping.rs
+++ b/lindera-filter/src/character_filter/mapping.rs
@@ -50,8 +50,17 @@ impl MappingCharacterFilter {
         let mut keys = config.mapping.keys().collect::<Vec<_>>();
         keys.sort();
         for (value, key) in keys.into_iter().enumerate() {
+            if key.contains('\0') {
+                // NUL is the terminator of the double array's keys.
+                return Err(LinderaErrorKind::Args
+                    .with_error(anyhow::anyhow!("mapping key contains NUL: {:?}", key)));
+            }
             keyset.push((key.as_bytes(), value as u32));
         }
+        if keyset.is_empty() {
+            // The double array cannot be empty. The empty key never matches.
+            keyset.push((b"", 0));
+        }
 
         let data = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
@@ -85,6 +94,10 @@ impl CharacterFilter for MappingCharacterFilter {
             match self
                 .trie
                 .common_prefix_search(suffix.as_bytes())
+                // No key contains NUL, but the search may step over one in the text.
+                .take_while(|(_offset_len, prefix_len)| {
+                    !suffix.as_bytes()[..*prefix_len].contains(&0)
+                })
                 .last()
                 .map(|(_offset_len, prefix_len)| prefix_len)
             {
diff --git a/lindera-filter/src/token_filter/mapping.rs b/lindera-filter/src/token_filter/mapping.rs
index 8de2470..7d8b53c 100644
--- a/lindera-filter/src/token_filter/mapping.rs
+++ b/lindera-filter/src/token_filter/mapping.rs
@@ -47,8 +47,17 @@ impl MappingTokenFilter {
         let mut keys = config.mapping.keys().collect::<Vec<_>>();
         keys.sort();
         for (value, key) in keys.into_iter().enumerate() {
+            if key.contains('\0') {
+                // NUL is the terminator of the double array's keys.
+                return Err(LinderaErrorKind::Args
+                    .with_error(anyhow::anyhow!("mapping key contains NUL: {:?}", key)));
+            }
             keyset.push((key.as_bytes(), value as u32));
         }
+        if keyset.is_empty() {
+            // The double array cannot be empty. The empty key never matches.
+            keyset.push((b"", 0));
+        }
 
         let data = DoubleArrayBuilder::build(&keyset).ok_or_else(|| {
             LinderaErrorKind::Io.with_error(anyhow::anyhow!("DoubleArray build error."))
@@ -80,6 +89,10 @@ impl TokenFilter for MappingTokenFilter {
                 match self
                     .trie
                     .common_prefix_search(suffix.as_bytes())
+                    // No key contains NUL, but the search may step over one in the text.
+                    .take_while(|(_offset_len, prefix_len)| {
+                        !suffix.as_bytes()[..*prefix_len].contains(&0)
+                    })
                     .last()
                     .map(|(_offset_len, prefix_len)| prefix_len)
                 {
-- 
2.43.0


From f62ebd88f319b8124a9baf7d0fc72eb3dc78dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 12/30] fix: regex filter offsets ignored capture references
 and were wrong at empty matches

---
 lindera-filter/src/character_filter/regex.rs | 34 +++++++++++---------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/lindera-filter/src/character_filter/regex.rs b/lindera-filter/src/character_filter/regex.rs
index ba4f66e..6c9a0b8 100644
--- a/lindera-filter/src/character_filter/regex.rs
+++ b/lindera-filter/src/character_filter/regex.rs
@@ -64,39 +64,43 @@ impl CharacterFilter for RegexCharacterFilter {
         let mut offsets: Vec<usize> = Vec::new();
         let mut diffs: Vec<i64> = Vec::new();
 
-        self.regex.find_iter(text).for_each(|mat| {
+        let mut new_text = String::with_capacity(text.len());
+        let mut copied = 0;
+
+        for captures in self.regex.captures_iter(text) {
+            let mat = captures.get(0).expect("group 0 is the whole match");
             let input_start = mat.start();
-            let input_text = mat.as_str();
-            let input_len = input_text.len();
-            let replacement_text = self.config.replacement.as_str();
-            let replacement_len = replacement_text.len();
+            let input_len = mat.len();
+            new_text.push_str(&text[copied..input_start]);
+            let output_start = new_text.len();
+            // The replacement can refer to capture groups.
+            captures.expand(&self.config.replacement, &mut new_text);
+            copied = mat.end();
+
+            let replacement_len = new_text.len() - output_start;
             let diff_len = input_len as i64 - replacement_len as i64;
-            let input_offset = input_start + input_len;
 
             if diff_len != 0 {
                 let prev_diff = *diffs.last().unwrap_or(&0);
 
                 if diff_len > 0 {
                     // Replacement is shorter than matched surface.
-                    let offset = (input_offset as i64 - diff_len - prev_diff) as usize;
+                    let offset = output_start + replacement_len;
                     let diff = prev_diff + diff_len;
                     add_offset_diff(&mut offsets, &mut diffs, offset, diff);
                 } else {
                     // Replacement is longer than matched surface.
-                    let output_start = (input_offset as i64 + -prev_diff) as usize;
+                    // What is inserted at an empty match stands for the position of the match.
+                    let first = if input_len == 0 { 1 } else { 0 };
                     for extra_idx in 0..diff_len.unsigned_abs() as usize {
-                        let offset = output_start + extra_idx;
+                        let offset = output_start + input_len + extra_idx + first;
                         let diff = prev_diff - extra_idx as i64 - 1;
                         add_offset_diff(&mut offsets, &mut diffs, offset, diff);
                     }
                 }
             }
-        });
-
-        let new_text = self
-            .regex
-            .replace_all(text, &self.config.replacement)
-            .to_string();
+        }
+        new_text.push_str(&text[copied..]);
 
         Ok((new_text, offsets, diffs))
     }
-- 
2.43.0


From 4fe5fd345fd8801ae968e8ec5197edc2abf4c6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 13/30] fix: unicode normalization missed compositions across
 grapheme clusters

---
 .../src/character_filter/unicode_normalize.rs | 45 ++++++++++++++++---
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/lindera-filter/src/character_filter/unicode_normalize.rs b/lindera-filter/src/character_filter/unicode_normalize.rs
index eaaf4fc..2fca265 100644
--- a/lindera-filter/src/character_filter/unicode_normalize.rs
+++ b/lindera-filter/src/character_filter/unicode_normalize.rs
@@ -62,6 +62,43 @@ impl UnicodeNormalizeCharacterFilter {
     }
 }
 
+impl UnicodeNormalizeCharacterFilter {
+    fn normalize(&self, text: &str) -> String {
+        match self.config.kind {
+            UnicodeNormalizeKind::NFC => text.nfc().collect(),
+            UnicodeNormalizeKind::NFD => text.nfd().collect(),
+            UnicodeNormalizeKind::NFKC => text.nfkc().collect(),
+            UnicodeNormalizeKind::NFKD => text.nfkd().collect(),
+        }
+    }
+
+    /// Splits the text into pieces that can be normalized on their own: grapheme clusters,
+    /// joined where normalization works across them.
+    fn pieces<'a>(&self, text: &'a str) -> Vec<(&'a str, String)> {
+        let mut pieces: Vec<(&str, String)> = Vec::new();
+        for (start, grapheme) in text.grapheme_indices(true) {
+            let end = start + grapheme.len();
+            let mut piece = grapheme;
+            let mut normalized = self.normalize(piece);
+            while let Some((prev_piece, prev_normalized)) = pieces.last() {
+                let joined_piece = &text[end - piece.len() - prev_piece.len()..end];
+                let joined = self.normalize(joined_piece);
+                if joined.len() == prev_normalized.len() + normalized.len()
+                    && joined.starts_with(prev_normalized.as_str())
+                    && joined.ends_with(normalized.as_str())
+                {
+                    break;
+                }
+                piece = joined_piece;
+                normalized = joined;
+                pieces.pop();
+            }
+            pieces.push((piece, normalized));
+        }
+        pieces
+    }
+}
+
 impl CharacterFilter for UnicodeNormalizeCharacterFilter {
     fn name(&self) -> &'static str {
         UNICODE_NORMALIZE_CHARACTER_FILTER_NAME
@@ -74,14 +111,8 @@ impl CharacterFilter for UnicodeNormalizeCharacterFilter {
         let mut result = String::new();
         let mut input_start = 0;
 
-        for c in text.graphemes(true) {
+        for (c, replacement_text) in self.pieces(text) {
             let input_len = c.len();
-            let replacement_text = match self.config.kind {
-                UnicodeNormalizeKind::NFC => c.nfc().collect::<String>(),
-                UnicodeNormalizeKind::NFD => c.nfd().collect::<String>(),
-                UnicodeNormalizeKind::NFKC => c.nfkc().collect::<String>(),
-                UnicodeNormalizeKind::NFKD => c.nfkd().collect::<String>(),
-            };
             let replacement_len = replacement_text.len();
             let diff_len = input_len as i64 - replacement_len as i64;
             let input_offset = input_start + input_len;
-- 
2.43.0


From 63fdff19c353439edaff4b10320190d46b195986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 14/30] fix: iteration marks repeating characters of another
 byte length shifted the offsets

---
 .../japanese_iteration_mark.rs                | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lindera-filter/src/character_filter/japanese_iteration_mark.rs b/lindera-filter/src/character_filter/japanese_iteration_mark.rs
index 6bb46e5..5b44750 100644
--- a/lindera-filter/src/character_filter/japanese_iteration_mark.rs
+++ b/lindera-filter/src/character_filter/japanese_iteration_mark.rs
@@ -6,7 +6,7 @@ use serde_json::Value;
 use lindera_core::error::LinderaErrorKind;
 use lindera_core::LinderaResult;
 
-use crate::character_filter::CharacterFilter;
+use crate::character_filter::{add_offset_diff, CharacterFilter};
 
 pub const JAPANESE_ITERATION_MARK_CHARACTER_FILTER_NAME: &str = "japanese_iteration_mark";
 
@@ -186,7 +186,28 @@ impl CharacterFilter for JapaneseIterationMarkCharacterFilter {
             filterd_text.push_str(&self.normalize(&iter_marks, &text_chars));
         }
 
-        Ok((filterd_text, Vec::new(), Vec::new()))
+        // The repeated characters can take more or fewer bytes than the marks.
+        let mut offsets: Vec<usize> = Vec::new();
+        let mut diffs: Vec<i64> = Vec::new();
+        let mut input_end = 0;
+        let mut output_end = 0;
+        for (input, output) in text_chars.iter().zip(filterd_text.chars()) {
+            let input_len = input.len_utf8();
+            let output_len = output.len_utf8();
+            input_end += input_len;
+            output_end += output_len;
+            // Positions beyond the length of the mark stand for its end.
+            for offset in (output_end - output_len + input_len.min(output_len))..output_end {
+                let diff = input_end as i64 - 1 - offset as i64;
+                add_offset_diff(&mut offsets, &mut diffs, offset, diff);
+            }
+            if input_len != output_len {
+                let diff = input_end as i64 - output_end as i64;
+                add_offset_diff(&mut offsets, &mut diffs, output_end, diff);
+            }
+        }
+
+        Ok((filterd_text, offsets, diffs))
     }
 }
 
-- 
2.43.0


From 2f2b748fb2802c3e65a99b32bc0e974d60f434e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 15/30] fix: convert each run of numerals on its own in
 japanese_number
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A numeral next to other characters was converted together with them: "十分"
panicked and "第十" became "第0".
---
 .../src/token_filter/japanese_number.rs       | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index f25007d..96ade7f 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -129,7 +129,7 @@ impl TokenFilter for JapaneseNumberTokenFilter {
 
 fn adjust_digits(num: &str, base: &str, digit: &str) -> String {
     let zero_str = format!("{}{}", base, digit);
-    let zero_len = zero_str.len() - num.len();
+    let zero_len = zero_str.len().saturating_sub(num.len());
     let zeros = &zero_str[0..zero_len];
 
     let mut num_str = num.to_owned();
@@ -137,7 +137,34 @@ fn adjust_digits(num: &str, base: &str, digit: &str) -> String {
     num_str
 }
 
+fn is_numeral(c: char) -> bool {
+    matches!(c, '0'..='9' | '０'..='９')
+        || "〇零一壱二弐三参四五六七八九十拾百千万億兆京垓".contains(c)
+}
+
+/// Convert every run of numerals in the text on its own.
 fn to_arabic_numerals(from_str: &str) -> String {
+    let mut result = String::new();
+    let mut rest = from_str;
+
+    while let Some(c) = rest.chars().next() {
+        let numeral = is_numeral(c);
+        let len = rest
+            .find(|c| is_numeral(c) != numeral)
+            .unwrap_or(rest.len());
+        let (run, next) = rest.split_at(len);
+        if numeral {
+            result.push_str(&numeral_to_arabic(run));
+        } else {
+            result.push_str(run);
+        }
+        rest = next;
+    }
+
+    result
+}
+
+fn numeral_to_arabic(from_str: &str) -> String {
     let mut num_buf = String::new();
     let mut digit = String::new();
 
-- 
2.43.0


From e637e2379326b926cc71fac65e1459657d1b80cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 16/30] fix: no panic in japanese_katakana_stem for characters
 outside every Unicode block

---
 lindera-filter/src/token_filter/japanese_katakana_stem.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_katakana_stem.rs b/lindera-filter/src/token_filter/japanese_katakana_stem.rs
index 63e44f0..c0cbba9 100644
--- a/lindera-filter/src/token_filter/japanese_katakana_stem.rs
+++ b/lindera-filter/src/token_filter/japanese_katakana_stem.rs
@@ -91,8 +91,8 @@ impl TokenFilter for JapaneseKatakanaStemTokenFilter {
 
 fn is_katakana(text: &str) -> bool {
     for ch in text.chars() {
-        let block = unicode_blocks::find_unicode_block(ch).unwrap();
-        if block != unicode_blocks::KATAKANA {
+        // Not every character belongs to a block.
+        if unicode_blocks::find_unicode_block(ch) != Some(unicode_blocks::KATAKANA) {
             return false;
         }
     }
-- 
2.43.0


From ba52aeceae538145eb2e7ab699eb2b11538c2ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 17/30] fix: no panic on tags with more than four levels in
 token filters

---
 lindera-filter/src/token_filter/japanese_compound_word.rs | 4 ++--
 lindera-filter/src/token_filter/japanese_keep_tags.rs     | 2 +-
 lindera-filter/src/token_filter/japanese_number.rs        | 2 +-
 lindera-filter/src/token_filter/japanese_stop_tags.rs     | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_compound_word.rs b/lindera-filter/src/token_filter/japanese_compound_word.rs
index 3403c13..ffcc102 100644
--- a/lindera-filter/src/token_filter/japanese_compound_word.rs
+++ b/lindera-filter/src/token_filter/japanese_compound_word.rs
@@ -30,7 +30,7 @@ impl JapaneseCompoundWordTokenFilterConfig {
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = tag.split(',').collect();
-            for (i, j) in tag_array.iter().enumerate() {
+            for (i, j) in tag_array.iter().take(4).enumerate() {
                 formatted_tag[i] = j;
             }
 
@@ -41,7 +41,7 @@ impl JapaneseCompoundWordTokenFilterConfig {
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = new_tag_str.split(',').collect();
-            for (i, j) in tag_array.iter().enumerate() {
+            for (i, j) in tag_array.iter().take(4).enumerate() {
                 formatted_tag[i] = j;
             }
 
diff --git a/lindera-filter/src/token_filter/japanese_keep_tags.rs b/lindera-filter/src/token_filter/japanese_keep_tags.rs
index 16a5f63..5daaf40 100644
--- a/lindera-filter/src/token_filter/japanese_keep_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_keep_tags.rs
@@ -23,7 +23,7 @@ impl JapaneseKeepTagsTokenFilterConfig {
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = tag.split(',').collect();
-            for (i, j) in tag_array.iter().enumerate() {
+            for (i, j) in tag_array.iter().take(4).enumerate() {
                 formatted_tag[i] = j;
             }
 
diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index 96ade7f..a325905 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -25,7 +25,7 @@ impl JapaneseNumberTokenFilterConfig {
                     let mut formatted_tag = ["*", "*", "*", "*"];
 
                     let tag_array: Vec<&str> = tag.split(',').collect();
-                    for (i, j) in tag_array.iter().enumerate() {
+                    for (i, j) in tag_array.iter().take(4).enumerate() {
                         formatted_tag[i] = j;
                     }
 
diff --git a/lindera-filter/src/token_filter/japanese_stop_tags.rs b/lindera-filter/src/token_filter/japanese_stop_tags.rs
index 9e657e1..d43a146 100644
--- a/lindera-filter/src/token_filter/japanese_stop_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_stop_tags.rs
@@ -23,7 +23,7 @@ impl JapaneseStopTagsTokenFilterConfig {
             let mut formatted_tag = ["*", "*", "*", "*"];
 
             let tag_array: Vec<&str> = tag.split(',').collect();
-            for (i, j) in tag_array.iter().enumerate() {
+            for (i, j) in tag_array.iter().take(4).enumerate() {
                 formatted_tag[i] = j;
             }
 
-- 
2.43.0


From 4674cd35fa00beda2c1efacb5793b8a286f8fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 18/30] fix: no panic in reading and base form filters when the
 detail column is missing

---
 .../src/token_filter/japanese_base_form.rs           | 12 +++++++++---
 .../src/token_filter/japanese_reading_form.rs        | 12 +++++++++---
 .../src/token_filter/korean_reading_form.rs          |  4 +++-
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_base_form.rs b/lindera-filter/src/token_filter/japanese_base_form.rs
index baf713f..40f747a 100644
--- a/lindera-filter/src/token_filter/japanese_base_form.rs
+++ b/lindera-filter/src/token_filter/japanese_base_form.rs
@@ -65,15 +65,21 @@ impl TokenFilter for JapaneseBaseFormTokenFilter {
             match self.config.kind {
                 #[cfg(feature = "ipadic")]
                 DictionaryKind::IPADIC => {
-                    token.text = token.details[6].to_string();
+                    if let Some(form) = token.details.get(6) {
+                        token.text = form.to_string();
+                    }
                 }
                 #[cfg(feature = "ipadic-neologd")]
                 DictionaryKind::IPADICNEologd => {
-                    token.text = token.details[6].to_string();
+                    if let Some(form) = token.details.get(6) {
+                        token.text = form.to_string();
+                    }
                 }
                 #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
-                    token.text = token.details[10].to_string();
+                    if let Some(form) = token.details.get(10) {
+                        token.text = form.to_string();
+                    }
                 }
                 _ => {
                     // NOOP
diff --git a/lindera-filter/src/token_filter/japanese_reading_form.rs b/lindera-filter/src/token_filter/japanese_reading_form.rs
index 03fab89..c13a859 100644
--- a/lindera-filter/src/token_filter/japanese_reading_form.rs
+++ b/lindera-filter/src/token_filter/japanese_reading_form.rs
@@ -64,15 +64,21 @@ impl TokenFilter for JapaneseReadingFormTokenFilter {
             match self.config.kind {
                 #[cfg(feature = "ipadic")]
                 DictionaryKind::IPADIC => {
-                    token.text = token.details[7].to_string();
+                    if let Some(form) = token.details.get(7) {
+                        token.text = form.to_string();
+                    }
                 }
                 #[cfg(feature = "ipadic-neologd")]
                 DictionaryKind::IPADICNEologd => {
-                    token.text = token.details[7].to_string();
+                    if let Some(form) = token.details.get(7) {
+                        token.text = form.to_string();
+                    }
                 }
                 #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
-                    token.text = token.details[6].to_string();
+                    if let Some(form) = token.details.get(6) {
+                        token.text = form.to_string();
+                    }
                 }
                 _ => {
                     // NOOP
diff --git a/lindera-filter/src/token_filter/korean_reading_form.rs b/lindera-filter/src/token_filter/korean_reading_form.rs
index fb8df2a..48c1ebf 100644
--- a/lindera-filter/src/token_filter/korean_reading_form.rs
+++ b/lindera-filter/src/token_filter/korean_reading_form.rs
@@ -30,7 +30,9 @@ impl TokenFilter for KoreanReadingFormTokenFilter {
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
             if token.details[0] != "UNK" {
-                token.text = token.details[3].to_string();
+                if let Some(reading) = token.details.get(3) {
+                    token.text = reading.to_string();
+                }
             }
         }
 
-- 
2.43.0


From 07a64d63e9943b690c7e96761ec1a80b96efca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 19/30] fix: a tokenizer config with a null user dictionary
 could not be read back

A config without user dictionary is written with "user_dictionary": null.
---
 lindera-tokenizer/src/tokenizer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lindera-tokenizer/src/tokenizer.rs b/lindera-tokenizer/src/tokenizer.rs
index 88c2952..f9f3e83 100644
--- a/lindera-tokenizer/src/tokenizer.rs
+++ b/lindera-tokenizer/src/tokenizer.rs
@@ -112,7 +112,8 @@ impl<'de> Deserialize<'de> for TokenizerConfig {
                 V: MapAccess<'de>,
             {
                 let mut dictionary = None;
-                let mut user_dictionary = None;
+                // `Some(None)` if the field is null.
+                let mut user_dictionary: Option<Option<UserDictionaryConfig>> = None;
                 let mut mode = None;
                 while let Some(key) = map.next_key()? {
                     match key {
@@ -141,7 +142,7 @@ impl<'de> Deserialize<'de> for TokenizerConfig {
                 let mode = mode.unwrap_or(Mode::Normal);
                 Ok(TokenizerConfig {
                     dictionary,
-                    user_dictionary,
+                    user_dictionary: user_dictionary.flatten(),
                     mode,
                 })
             }
-- 
2.43.0


From abc931e941a6f272d78ae7d6cf6807f5258b0f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 20/30] fix: japanese_number ignored tags that are not a list
 instead of rejecting them

---
 .../src/token_filter/japanese_number.rs       | 43 ++++++++-----------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index a325905..c9dfd58 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -47,30 +47,25 @@ impl JapaneseNumberTokenFilterConfig {
     }
 
     pub fn from_value(value: &serde_json::Value) -> LinderaResult<Self> {
-        let tags = if let Some(t) = value.get("tags") {
-            if t.is_array() {
-                Some(
-                    t.as_array()
-                        .ok_or_else(|| {
-                            LinderaErrorKind::Deserialize
-                                .with_error(anyhow::anyhow!("tags is required"))
-                        })?
-                        .iter()
-                        .map(|v| {
-                            v.as_str()
-                                .ok_or_else(|| {
-                                    LinderaErrorKind::Deserialize
-                                        .with_error(anyhow::anyhow!("tag must be string"))
-                                })
-                                .map(|s| s.to_string())
-                        })
-                        .collect::<LinderaResult<HashSet<String>>>()?,
-                )
-            } else {
-                None
-            }
-        } else {
-            None
+        let tags = match value.get("tags") {
+            None | Some(serde_json::Value::Null) => None,
+            Some(t) => Some(
+                t.as_array()
+                    .ok_or_else(|| {
+                        LinderaErrorKind::Deserialize
+                            .with_error(anyhow::anyhow!("tags must be array"))
+                    })?
+                    .iter()
+                    .map(|v| {
+                        v.as_str()
+                            .ok_or_else(|| {
+                                LinderaErrorKind::Deserialize
+                                    .with_error(anyhow::anyhow!("tag must be string"))
+                            })
+                            .map(|s| s.to_string())
+                    })
+                    .collect::<LinderaResult<HashSet<String>>>()?,
+            ),
         };
 
         Ok(Self::new(tags))
-- 
2.43.0


From 4b4807501220ce9b0448a94c1e383e84ed671282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 21/30] fix: analyzer configs with filters of no kind or not in
 a list were accepted without the filters

---
 lindera-analyzer/src/analyzer.rs | 50 +++++++++++++++++---------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/lindera-analyzer/src/analyzer.rs b/lindera-analyzer/src/analyzer.rs
index a1749ad..191d6b7 100644
--- a/lindera-analyzer/src/analyzer.rs
+++ b/lindera-analyzer/src/analyzer.rs
@@ -30,6 +30,23 @@ impl AnalyzerConfig {
     }
 }
 
+/// The filters listed under the key, none if the key is missing or null.
+fn filter_settings<'a>(value: &'a Value, key: &str) -> LinderaResult<&'a [Value]> {
+    match &value[key] {
+        Value::Null => Ok(&[]),
+        Value::Array(settings) => Ok(settings),
+        _ => Err(
+            LinderaErrorKind::Deserialize.with_error(anyhow::anyhow!("{} must be an array", key))
+        ),
+    }
+}
+
+fn filter_name(setting: &Value) -> LinderaResult<&str> {
+    setting["kind"].as_str().ok_or_else(|| {
+        LinderaErrorKind::Deserialize.with_error(anyhow::anyhow!("missing filter kind: {}", setting))
+    })
+}
+
 pub struct Analyzer {
     /// Character filters
     pub character_filters: Vec<BoxCharacterFilter>,
@@ -46,18 +63,11 @@ impl Analyzer {
         let value = &config.inner;
 
         let mut character_filters: Vec<BoxCharacterFilter> = Vec::new();
-        let character_filter_settings = value["character_filters"].as_array();
-        if let Some(character_filter_settings) = character_filter_settings {
-            for character_filter_setting in character_filter_settings {
-                let character_filter_name = character_filter_setting["kind"].as_str();
-                if let Some(character_filter_name) = character_filter_name {
-                    let character_filter = CharacterFilterLoader::load_from_value(
-                        character_filter_name,
-                        &character_filter_setting["args"],
-                    )?;
-                    character_filters.push(character_filter);
-                }
-            }
+        for setting in filter_settings(value, "character_filters")? {
+            character_filters.push(CharacterFilterLoader::load_from_value(
+                filter_name(setting)?,
+                &setting["args"],
+            )?);
         }
 
         let args_value = value["tokenizer"].as_object().ok_or_else(|| {
@@ -71,17 +81,11 @@ impl Analyzer {
         let tokenizer = Tokenizer::from_config(tokenizer_config)?;
 
         let mut token_filters: Vec<BoxTokenFilter> = Vec::new();
-        let token_filter_settings = value["token_filters"].as_array();
-        if let Some(token_filter_settings) = token_filter_settings {
-            for token_filter_setting in token_filter_settings {
-                let token_filter_name = token_filter_setting["kind"].as_str();
-                if let Some(token_filter_name) = token_filter_name {
-                    token_filters.push(TokenFilterLoader::load_from_value(
-                        token_filter_name,
-                        &token_filter_setting["args"],
-                    )?);
-                }
-            }
+        for setting in filter_settings(value, "token_filters")? {
+            token_filters.push(TokenFilterLoader::load_from_value(
+                filter_name(setting)?,
+                &setting["args"],
+            )?);
         }
 
         Ok(Self::new(character_filters, tokenizer, token_filters))
-- 
2.43.0


From d67009a9748d59dbbe066bc5a0333e385ff01b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 22/30] fix: Japanese base form, reading form and compound word
 filters did nothing without lindera-filter's own dictionary features

---
 lindera-filter/src/token_filter/japanese_base_form.rs  | 10 +---------
 .../src/token_filter/japanese_compound_word.rs         |  6 ------
 .../src/token_filter/japanese_reading_form.rs          | 10 +---------
 3 files changed, 2 insertions(+), 24 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_base_form.rs b/lindera-filter/src/token_filter/japanese_base_form.rs
index 40f747a..eb2d1c5 100644
--- a/lindera-filter/src/token_filter/japanese_base_form.rs
+++ b/lindera-filter/src/token_filter/japanese_base_form.rs
@@ -63,19 +63,11 @@ impl TokenFilter for JapaneseBaseFormTokenFilter {
                 continue;
             }
             match self.config.kind {
-                #[cfg(feature = "ipadic")]
-                DictionaryKind::IPADIC => {
+                DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd => {
                     if let Some(form) = token.details.get(6) {
                         token.text = form.to_string();
                     }
                 }
-                #[cfg(feature = "ipadic-neologd")]
-                DictionaryKind::IPADICNEologd => {
-                    if let Some(form) = token.details.get(6) {
-                        token.text = form.to_string();
-                    }
-                }
-                #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
                     if let Some(form) = token.details.get(10) {
                         token.text = form.to_string();
diff --git a/lindera-filter/src/token_filter/japanese_compound_word.rs b/lindera-filter/src/token_filter/japanese_compound_word.rs
index ffcc102..05cbda8 100644
--- a/lindera-filter/src/token_filter/japanese_compound_word.rs
+++ b/lindera-filter/src/token_filter/japanese_compound_word.rs
@@ -97,12 +97,6 @@ impl JapaneseCompoundWordTokenFilter {
         token1.position_length += token2.position_length;
 
         let mut formatted_details = match self.config.kind {
-            #[cfg(any(feature = "ipadic", feature = "ipadic-neologd"))]
-            DictionaryKind::IPADIC => "複合語,*,*,*,*,*,*,*,*"
-                .split(',')
-                .map(|s| s.to_string())
-                .collect::<Vec<String>>(),
-            #[cfg(feature = "unidic")]
             DictionaryKind::UniDic => "複合語,*,*,*,*,*,*,*,*,*,*,*,*,*,*,*,*"
                 .split(',')
                 .map(|s| s.to_string())
diff --git a/lindera-filter/src/token_filter/japanese_reading_form.rs b/lindera-filter/src/token_filter/japanese_reading_form.rs
index c13a859..10c6b42 100644
--- a/lindera-filter/src/token_filter/japanese_reading_form.rs
+++ b/lindera-filter/src/token_filter/japanese_reading_form.rs
@@ -62,19 +62,11 @@ impl TokenFilter for JapaneseReadingFormTokenFilter {
                 continue;
             }
             match self.config.kind {
-                #[cfg(feature = "ipadic")]
-                DictionaryKind::IPADIC => {
+                DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd => {
                     if let Some(form) = token.details.get(7) {
                         token.text = form.to_string();
                     }
                 }
-                #[cfg(feature = "ipadic-neologd")]
-                DictionaryKind::IPADICNEologd => {
-                    if let Some(form) = token.details.get(7) {
-                        token.text = form.to_string();
-                    }
-                }
-                #[cfg(feature = "unidic")]
                 DictionaryKind::UniDic => {
                     if let Some(form) = token.details.get(6) {
                         token.text = form.to_string();
-- 
2.43.0


From 5a779b3310c96c0730d62321a817eb5a90c23fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 23/30] fix: ids and costs of unk.def outside 16 bits were
 stored as other numbers

---
 lindera-core/src/unknown_dictionary.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lindera-core/src/unknown_dictionary.rs b/lindera-core/src/unknown_dictionary.rs
index 996f64c..cdc1201 100644
--- a/lindera-core/src/unknown_dictionary.rs
+++ b/lindera-core/src/unknown_dictionary.rs
@@ -34,9 +34,9 @@ impl UnknownDictionary {
 #[derive(Debug)]
 pub struct UnknownDictionaryEntry {
     pub surface: String,
-    pub left_id: u32,
-    pub right_id: u32,
-    pub word_cost: i32,
+    pub left_id: u16,
+    pub right_id: u16,
+    pub word_cost: i16,
 }
 
 fn parse_dictionary_entry(
@@ -51,11 +51,11 @@ fn parse_dictionary_entry(
         )));
     }
     let surface = fields[0];
-    let left_id = u32::from_str(fields[1])
+    let left_id = u16::from_str(fields[1])
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
-    let right_id = u32::from_str(fields[2])
+    let right_id = u16::from_str(fields[2])
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
-    let word_cost = i32::from_str(fields[3])
+    let word_cost = i16::from_str(fields[3])
         .map_err(|err| LinderaErrorKind::Parse.with_error(anyhow::anyhow!(err)))?;
 
     Ok(UnknownDictionaryEntry {
@@ -104,9 +104,9 @@ fn make_costs_array(entries: &[UnknownDictionaryEntry]) -> Vec<WordEntry> {
             }
             WordEntry {
                 word_id: WordId(std::u32::MAX, true),
-                left_id: e.left_id as u16,
-                right_id: e.right_id as u16,
-                word_cost: e.word_cost as i16,
+                left_id: e.left_id,
+                right_id: e.right_id,
+                word_cost: e.word_cost,
             }
         })
         .collect()
-- 
2.43.0


From 028d3e8b798af41c50d7b12725356ed43c7ce7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 24/30] fix: costs of matrix.def outside 16 bits were stored as
 other numbers

---
 lindera-dictionary-builder/src/cost_matrix.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lindera-dictionary-builder/src/cost_matrix.rs b/lindera-dictionary-builder/src/cost_matrix.rs
index 3e63b7d..4e9bd8e 100644
--- a/lindera-dictionary-builder/src/cost_matrix.rs
+++ b/lindera-dictionary-builder/src/cost_matrix.rs
@@ -83,8 +83,11 @@ impl CostMatrixBuilder {
                             .with_error(anyhow::anyhow!("id out of range in matrix.def")))
                     }
                 };
-            let cost = fields[2] as u16;
-            costs[2 + backward_id + forward_id * backward_size] = cost as i16;
+            let cost = i16::try_from(fields[2]).map_err(|err| {
+                LinderaErrorKind::Content
+                    .with_error(anyhow::anyhow!("cost out of range in matrix.def: {}", err))
+            })?;
+            costs[2 + backward_id + forward_id * backward_size] = cost;
         }
 
         let wtr_matrix_mtx_path = output_dir.join(Path::new("matrix.mtx"));
-- 
2.43.0


From 9bf9bd196b7ccc5139cc02e39c04ee7e602f64dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 25/30] fix: the lexicon of a source directory with [, ? or *
 in its path was not found

---
 lindera-dictionary-builder/src/dict.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index cfc2d10..c50871c 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -12,7 +12,7 @@ use csv::StringRecord;
 use derive_builder::Builder;
 use encoding_rs::{Encoding, UTF_8};
 use encoding_rs_io::DecodeReaderBytesBuilder;
-use glob::glob;
+use glob::{glob, Pattern};
 use log::{debug, warn};
 use yada::builder::DoubleArrayBuilder;
 
@@ -43,7 +43,7 @@ pub struct DictBuilder {
 impl DictBuilder {
     pub fn build(&self, input_dir: &Path, output_dir: &Path) -> LinderaResult<()> {
         let pattern = if let Some(path) = input_dir.to_str() {
-            format!("{}/*.csv", path)
+            format!("{}/*.csv", Pattern::escape(path))
         } else {
             return Err(
                 LinderaErrorKind::Io.with_error(anyhow::anyhow!("Failed to convert path to &str."))
-- 
2.43.0


From e140b049b4f8797c26f75b5199b6058fa71fa417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 26/30] fix: a NUL in a detail of the lexicon shifted the
 details after it

---
 lindera-dictionary-builder/src/dict.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index c50871c..e120949 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -106,6 +106,11 @@ impl DictBuilder {
                     return Err(LinderaErrorKind::Content
                         .with_error(anyhow!("surface contains NUL: {:?}", record)));
                 }
+                if record.iter().skip(4).any(|field| field.contains('\0')) {
+                    // NUL separates the details in dict.words.
+                    return Err(LinderaErrorKind::Content
+                        .with_error(anyhow!("details contain NUL: {:?}", record)));
+                }
                 rows.push(record);
             }
         }
-- 
2.43.0


From c6803dec21f1e0037c11b05b952810100f21c982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 27/30] fix: no panic in token filters on tokens without
 details

---
 lindera-filter/src/token_filter/japanese_base_form.rs     | 2 +-
 lindera-filter/src/token_filter/japanese_compound_word.rs | 6 +++++-
 lindera-filter/src/token_filter/japanese_keep_tags.rs     | 6 +++++-
 lindera-filter/src/token_filter/japanese_number.rs        | 6 +++++-
 lindera-filter/src/token_filter/japanese_reading_form.rs  | 2 +-
 lindera-filter/src/token_filter/japanese_stop_tags.rs     | 6 +++++-
 lindera-filter/src/token_filter/korean_keep_tags.rs       | 5 ++++-
 lindera-filter/src/token_filter/korean_reading_form.rs    | 2 +-
 lindera-filter/src/token_filter/korean_stop_tags.rs       | 5 ++++-
 9 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/lindera-filter/src/token_filter/japanese_base_form.rs b/lindera-filter/src/token_filter/japanese_base_form.rs
index eb2d1c5..1c23a02 100644
--- a/lindera-filter/src/token_filter/japanese_base_form.rs
+++ b/lindera-filter/src/token_filter/japanese_base_form.rs
@@ -58,7 +58,7 @@ impl TokenFilter for JapaneseBaseFormTokenFilter {
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
-            if token.details[0] == "UNK" {
+            if token.details.first().map(String::as_str) == Some("UNK") {
                 // NOOP
                 continue;
             }
diff --git a/lindera-filter/src/token_filter/japanese_compound_word.rs b/lindera-filter/src/token_filter/japanese_compound_word.rs
index 05cbda8..4ec05cd 100644
--- a/lindera-filter/src/token_filter/japanese_compound_word.rs
+++ b/lindera-filter/src/token_filter/japanese_compound_word.rs
@@ -127,7 +127,11 @@ impl TokenFilter for JapaneseCompoundWordTokenFilter {
         let mut compound_token_opt = None;
         for token in tokens.iter_mut() {
             let mut formatted_tags = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
+            let tags_len = if token.details.len() >= 4 {
+                4
+            } else {
+                token.details.len().min(1)
+            };
             for (i, j) in token.details[0..tags_len].iter().enumerate() {
                 formatted_tags[i] = j;
             }
diff --git a/lindera-filter/src/token_filter/japanese_keep_tags.rs b/lindera-filter/src/token_filter/japanese_keep_tags.rs
index 5daaf40..aa6645c 100644
--- a/lindera-filter/src/token_filter/japanese_keep_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_keep_tags.rs
@@ -88,7 +88,11 @@ impl TokenFilter for JapaneseKeepTagsTokenFilter {
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         tokens.retain(|token| {
             let mut formatted_tags = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
+            let tags_len = if token.details.len() >= 4 {
+                4
+            } else {
+                token.details.len().min(1)
+            };
             for (i, j) in token.details[0..tags_len].iter().enumerate() {
                 formatted_tags[i] = j;
             }
diff --git a/lindera-filter/src/token_filter/japanese_number.rs b/lindera-filter/src/token_filter/japanese_number.rs
index c9dfd58..e6035da 100644
--- a/lindera-filter/src/token_filter/japanese_number.rs
+++ b/lindera-filter/src/token_filter/japanese_number.rs
@@ -99,7 +99,11 @@ impl TokenFilter for JapaneseNumberTokenFilter {
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
             let mut tag_vec = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
+            let tags_len = if token.details.len() >= 4 {
+                4
+            } else {
+                token.details.len().min(1)
+            };
             for (i, j) in token.details[0..tags_len].iter().enumerate() {
                 tag_vec[i] = j;
             }
diff --git a/lindera-filter/src/token_filter/japanese_reading_form.rs b/lindera-filter/src/token_filter/japanese_reading_form.rs
index 10c6b42..9b3c262 100644
--- a/lindera-filter/src/token_filter/japanese_reading_form.rs
+++ b/lindera-filter/src/token_filter/japanese_reading_form.rs
@@ -57,7 +57,7 @@ impl TokenFilter for JapaneseReadingFormTokenFilter {
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
-            if token.details[0] == "UNK" {
+            if token.details.first().map(String::as_str) == Some("UNK") {
                 // NOOP
                 continue;
             }
diff --git a/lindera-filter/src/token_filter/japanese_stop_tags.rs b/lindera-filter/src/token_filter/japanese_stop_tags.rs
index d43a146..70ddd9e 100644
--- a/lindera-filter/src/token_filter/japanese_stop_tags.rs
+++ b/lindera-filter/src/token_filter/japanese_stop_tags.rs
@@ -88,7 +88,11 @@ impl TokenFilter for JapaneseStopTagsTokenFilter {
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         tokens.retain(|token| {
             let mut formatted_tags = ["*", "*", "*", "*"];
-            let tags_len = if token.details.len() >= 4 { 4 } else { 1 };
+            let tags_len = if token.details.len() >= 4 {
+                4
+            } else {
+                token.details.len().min(1)
+            };
             for (i, j) in token.details[0..tags_len].iter().enumerate() {
                 formatted_tags[i] = j;
             }
diff --git a/lindera-filter/src/token_filter/korean_keep_tags.rs b/lindera-filter/src/token_filter/korean_keep_tags.rs
index 2262289..d5b4359 100644
--- a/lindera-filter/src/token_filter/korean_keep_tags.rs
+++ b/lindera-filter/src/token_filter/korean_keep_tags.rs
@@ -56,7 +56,10 @@ impl TokenFilter for KoreanKeepTagsTokenFilter {
     }
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
-        tokens.retain(|token| self.config.tags.contains(&token.details[0]));
+        tokens.retain(|token| match token.details.first() {
+            Some(tag) => self.config.tags.contains(tag),
+            None => false,
+        });
 
         Ok(())
     }
diff --git a/lindera-filter/src/token_filter/korean_reading_form.rs b/lindera-filter/src/token_filter/korean_reading_form.rs
index 48c1ebf..ca6065b 100644
--- a/lindera-filter/src/token_filter/korean_reading_form.rs
+++ b/lindera-filter/src/token_filter/korean_reading_form.rs
@@ -29,7 +29,7 @@ impl TokenFilter for KoreanReadingFormTokenFilter {
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
         for token in tokens.iter_mut() {
-            if token.details[0] != "UNK" {
+            if token.details.first().map(String::as_str) != Some("UNK") {
                 if let Some(reading) = token.details.get(3) {
                     token.text = reading.to_string();
                 }
diff --git a/lindera-filter/src/token_filter/korean_stop_tags.rs b/lindera-filter/src/token_filter/korean_stop_tags.rs
index 1170a5a..3bc4ac1 100644
--- a/lindera-filter/src/token_filter/korean_stop_tags.rs
+++ b/lindera-filter/src/token_filter/korean_stop_tags.rs
@@ -56,7 +56,10 @@ impl TokenFilter for KoreanStopTagsTokenFilter {
     }
 
     fn apply<'a>(&self, tokens: &mut Vec<Token>) -> LinderaResult<()> {
-        tokens.retain(|token| !self.config.tags.contains(&token.details[0]));
+        tokens.retain(|token| match token.details.first() {
+            Some(tag) => !self.config.tags.contains(tag),
+            None => true,
+        });
 
         Ok(())
     }
-- 
2.43.0


From 81a1972154a3aba7466c0f2f57b257e6705d029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 28/30] fix: path costs of long sentences overflowed 32 bits

---
 lindera-core/src/viterbi.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lindera-core/src/viterbi.rs b/lindera-core/src/viterbi.rs
index 7c66bcc..f5107f8 100644
--- a/lindera-core/src/viterbi.rs
+++ b/lindera-core/src/viterbi.rs
@@ -28,7 +28,7 @@ pub struct Edge {
     pub edge_type: EdgeType,
     pub word_entry: WordEntry,
 
-    pub path_cost: i32,
+    pub path_cost: i64,
     pub left_edge: Option<EdgeId>,
 
     pub start_index: u32,
@@ -126,7 +126,7 @@ impl Lattice {
                         left_edge: None,
                         start_index: start as u32,
                         stop_index: (start + prefix_len) as u32,
-                        path_cost: i32::max_value(),
+                        path_cost: i64::max_value(),
                         kanji_only: is_kanji_only(&suffix[..prefix_len]),
                     };
                     self.add_edge_in_lattice(edge);
@@ -143,7 +143,7 @@ impl Lattice {
                     left_edge: None,
                     start_index: start as u32,
                     stop_index: (start + prefix_len) as u32,
-                    path_cost: i32::max_value(),
+                    path_cost: i64::max_value(),
                     kanji_only: is_kanji_only(&suffix[..prefix_len]),
                 };
                 self.add_edge_in_lattice(edge);
@@ -214,7 +214,7 @@ impl Lattice {
                     left_edge: None,
                     start_index: start as u32,
                     stop_index: (start + unknown_word.len()) as u32,
-                    path_cost: i32::max_value(),
+                    path_cost: i64::max_value(),
                     kanji_only: is_kanji_only(&unknown_word[..]),
                 };
                 self.add_edge_in_lattice(edge);
@@ -255,17 +255,20 @@ impl Lattice {
                     .cloned()
                     .map(|left_edge_id| {
                         let left_edge = self.edge(left_edge_id);
-                        let mut path_cost = left_edge.path_cost
-                            + cost_matrix
-                                .cost(left_edge.word_entry.right_id(), right_word_entry.left_id());
-                        path_cost += mode.penalty_cost(left_edge);
+                        let mut path_cost =
+                            left_edge.path_cost
+                                + i64::from(cost_matrix.cost(
+                                    left_edge.word_entry.right_id(),
+                                    right_word_entry.left_id(),
+                                ));
+                        path_cost += i64::from(mode.penalty_cost(left_edge));
                         (path_cost, left_edge_id)
                     })
                     .min_by_key(|&(cost, _)| cost);
                 if let Some((best_cost, best_left)) = best_path {
                     let edge = &mut self.edges[right_edge_id.0 as usize];
                     edge.left_edge = Some(best_left);
-                    edge.path_cost = right_word_entry.word_cost as i32 + best_cost;
+                    edge.path_cost = right_word_entry.word_cost as i64 + best_cost;
                 }
             }
         }
-- 
2.43.0


From 5c17e06431527e5aefb4b77a8bd79e14c944de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 29/30] fix: length penalties of decompose mode overflowed 32
 bits

---
 lindera-core/src/mode.rs    | 14 +++++++-------
 lindera-core/src/viterbi.rs |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lindera-core/src/mode.rs b/lindera-core/src/mode.rs
index 0902557..068c8a7 100644
--- a/lindera-core/src/mode.rs
+++ b/lindera-core/src/mode.rs
@@ -27,17 +27,17 @@ impl Default for Penalty {
 }
 
 impl Penalty {
-    pub fn penalty(&self, edge: &Edge) -> i32 {
+    pub fn penalty(&self, edge: &Edge) -> i64 {
         let num_chars = edge.num_chars();
         if num_chars <= self.kanji_penalty_length_threshold {
             return 0;
         }
         if edge.kanji_only {
-            ((num_chars - self.kanji_penalty_length_threshold) as i32)
-                * self.kanji_penalty_length_penalty
+            ((num_chars - self.kanji_penalty_length_threshold) as i64)
+                * i64::from(self.kanji_penalty_length_penalty)
         } else if num_chars > self.other_penalty_length_threshold {
-            ((num_chars - self.other_penalty_length_threshold) as i32)
-                * self.other_penalty_length_penalty
+            ((num_chars - self.other_penalty_length_threshold) as i64)
+                * i64::from(self.other_penalty_length_penalty)
         } else {
             0
         }
@@ -59,9 +59,9 @@ impl Mode {
             Mode::Decompose(_penalty) => true,
         }
     }
-    pub fn penalty_cost(&self, edge: &Edge) -> i32 {
+    pub fn penalty_cost(&self, edge: &Edge) -> i64 {
         match self {
-            Mode::Normal => 0i32,
+            Mode::Normal => 0i64,
             Mode::Decompose(penalty) => penalty.penalty(edge),
         }
     }
diff --git a/lindera-core/src/viterbi.rs b/lindera-core/src/viterbi.rs
index f5107f8..9446c1f 100644
--- a/lindera-core/src/viterbi.rs
+++ b/lindera-core/src/viterbi.rs
@@ -261,7 +261,7 @@ impl Lattice {
                                     left_edge.word_entry.right_id(),
                                     right_word_entry.left_id(),
                                 ));
-                        path_cost += i64::from(mode.penalty_cost(left_edge));
+                        path_cost += mode.penalty_cost(left_edge);
                         (path_cost, left_edge_id)
                     })
                     .min_by_key(|&(cost, _)| cost);
-- 
2.43.0


From 7e0fda99e19b72ad749839c15be19cf2d30f1e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:54 +0000
Subject: [PATCH 30/30] fix: lexicons in UTF-16 with a byte order mark were
 rejected

The encoding option of DictBuilder says that UTF-8 also reads UTF-16 files
with BOM, as the other builders do.
---
 lindera-dictionary-builder/src/dict.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lindera-dictionary-builder/src/dict.rs b/lindera-dictionary-builder/src/dict.rs
index e120949..d444bed 100644
--- a/lindera-dictionary-builder/src/dict.rs
+++ b/lindera-dictionary-builder/src/dict.rs
@@ -79,7 +79,14 @@ impl DictBuilder {
             let file = File::open(filename)
                 .map_err(|err| LinderaErrorKind::Io.with_error(anyhow::anyhow!(err)))?;
             let reader: Box<dyn Read> = if encoding == UTF_8 {
-                Box::new(file)
+                // Valid and invalid UTF-8 reach the CSV reader as they are,
+                // text that starts with a UTF-16 BOM is decoded.
+                Box::new(
+                    DecodeReaderBytesBuilder::new()
+                        .utf8_passthru(true)
+                        .strip_bom(true)
+                        .build(file),
+                )
             } else {
                 Box::new(
                     DecodeReaderBytesBuilder::new()
-- 
2.43.0

