From f8c1534185fa95ef0acfee2d490b18d5d5212749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:18 +0000
Subject: [PATCH 01/15] fix: dominators: count displayed rows against the row
 limit

The limit was compared before the row of an explicitly requested item was
counted, so one row too many was printed, while rows hidden by the depth limit
were counted although they are not displayed.
---
 analyze/analyses/dominators/emit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 28b53d5..69735fe 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -36,19 +36,19 @@ impl traits::Emit for DominatorTree {
         ) {
             assert_eq!(id == items.meta_root(), depth == 0);
 
-            if *row > opts.max_rows() || depth > opts.max_depth() {
+            if *row >= opts.max_rows() || depth > opts.max_depth() {
                 return;
             }
 
             if depth > 0 {
                 add_text_item(items, depth, id, table);
+                *row += 1;
             }
 
             if let Some(children) = dominator_tree.get(&id) {
                 let mut children = children.to_vec();
                 children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
                 for child in children {
-                    *row += 1;
                     recursive_add_rows(
                         table,
                         items,
-- 
2.43.0


From ef608a0774ab8d676f961086d9d13743296477d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:18 +0000
Subject: [PATCH 02/15] fix: json: escape backslashes, newlines and control
 characters in strings

---
 analyze/formats/json.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/analyze/formats/json.rs b/analyze/formats/json.rs
index c7b5ead..116a601 100644
--- a/analyze/formats/json.rs
+++ b/analyze/formats/json.rs
@@ -14,8 +14,9 @@ impl<'a> JsonPrimitive for &'a str {
         for c in self.chars() {
             match c {
                 '"' => write!(w, "\\\"")?,
-                '\\' => write!(w, "\\")?,
-                '\n' => writeln!(w,)?,
+                '\\' => write!(w, "\\\\")?,
+                '\n' => write!(w, "\\n")?,
+                c if c < ' ' => write!(w, "\\u{:04x}", u32::from(c))?,
                 c => write!(w, "{}", c)?,
             }
         }
-- 
2.43.0


From 920288e26a1cac04e9ed68dd47ee423c26ecb6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:18 +0000
Subject: [PATCH 03/15] fix: paths: do not list an item as its own caller or
 callee again

The item was marked as seen only after its children were selected, so a
directly recursive function was expanded a second time below itself, and the
mark was then removed while its first occurrence was still being expanded.
---
 analyze/analyses/paths/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 70b84e0..000e124 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -109,6 +109,10 @@ fn create_entry(
     let name = item.name().to_string();
     let size = item.size();
 
+    // Temporarily add the current item to the set of discovered nodes, so that
+    // neither its children nor their descendants list it again.
+    seen.insert(id);
+
     // Collect the `ir::Id` values of this entry's children, depending on
     // whether we are ascending or descending the IR-tree.
     let children_ids: Vec<ir::Id> = if opts.descending() {
@@ -127,9 +131,7 @@ fn create_entry(
             .collect()
     };
 
-    // Temporarily add the current item to the set of discovered nodes, and
-    // create an entry for each child. Collect these into a `children` vector.
-    seen.insert(id);
+    // Create an entry for each child. Collect these into a `children` vector.
     let children = children_ids
         .into_iter()
         .map(|id| create_entry(id, items, opts, seen))
-- 
2.43.0


From 4967e52685d5c4c2a2885a4b116d9e563bf78f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:47 +0000
Subject: [PATCH 04/15] fix: dominators: emit only the requested items in CSV

Text and JSON print the subtrees of the requested items, CSV always printed
the whole tree.
---
 analyze/analyses/dominators/emit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 69735fe..085c948 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -165,7 +165,9 @@ impl traits::Emit for DominatorTree {
         }
 
         let mut wtr = csv::Writer::from_writer(dest);
-        recursive_add_children(items, &self.opts, &self.tree, items.meta_root(), &mut wtr)?;
+        for id in &self.items {
+            recursive_add_children(items, &self.opts, &self.tree, *id, &mut wtr)?;
+        }
 
         if let Some(UnreachableItemsSummary {
             count,
-- 
2.43.0


From b1df93399acdd7ce9fef40912bcb397cad174205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:47 +0000
Subject: [PATCH 05/15] fix: garbage: emit CSV instead of panicking

---
 analyze/analyses/garbage.rs | 50 +++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/garbage.rs b/analyze/analyses/garbage.rs
index 77fce23..24504c9 100644
--- a/analyze/analyses/garbage.rs
+++ b/analyze/analyses/garbage.rs
@@ -1,7 +1,9 @@
 use std::collections::BTreeSet;
 use std::io;
 
+use csv;
 use petgraph::visit::Walker;
+use serde_derive::Serialize;
 
 use crate::formats::json;
 use crate::formats::table::{Align, Table};
@@ -137,8 +139,52 @@ impl traits::Emit for Garbage {
     }
 
     #[cfg(feature = "emit_csv")]
-    fn emit_csv(&self, _items: &ir::Items, _dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        unimplemented!();
+    fn emit_csv(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
+        #[derive(Serialize, Debug)]
+        #[serde(rename_all = "PascalCase")]
+        struct CsvRecord {
+            name: String,
+            bytes: u32,
+            size_percent: f64,
+        }
+
+        let record = |name: String, bytes: u32| CsvRecord {
+            name,
+            bytes,
+            size_percent: f64::from(bytes) / f64::from(items.size()) * 100.0,
+        };
+        let mut wtr = csv::Writer::from_writer(dest);
+
+        for &id in self.items.iter().take(self.limit) {
+            let item = &items[id];
+            wtr.serialize(record(item.name().to_string(), item.size()))?;
+        }
+
+        let (rem_size, rem_cnt) = self
+            .items
+            .iter()
+            .skip(self.limit)
+            .map(|id| &items[*id])
+            .fold((0, 0), |(size, cnt), item| (size + item.size(), cnt + 1));
+        if rem_cnt > 0 {
+            wtr.serialize(record(format!("... and {} more", rem_cnt), rem_size))?;
+        }
+
+        let total_name = format!("Σ [{} Total Rows]", self.items.len());
+        let total_size: u32 = self.items.iter().map(|&id| items[id].size()).sum();
+        wtr.serialize(record(total_name, total_size))?;
+
+        if !self.data_segments.is_empty() {
+            let name = format!(
+                "{} potential false-positive data segments",
+                self.data_segments.len()
+            );
+            let size: u32 = self.data_segments.iter().map(|&id| items[id].size()).sum();
+            wtr.serialize(record(name, size))?;
+        }
+
+        wtr.flush()?;
+        Ok(())
     }
 }
 
-- 
2.43.0


From dafac32f08a12a83d6539d2452596951dcf46738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:47 +0000
Subject: [PATCH 06/15] fix: diff: add up the sizes of items that share a name

Only the last such item was compared, so changes of the others were missed.
---
 analyze/analyses/diff.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/analyze/analyses/diff.rs b/analyze/analyses/diff.rs
index d7613f7..65368fa 100644
--- a/analyze/analyses/diff.rs
+++ b/analyze/analyses/diff.rs
@@ -102,10 +102,11 @@ pub fn diff(
 
     // Given a set of items, create a HashMap of the items' names and sizes.
     fn get_names_and_sizes(items: &ir::Items) -> HashMap<&str, i64> {
-        items
-            .iter()
-            .map(|item| (item.name(), i64::from(item.size())))
-            .collect()
+        let mut sizes = HashMap::new();
+        for item in items.iter() {
+            *sizes.entry(item.name()).or_insert(0) += i64::from(item.size());
+        }
+        sizes
     }
 
     // Collect the names and sizes of the items in the old and new collections.
-- 
2.43.0


From 827f399c48f5a1ef2067bbcdaa21d3222d80e384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:47 +0000
Subject: [PATCH 07/15] fix: monos: count instantiations that share a name and
 a size separately

---
 analyze/analyses/monos/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index b6c1a3a..6e74aae 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -1,5 +1,5 @@
 use std::cmp;
-use std::collections::{BTreeMap, BTreeSet};
+use std::collections::BTreeMap;
 
 use regex;
 use twiggy_ir as ir;
@@ -29,7 +29,7 @@ fn collect_monomorphizations<'a>(
     let using_regexps = opts.using_regexps();
     let regexps = regex::RegexSet::new(opts.functions())?;
 
-    let unsorted_monos: BTreeMap<&'a str, BTreeSet<(String, u32)>> = items
+    let unsorted_monos: BTreeMap<&'a str, Vec<(String, u32)>> = items
         .iter()
         .filter_map(|item| {
             if let Some(generic) = item.monomorphization_of() {
@@ -46,15 +46,14 @@ fn collect_monomorphizations<'a>(
         .fold(BTreeMap::new(), |mut monos, (generic, inst)| {
             monos
                 .entry(generic)
-                .or_insert_with(BTreeSet::new)
-                .insert((inst.name().to_string(), inst.size()));
+                .or_insert_with(Vec::new)
+                .push((inst.name().to_string(), inst.size()));
             monos
         });
 
     Ok(unsorted_monos
         .into_iter()
-        .map(|(generic, inst_set)| {
-            let mut insts = inst_set.into_iter().collect::<Vec<_>>();
+        .map(|(generic, mut insts)| {
             insts.sort_by(|(a_name, a_size), (b_name, b_size)| {
                 b_size.cmp(a_size).then(a_name.cmp(b_name))
             });
-- 
2.43.0


From 8f1fef88f6131bf1ceb658e6e4719d9eb61a2a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:12 +0000
Subject: [PATCH 08/15] fix: parser: reject references to entities that do not
 exist

Out of range indices in a malformed module made the parser panic.
---
 parser/wasm_parse/mod.rs | 41 ++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index dee5313..11c578f 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -7,7 +7,7 @@ use wasmparser::{self, Operator, SectionReader, Type};
 
 #[derive(Default)]
 pub struct SectionIndices {
-    type_: Option<usize>,
+    types: Vec<Option<Id>>,
     code: Option<usize>,
     functions: Vec<Id>,
     tables: Vec<Id>,
@@ -15,6 +15,14 @@ pub struct SectionIndices {
     globals: Vec<Id>,
 }
 
+// Look up an entry of one of the index spaces, rejecting references to entries
+// that do not exist.
+fn lookup(ids: &[Id], index: u32, what: &str) -> anyhow::Result<Id> {
+    ids.get(index as usize)
+        .copied()
+        .ok_or_else(|| anyhow!("{} index {} is out of bounds", what, index))
+}
+
 struct IndexedSection<'a>(usize, wasmparser::Payload<'a>);
 
 struct CodeSection<'a> {
@@ -256,8 +264,14 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
         let mut indices = SectionIndices::default();
         for IndexedSection(idx, section) in sections.iter() {
             match section {
-                wasmparser::Payload::TypeSection(_reader) => {
-                    indices.type_ = Some(*idx);
+                wasmparser::Payload::TypeSection(reader) => {
+                    for (i, ty) in reader.clone().into_iter().enumerate() {
+                        // Only function types have items.
+                        indices.types.push(match ty? {
+                            wasmparser::TypeDef::Func(_) => Some(Id::entry(*idx, i)),
+                            _ => None,
+                        });
+                    }
                 }
                 wasmparser::Payload::ImportSection(reader) => {
                     for (i, import) in reader.clone().into_iter().enumerate() {
@@ -561,8 +575,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
         // Function section reader parsing.
         for (func_i, type_ref) in iterate_with_size(&mut function_section.reader).enumerate() {
             let (type_ref, _) = type_ref?;
-            if let Some(type_idx) = indices.type_ {
-                let type_id = Id::entry(type_idx, type_ref as usize);
+            if let Some(&Some(type_id)) = indices.types.get(type_ref as usize) {
                 if let Some(code_idx) = indices.code {
                     let body_id = Id::entry(code_idx, func_i);
                     edges.push((body_id, type_id));
@@ -580,7 +593,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                 let prev = cache.take();
                 match op? {
                     Operator::Call { function_index } => {
-                        let f_id = indices.functions[function_index as usize];
+                        let f_id = lookup(&indices.functions, function_index, "function")?;
                         edges.push((body_id, f_id));
                     }
 
@@ -590,7 +603,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     Operator::CallIndirect { .. } => continue,
 
                     Operator::GlobalGet { global_index } | Operator::GlobalSet { global_index } => {
-                        let g_id = indices.globals[global_index as usize];
+                        let g_id = lookup(&indices.globals, global_index, "global")?;
                         edges.push((body_id, g_id));
                     }
 
@@ -855,16 +868,16 @@ impl<'a> Parse<'a> for wasmparser::ExportSectionReader<'a> {
             let exp_id = Id::entry(idx, i);
             match exp.kind {
                 wasmparser::ExternalKind::Function => {
-                    items.add_edge(exp_id, indices.functions[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.functions, exp.index, "function")?);
                 }
                 wasmparser::ExternalKind::Table => {
-                    items.add_edge(exp_id, indices.tables[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.tables, exp.index, "table")?);
                 }
                 wasmparser::ExternalKind::Memory => {
-                    items.add_edge(exp_id, indices.memories[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.memories, exp.index, "memory")?);
                 }
                 wasmparser::ExternalKind::Global => {
-                    items.add_edge(exp_id, indices.globals[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.globals, exp.index, "global")?);
                 }
                 wasmparser::ExternalKind::Tag
                 | wasmparser::ExternalKind::Type
@@ -898,7 +911,7 @@ impl<'a> Parse<'a> for StartSection<'a> {
     ) -> anyhow::Result<()> {
         items.add_edge(
             Id::section(idx),
-            indices.functions[self.function_index as usize],
+            lookup(&indices.functions, self.function_index, "function")?,
         );
         Ok(())
     }
@@ -930,7 +943,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
 
             match elem.kind {
                 wasmparser::ElementKind::Active { table_index, .. } => {
-                    items.add_edge(indices.tables[table_index as usize], elem_id);
+                    items.add_edge(lookup(&indices.tables, table_index, "table")?, elem_id);
                 }
                 wasmparser::ElementKind::Declared => {}
                 wasmparser::ElementKind::Passive => {}
@@ -939,7 +952,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
                 let element_item = element_item?;
                 match element_item {
                     wasmparser::ElementItem::Func(func_idx) => {
-                        items.add_edge(elem_id, indices.functions[func_idx as usize]);
+                        items.add_edge(elem_id, lookup(&indices.functions, func_idx, "function")?);
                     }
                     wasmparser::ElementItem::Null(_ty) => {}
                 }
-- 
2.43.0


From 9b0696aadff9d57f9a6b84b5c873bec31f15d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:12 +0000
Subject: [PATCH 09/15] fix: parser: report a truncated code section instead of
 panicking

---
 parser/wasm_parse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 11c578f..a15af03 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -81,7 +81,9 @@ impl<'a> ModuleReader<'a> {
         Ok(CodeSection {
             index: index,
             reader: wasmparser::CodeSectionReader::new(
-                &self.data[byte_range.start..byte_range.end],
+                self.data
+                    .get(byte_range.start..byte_range.end)
+                    .ok_or_else(|| anyhow!("wasm binary cannot be fully parsed"))?,
                 byte_range.start,
             )?,
             byte_size: byte_range.end - start_offset,
-- 
2.43.0


From ce342112e3fb36452699b7e534e059e33aeba305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:12 +0000
Subject: [PATCH 10/15] fix: parser: reject mismatched or repeated function and
 code sections

Entries without a counterpart have no item, so edges to them made the parser
panic, and the bytes of all but the last repeated section were not counted.
---
 parser/wasm_parse/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index a15af03..77bbd01 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -121,9 +121,15 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
             let indexed_section = IndexedSection(idx, section);
             match indexed_section.1 {
                 wasmparser::Payload::CodeSectionStart { range, .. } => {
+                    if code_section.is_some() {
+                        Err(anyhow!("multiple code sections"))?
+                    }
                     code_section = Some(self.new_code_section(idx, start, range)?);
                 }
                 wasmparser::Payload::FunctionSection(reader) => {
+                    if function_section.is_some() {
+                        Err(anyhow!("multiple function sections"))?
+                    }
                     function_section = Some(FunctionSection {
                         index: idx,
                         byte_size: reader.range().end - start,
@@ -515,6 +521,11 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
         (imported_functions, names): Self::ItemsExtra,
     ) -> anyhow::Result<()> {
         let (func_section, code_section) = self;
+        if func_section.reader.get_count() != code_section.reader.get_count() {
+            Err(anyhow!(
+                "function and code section have inconsistent lengths"
+            ))?
+        }
 
         let func_section_index = func_section.index;
         let func_items: Vec<ir::Item> = iterate_with_size(&mut func_section.reader)
-- 
2.43.0


From b0c323f9a56061337c251d2ae7082897d4c9de45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:12 +0000
Subject: [PATCH 11/15] fix: parser: treat constant addresses as unsigned

Addresses are unsigned, but i32.const reads as a negative number above 2 GiB:
adding the offset overflowed, and segments placed there were ignored.
---
 parser/wasm_parse/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 77bbd01..b6aa71c 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -635,7 +635,8 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     | Operator::F32Load { memarg }
                     | Operator::F64Load { memarg } => {
                         if let Some(Operator::I32Const { value }) = prev {
-                            if let Some(data_id) = items.get_data(value as u64 + memarg.offset) {
+                            let address = u64::from(value as u32).checked_add(memarg.offset);
+                            if let Some(data_id) = address.and_then(|a| items.get_data(a)) {
                                 edges.push((body_id, data_id));
                             }
                         }
@@ -998,7 +999,7 @@ impl<'a> Parse<'a> for wasmparser::DataSectionReader<'a> {
             if let wasmparser::DataKind::Active { init_expr, .. } = d.kind {
                 let mut iter = init_expr.get_operators_reader();
                 let offset = match iter.read()? {
-                    Operator::I32Const { value } => Some(i64::from(value)),
+                    Operator::I32Const { value } => Some(i64::from(value as u32)),
                     Operator::I64Const { value } => Some(value),
                     _ => None,
                 };
-- 
2.43.0


From e83f44c0932c561b42ecb76291fdaeaf544944a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:46 +0000
Subject: [PATCH 12/15] fix: parser: report malformed DWARF address ranges as
 errors

Inverted or oversized ranges overflowed the size computation.
---
 parser/object_parse/die_parse/location_attrs.rs | 12 +++++++++---
 parser/object_parse/die_parse/mod.rs            |  8 +++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/parser/object_parse/die_parse/location_attrs.rs b/parser/object_parse/die_parse/location_attrs.rs
index d66bfba..b818b74 100644
--- a/parser/object_parse/die_parse/location_attrs.rs
+++ b/parser/object_parse/die_parse/location_attrs.rs
@@ -53,7 +53,10 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
             // If DW_AT_high_pc is encoded as an address, return the difference
             // between that value and the DW_AT_low_pc address.
             (Some(low_pc), Some(gimli::AttributeValue::Addr(high_pc))) => {
-                Ok(Some(high_pc - low_pc))
+                high_pc
+                    .checked_sub(low_pc)
+                    .map(Some)
+                    .ok_or_else(|| anyhow!("DW_AT_high_pc is lower than DW_AT_low_pc"))
             }
             // DWARF 4 allows the DW_AT_high_pc to be encoded as an offset from the
             // address in DW_AT_low_pc. If so, return the offset as the contiguous size.
@@ -78,8 +81,11 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
             let ranges = dwarf.ranges(unit, offset)?;
             let size = ranges
                 .map(|r| Ok(r.end - r.begin))
-                .fold(0, |res, size| Ok(res + size))?;
-            Ok(Some(size))
+                .fold(Some(0u64), |res, size| {
+                    Ok(res.and_then(|res| res.checked_add(size)))
+                })?;
+            size.map(Some)
+                .ok_or_else(|| anyhow!("DW_AT_ranges covers too many bytes"))
         } else {
             Ok(None)
         }
diff --git a/parser/object_parse/die_parse/mod.rs b/parser/object_parse/die_parse/mod.rs
index ef40092..ef3399c 100644
--- a/parser/object_parse/die_parse/mod.rs
+++ b/parser/object_parse/die_parse/mod.rs
@@ -1,4 +1,6 @@
+use anyhow::anyhow;
 use gimli;
+use std::convert::TryFrom;
 use twiggy_ir as ir;
 mod item_name;
 mod location_attrs;
@@ -21,11 +23,15 @@ pub(super) fn parse_items<R: gimli::Reader>(
     let item: ir::Item = match entry.tag() {
         gimli::DW_TAG_subprogram => {
             if let Some(size) = DieLocationAttributes::try_from(entry)?.entity_size(dwarf, unit)? {
+                let size = u32::try_from(size)
+                    .ok()
+                    .filter(|size| items.size_added().checked_add(*size).is_some())
+                    .ok_or_else(|| anyhow!("Subprogram of {} bytes is too large", size))?;
                 let id = ir::Id::entry(unit_id, entry_id);
                 let name = item_name(entry, dwarf, unit)?
                     .unwrap_or_else(|| format!("Subroutine[{}][{}]", unit_id, entry_id));
                 let kind: ir::ItemKind = ir::Code::new(&name).into();
-                ir::Item::new(id, &name, size as u32, kind)
+                ir::Item::new(id, &name, size, kind)
             } else {
                 return Ok(());
             }
-- 
2.43.0


From 2e75303b96c4de4a4a236858c121e7149d688644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:46 +0000
Subject: [PATCH 13/15] fix: twiggy: report errors when flushing the output

The buffered destination was dropped without flushing, so write errors were
lost and the exit status claimed success.
---
 twiggy/twiggy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/twiggy/twiggy.rs b/twiggy/twiggy.rs
index e1119cf..c7eb509 100644
--- a/twiggy/twiggy.rs
+++ b/twiggy/twiggy.rs
@@ -3,6 +3,7 @@
 #![deny(missing_docs)]
 #![deny(missing_debug_implementations)]
 
+use std::io::Write;
 use std::process;
 use structopt::StructOpt;
 use twiggy_analyze as analyze;
@@ -34,5 +35,7 @@ fn run(opts: &opt::Options) -> anyhow::Result<()> {
 
     let mut dest = opts.output_destination().open()?;
 
-    data.emit(&items, &mut *dest, opts.output_format())
+    data.emit(&items, &mut *dest, opts.output_format())?;
+    dest.flush()?;
+    Ok(())
 }
-- 
2.43.0


From 71bcb8ba05fbf7393a699c565cb3cb94a8e1dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 14/15] fix: top: do not overflow when summing retained sizes

---
 analyze/analyses/top.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/top.rs b/analyze/analyses/top.rs
index 65d7f04..71af0eb 100644
--- a/analyze/analyses/top.rs
+++ b/analyze/analyses/top.rs
@@ -45,7 +45,7 @@ impl traits::Emit for Top {
         // Helper function used to summnarize a sequence of table rows. This is
         // used to generate the remaining summary and total rows. Returns a tuple
         // containing the total size, total size percentage, and number of items.
-        fn summarize_rows(rows: impl Iterator<Item = TableRow>) -> (u32, f64, u32) {
+        fn summarize_rows(rows: impl Iterator<Item = TableRow>) -> (u64, f64, u32) {
             rows.fold(
                 (0, 0.0, 0),
                 |(total_size, total_percent, remaining_count),
@@ -53,7 +53,7 @@ impl traits::Emit for Top {
                      size, size_percent, ..
                  }| {
                     (
-                        total_size + size,
+                        total_size + u64::from(size),
                         total_percent + size_percent,
                         remaining_count + 1,
                     )
-- 
2.43.0


From 3ce2ca6c016f4cb8c6baaf9e4017dc5287a8a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 15/15] fix: monos: do not treat plain names as regular
 expressions

---
 analyze/analyses/monos/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index 6e74aae..314a57a 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -27,7 +27,8 @@ fn collect_monomorphizations<'a>(
 ) -> anyhow::Result<MonosMap<'a>> {
     let args_given = !opts.functions().is_empty();
     let using_regexps = opts.using_regexps();
-    let regexps = regex::RegexSet::new(opts.functions())?;
+    let patterns = if using_regexps { opts.functions() } else { &[] };
+    let regexps = regex::RegexSet::new(patterns)?;
 
     let unsorted_monos: BTreeMap<&'a str, Vec<(String, u32)>> = items
         .iter()
-- 
2.43.0

