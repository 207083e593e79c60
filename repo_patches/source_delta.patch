From feb5411df38ab3ecbeea64d133a2f7b723c0b8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:31 +0000
Subject: [PATCH 01/29] fix: do not let empty data segments shadow others,
 accept segments up to the end of memory

---
 ir/ir.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 5cb3d22..449953d 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -79,9 +79,12 @@ impl ItemsBuilder {
 
     /// Add a range of static data and the `Id` that defines it.
     pub fn link_data(&mut self, offset: i64, len: usize, id: Id) {
-        if offset >= 0 && offset <= i64::from(u32::MAX) && offset as usize + len < u32::MAX as usize
+        // An empty segment defines no memory at all, and must not shadow another
+        // one that begins at the same offset.
+        let len = len as u64;
+        if offset >= 0 && len > 0 && (offset as u64).saturating_add(len) <= u64::from(u32::MAX) + 1
         {
-            self.data.insert(offset as u64, (id, len as u64));
+            self.data.insert(offset as u64, (id, len));
         }
     }
 
-- 
2.43.0


From dd02b885ee9f549aa5006dd42eb3b702e705abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:31 +0000
Subject: [PATCH 02/29] fix: record references made by return_call and ref.func

---
 parser/wasm_parse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index dee5313..3004c30 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -579,7 +579,9 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
             for op in body.get_operators_reader()? {
                 let prev = cache.take();
                 match op? {
-                    Operator::Call { function_index } => {
+                    Operator::Call { function_index }
+                    | Operator::ReturnCall { function_index }
+                    | Operator::RefFunc { function_index } => {
                         let f_id = indices.functions[function_index as usize];
                         edges.push((body_id, f_id));
                     }
-- 
2.43.0


From e50c1ccff938bfeff990d8a59bff6b672352f807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:31 +0000
Subject: [PATCH 03/29] fix: treat 32-bit data addresses as unsigned

---
 parser/wasm_parse/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 3004c30..34b2f83 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -611,7 +611,11 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     | Operator::F32Load { memarg }
                     | Operator::F64Load { memarg } => {
                         if let Some(Operator::I32Const { value }) = prev {
-                            if let Some(data_id) = items.get_data(value as u64 + memarg.offset) {
+                            // The address operand is unsigned.
+                            let data_id = u64::from(value as u32)
+                                .checked_add(memarg.offset)
+                                .and_then(|addr| items.get_data(addr));
+                            if let Some(data_id) = data_id {
                                 edges.push((body_id, data_id));
                             }
                         }
@@ -974,7 +978,8 @@ impl<'a> Parse<'a> for wasmparser::DataSectionReader<'a> {
             if let wasmparser::DataKind::Active { init_expr, .. } = d.kind {
                 let mut iter = init_expr.get_operators_reader();
                 let offset = match iter.read()? {
-                    Operator::I32Const { value } => Some(i64::from(value)),
+                    // 32-bit addresses are unsigned.
+                    Operator::I32Const { value } => Some(i64::from(value as u32)),
                     Operator::I64Const { value } => Some(value),
                     _ => None,
                 };
-- 
2.43.0


From 34487f074d1b1f987797526277b60fdda8c00653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:42 +0000
Subject: [PATCH 04/29] fix: escape backslashes, newlines and control
 characters in JSON strings

---
 analyze/formats/json.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/analyze/formats/json.rs b/analyze/formats/json.rs
index c7b5ead..6b32231 100644
--- a/analyze/formats/json.rs
+++ b/analyze/formats/json.rs
@@ -14,8 +14,9 @@ impl<'a> JsonPrimitive for &'a str {
         for c in self.chars() {
             match c {
                 '"' => write!(w, "\\\"")?,
-                '\\' => write!(w, "\\")?,
-                '\n' => writeln!(w,)?,
+                '\\' => write!(w, "\\\\")?,
+                '\n' => write!(w, "\\n")?,
+                c if c < ' ' => write!(w, "\\u{:04x}", c as u32)?,
                 c => write!(w, "{}", c)?,
             }
         }
-- 
2.43.0


From bc86e3e3f9c32d238b25ecd26f2aa7b88269a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:42 +0000
Subject: [PATCH 05/29] fix: sum retained sizes in 64 bits, they can exceed 4
 GiB

---
 analyze/analyses/top.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/top.rs b/analyze/analyses/top.rs
index 65d7f04..71af0eb 100644
--- a/analyze/analyses/top.rs
+++ b/analyze/analyses/top.rs
@@ -45,7 +45,7 @@ impl traits::Emit for Top {
         // Helper function used to summnarize a sequence of table rows. This is
         // used to generate the remaining summary and total rows. Returns a tuple
         // containing the total size, total size percentage, and number of items.
-        fn summarize_rows(rows: impl Iterator<Item = TableRow>) -> (u32, f64, u32) {
+        fn summarize_rows(rows: impl Iterator<Item = TableRow>) -> (u64, f64, u32) {
             rows.fold(
                 (0, 0.0, 0),
                 |(total_size, total_percent, remaining_count),
@@ -53,7 +53,7 @@ impl traits::Emit for Top {
                      size, size_percent, ..
                  }| {
                     (
-                        total_size + size,
+                        total_size + u64::from(size),
                         total_percent + size_percent,
                         remaining_count + 1,
                     )
-- 
2.43.0


From cd2dfe20f4e3cbdb1b952c08b1a0b9aa7ff2e4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 06/29] fix: implement CSV output for garbage instead of
 panicking

---
 analyze/analyses/garbage.rs | 47 +++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/garbage.rs b/analyze/analyses/garbage.rs
index 77fce23..61dba58 100644
--- a/analyze/analyses/garbage.rs
+++ b/analyze/analyses/garbage.rs
@@ -1,7 +1,9 @@
 use std::collections::BTreeSet;
 use std::io;
 
+use csv;
 use petgraph::visit::Walker;
+use serde_derive::Serialize;
 
 use crate::formats::json;
 use crate::formats::table::{Align, Table};
@@ -137,8 +139,49 @@ impl traits::Emit for Garbage {
     }
 
     #[cfg(feature = "emit_csv")]
-    fn emit_csv(&self, _items: &ir::Items, _dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        unimplemented!();
+    fn emit_csv(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
+        #[derive(Serialize, Debug)]
+        #[serde(rename_all = "PascalCase")]
+        struct CsvRecord {
+            name: String,
+            bytes: u32,
+            size_percent: f64,
+        }
+
+        let mut wtr = csv::Writer::from_writer(dest);
+        let mut add_record = |name: String, bytes: u32| -> anyhow::Result<()> {
+            let size_percent = f64::from(bytes) / f64::from(items.size()) * 100.0;
+            wtr.serialize(CsvRecord {
+                name,
+                bytes,
+                size_percent,
+            })?;
+            wtr.flush()?;
+            Ok(())
+        };
+        let total_size =
+            |ids: &[ir::Id]| -> u32 { ids.iter().map(|&id| items[id].size()).sum() };
+
+        let (listed, rest) = self.items.split_at(self.items.len().min(self.limit));
+        for &id in listed {
+            add_record(items[id].name().to_string(), items[id].size())?;
+        }
+        if !rest.is_empty() {
+            add_record(format!("... and {} more", rest.len()), total_size(rest))?;
+        }
+        add_record(
+            format!("Σ [{} Total Rows]", self.items.len()),
+            total_size(&self.items),
+        )?;
+        if !self.data_segments.is_empty() {
+            let name = format!(
+                "{} potential false-positive data segments",
+                self.data_segments.len()
+            );
+            add_record(name, total_size(&self.data_segments))?;
+        }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From f037c78c941cb5d4b458ae5f0e8b89135b4b3c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 07/29] fix: bound path expansion by the limits and keep
 self-references off paths

---
 analyze/analyses/paths/mod.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 70b84e0..bb6f552 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -29,7 +29,7 @@ pub fn paths(items: &mut ir::Items, opts: &opt::Paths) -> anyhow::Result<Box<dyn
     let opts = opts.clone();
     let entries = get_starting_positions(items, &opts)?
         .iter()
-        .map(|id| create_entry(*id, items, &opts, &mut BTreeSet::new()))
+        .map(|id| create_entry(*id, items, &opts, 0, &mut BTreeSet::new()))
         .collect();
 
     let paths = Paths { opts, entries };
@@ -102,6 +102,7 @@ fn create_entry(
     id: ir::Id,
     items: &ir::Items,
     opts: &opt::Paths,
+    depth: u32,
     seen: &mut BTreeSet<ir::Id>,
 ) -> PathsEntry {
     // Determine the item's name and size.
@@ -109,6 +110,10 @@ fn create_entry(
     let name = item.name().to_string();
     let size = item.size();
 
+    // Temporarily add the current item to the set of discovered nodes, so that
+    // no path, not even one through a self-reference, visits it again.
+    seen.insert(id);
+
     // Collect the `ir::Id` values of this entry's children, depending on
     // whether we are ascending or descending the IR-tree.
     let children_ids: Vec<ir::Id> = if opts.descending() {
@@ -127,12 +132,23 @@ fn create_entry(
             .collect()
     };
 
-    // Temporarily add the current item to the set of discovered nodes, and
-    // create an entry for each child. Collect these into a `children` vector.
-    seen.insert(id);
+    // Create an entry for each child, and collect these into a `children`
+    // vector. Only those that will be emitted need to have children themselves.
     let children = children_ids
         .into_iter()
-        .map(|id| create_entry(id, items, opts, seen))
+        .enumerate()
+        .map(|(i, id)| {
+            if depth < opts.max_depth() && i < opts.max_paths() as usize {
+                create_entry(id, items, opts, depth + 1, seen)
+            } else {
+                let item = &items[id];
+                PathsEntry {
+                    name: item.name().to_string(),
+                    size: item.size(),
+                    children: vec![],
+                }
+            }
+        })
         .collect();
     seen.remove(&id);
 
-- 
2.43.0


From 706ea4e813e822610950e4d1bc11683fb1eb62d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:42 +0000
Subject: [PATCH 08/29] fix: select all items of a name, and never the meta
 root, in paths and dominators

---
 analyze/analyses/dominators/mod.rs | 4 +++-
 analyze/analyses/paths/mod.rs      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/dominators/mod.rs b/analyze/analyses/dominators/mod.rs
index 79d99e1..5d029d5 100644
--- a/analyze/analyses/dominators/mod.rs
+++ b/analyze/analyses/dominators/mod.rs
@@ -40,6 +40,7 @@ pub fn dominators(
         let regexps = regex::RegexSet::new(arguments)?;
         let mut sorted_items: Vec<_> = items
             .iter()
+            .filter(|item| item.id() != items.meta_root())
             .filter(|item| regexps.is_match(&item.name()))
             .map(|item| item.id())
             .collect();
@@ -48,7 +49,8 @@ pub fn dominators(
     } else {
         arguments
             .iter()
-            .filter_map(|name| items.get_item_by_name(name))
+            .flat_map(|name| items.iter().filter(move |item| item.name() == name))
+            .filter(|item| item.id() != items.meta_root())
             .map(|item| item.id())
             .collect()
     };
diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index bb6f552..8a65b46 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -65,6 +65,7 @@ fn get_starting_positions(items: &ir::Items, opts: &opt::Paths) -> anyhow::Resul
         let regexps = regex::RegexSet::new(opts.functions())?;
         let matches = items
             .iter()
+            .filter(|item| item.id() != items.meta_root())
             .filter(|item| regexps.is_match(item.name()))
             .map(|item| item.id())
             .collect();
@@ -75,7 +76,8 @@ fn get_starting_positions(items: &ir::Items, opts: &opt::Paths) -> anyhow::Resul
     let get_exact_matches = || -> Vec<ir::Id> {
         opts.functions()
             .iter()
-            .filter_map(|s| items.get_item_by_name(s))
+            .flat_map(|s| items.iter().filter(move |item| item.name() == s))
+            .filter(|item| item.id() != items.meta_root())
             .map(|item| item.id())
             .collect()
     };
-- 
2.43.0


From f5ba12592ba093aecc8730cd0908b5d6c0dac607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 09/29] fix: apply depth and row limits and item arguments in
 every dominators format

---
 analyze/analyses/dominators/emit.rs | 65 ++++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 6 deletions(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 28b53d5..2ee65e5 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -36,11 +36,15 @@ impl traits::Emit for DominatorTree {
         ) {
             assert_eq!(id == items.meta_root(), depth == 0);
 
-            if *row > opts.max_rows() || depth > opts.max_depth() {
+            if depth > opts.max_depth() {
                 return;
             }
 
             if depth > 0 {
+                if *row >= opts.max_rows() {
+                    return;
+                }
+                *row += 1;
                 add_text_item(items, depth, id, table);
             }
 
@@ -48,7 +52,6 @@ impl traits::Emit for DominatorTree {
                 let mut children = children.to_vec();
                 children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
                 for child in children {
-                    *row += 1;
                     recursive_add_rows(
                         table,
                         items,
@@ -98,6 +101,8 @@ impl traits::Emit for DominatorTree {
             items: &ir::Items,
             opts: &opt::Dominators,
             dominator_tree: &BTreeMap<ir::Id, Vec<ir::Id>>,
+            depth: u32,
+            row: &mut u32,
             id: ir::Id,
             obj: &mut json::Object,
         ) -> anyhow::Result<()> {
@@ -109,8 +114,20 @@ impl traits::Emit for DominatorTree {
 
                 let mut arr = obj.array("children")?;
                 for child in children {
+                    if depth >= opts.max_depth() || *row >= opts.max_rows() {
+                        break;
+                    }
+                    *row += 1;
                     let mut obj = arr.object()?;
-                    recursive_add_children(items, opts, dominator_tree, child, &mut obj)?;
+                    recursive_add_children(
+                        items,
+                        opts,
+                        dominator_tree,
+                        depth + 1,
+                        row,
+                        child,
+                        &mut obj,
+                    )?;
                 }
             }
 
@@ -121,9 +138,20 @@ impl traits::Emit for DominatorTree {
         let mut obj = json::object(dest)?;
         {
             let mut arr = obj.array("items")?;
+            let mut row = 0;
             for curr_id in &self.items {
+                let mut depth = 0;
+                if *curr_id != items.meta_root() {
+                    depth = 1;
+                    if depth > self.opts.max_depth() || row >= self.opts.max_rows() {
+                        break;
+                    }
+                    row += 1;
+                }
                 let mut item = arr.object()?;
-                recursive_add_children(items, &self.opts, &self.tree, *curr_id, &mut item)?;
+                recursive_add_children(
+                    items, &self.opts, &self.tree, depth, &mut row, *curr_id, &mut item,
+                )?;
             }
         }
 
@@ -150,22 +178,47 @@ impl traits::Emit for DominatorTree {
             items: &ir::Items,
             opts: &opt::Dominators,
             dominator_tree: &BTreeMap<ir::Id, Vec<ir::Id>>,
+            depth: u32,
+            row: &mut u32,
             id: ir::Id,
             wtr: &mut csv::Writer<&mut dyn io::Write>,
         ) -> anyhow::Result<()> {
+            if depth > opts.max_depth() {
+                return Ok(());
+            }
+            if depth > 0 {
+                if *row >= opts.max_rows() {
+                    return Ok(());
+                }
+                *row += 1;
+            }
             add_csv_item(items, id, wtr)?;
             if let Some(children) = dominator_tree.get(&id) {
                 let mut children = children.to_vec();
                 children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
                 for child in children {
-                    recursive_add_children(items, opts, dominator_tree, child, wtr)?;
+                    recursive_add_children(
+                        items,
+                        opts,
+                        dominator_tree,
+                        depth + 1,
+                        row,
+                        child,
+                        wtr,
+                    )?;
                 }
             }
             Ok(())
         }
 
         let mut wtr = csv::Writer::from_writer(dest);
-        recursive_add_children(items, &self.opts, &self.tree, items.meta_root(), &mut wtr)?;
+        let mut row = 0;
+        for id in &self.items {
+            let depth = if *id == items.meta_root() { 0 } else { 1 };
+            recursive_add_children(
+                items, &self.opts, &self.tree, depth, &mut row, *id, &mut wtr,
+            )?;
+        }
 
         if let Some(UnreachableItemsSummary {
             count,
-- 
2.43.0


From 10f65436ca58534c69b905119df8e7e86056df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 10/29] fix: count every instantiation in monos, also those
 equal in name and size

---
 analyze/analyses/monos/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index b6c1a3a..21503b2 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -1,5 +1,5 @@
 use std::cmp;
-use std::collections::{BTreeMap, BTreeSet};
+use std::collections::BTreeMap;
 
 use regex;
 use twiggy_ir as ir;
@@ -29,7 +29,7 @@ fn collect_monomorphizations<'a>(
     let using_regexps = opts.using_regexps();
     let regexps = regex::RegexSet::new(opts.functions())?;
 
-    let unsorted_monos: BTreeMap<&'a str, BTreeSet<(String, u32)>> = items
+    let unsorted_monos: MonosMap<'a> = items
         .iter()
         .filter_map(|item| {
             if let Some(generic) = item.monomorphization_of() {
@@ -46,15 +46,14 @@ fn collect_monomorphizations<'a>(
         .fold(BTreeMap::new(), |mut monos, (generic, inst)| {
             monos
                 .entry(generic)
-                .or_insert_with(BTreeSet::new)
-                .insert((inst.name().to_string(), inst.size()));
+                .or_insert_with(Vec::new)
+                .push((inst.name().to_string(), inst.size()));
             monos
         });
 
     Ok(unsorted_monos
         .into_iter()
-        .map(|(generic, inst_set)| {
-            let mut insts = inst_set.into_iter().collect::<Vec<_>>();
+        .map(|(generic, mut insts)| {
             insts.sort_by(|(a_name, a_size), (b_name, b_size)| {
                 b_size.cmp(a_size).then(a_name.cmp(b_name))
             });
-- 
2.43.0


From 84d72dc0aa550787a8ae5cdbf5316dd8b9ab0488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 11/29] fix: do not compile monos names as regular expressions
 without --regex

---
 analyze/analyses/monos/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index 21503b2..5a304f1 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -27,7 +27,12 @@ fn collect_monomorphizations<'a>(
 ) -> anyhow::Result<MonosMap<'a>> {
     let args_given = !opts.functions().is_empty();
     let using_regexps = opts.using_regexps();
-    let regexps = regex::RegexSet::new(opts.functions())?;
+    // Plain names must not be compiled: they need not be valid expressions.
+    let regexps = if using_regexps {
+        regex::RegexSet::new(opts.functions())?
+    } else {
+        regex::RegexSet::new(&[] as &[&str])?
+    };
 
     let unsorted_monos: MonosMap<'a> = items
         .iter()
-- 
2.43.0


From 4da59c94506f2445b4c3a1cae928e17e574b492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 12/29] fix: only take a sixteen digit hash for a Rust hash
 when looking for generics

---
 ir/ir.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 449953d..369db78 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -644,7 +644,12 @@ impl Code {
         if let Some(idx) = demangled.rfind("::h") {
             let idx2 = demangled.rfind("::").unwrap();
             assert!(idx2 >= idx);
-            if idx2 == idx {
+            // The hash is sixteen hexadecimal digits; LLVM may have appended a
+            // suffix like ".123" to it. Anything else is an ordinary name that
+            // happens to begin with an "h".
+            let hash = demangled[idx + "::h".len()..].split('.').next().unwrap();
+            let is_hash = hash.len() == 16 && hash.bytes().all(|b| b.is_ascii_hexdigit());
+            if idx2 == idx && is_hash {
                 let generic = demangled[..idx].to_string();
                 return Some(generic);
             }
-- 
2.43.0


From 36e65e905f113ae2bc604a7359c0451cdddfa672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 13/29] fix: add up the sizes of items that share a name in
 diff

---
 analyze/analyses/diff.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/analyze/analyses/diff.rs b/analyze/analyses/diff.rs
index d7613f7..3316c9a 100644
--- a/analyze/analyses/diff.rs
+++ b/analyze/analyses/diff.rs
@@ -101,11 +101,13 @@ pub fn diff(
     let max_items = opts.max_items() as usize;
 
     // Given a set of items, create a HashMap of the items' names and sizes.
+    // Several items may share a name: their sizes are added up.
     fn get_names_and_sizes(items: &ir::Items) -> HashMap<&str, i64> {
-        items
-            .iter()
-            .map(|item| (item.name(), i64::from(item.size())))
-            .collect()
+        let mut sizes = HashMap::new();
+        for item in items.iter() {
+            *sizes.entry(item.name()).or_insert(0) += i64::from(item.size());
+        }
+        sizes
     }
 
     // Collect the names and sizes of the items in the old and new collections.
-- 
2.43.0


From d05d608be66efdb05a8e7b069ee1ab06290c8b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 14/29] fix: do not panic or blow up on C++ symbols that cannot
 be demangled

---
 ir/ir.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 369db78..57e1732 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -9,6 +9,7 @@ use frozen::Frozen;
 use std::cmp;
 use std::collections::btree_map;
 use std::collections::{BTreeMap, BTreeSet};
+use std::fmt;
 use std::ops;
 use std::slice;
 use std::u32;
@@ -619,11 +620,25 @@ impl Code {
             return Some(s.to_string());
         }
 
-        if let Ok(sym) = cpp_demangle::Symbol::new(s) {
-            return Some(sym.to_string());
+        // Not every symbol that parses can be demangled: a malformed one can be
+        // an error, and one of a few hundred bytes can stand for gigabytes.
+        struct Bounded(String);
+
+        impl cpp_demangle::DemangleWrite for Bounded {
+            fn write_string(&mut self, s: &str) -> fmt::Result {
+                if self.0.len() + s.len() > 1 << 16 {
+                    return Err(fmt::Error);
+                }
+                self.0.push_str(s);
+                Ok(())
+            }
         }
 
-        None
+        let sym = cpp_demangle::Symbol::new(s).ok()?;
+        let mut demangled = Bounded(String::new());
+        sym.structured_demangle(&mut demangled, &Default::default())
+            .ok()?;
+        Some(demangled.0)
     }
 
     fn extract_generic_function(demangled: &str) -> Option<String> {
-- 
2.43.0


From 2ef03bba7eaf0fe4c91b699993799cd1d17a6019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 15/29] fix: keep the order of equal monos groups independent
 of the limit on instantiations

---
 analyze/analyses/monos/entry.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/analyze/analyses/monos/entry.rs b/analyze/analyses/monos/entry.rs
index d19cd47..c36f536 100644
--- a/analyze/analyses/monos/entry.rs
+++ b/analyze/analyses/monos/entry.rs
@@ -17,7 +17,9 @@ impl Ord for MonosEntry {
         rhs.bloat
             .cmp(&self.bloat)
             .then(rhs.size.cmp(&self.size))
-            .then(self.insts.cmp(&rhs.insts))
+            // Names are unique, whereas `insts` may have been cut off: which of two
+            // equal entries comes first must not depend on that.
             .then(self.name.cmp(&rhs.name))
+            .then(self.insts.cmp(&rhs.insts))
     }
 }
-- 
2.43.0


From cbbd407e5da808ada87602ff9c54b158f7df5b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 16/29] fix: read DWARF 5 indexed addresses and range lists

---
 .../object_parse/die_parse/location_attrs.rs  | 42 ++++++++++++++-----
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/parser/object_parse/die_parse/location_attrs.rs b/parser/object_parse/die_parse/location_attrs.rs
index d66bfba..60a3af4 100644
--- a/parser/object_parse/die_parse/location_attrs.rs
+++ b/parser/object_parse/die_parse/location_attrs.rs
@@ -36,7 +36,7 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
         dwarf: &gimli::Dwarf<R>,
         unit: &gimli::Unit<R>,
     ) -> FallilbleOption<u64> {
-        if let Some(size) = self.contiguous_entity_size()? {
+        if let Some(size) = self.contiguous_entity_size(dwarf, unit)? {
             Ok(Some(size))
         } else if let Some(size) = self.noncontiguous_entity_size(dwarf, unit)? {
             Ok(Some(size))
@@ -47,14 +47,22 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
 
     /// Compute the size of an entity occupying a contiguous range of machine
     /// code addresses in the binary.
-    fn contiguous_entity_size(&self) -> FallilbleOption<u64> {
-        let dw_at_low_pc: Option<u64> = self.dw_at_low_pc()?;
+    fn contiguous_entity_size(
+        &self,
+        dwarf: &gimli::Dwarf<R>,
+        unit: &gimli::Unit<R>,
+    ) -> FallilbleOption<u64> {
+        let dw_at_low_pc: Option<u64> = self.dw_at_low_pc(dwarf, unit)?;
         match (dw_at_low_pc, &self.dw_at_high_pc) {
             // If DW_AT_high_pc is encoded as an address, return the difference
             // between that value and the DW_AT_low_pc address.
             (Some(low_pc), Some(gimli::AttributeValue::Addr(high_pc))) => {
                 Ok(Some(high_pc - low_pc))
             }
+            // DWARF 5 allows addresses to be encoded as an index into `.debug_addr`.
+            (Some(low_pc), Some(gimli::AttributeValue::DebugAddrIndex(index))) => {
+                Ok(Some(dwarf.address(unit, *index)? - low_pc))
+            }
             // DWARF 4 allows the DW_AT_high_pc to be encoded as an offset from the
             // address in DW_AT_low_pc. If so, return the offset as the contiguous size.
             (Some(_), Some(gimli::AttributeValue::Udata(offset))) => Ok(Some(*offset)),
@@ -73,8 +81,7 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
         dwarf: &gimli::Dwarf<R>,
         unit: &gimli::Unit<R>,
     ) -> FallilbleOption<u64> {
-        if let Some(raw_offset) = self.dw_at_ranges()? {
-            let offset = dwarf.ranges_offset_from_raw(unit, raw_offset);
+        if let Some(offset) = self.dw_at_ranges(dwarf, unit)? {
             let ranges = dwarf.ranges(unit, offset)?;
             let size = ranges
                 .map(|r| Ok(r.end - r.begin))
@@ -86,21 +93,36 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
     }
 
     /// Return the DW_AT_low_pc attribute as a u64 value representing an address.
-    fn dw_at_low_pc(&self) -> FallilbleOption<u64> {
+    fn dw_at_low_pc(
+        &self,
+        dwarf: &gimli::Dwarf<R>,
+        unit: &gimli::Unit<R>,
+    ) -> FallilbleOption<u64> {
         match &self.dw_at_low_pc {
             Some(gimli::AttributeValue::Addr(address)) => Ok(Some(*address)),
+            Some(gimli::AttributeValue::DebugAddrIndex(index)) => {
+                Ok(Some(dwarf.address(unit, *index)?))
+            }
             Some(_) => Err(anyhow!("Unexpected base address attribute value",)),
             None => Ok(None),
         }
     }
 
-    /// Return the DW_AT_ranges attribute as a u64 value representing an offset
-    /// into the `.debug_ranges` section of the file.
+    /// Return the DW_AT_ranges attribute as an offset into the `.debug_ranges`
+    /// or `.debug_rnglists` section of the file.
     fn dw_at_ranges(
         &self,
-    ) -> FallilbleOption<gimli::RawRangeListsOffset<<R as gimli::Reader>::Offset>> {
+        dwarf: &gimli::Dwarf<R>,
+        unit: &gimli::Unit<R>,
+    ) -> FallilbleOption<gimli::RangeListsOffset<<R as gimli::Reader>::Offset>> {
         match &self.dw_at_ranges {
-            Some(gimli::AttributeValue::RangeListsRef(offset)) => Ok(Some(*offset)),
+            Some(gimli::AttributeValue::RangeListsRef(offset)) => {
+                Ok(Some(dwarf.ranges_offset_from_raw(unit, *offset)))
+            }
+            // DWARF 5 allows an index into the unit's table of range lists.
+            Some(gimli::AttributeValue::DebugRngListsIndex(index)) => {
+                Ok(Some(dwarf.ranges_offset(unit, *index)?))
+            }
             Some(_) => Err(anyhow!("Unexpected DW_AT_ranges value")),
             None => Ok(None),
         }
-- 
2.43.0


From fc70f89e886a41377181da94bd0cadb45e581816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 17/29] fix: accept subprogram names that are not UTF-8

---
 parser/object_parse/die_parse/item_name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/object_parse/die_parse/item_name.rs b/parser/object_parse/die_parse/item_name.rs
index 341e191..04cb3a3 100644
--- a/parser/object_parse/die_parse/item_name.rs
+++ b/parser/object_parse/die_parse/item_name.rs
@@ -36,7 +36,7 @@ where
         Ok(
             dwarf
                 .attr_string(unit, attr)?
-                .to_string()? // This `to_string()` creates a `Result<Cow<'_, str>, _>`.
+                .to_string_lossy()? // This creates a `Result<Cow<'_, str>, _>`.
                 .to_string(), // This `to_string()` creates the String we return.
         )
     })
-- 
2.43.0


From ac7ba05c1f6d57db79df96ce4c97c12498ef2db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 18/29] fix: report references to things that do not exist as
 errors

---
 parser/wasm_parse/mod.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 34b2f83..89f1cc6 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -15,6 +15,15 @@ pub struct SectionIndices {
     globals: Vec<Id>,
 }
 
+/// Look up an entry of an index space. The module may refer to one that does
+/// not exist.
+fn lookup(space: &[Id], index: u32) -> anyhow::Result<Id> {
+    space
+        .get(index as usize)
+        .copied()
+        .ok_or_else(|| anyhow!("index {} is out of bounds", index))
+}
+
 struct IndexedSection<'a>(usize, wasmparser::Payload<'a>);
 
 struct CodeSection<'a> {
@@ -582,7 +591,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     Operator::Call { function_index }
                     | Operator::ReturnCall { function_index }
                     | Operator::RefFunc { function_index } => {
-                        let f_id = indices.functions[function_index as usize];
+                        let f_id = lookup(&indices.functions, function_index)?;
                         edges.push((body_id, f_id));
                     }
 
@@ -592,7 +601,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     Operator::CallIndirect { .. } => continue,
 
                     Operator::GlobalGet { global_index } | Operator::GlobalSet { global_index } => {
-                        let g_id = indices.globals[global_index as usize];
+                        let g_id = lookup(&indices.globals, global_index)?;
                         edges.push((body_id, g_id));
                     }
 
@@ -861,16 +870,16 @@ impl<'a> Parse<'a> for wasmparser::ExportSectionReader<'a> {
             let exp_id = Id::entry(idx, i);
             match exp.kind {
                 wasmparser::ExternalKind::Function => {
-                    items.add_edge(exp_id, indices.functions[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.functions, exp.index)?);
                 }
                 wasmparser::ExternalKind::Table => {
-                    items.add_edge(exp_id, indices.tables[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.tables, exp.index)?);
                 }
                 wasmparser::ExternalKind::Memory => {
-                    items.add_edge(exp_id, indices.memories[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.memories, exp.index)?);
                 }
                 wasmparser::ExternalKind::Global => {
-                    items.add_edge(exp_id, indices.globals[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.globals, exp.index)?);
                 }
                 wasmparser::ExternalKind::Tag
                 | wasmparser::ExternalKind::Type
@@ -904,7 +913,7 @@ impl<'a> Parse<'a> for StartSection<'a> {
     ) -> anyhow::Result<()> {
         items.add_edge(
             Id::section(idx),
-            indices.functions[self.function_index as usize],
+            lookup(&indices.functions, self.function_index)?,
         );
         Ok(())
     }
@@ -936,7 +945,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
 
             match elem.kind {
                 wasmparser::ElementKind::Active { table_index, .. } => {
-                    items.add_edge(indices.tables[table_index as usize], elem_id);
+                    items.add_edge(lookup(&indices.tables, table_index)?, elem_id);
                 }
                 wasmparser::ElementKind::Declared => {}
                 wasmparser::ElementKind::Passive => {}
@@ -945,7 +954,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
                 let element_item = element_item?;
                 match element_item {
                     wasmparser::ElementItem::Func(func_idx) => {
-                        items.add_edge(elem_id, indices.functions[func_idx as usize]);
+                        items.add_edge(elem_id, lookup(&indices.functions, func_idx)?);
                     }
                     wasmparser::ElementItem::Null(_ty) => {}
                 }
-- 
2.43.0


From 8cfd62605c954277cc8185d30eed906706482ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 19/29] fix: compute retained sizes of deep dominator trees
 without recursion

---
 ir/ir.rs | 55 +++++++++++++++++++------------------------------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 57e1732..8e008be 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -293,44 +293,27 @@ impl Items {
         }
         self.compute_dominator_tree();
 
-        fn recursive_retained_size(
-            retained_sizes: &mut BTreeMap<Id, u32>,
-            items: &Items,
-            item: &Item,
-            dominator_tree: &BTreeMap<Id, Vec<Id>>,
-        ) -> u32 {
-            // Although the dominator tree cannot have cycles, because we
-            // compute retained sizes in item iteration order, rather than from
-            // the bottom of the dominator tree up, it is possible we have
-            // already computed the retained sizes for subtrees.
-            if let Some(rsize) = retained_sizes.get(&item.id()) {
-                return *rsize;
-            }
-
-            let mut rsize = item.size();
-            if let Some(children) = dominator_tree.get(&item.id()) {
-                for child in children {
-                    rsize += recursive_retained_size(
-                        retained_sizes,
-                        items,
-                        &items[*child],
-                        dominator_tree,
-                    );
-                }
-            }
-
-            let old_value = retained_sizes.insert(item.id(), rsize);
-            // The dominator tree is a proper tree, so there shouldn't be
-            // any cycles.
-            assert!(old_value.is_none());
-            rsize
-        }
-
-        let mut retained_sizes = BTreeMap::new();
+        // The dominator tree can be too deep to walk it recursively. List every
+        // item before the ones it dominates, and then add the sizes up from the
+        // bottom of the tree.
+        let mut retained_sizes: BTreeMap<Id, u32> =
+            self.iter().map(|item| (item.id(), item.size())).collect();
         {
             let dominator_tree = self.dominator_tree.as_ref().unwrap();
-            for item in self.iter() {
-                recursive_retained_size(&mut retained_sizes, self, item, dominator_tree);
+            let mut order = vec![(None, self.meta_root)];
+            let mut visited = 0;
+            while visited < order.len() {
+                let id = order[visited].1;
+                if let Some(children) = dominator_tree.get(&id) {
+                    order.extend(children.iter().map(|child| (Some(id), *child)));
+                }
+                visited += 1;
+            }
+            for (parent, id) in order.into_iter().rev() {
+                if let Some(parent) = parent {
+                    let rsize = retained_sizes[&id];
+                    *retained_sizes.get_mut(&parent).unwrap() += rsize;
+                }
             }
         }
         self.retained_sizes = Some(retained_sizes);
-- 
2.43.0


From 6a4285c2ed4f19b55446c823c109572b875aaa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 20/29] fix: print deep dominator trees without recursion

---
 analyze/analyses/dominators/emit.rs | 223 ++++++++++++----------------
 analyze/formats/json.rs             |  17 +++
 2 files changed, 112 insertions(+), 128 deletions(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 2ee65e5..96ef05c 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -5,7 +5,6 @@ use csv;
 use serde_derive::Serialize;
 
 use twiggy_ir as ir;
-use twiggy_opt as opt;
 use twiggy_traits as traits;
 
 use super::UnreachableItemsSummary;
@@ -25,57 +24,29 @@ impl traits::Emit for DominatorTree {
         let opts = &self.opts;
         let mut row = 0 as u32;
 
-        fn recursive_add_rows(
-            table: &mut Table,
-            items: &ir::Items,
-            dominator_tree: &BTreeMap<ir::Id, Vec<ir::Id>>,
-            depth: u32,
-            mut row: &mut u32,
-            opts: &opt::Dominators,
-            id: ir::Id,
-        ) {
-            assert_eq!(id == items.meta_root(), depth == 0);
-
-            if depth > opts.max_depth() {
-                return;
-            }
+        for id in &self.items {
+            let start_depth = if *id == items.meta_root() { 0 } else { 1 };
+            // The tree can be too deep to walk it recursively.
+            let mut pending = vec![(*id, start_depth)];
+            while let Some((id, depth)) = pending.pop() {
+                assert_eq!(id == items.meta_root(), depth == 0);
 
-            if depth > 0 {
-                if *row >= opts.max_rows() {
-                    return;
+                if depth > opts.max_depth() {
+                    continue;
                 }
-                *row += 1;
-                add_text_item(items, depth, id, table);
-            }
 
-            if let Some(children) = dominator_tree.get(&id) {
-                let mut children = children.to_vec();
-                children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
-                for child in children {
-                    recursive_add_rows(
-                        table,
-                        items,
-                        dominator_tree,
-                        depth + 1,
-                        &mut row,
-                        &opts,
-                        child,
-                    );
+                if depth > 0 {
+                    if row >= opts.max_rows() {
+                        break;
+                    }
+                    row += 1;
+                    add_text_item(items, depth, id, &mut table);
                 }
-            }
-        }
 
-        for id in &self.items {
-            let start_depth = if *id == items.meta_root() { 0 } else { 1 };
-            recursive_add_rows(
-                &mut table,
-                items,
-                &self.tree,
-                start_depth,
-                &mut row,
-                &opts,
-                *id,
-            );
+                for child in sorted_children(items, &self.tree, id).into_iter().rev() {
+                    pending.push((child, depth + 1));
+                }
+            }
         }
 
         if let Some(UnreachableItemsSummary {
@@ -97,43 +68,6 @@ impl traits::Emit for DominatorTree {
 
     #[cfg(feature = "emit_json")]
     fn emit_json(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        fn recursive_add_children(
-            items: &ir::Items,
-            opts: &opt::Dominators,
-            dominator_tree: &BTreeMap<ir::Id, Vec<ir::Id>>,
-            depth: u32,
-            row: &mut u32,
-            id: ir::Id,
-            obj: &mut json::Object,
-        ) -> anyhow::Result<()> {
-            add_json_item(items, id, obj)?;
-
-            if let Some(children) = dominator_tree.get(&id) {
-                let mut children = children.to_vec();
-                children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
-
-                let mut arr = obj.array("children")?;
-                for child in children {
-                    if depth >= opts.max_depth() || *row >= opts.max_rows() {
-                        break;
-                    }
-                    *row += 1;
-                    let mut obj = arr.object()?;
-                    recursive_add_children(
-                        items,
-                        opts,
-                        dominator_tree,
-                        depth + 1,
-                        row,
-                        child,
-                        &mut obj,
-                    )?;
-                }
-            }
-
-            Ok(())
-        }
-
         // Scoping the borrow of `arr` so we can get another object in the next block
         let mut obj = json::object(dest)?;
         {
@@ -148,10 +82,7 @@ impl traits::Emit for DominatorTree {
                     }
                     row += 1;
                 }
-                let mut item = arr.object()?;
-                recursive_add_children(
-                    items, &self.opts, &self.tree, depth, &mut row, *curr_id, &mut item,
-                )?;
+                add_json_tree(self, items, depth, &mut row, *curr_id, arr.value()?)?;
             }
         }
 
@@ -174,50 +105,27 @@ impl traits::Emit for DominatorTree {
 
     #[cfg(feature = "emit_csv")]
     fn emit_csv(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        fn recursive_add_children(
-            items: &ir::Items,
-            opts: &opt::Dominators,
-            dominator_tree: &BTreeMap<ir::Id, Vec<ir::Id>>,
-            depth: u32,
-            row: &mut u32,
-            id: ir::Id,
-            wtr: &mut csv::Writer<&mut dyn io::Write>,
-        ) -> anyhow::Result<()> {
-            if depth > opts.max_depth() {
-                return Ok(());
-            }
-            if depth > 0 {
-                if *row >= opts.max_rows() {
-                    return Ok(());
-                }
-                *row += 1;
-            }
-            add_csv_item(items, id, wtr)?;
-            if let Some(children) = dominator_tree.get(&id) {
-                let mut children = children.to_vec();
-                children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
-                for child in children {
-                    recursive_add_children(
-                        items,
-                        opts,
-                        dominator_tree,
-                        depth + 1,
-                        row,
-                        child,
-                        wtr,
-                    )?;
-                }
-            }
-            Ok(())
-        }
-
         let mut wtr = csv::Writer::from_writer(dest);
         let mut row = 0;
         for id in &self.items {
             let depth = if *id == items.meta_root() { 0 } else { 1 };
-            recursive_add_children(
-                items, &self.opts, &self.tree, depth, &mut row, *id, &mut wtr,
-            )?;
+            // The tree can be too deep to walk it recursively.
+            let mut pending = vec![(*id, depth)];
+            while let Some((id, depth)) = pending.pop() {
+                if depth > self.opts.max_depth() {
+                    continue;
+                }
+                if depth > 0 {
+                    if row >= self.opts.max_rows() {
+                        break;
+                    }
+                    row += 1;
+                }
+                add_csv_item(items, id, &mut wtr)?;
+                for child in sorted_children(items, &self.tree, id).into_iter().rev() {
+                    pending.push((child, depth + 1));
+                }
+            }
         }
 
         if let Some(UnreachableItemsSummary {
@@ -243,6 +151,18 @@ impl traits::Emit for DominatorTree {
     }
 }
 
+/// The items that the given one immediately dominates, those that retain most
+/// first.
+fn sorted_children(
+    items: &ir::Items,
+    dominator_tree: &BTreeMap<ir::Id, Vec<ir::Id>>,
+    id: ir::Id,
+) -> Vec<ir::Id> {
+    let mut children = dominator_tree.get(&id).cloned().unwrap_or_default();
+    children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
+    children
+}
+
 #[cfg(feature = "emit_text")]
 fn add_text_item(items: &ir::Items, depth: u32, id: ir::Id, table: &mut Table) {
     let item = &items[id];
@@ -266,6 +186,53 @@ fn add_text_item(items: &ir::Items, depth: u32, id: ir::Id, table: &mut Table) {
     ]);
 }
 
+/// Add an item with the items it dominates. The tree can be too deep to walk it
+/// recursively.
+#[cfg(feature = "emit_json")]
+fn add_json_tree(
+    tree: &DominatorTree,
+    items: &ir::Items,
+    depth: u32,
+    row: &mut u32,
+    id: ir::Id,
+    dest: &mut dyn io::Write,
+) -> anyhow::Result<()> {
+    // The items whose "children" arrays are still open: the children to add to
+    // them and the depth of those.
+    let mut open = Vec::new();
+    let mut next = Some((id, depth));
+    loop {
+        if let Some((id, depth)) = next.take() {
+            let mut obj = json::object(&mut *dest)?;
+            add_json_item(items, id, &mut obj)?;
+            if tree.tree.contains_key(&id) {
+                obj.array("children")?.leave_open();
+                obj.leave_open();
+                let children = sorted_children(items, &tree.tree, id).into_iter();
+                open.push((children, depth + 1, false));
+            }
+        }
+
+        let (children, depth, need_comma) = match open.last_mut() {
+            Some(last) => last,
+            None => return Ok(()),
+        };
+        if *depth <= tree.opts.max_depth() && *row < tree.opts.max_rows() {
+            next = children.next().map(|child| (child, *depth));
+        }
+        if next.is_none() {
+            write!(dest, "]}}")?;
+            open.pop();
+        } else {
+            *row += 1;
+            if *need_comma {
+                write!(dest, ",")?;
+            }
+            *need_comma = true;
+        }
+    }
+}
+
 #[cfg(feature = "emit_json")]
 fn add_json_item(items: &ir::Items, id: ir::Id, obj: &mut json::Object) -> anyhow::Result<()> {
     let item = &items[id];
diff --git a/analyze/formats/json.rs b/analyze/formats/json.rs
index 6b32231..810dce3 100644
--- a/analyze/formats/json.rs
+++ b/analyze/formats/json.rs
@@ -3,6 +3,7 @@
 #![allow(dead_code)]
 
 use std::io;
+use std::mem;
 
 pub trait JsonPrimitive {
     fn json_primitive(&self, w: &mut dyn io::Write) -> io::Result<()>;
@@ -82,6 +83,17 @@ impl<'a> Array<'a> {
         array(&mut *self.w)
     }
 
+    /// Begin an element that is written by other means than these types.
+    pub fn value(&mut self) -> io::Result<&mut dyn io::Write> {
+        self.comma()?;
+        Ok(&mut *self.w)
+    }
+
+    /// Do not write the closing bracket.
+    pub fn leave_open(self) {
+        mem::forget(self);
+    }
+
     pub fn elem<P>(&mut self, elem: P) -> io::Result<()>
     where
         P: JsonPrimitive,
@@ -115,6 +127,11 @@ impl<'a> Object<'a> {
         write!(self.w, ":")
     }
 
+    /// Do not write the closing brace.
+    pub fn leave_open(self) {
+        mem::forget(self);
+    }
+
     pub fn object<S>(&mut self, name: S) -> io::Result<Object>
     where
         S: AsRef<str>,
-- 
2.43.0


From 88a300543251d6b079b15ea49c3b06774e93c425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 21/29] fix: report a code section that is cut off as an error

---
 parser/wasm_parse/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 89f1cc6..1720c3d 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -79,12 +79,13 @@ impl<'a> ModuleReader<'a> {
         start_offset: usize,
         byte_range: wasmparser::Range,
     ) -> anyhow::Result<CodeSection<'a>> {
+        let data = self
+            .data
+            .get(byte_range.start..byte_range.end)
+            .ok_or_else(|| anyhow!("code section extends beyond the end of the file"))?;
         Ok(CodeSection {
             index: index,
-            reader: wasmparser::CodeSectionReader::new(
-                &self.data[byte_range.start..byte_range.end],
-                byte_range.start,
-            )?,
+            reader: wasmparser::CodeSectionReader::new(data, byte_range.start)?,
             byte_size: byte_range.end - start_offset,
         })
     }
-- 
2.43.0


From b9be93ab377de8683213b46ecb56835b8f7a2920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 22/29] fix: report repeated function and code sections as an
 error

---
 parser/wasm_parse/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 1720c3d..6ed4089 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -120,9 +120,15 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
             let size = self.current_position() - start;
             let indexed_section = IndexedSection(idx, section);
             match indexed_section.1 {
+                wasmparser::Payload::CodeSectionStart { .. } if code_section.is_some() => {
+                    Err(anyhow!("more than one code section"))?
+                }
                 wasmparser::Payload::CodeSectionStart { range, .. } => {
                     code_section = Some(self.new_code_section(idx, start, range)?);
                 }
+                wasmparser::Payload::FunctionSection(_) if function_section.is_some() => {
+                    Err(anyhow!("more than one function section"))?
+                }
                 wasmparser::Payload::FunctionSection(reader) => {
                     function_section = Some(FunctionSection {
                         index: idx,
-- 
2.43.0


From 2da12c8d2f35606ee48a46ec0481ff8d6c0ed211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 23/29] fix: report function and code sections that do not
 match as an error

---
 parser/wasm_parse/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 6ed4089..3206413 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -516,6 +516,10 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
     ) -> anyhow::Result<()> {
         let (func_section, code_section) = self;
 
+        if func_section.reader.get_count() != code_section.reader.get_count() {
+            return Err(anyhow!("function and code section differ in length"));
+        }
+
         let func_section_index = func_section.index;
         let func_items: Vec<ir::Item> = iterate_with_size(&mut func_section.reader)
             .enumerate()
-- 
2.43.0


From cd14a9d09ee7f33fe794c2dee96a5488e438366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 24/29] fix: report references to types that do not exist as
 errors

---
 parser/wasm_parse/mod.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 3206413..0c6dc12 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -7,7 +7,7 @@ use wasmparser::{self, Operator, SectionReader, Type};
 
 #[derive(Default)]
 pub struct SectionIndices {
-    type_: Option<usize>,
+    types: Vec<Id>,
     code: Option<usize>,
     functions: Vec<Id>,
     tables: Vec<Id>,
@@ -272,8 +272,10 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
         let mut indices = SectionIndices::default();
         for IndexedSection(idx, section) in sections.iter() {
             match section {
-                wasmparser::Payload::TypeSection(_reader) => {
-                    indices.type_ = Some(*idx);
+                wasmparser::Payload::TypeSection(reader) => {
+                    for i in 0..reader.get_count() {
+                        indices.types.push(Id::entry(*idx, i as usize));
+                    }
                 }
                 wasmparser::Payload::ImportSection(reader) => {
                     for (i, import) in reader.clone().into_iter().enumerate() {
@@ -581,12 +583,10 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
         // Function section reader parsing.
         for (func_i, type_ref) in iterate_with_size(&mut function_section.reader).enumerate() {
             let (type_ref, _) = type_ref?;
-            if let Some(type_idx) = indices.type_ {
-                let type_id = Id::entry(type_idx, type_ref as usize);
-                if let Some(code_idx) = indices.code {
-                    let body_id = Id::entry(code_idx, func_i);
-                    edges.push((body_id, type_id));
-                }
+            let type_id = lookup(&indices.types, type_ref)?;
+            if let Some(code_idx) = indices.code {
+                let body_id = Id::entry(code_idx, func_i);
+                edges.push((body_id, type_id));
             }
         }
 
@@ -761,8 +761,14 @@ impl<'a> Parse<'a> for wasmparser::TypeSectionReader<'a> {
 
                     items.add_item(ir::Item::new(id, name, size, ir::Misc::new()));
                 }
-                wasmparser::TypeDef::Module(_module) => {}
-                wasmparser::TypeDef::Instance(_instance) => {}
+                wasmparser::TypeDef::Module(_module) => {
+                    let name = format!("type[{}]: module", i);
+                    items.add_item(ir::Item::new(id, name, size, ir::Misc::new()));
+                }
+                wasmparser::TypeDef::Instance(_instance) => {
+                    let name = format!("type[{}]: instance", i);
+                    items.add_item(ir::Item::new(id, name, size, ir::Misc::new()));
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 74bd0debd7810687fbc4bf6928c466066733cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 25/29] fix: report debug information with impossible sizes as
 an error

---
 .../object_parse/die_parse/location_attrs.rs  | 22 +++++++++++++------
 parser/object_parse/die_parse/mod.rs          |  9 +++++++-
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/parser/object_parse/die_parse/location_attrs.rs b/parser/object_parse/die_parse/location_attrs.rs
index 60a3af4..842236f 100644
--- a/parser/object_parse/die_parse/location_attrs.rs
+++ b/parser/object_parse/die_parse/location_attrs.rs
@@ -1,8 +1,13 @@
 use super::FallilbleOption;
 use anyhow::anyhow;
-use fallible_iterator::FallibleIterator;
 use gimli;
 
+/// Compute the size of the machine code between two addresses.
+fn range_size(begin: u64, end: u64) -> anyhow::Result<u64> {
+    end.checked_sub(begin)
+        .ok_or_else(|| anyhow!("Code address range ends before it begins"))
+}
+
 /// This struct holds the values for DWARF attributes related to an object's
 /// location in a binary. This is intended to help consolidate the error
 /// checking involved in reading attributes, and simplify the process of
@@ -57,11 +62,11 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
             // If DW_AT_high_pc is encoded as an address, return the difference
             // between that value and the DW_AT_low_pc address.
             (Some(low_pc), Some(gimli::AttributeValue::Addr(high_pc))) => {
-                Ok(Some(high_pc - low_pc))
+                range_size(low_pc, *high_pc).map(Some)
             }
             // DWARF 5 allows addresses to be encoded as an index into `.debug_addr`.
             (Some(low_pc), Some(gimli::AttributeValue::DebugAddrIndex(index))) => {
-                Ok(Some(dwarf.address(unit, *index)? - low_pc))
+                range_size(low_pc, dwarf.address(unit, *index)?).map(Some)
             }
             // DWARF 4 allows the DW_AT_high_pc to be encoded as an offset from the
             // address in DW_AT_low_pc. If so, return the offset as the contiguous size.
@@ -82,10 +87,13 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
         unit: &gimli::Unit<R>,
     ) -> FallilbleOption<u64> {
         if let Some(offset) = self.dw_at_ranges(dwarf, unit)? {
-            let ranges = dwarf.ranges(unit, offset)?;
-            let size = ranges
-                .map(|r| Ok(r.end - r.begin))
-                .fold(0, |res, size| Ok(res + size))?;
+            let mut ranges = dwarf.ranges(unit, offset)?;
+            let mut size: u64 = 0;
+            while let Some(r) = ranges.next()? {
+                size = size
+                    .checked_add(range_size(r.begin, r.end)?)
+                    .ok_or_else(|| anyhow!("Ranges of an entity are too large"))?;
+            }
             Ok(Some(size))
         } else {
             Ok(None)
diff --git a/parser/object_parse/die_parse/mod.rs b/parser/object_parse/die_parse/mod.rs
index ef40092..c762d63 100644
--- a/parser/object_parse/die_parse/mod.rs
+++ b/parser/object_parse/die_parse/mod.rs
@@ -1,4 +1,6 @@
+use anyhow::anyhow;
 use gimli;
+use std::convert::TryFrom;
 use twiggy_ir as ir;
 mod item_name;
 mod location_attrs;
@@ -25,7 +27,12 @@ pub(super) fn parse_items<R: gimli::Reader>(
                 let name = item_name(entry, dwarf, unit)?
                     .unwrap_or_else(|| format!("Subroutine[{}][{}]", unit_id, entry_id));
                 let kind: ir::ItemKind = ir::Code::new(&name).into();
-                ir::Item::new(id, &name, size as u32, kind)
+                // The sizes of all items must add up to no more than 32 bits.
+                let size = u32::try_from(size)
+                    .ok()
+                    .filter(|size| items.size_added().checked_add(*size).is_some())
+                    .ok_or_else(|| anyhow!("Size of \"{}\" is out of range", name))?;
+                ir::Item::new(id, &name, size, kind)
             } else {
                 return Ok(());
             }
-- 
2.43.0


From 025342970aa54dc47a6afc2af66ad600f6ffd07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:11 +0000
Subject: [PATCH 26/29] fix: report failed writes of the output instead of
 exiting with success

---
 twiggy/twiggy.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/twiggy/twiggy.rs b/twiggy/twiggy.rs
index e1119cf..a925165 100644
--- a/twiggy/twiggy.rs
+++ b/twiggy/twiggy.rs
@@ -3,6 +3,7 @@
 #![deny(missing_docs)]
 #![deny(missing_debug_implementations)]
 
+use std::io::Write;
 use std::process;
 use structopt::StructOpt;
 use twiggy_analyze as analyze;
@@ -32,7 +33,13 @@ fn run(opts: &opt::Options) -> anyhow::Result<()> {
         }
     };
 
-    let mut dest = opts.output_destination().open()?;
+    // Render everything before writing any of it, so that no write can fail
+    // unnoticed in the middle of an emitter or in a destructor.
+    let mut output = vec![];
+    data.emit(&items, &mut output, opts.output_format())?;
 
-    data.emit(&items, &mut *dest, opts.output_format())
+    let mut dest = opts.output_destination().open()?;
+    dest.write_all(&output)?;
+    dest.flush()?;
+    Ok(())
 }
-- 
2.43.0


From a9f33b08cc830d8d5704f45c68694f64a0faed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:15 +0000
Subject: [PATCH 27/29] fix: let JavaScript construct the options that diff
 takes

---
 opt/definitions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opt/definitions.rs b/opt/definitions.rs
index 5a3bbe3..0bf0efc 100644
--- a/opt/definitions.rs
+++ b/opt/definitions.rs
@@ -601,6 +601,11 @@ impl Diff {
 
 #[wasm_bindgen]
 impl Diff {
+    /// Construct a new, default `Diff`.
+    pub fn new() -> Diff {
+        Diff::default()
+    }
+
     /// The maximum number of items to display.
     pub fn max_items(&self) -> u32 {
         if self.all_items {
-- 
2.43.0


From 2838be5c77d2d6fb5e2d3af3a100ce64d0659bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 28/29] fix: follow and print long paths without recursion

---
 analyze/analyses/paths/mod.rs         | 105 ++++++++--------
 analyze/analyses/paths/paths_emit.rs  | 173 ++++++++++++++------------
 analyze/analyses/paths/paths_entry.rs |  11 ++
 3 files changed, 156 insertions(+), 133 deletions(-)

diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 8a65b46..31d02a7 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -29,7 +29,7 @@ pub fn paths(items: &mut ir::Items, opts: &opt::Paths) -> anyhow::Result<Box<dyn
     let opts = opts.clone();
     let entries = get_starting_positions(items, &opts)?
         .iter()
-        .map(|id| create_entry(*id, items, &opts, 0, &mut BTreeSet::new()))
+        .map(|id| create_entry(*id, items, &opts))
         .collect();
 
     let paths = Paths { opts, entries };
@@ -99,64 +99,67 @@ fn get_starting_positions(items: &ir::Items, opts: &opt::Paths) -> anyhow::Resul
     Ok(res)
 }
 
-/// Create a `PathsEntry` object for the given item.
-fn create_entry(
-    id: ir::Id,
-    items: &ir::Items,
-    opts: &opt::Paths,
-    depth: u32,
-    seen: &mut BTreeSet<ir::Id>,
-) -> PathsEntry {
+/// Create a `PathsEntry` object for the given item. Paths can be too long to
+/// follow them recursively.
+fn create_entry(id: ir::Id, items: &ir::Items, opts: &opt::Paths) -> PathsEntry {
     // Determine the item's name and size.
-    let item = &items[id];
-    let name = item.name().to_string();
-    let size = item.size();
+    let new_entry = |id: ir::Id| {
+        let item = &items[id];
+        PathsEntry {
+            name: item.name().to_string(),
+            size: item.size(),
+            children: vec![],
+        }
+    };
 
-    // Temporarily add the current item to the set of discovered nodes, so that
-    // no path, not even one through a self-reference, visits it again.
-    seen.insert(id);
+    // The items on the current path, so that no path, not even one through a
+    // self-reference, visits an item again.
+    let mut seen = BTreeSet::new();
 
-    // Collect the `ir::Id` values of this entry's children, depending on
+    // Collect the `ir::Id` values of an entry's children, depending on
     // whether we are ascending or descending the IR-tree.
-    let children_ids: Vec<ir::Id> = if opts.descending() {
-        items
-            .neighbors(id)
-            .map(|id| id as ir::Id)
-            .filter(|id| !seen.contains(id))
-            .filter(|&id| id != items.meta_root())
-            .collect()
-    } else {
-        items
-            .predecessors(id)
-            .map(|id| id as ir::Id)
-            .filter(|id| !seen.contains(id))
-            .filter(|&id| id != items.meta_root())
-            .collect()
+    let children_ids = |id: ir::Id, seen: &BTreeSet<ir::Id>| -> Vec<ir::Id> {
+        if opts.descending() {
+            items
+                .neighbors(id)
+                .map(|id| id as ir::Id)
+                .filter(|id| !seen.contains(id))
+                .filter(|&id| id != items.meta_root())
+                .collect()
+        } else {
+            items
+                .predecessors(id)
+                .map(|id| id as ir::Id)
+                .filter(|id| !seen.contains(id))
+                .filter(|&id| id != items.meta_root())
+                .collect()
+        }
     };
 
-    // Create an entry for each child, and collect these into a `children`
-    // vector. Only those that will be emitted need to have children themselves.
-    let children = children_ids
-        .into_iter()
-        .enumerate()
-        .map(|(i, id)| {
+    // The entries on the current path, each with the children it still needs.
+    seen.insert(id);
+    let children = children_ids(id, &seen).into_iter();
+    let mut path = vec![(id, new_entry(id), children)];
+    loop {
+        let depth = path.len() as u32 - 1;
+        let (id, entry, children) = path.last_mut().unwrap();
+        if let Some(child) = children.next() {
+            // Only those that will be emitted need to have children themselves.
+            let i = entry.children.len();
             if depth < opts.max_depth() && i < opts.max_paths() as usize {
-                create_entry(id, items, opts, depth + 1, seen)
+                seen.insert(child);
+                let children = children_ids(child, &seen).into_iter();
+                path.push((child, new_entry(child), children));
             } else {
-                let item = &items[id];
-                PathsEntry {
-                    name: item.name().to_string(),
-                    size: item.size(),
-                    children: vec![],
-                }
+                entry.children.push(new_entry(child));
             }
-        })
-        .collect();
-    seen.remove(&id);
-
-    PathsEntry {
-        name,
-        size,
-        children,
+        } else {
+            seen.remove(id);
+            let (_, entry, _) = path.pop().unwrap();
+            match path.last_mut() {
+                Some((_, parent, _)) => parent.children.push(entry),
+                None => return entry,
+            }
+        }
     }
 }
diff --git a/analyze/analyses/paths/paths_emit.rs b/analyze/analyses/paths/paths_emit.rs
index 4d4b378..cde6dc3 100644
--- a/analyze/analyses/paths/paths_emit.rs
+++ b/analyze/analyses/paths/paths_emit.rs
@@ -62,10 +62,9 @@ impl traits::Emit for Paths {
         // array, and add that entry's information to the new JSON object.
         let mut arr = json::array(dest)?;
         for entry in &self.entries {
-            let mut obj = arr.object()?;
             process_entry(
                 entry,
-                &mut obj,
+                arr.value()?,
                 0,
                 self.opts.max_paths() as usize,
                 items,
@@ -121,41 +120,37 @@ mod emit_text_helpers {
         items: &'a Items,
         opts: &'a Paths,
     ) -> Box<dyn Iterator<Item = TableRow> + 'a> {
-        // Get the row's name and size columns using the current depth.
-        let name = get_indented_name(&entry.name, depth, opts.descending());
-        let (size, size_percent) = if depth == 0 {
-            (
-                Some(entry.size),
-                Some(f64::from(entry.size) / f64::from(items.size()) * 100.0),
-            )
-        } else {
-            (None, None)
-        };
+        // The entries left to process, the next one last. Paths can be too long
+        // to process them recursively.
+        let mut pending = vec![(entry, depth)];
+        Box::new(iter::from_fn(move || {
+            let (entry, depth) = pending.pop()?;
 
-        // Create an iterator containing the current entry's table row.
-        let row_iter = iter::once(TableRow {
-            size,
-            size_percent,
-            name,
-        });
+            // Get the row's name and size columns using the current depth.
+            let name = get_indented_name(&entry.name, depth, opts.descending());
+            let (size, size_percent) = if depth == 0 {
+                (
+                    Some(entry.size),
+                    Some(f64::from(entry.size) / f64::from(items.size()) * 100.0),
+                )
+            } else {
+                (None, None)
+            };
 
-        if depth < opts.max_depth() {
-            // Process each child entry, and chain together the resulting iterators.
-            let children_iter = entry
-                .children
-                .iter()
-                .take(paths)
-                .flat_map(move |child_entry| {
-                    process_entry(child_entry, depth + 1, paths, items, opts)
-                });
-            Box::new(row_iter.chain(children_iter))
-        } else if depth == opts.max_depth() {
-            // TODO: Create a summary row, and chain it to the row iterator.
-            Box::new(row_iter)
-        } else {
-            // If we are beyond the maximum depth, return an empty iterator.
-            Box::new(iter::empty())
-        }
+            // TODO: Create a summary row when the maximum depth is reached.
+            if depth < opts.max_depth() {
+                // Process each child entry next.
+                let children = entry.children.iter().take(paths).rev();
+                pending.extend(children.map(|child_entry| (child_entry, depth + 1)));
+            }
+
+            // Return the current entry's table row.
+            Some(TableRow {
+                size,
+                size_percent,
+                name,
+            })
+        }))
     }
 
     /// Given the name of an item, its depth, and the traversal direction,
@@ -186,39 +181,59 @@ mod emit_text_helpers {
 #[cfg(feature = "emit_json")]
 mod emit_json_helpers {
     use crate::analyses::paths::paths_entry::PathsEntry;
-    use crate::formats::json::Object;
+    use crate::formats::json;
     use std::io;
     use twiggy_ir::Items;
     use twiggy_opt::Paths;
 
-    // Process a paths entry, by adding its name and size to the given JSON object.
+    // Process a paths entry, by writing a JSON object with its name and size.
+    // Paths can be too long to process them recursively.
     pub(super) fn process_entry(
         entry: &PathsEntry,
-        obj: &mut Object,
+        dest: &mut dyn io::Write,
         depth: u32,
         paths: usize,
         items: &Items,
         opts: &Paths,
     ) -> io::Result<()> {
-        let PathsEntry {
-            name,
-            size,
-            children,
-        } = entry;
-        obj.field("name", name.as_str())?;
-        obj.field("shallow_size", *size)?;
-        let size_percent = f64::from(*size) / f64::from(items.size()) * 100.0;
-        obj.field("shallow_size_percent", size_percent)?;
+        // The children left to add to the "callers" arrays that are still open.
+        let mut open = Vec::new();
+        let mut next = Some(entry);
+        loop {
+            if let Some(entry) = next {
+                let PathsEntry {
+                    name,
+                    size,
+                    children,
+                } = entry;
+                let mut obj = json::object(&mut *dest)?;
+                obj.field("name", name.as_str())?;
+                obj.field("shallow_size", *size)?;
+                let size_percent = f64::from(*size) / f64::from(items.size()) * 100.0;
+                obj.field("shallow_size_percent", size_percent)?;
+                obj.array("callers")?.leave_open();
+                obj.leave_open();
 
-        let mut callers = obj.array("callers")?;
-        if depth < opts.max_depth() {
-            for child in children.iter().take(paths) {
-                let mut obj = callers.object()?;
-                process_entry(child, &mut obj, depth + 1, paths, items, opts)?;
+                let expand = depth as usize + open.len() < opts.max_depth() as usize;
+                let callers = children.iter().take(if expand { paths } else { 0 });
+                open.push((callers, false));
             }
-        }
 
-        Ok(())
+            let (callers, need_comma) = match open.last_mut() {
+                Some(last) => last,
+                None => return Ok(()),
+            };
+            next = callers.next();
+            if next.is_none() {
+                write!(dest, "]}}")?;
+                open.pop();
+            } else {
+                if *need_comma {
+                    write!(dest, ",")?;
+                }
+                *need_comma = true;
+            }
+        }
     }
 }
 
@@ -250,36 +265,30 @@ mod emit_csv_helpers {
         items: &'a Items,
         opts: &'a Paths,
     ) -> Box<dyn Iterator<Item = CsvRecord> + 'a> {
-        let name = entry.name.clone();
-        let shallow_size = entry.size;
-        let shallow_size_percent = f64::from(entry.size) / f64::from(items.size()) * 100.0;
-        let path = get_path(entry);
+        // The entries left to process, the next one last. Paths can be too long
+        // to process them recursively.
+        let mut pending = vec![(entry, depth)];
+        Box::new(iter::from_fn(move || {
+            let (entry, depth) = pending.pop()?;
+            let name = entry.name.clone();
+            let shallow_size = entry.size;
+            let shallow_size_percent = f64::from(entry.size) / f64::from(items.size()) * 100.0;
+            let path = get_path(entry);
 
-        // Create an iterator containing the current entry's CSV record.
-        let record_iter = iter::once(CsvRecord {
-            name,
-            shallow_size,
-            shallow_size_percent,
-            path,
-        });
+            if depth < opts.max_depth() {
+                // Process each child entry next.
+                let children = entry.children.iter().take(paths).rev();
+                pending.extend(children.map(|child_entry| (child_entry, depth + 1)));
+            }
 
-        if depth < opts.max_depth() {
-            // Process each child entry, and chain together the resulting iterators.
-            let children_iter = entry
-                .children
-                .iter()
-                .take(paths)
-                .flat_map(move |child_entry| {
-                    process_entry(child_entry, depth + 1, paths, items, opts)
-                });
-            Box::new(record_iter.chain(children_iter))
-        } else if depth == opts.max_depth() {
-            // Create a summary row, and chain it to the row iterator.
-            Box::new(record_iter)
-        } else {
-            // If we are beyond the maximum depth, return an empty iterator.
-            Box::new(iter::empty())
-        }
+            // Return the current entry's CSV record.
+            Some(CsvRecord {
+                name,
+                shallow_size,
+                shallow_size_percent,
+                path,
+            })
+        }))
     }
 
     // Given a path entry, return the value for its corresponding CsvRecord's `path` field.
diff --git a/analyze/analyses/paths/paths_entry.rs b/analyze/analyses/paths/paths_entry.rs
index 5c86158..293dcf5 100644
--- a/analyze/analyses/paths/paths_entry.rs
+++ b/analyze/analyses/paths/paths_entry.rs
@@ -1,4 +1,5 @@
 use std::cmp;
+use std::mem;
 
 #[derive(Debug, PartialEq, Eq)]
 pub(super) struct PathsEntry {
@@ -13,6 +14,16 @@ impl PathsEntry {
     }
 }
 
+impl Drop for PathsEntry {
+    fn drop(&mut self) {
+        // Paths can be too long to drop their entries recursively.
+        let mut pending = mem::take(&mut self.children);
+        while let Some(mut entry) = pending.pop() {
+            pending.append(&mut entry.children);
+        }
+    }
+}
+
 impl PartialOrd for PathsEntry {
     fn partial_cmp(&self, rhs: &Self) -> Option<cmp::Ordering> {
         Some(self.cmp(rhs))
-- 
2.43.0


From 4d8fa031212d36804b2a35ad5efe2e97b62bde14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 29/29] fix: report failed writes of what closes JSON arrays
 and objects

---
 analyze/analyses/diff.rs             |  6 ++--
 analyze/analyses/dominators/emit.rs  |  6 ++--
 analyze/analyses/garbage.rs          |  6 ++--
 analyze/analyses/monos/emit.rs       |  6 ++--
 analyze/analyses/paths/paths_emit.rs |  6 ++--
 analyze/analyses/top.rs              |  6 ++--
 analyze/formats/json.rs              | 46 ++++++++++++++++++++++++++++
 7 files changed, 70 insertions(+), 12 deletions(-)

diff --git a/analyze/analyses/diff.rs b/analyze/analyses/diff.rs
index 3316c9a..687877f 100644
--- a/analyze/analyses/diff.rs
+++ b/analyze/analyses/diff.rs
@@ -68,7 +68,8 @@ impl traits::Emit for Diff {
 
     #[cfg(feature = "emit_json")]
     fn emit_json(&self, _items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        let mut arr = json::array(dest)?;
+        let mut sink = json::Sink::new(dest);
+        let mut arr = json::array(&mut sink)?;
 
         for entry in &self.deltas {
             let mut obj = arr.object()?;
@@ -76,7 +77,8 @@ impl traits::Emit for Diff {
             obj.field("name", entry.name.as_str())?;
         }
 
-        Ok(())
+        drop(arr);
+        Ok(sink.finish()?)
     }
 
     #[cfg(feature = "emit_csv")]
diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 96ef05c..dcb2e07 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -69,7 +69,8 @@ impl traits::Emit for DominatorTree {
     #[cfg(feature = "emit_json")]
     fn emit_json(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
         // Scoping the borrow of `arr` so we can get another object in the next block
-        let mut obj = json::object(dest)?;
+        let mut sink = json::Sink::new(dest);
+        let mut obj = json::object(&mut sink)?;
         {
             let mut arr = obj.array("items")?;
             let mut row = 0;
@@ -100,7 +101,8 @@ impl traits::Emit for DominatorTree {
             unreachable_items_obj.field("retained_size_percent", size_percent)?;
         }
 
-        Ok(())
+        drop(obj);
+        Ok(sink.finish()?)
     }
 
     #[cfg(feature = "emit_csv")]
diff --git a/analyze/analyses/garbage.rs b/analyze/analyses/garbage.rs
index 61dba58..a96f93f 100644
--- a/analyze/analyses/garbage.rs
+++ b/analyze/analyses/garbage.rs
@@ -81,7 +81,8 @@ impl traits::Emit for Garbage {
 
     #[cfg(feature = "emit_json")]
     fn emit_json(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        let mut arr = json::array(dest)?;
+        let mut sink = json::Sink::new(dest);
+        let mut arr = json::array(&mut sink)?;
 
         for &id in self.items.iter().take(self.limit) {
             let item = &items[id];
@@ -135,7 +136,8 @@ impl traits::Emit for Garbage {
             obj.field("size_percent", size_percent)?;
         }
 
-        Ok(())
+        drop(arr);
+        Ok(sink.finish()?)
     }
 
     #[cfg(feature = "emit_csv")]
diff --git a/analyze/analyses/monos/emit.rs b/analyze/analyses/monos/emit.rs
index 2449ad4..6b92719 100644
--- a/analyze/analyses/monos/emit.rs
+++ b/analyze/analyses/monos/emit.rs
@@ -125,13 +125,15 @@ impl traits::Emit for Monos {
         }
 
         let items_size = f64::from(items.size());
-        let mut arr = json::array(dest)?;
+        let mut sink = json::Sink::new(dest);
+        let mut arr = json::array(&mut sink)?;
         for entry in &self.monos {
             let mut obj = arr.object()?;
             process_entry(entry, &mut obj, items_size)?;
         }
 
-        Ok(())
+        drop(arr);
+        Ok(sink.finish()?)
     }
 
     #[cfg(feature = "emit_csv")]
diff --git a/analyze/analyses/paths/paths_emit.rs b/analyze/analyses/paths/paths_emit.rs
index cde6dc3..88151c8 100644
--- a/analyze/analyses/paths/paths_emit.rs
+++ b/analyze/analyses/paths/paths_emit.rs
@@ -60,7 +60,8 @@ impl traits::Emit for Paths {
 
         // Initialize a JSON array. For each path entry, add a object to the
         // array, and add that entry's information to the new JSON object.
-        let mut arr = json::array(dest)?;
+        let mut sink = json::Sink::new(dest);
+        let mut arr = json::array(&mut sink)?;
         for entry in &self.entries {
             process_entry(
                 entry,
@@ -72,7 +73,8 @@ impl traits::Emit for Paths {
             )?;
         }
 
-        Ok(())
+        drop(arr);
+        Ok(sink.finish()?)
     }
 
     #[cfg(feature = "emit_csv")]
diff --git a/analyze/analyses/top.rs b/analyze/analyses/top.rs
index 71af0eb..ddb8b25 100644
--- a/analyze/analyses/top.rs
+++ b/analyze/analyses/top.rs
@@ -135,7 +135,8 @@ impl traits::Emit for Top {
 
     #[cfg(feature = "emit_json")]
     fn emit_json(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        let mut arr = json::array(dest)?;
+        let mut sink = json::Sink::new(dest);
+        let mut arr = json::array(&mut sink)?;
 
         let max_items = self.opts.max_items() as usize;
         let items_iter = self.items.iter();
@@ -159,7 +160,8 @@ impl traits::Emit for Top {
             }
         }
 
-        Ok(())
+        drop(arr);
+        Ok(sink.finish()?)
     }
 
     #[cfg(feature = "emit_csv")]
diff --git a/analyze/formats/json.rs b/analyze/formats/json.rs
index 810dce3..281fa29 100644
--- a/analyze/formats/json.rs
+++ b/analyze/formats/json.rs
@@ -37,6 +37,52 @@ impl JsonPrimitive for u32 {
     }
 }
 
+/// A writer that keeps the first error of the writer it writes to, and writes
+/// nothing more after it. The errors of the writes that close arrays and objects
+/// when they are dropped are reported nowhere else.
+pub struct Sink<'a> {
+    w: &'a mut dyn io::Write,
+    error: Option<io::Error>,
+}
+
+impl<'a> Sink<'a> {
+    pub fn new(w: &'a mut dyn io::Write) -> Sink<'a> {
+        Sink { w, error: None }
+    }
+
+    /// The first error met, if any.
+    pub fn finish(self) -> io::Result<()> {
+        self.error.map_or(Ok(()), Err)
+    }
+
+    fn keep<T, F>(&mut self, f: F) -> io::Result<T>
+    where
+        F: FnOnce(&mut dyn io::Write) -> io::Result<T>,
+    {
+        if let Some(error) = &self.error {
+            return Err(error.kind().into());
+        }
+        f(self.w).map_err(|error| {
+            self.error = Some(io::Error::new(error.kind(), error.to_string()));
+            error
+        })
+    }
+}
+
+impl<'a> io::Write for Sink<'a> {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        self.keep(|w| w.write(buf))
+    }
+
+    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
+        self.keep(|w| w.write_all(buf))
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.keep(|w| w.flush())
+    }
+}
+
 pub fn array(w: &mut dyn io::Write) -> io::Result<Array> {
     write!(w, "[")?;
     Ok(Array {
-- 
2.43.0

