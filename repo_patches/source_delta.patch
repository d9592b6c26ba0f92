From 01f8e009733b7fa835488bd40854b799617a3f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 01/52] fix: compare integers with doubles by exact value,
 treat -0.0 as 0.0

---
 src/polodb_core/utils/bson.rs | 49 +++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index a5cd629..32323c7 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -174,6 +174,33 @@ pub fn split_stacked_keys(buffer: &[u8]) -> Result<Vec<Bson>> {
     Ok(result)
 }
 
+/// Zeros are equal whatever their sign; NaN keeps its place in the total order.
+fn cmp_f64(a: f64, b: f64) -> Ordering {
+    if a == b {
+        Ordering::Equal
+    } else {
+        a.total_cmp(&b)
+    }
+}
+
+/// Compare by numeric value, without rounding the integer to a double.
+fn cmp_i64_f64(i: i64, d: f64) -> Ordering {
+    const I64_BOUND: f64 = 9_223_372_036_854_775_808.0;
+
+    if d.is_nan() {
+        return 0.0f64.total_cmp(&d);
+    }
+    if d >= I64_BOUND {
+        return Ordering::Less;
+    }
+    if d < -I64_BOUND {
+        return Ordering::Greater;
+    }
+    let truncated = d as i64;
+    i.cmp(&truncated)
+        .then_with(|| cmp_f64(truncated as f64, d))
+}
+
 pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
     match (a, b) {
         (Bson::Null, Bson::Null) => Ok(Ordering::Equal),
@@ -190,23 +217,11 @@ pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
             let i1_64 = *i1 as i64;
             Ok(i1_64.cmp(i2))
         },
-        (Bson::Double(d1), Bson::Double(d2)) => Ok(d1.total_cmp(d2)),
-        (Bson::Double(d1), Bson::Int32(d2)) => {
-            let f = *d2 as f64;
-            Ok(d1.total_cmp(&f))
-        },
-        (Bson::Double(d1), Bson::Int64(d2)) => {
-            let f = *d2 as f64;
-            Ok(d1.total_cmp(&f))
-        },
-        (Bson::Int32(i1), Bson::Double(d2)) => {
-            let f = *i1 as f64;
-            Ok(f.total_cmp(d2))
-        }
-        (Bson::Int64(i1), Bson::Double(d2)) => {
-            let f = *i1 as f64;
-            Ok(f.total_cmp(d2))
-        }
+        (Bson::Double(d1), Bson::Double(d2)) => Ok(cmp_f64(*d1, *d2)),
+        (Bson::Double(d1), Bson::Int32(i2)) => Ok(cmp_i64_f64(*i2 as i64, *d1).reverse()),
+        (Bson::Double(d1), Bson::Int64(i2)) => Ok(cmp_i64_f64(*i2, *d1).reverse()),
+        (Bson::Int32(i1), Bson::Double(d2)) => Ok(cmp_i64_f64(*i1 as i64, *d2)),
+        (Bson::Int64(i1), Bson::Double(d2)) => Ok(cmp_i64_f64(*i1, *d2)),
         (Bson::Binary(b1), Bson::Binary(b2)) => Ok(b1.bytes.cmp(&b2.bytes)),
         (Bson::String(str1), Bson::String(str2)) => Ok(str1.cmp(str2)),
         (Bson::ObjectId(oid1), Bson::ObjectId(oid2)) => Ok(oid1.cmp(oid2)),
-- 
2.43.0


From 4fc50443e05ee3eb45779cf5134df6863e3bd30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 02/52] fix: $ne matches values that differ instead of equal
 ones

---
 src/polodb_core/vm/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 5a9374d..c075ed0 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -761,7 +761,7 @@ impl Codegen {
 
                 let stat_val_id = self.push_static(sub_value.clone());
                 self.emit_push_value(stat_val_id);
-                self.emit_logical(DbOp::Equal, is_in_not);
+                self.emit_logical(DbOp::Equal, !is_in_not);
 
                 // if equal，go to next
                 self.emit_goto(DbOp::IfFalse, not_found_label);
-- 
2.43.0


From e58dda4b70b50d344bd51080823e8e2760bbefa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 03/52] fix: _id and index lookups honour every other condition
 and flush pipelines

---
 src/polodb_core/vm/codegen.rs | 83 ++++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 31 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index c075ed0..3d07a38 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -53,6 +53,9 @@ fn is_all_literal_dollar_document(document: &Document) -> bool {
         .is_some_and(|key| matches!(key.as_str(), "$ref" | "$id" | "$db"))
 }
 
+/// emits the code to run once before the cursor is closed
+pub(super) type BeforeClose = Box<dyn FnOnce(&mut Codegen) -> Result<()>>;
+
 pub(super) struct Codegen {
     program: Box<SubProgram>,
     jump_table: Vec<JumpTableRecord>,
@@ -167,6 +170,7 @@ impl Codegen {
         pkey: Bson,
         query: &Document,
         result_callback: F,
+        before_close: Option<BeforeClose>,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -182,6 +186,9 @@ impl Codegen {
         self.emit_goto(DbOp::Goto, result_label);
 
         self.emit_label(close_label);
+        if let Some(before_close) = before_close {
+            before_close(self)?;
+        }
         self.emit(DbOp::Pop);
         self.emit(DbOp::Close);
         self.emit(DbOp::Halt);
@@ -192,18 +199,9 @@ impl Codegen {
                 continue;
             }
 
-            let key_static_id = self.push_static(Bson::String(key.clone()));
-            let value_static_id = self.push_static(value.clone());
-
-            self.emit_goto2(DbOp::GetField, key_static_id, close_label); // push a value1
-            self.emit_push_value(value_static_id); // push a value2
-
-            self.emit(DbOp::Equal);
-            // if not equal，go to next
-            self.emit_goto(DbOp::IfFalse, close_label);
-
-            self.emit(DbOp::Pop); // pop a value2
-            self.emit(DbOp::Pop); // pop a value1
+            crate::path_hint!(self, key.clone(), {
+                self.emit_query_tuple(key, value, result_label, close_label)?;
+            });
         }
 
         result_callback(self)?;
@@ -218,28 +216,28 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-        before_close: Option<Box<dyn FnOnce(&mut Codegen) -> Result<()>>>,
+        before_close: Option<BeforeClose>,
         is_many: bool,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
-        let try_pkey_result = self.try_query_by_pkey(col_spec, query, result_callback)?;
-        if try_pkey_result.is_none() {
-            return Ok(());
-        }
-
-        let result_callback: F = try_pkey_result.unwrap();
+        let try_pkey_result =
+            self.try_query_by_pkey(col_spec, query, result_callback, before_close)?;
+        let (result_callback, before_close) = match try_pkey_result {
+            Some(callbacks) => callbacks,
+            None => return Ok(()),
+        };
 
-        let try_index_result = self.try_query_by_index(col_spec, query, result_callback)?;
-        if try_index_result.is_none() {
-            return Ok(());
-        }
+        let try_index_result =
+            self.try_query_by_index(col_spec, query, result_callback, before_close)?;
+        let (result_callback, before_close) = match try_index_result {
+            Some(callbacks) => callbacks,
+            None => return Ok(()),
+        };
 
         self.emit_open(col_spec._id.clone().into());
 
-        let result_callback: F = try_index_result.unwrap();
-
         let compare_fun = self.new_label();
         let compare_fun_clean = self.new_label();
         let compare_label = self.new_label();
@@ -309,19 +307,25 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-    ) -> Result<Option<F>>
+        before_close: Option<BeforeClose>,
+    ) -> Result<Option<(F, Option<BeforeClose>)>>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
         if let Some(id_value) = query.get("_id") {
             if id_value.element_type() != ElementType::EmbeddedDocument {
                 self.emit_open(col_spec._id.clone().into());
-                self.emit_query_layout_has_pkey(id_value.clone(), query, result_callback)?;
+                self.emit_query_layout_has_pkey(
+                    id_value.clone(),
+                    query,
+                    result_callback,
+                    before_close,
+                )?;
                 return Ok(None);
             }
         }
 
-        Ok(Some(result_callback))
+        Ok(Some((result_callback, before_close)))
     }
 
     fn try_query_by_index<F>(
@@ -329,12 +333,13 @@ impl Codegen {
         col_spec: &CollectionSpecification,
         query: &Document,
         result_callback: F,
-    ) -> Result<Option<F>>
+        before_close: Option<BeforeClose>,
+    ) -> Result<Option<(F, Option<BeforeClose>)>>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
     {
         if self.is_write {
-            return Ok(Some(result_callback));
+            return Ok(Some((result_callback, before_close)));
         }
 
         let index_meta = &col_spec.indexes;
@@ -349,19 +354,30 @@ impl Codegen {
                     let mut remain_query = query.clone();
                     remain_query.remove(key);
 
+                    // the rest of the query is compared by plain equality,
+                    // anything else is left to the full scan
+                    let is_plain = |(key, value): (&String, &Bson)| {
+                        !key.starts_with('$')
+                            && value.element_type() != ElementType::EmbeddedDocument
+                    };
+                    if !remain_query.iter().all(is_plain) {
+                        continue;
+                    }
+
                     self.indeed_emit_query_by_index(
                         col_spec._id.as_str(),
                         index_name.as_str(),
                         query_doc,
                         &remain_query,
                         result_callback,
+                        before_close,
                     )?;
                     return Ok(None);
                 }
             }
         }
 
-        Ok(Some(result_callback))
+        Ok(Some((result_callback, before_close)))
     }
 
     fn indeed_emit_query_by_index<F>(
@@ -371,6 +387,7 @@ impl Codegen {
         query_value: &Bson,
         remain_query: &Document,
         result_callback: F,
+        before_close: Option<BeforeClose>,
     ) -> Result<()>
     where
         F: FnOnce(&mut Codegen) -> Result<()>,
@@ -408,6 +425,10 @@ impl Codegen {
 
         self.emit_label(close_label);
 
+        if let Some(before_close) = before_close {
+            before_close(self)?;
+        }
+
         self.emit(DbOp::Pop); // pop the collection name
         self.emit(DbOp::Pop); // pop the query value
 
-- 
2.43.0


From a629e50ee21fadec8c8c6735aca053894962db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 04/52] fix: $or, $not and empty operators combine as boolean
 algebra in any position

---
 src/polodb_core/vm/codegen.rs | 106 +++++++++++++++++++++++++++++-----
 1 file changed, 91 insertions(+), 15 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index 3d07a38..c9574c2 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -200,7 +200,7 @@ impl Codegen {
             }
 
             crate::path_hint!(self, key.clone(), {
-                self.emit_query_tuple(key, value, result_label, close_label)?;
+                self.emit_query_tuple(key, value, false, close_label)?;
             });
         }
 
@@ -294,7 +294,7 @@ impl Codegen {
 
         self.emit_label_with_name(compare_fun, "compare_function");
 
-        self.emit_standard_query_doc(query, result_label, compare_fun_clean)?;
+        self.emit_standard_query_doc(query, true, compare_fun_clean)?;
 
         self.emit_label_with_name(compare_fun_clean, "compare_function_clean");
         self.emit_ret(0);
@@ -458,10 +458,12 @@ impl Codegen {
         Ok(())
     }
 
+    /// `is_tail`: the label `not_found_label` is emitted right after the query,
+    /// so the result may be left in r0 for the code behind that label.
     fn emit_standard_query_doc(
         &mut self,
         query_doc: &Document,
-        result_label: Label,
+        is_tail: bool,
         not_found_label: Label,
     ) -> Result<()> {
         if query_doc.is_empty() {
@@ -469,9 +471,11 @@ impl Codegen {
             self.emit_u8(1);
             return Ok(());
         }
-        for (key, value) in query_doc.iter() {
+        let last_index = query_doc.len() - 1;
+        for (index, (key, value)) in query_doc.iter().enumerate() {
+            let is_tail = is_tail && index == last_index;
             crate::path_hint!(self, key.clone(), {
-                self.emit_query_tuple(key, value, result_label, not_found_label)?;
+                self.emit_query_tuple(key, value, is_tail, not_found_label)?;
             });
         }
 
@@ -497,21 +501,31 @@ impl Codegen {
     fn emit_logic_and(
         &mut self,
         arr: &Array,
-        result_label: Label,
+        is_tail: bool,
         not_found_label: Label,
     ) -> Result<()> {
+        if arr.is_empty() {
+            self.emit(DbOp::StoreR0_2);
+            self.emit_u8(1);
+        }
         for (index, item_doc_value) in arr.iter().enumerate() {
+            let is_tail = is_tail && index == arr.len() - 1;
             let path_msg = format!("[{}]", index);
             crate::path_hint!(self, path_msg, {
                 let item_doc = crate::try_unwrap_document!("$and", item_doc_value);
-                self.emit_standard_query_doc(item_doc, result_label, not_found_label)?;
+                self.emit_standard_query_doc(item_doc, is_tail, not_found_label)?;
             });
         }
 
         Ok(())
     }
 
-    fn emit_logic_or(&mut self, arr: &Array, ret_label: Label) -> Result<()> {
+    fn emit_logic_or(
+        &mut self,
+        arr: &Array,
+        is_tail: bool,
+        not_found_label: Label,
+    ) -> Result<()> {
         let cmp_label = self.new_label();
         self.emit_goto(DbOp::Goto, cmp_label);
 
@@ -525,7 +539,7 @@ impl Codegen {
                 let ret_label = self.new_label();
 
                 self.emit_label(query_label);
-                self.emit_standard_query_doc(item_doc, ret_label, ret_label)?;
+                self.emit_standard_query_doc(item_doc, true, ret_label)?;
 
                 self.emit_label(ret_label);
                 self.emit_ret(0);
@@ -535,13 +549,34 @@ impl Codegen {
         }
 
         self.emit_label(cmp_label);
+        self.emit_any_of(functions, is_tail, not_found_label);
+
+        Ok(())
+    }
+
+    /// Go on if one of the functions holds, to `not_found_label` otherwise.
+    fn emit_any_of(&mut self, functions: Vec<Label>, is_tail: bool, not_found_label: Label) {
+        if functions.is_empty() {
+            self.emit(DbOp::StoreR0_2);
+            self.emit_u8(0);
+        }
+        if is_tail {
+            for fun in functions {
+                self.emit_goto(DbOp::Call, fun);
+                self.emit_u32(0);
+                self.emit_goto(DbOp::IfTrue, not_found_label);
+            }
+            return;
+        }
+
+        let found_label = self.new_label();
         for fun in functions {
             self.emit_goto(DbOp::Call, fun);
             self.emit_u32(0);
-            self.emit_goto(DbOp::IfTrue, ret_label);
+            self.emit_goto(DbOp::IfTrue, found_label);
         }
-
-        Ok(())
+        self.emit_goto(DbOp::Goto, not_found_label);
+        self.emit_label(found_label);
     }
 
     // case1: "$and" | "$or" -> [ Document ]
@@ -550,19 +585,19 @@ impl Codegen {
         &mut self,
         key: &str,
         value: &Bson,
-        result_label: Label,
+        is_tail: bool,
         not_found_label: Label,
     ) -> Result<()> {
         if key.starts_with('$') {
             match key {
                 "$and" => {
                     let sub_arr = crate::try_unwrap_array!("$and", value);
-                    self.emit_logic_and(sub_arr.as_ref(), result_label, not_found_label)?;
+                    self.emit_logic_and(sub_arr.as_ref(), is_tail, not_found_label)?;
                 }
 
                 "$or" => {
                     let sub_arr = crate::try_unwrap_array!("$or", value);
-                    self.emit_logic_or(sub_arr.as_ref(), not_found_label)?;
+                    self.emit_logic_or(sub_arr.as_ref(), is_tail, not_found_label)?;
                 }
 
                 _ => {
@@ -890,6 +925,15 @@ impl Codegen {
         is_in_not: bool,
         not_found_label: Label,
     ) -> Result<()> {
+        if value.is_empty() {
+            return Err(Error::InvalidField(mk_invalid_query_field(
+                self.last_key().into(),
+                self.gen_path(),
+            )));
+        }
+        if is_in_not && value.len() > 1 {
+            return self.emit_not_all_of(key, value, not_found_label);
+        }
         for (sub_key, sub_value) in value.iter() {
             crate::path_hint!(self, sub_key.clone(), {
                 self.emit_query_tuple_document_kv(
@@ -904,6 +948,38 @@ impl Codegen {
         Ok(())
     }
 
+    // the negation of several operators holds if one of them does not
+    fn emit_not_all_of(
+        &mut self,
+        key: &str,
+        value: &Document,
+        not_found_label: Label,
+    ) -> Result<()> {
+        let cmp_label = self.new_label();
+        self.emit_goto(DbOp::Goto, cmp_label);
+
+        let mut functions = Vec::<Label>::new();
+        for (sub_key, sub_value) in value.iter() {
+            crate::path_hint!(self, sub_key.clone(), {
+                let query_label = self.new_label();
+                let ret_label = self.new_label();
+
+                self.emit_label(query_label);
+                self.emit_query_tuple_document_kv(key, true, ret_label, sub_key, sub_value)?;
+
+                self.emit_label(ret_label);
+                self.emit_ret(0);
+
+                functions.push(query_label);
+            });
+        }
+
+        self.emit_label(cmp_label);
+        self.emit_any_of(functions, false, not_found_label);
+
+        Ok(())
+    }
+
     // There are two stage of compiling pipeline
     // 1. Generate the layout code of the pipeline
     // 2. Generate the implementation code of the pipeline
-- 
2.43.0


From 8ce77e26ae67ca7cce91ab4b76dc1f58773b34e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 05/52] fix: $size leaves the stack balanced for the conditions
 after it

---
 src/polodb_core/vm/codegen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index c9574c2..f5d18d1 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -863,7 +863,8 @@ impl Codegen {
                 self.emit_goto(DbOp::IfFalse, not_found_label);
 
                 self.emit(DbOp::Pop2);
-                self.emit_u32((field_size + 1) as u32);
+                // the field, its size and the expected size
+                self.emit_u32((field_size + 2) as u32);
             }
 
             "$regex" => {
-- 
2.43.0


From 35f7afd4199d309d43dc030cd6b9ed136307d8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 06/52] fix: an update keeps the changes of every operator, not
 only of the last one

---
 src/polodb_core/vm/vm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index bc1fa9c..bce513e 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -955,7 +955,10 @@ impl VM {
 
                         let result = try_vm!(self, operator.update(self.stack.last_mut().unwrap()));
 
-                        self.r0 = if result.updated { 1 } else { 0 };
+                        // an update is written if any of its operators changed the document
+                        if result.updated {
+                            self.r0 = 1;
+                        }
 
                         self.pc = self.pc.add(5);
                     }
-- 
2.43.0


From 3b1617a63ae6dfe3651297c251a85f04aaf50cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 07/52] fix: $unset, $rename and $pop cannot change the primary
 key

---
 src/polodb_core/vm/update_operators/pop_operator.rs    | 1 +
 src/polodb_core/vm/update_operators/rename_operator.rs | 6 +++++-
 src/polodb_core/vm/update_operators/unset_operator.rs  | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/update_operators/pop_operator.rs b/src/polodb_core/vm/update_operators/pop_operator.rs
index d2a9cbd..51bbcd9 100644
--- a/src/polodb_core/vm/update_operators/pop_operator.rs
+++ b/src/polodb_core/vm/update_operators/pop_operator.rs
@@ -11,6 +11,7 @@ pub(crate) struct PopOperator {
 impl PopOperator {
 
     pub fn compile(doc: Document, name: String, path: String) -> Result<PopOperator> {
+        <dyn UpdateOperator>::validate_key(&doc)?;
         let mut pop_map = IndexMap::new();
         for (key, value) in doc.iter() {
             let num = match value {
diff --git a/src/polodb_core/vm/update_operators/rename_operator.rs b/src/polodb_core/vm/update_operators/rename_operator.rs
index f31adb5..0472399 100644
--- a/src/polodb_core/vm/update_operators/rename_operator.rs
+++ b/src/polodb_core/vm/update_operators/rename_operator.rs
@@ -10,8 +10,9 @@ pub(crate) struct RenameOperator {
 impl RenameOperator {
 
     pub fn compile(doc: Document) -> Result<RenameOperator> {
+        <dyn UpdateOperator>::validate_key(&doc)?;
         for (key, value) in doc.iter() {
-            let _new_name = match value {
+            let new_name = match value {
                 Bson::String(new_name) => new_name.as_str(),
                 t => {
                     let name = format!("{}", t);
@@ -23,6 +24,9 @@ impl RenameOperator {
                         .into());
                 }
             };
+            if new_name == "_id" {
+                return Err(crate::Error::UnableToUpdatePrimaryKey);
+            }
         }
         Ok(RenameOperator {
             doc
diff --git a/src/polodb_core/vm/update_operators/unset_operator.rs b/src/polodb_core/vm/update_operators/unset_operator.rs
index 2b5d9c5..2800a89 100644
--- a/src/polodb_core/vm/update_operators/unset_operator.rs
+++ b/src/polodb_core/vm/update_operators/unset_operator.rs
@@ -9,6 +9,7 @@ pub(crate) struct UnsetOperator {
 impl UnsetOperator {
 
     pub fn compile(doc: &Document) -> Result<UnsetOperator> {
+        <dyn UpdateOperator>::validate_key(doc)?;
         let fields = doc.keys().map(|k| k.to_string()).collect();
         Ok(UnsetOperator {
             fields
-- 
2.43.0


From 03ab8a70154cf0121d219a727d0c6f6ad9d057e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 08/52] fix: $rename of a field that is absent leaves the
 document alone

---
 .../vm/update_operators/rename_operator.rs            | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/polodb_core/vm/update_operators/rename_operator.rs b/src/polodb_core/vm/update_operators/rename_operator.rs
index 0472399..1b179b9 100644
--- a/src/polodb_core/vm/update_operators/rename_operator.rs
+++ b/src/polodb_core/vm/update_operators/rename_operator.rs
@@ -33,17 +33,15 @@ impl RenameOperator {
         })
     }
 
-    fn rename_field(doc: &mut Document, key: &str, new_key: &str) -> Result<()> {
+    fn rename_field(doc: &mut Document, key: &str, new_key: &str) -> bool {
         match doc.remove(key) {
             Some(value) => {
                 doc.insert(new_key, value);
+                true
             }
 
-            None => {
-                doc.insert(new_key, Bson::Null);
-            }
+            None => false,
         }
-        Ok(())
     }
 
 }
@@ -63,8 +61,7 @@ impl UpdateOperator for RenameOperator {
                 Bson::String(new_name) => new_name.as_str(),
                 _ => unreachable!()
             };
-            RenameOperator::rename_field(doc, k, new_name)?;
-            updated = true;
+            updated |= RenameOperator::rename_field(doc, k, new_name);
         }
 
         Ok(UpdateResult {
-- 
2.43.0


From b60c1eba8001476b2736cec02d3f41207b462726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 09/52] fix: deleting from a collection that does not exist
 does not create it

---
 src/polodb_core/db/db_inner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 44c62d2..eabaaf8 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -701,7 +701,7 @@ impl DatabaseInner {
     }
 
     fn internal_delete_by_query(&self, txn: &TransactionInner, col_name: &str, query: Document, is_many: bool) -> Result<usize> {
-        let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, true, &self.node_id)?;
+        let col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, false, &self.node_id)?;
         if col_spec.is_none() {
             return Ok(0);
         }
-- 
2.43.0


From c27ce39549bebc6c0d4d504b99230164a9bcdfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 10/52] fix: reject NUL in collection and index names, it
 separates the parts of a storage key

---
 src/polodb_core/db/db_inner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index eabaaf8..c2ffdb6 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -386,7 +386,7 @@ impl DatabaseInner {
 
     fn validate_col_name(col_name: &str) -> Result<()> {
         for ch in col_name.chars() {
-            if ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
+            if ch == '\0' || ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
                 return Err(Error::IllegalCollectionName(col_name.to_string()))
             }
         }
@@ -396,7 +396,7 @@ impl DatabaseInner {
 
     fn validate_index_name(col_name: &str) -> Result<()> {
         for ch in col_name.chars() {
-            if ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
+            if ch == '\0' || ch == '$' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '.' {
                 return Err(Error::IllegalIndexName(col_name.to_string()))
             }
         }
-- 
2.43.0


From bc54472ddbd40919c6e085d58c20cb419d89ec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 11/52] fix: $inc and $mul report integer overflow instead of
 wrapping or panicking

---
 .../vm/update_operators/inc_operator.rs       | 18 +++++++++++++----
 .../vm/update_operators/mul_operator.rs       | 20 ++++++++++++++-----
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/polodb_core/vm/update_operators/inc_operator.rs b/src/polodb_core/vm/update_operators/inc_operator.rs
index bd2ff6b..883d22d 100644
--- a/src/polodb_core/vm/update_operators/inc_operator.rs
+++ b/src/polodb_core/vm/update_operators/inc_operator.rs
@@ -18,11 +18,15 @@ impl IncOperator {
 
     fn inc_numeric(key: &str, a: &Bson, b: &Bson) -> Result<Bson> {
         let val = match (a, b) {
-            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(*a + *b),
-            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(*a as i64 + *b),
+            // the result of two int32 widens to int64 when it does not fit
+            (Bson::Int32(a), Bson::Int32(b)) => match a.checked_add(*b) {
+                Some(result) => Bson::Int32(result),
+                None => Bson::Int64(*a as i64 + *b as i64),
+            },
+            (Bson::Int32(a), Bson::Int64(b)) => Self::inc_i64(key, *a as i64, *b)?,
             (Bson::Int32(a), Bson::Double(b)) => Bson::Double(*a as f64 + *b),
-            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(*a + *b),
-            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(*a + *b as i64),
+            (Bson::Int64(a), Bson::Int64(b)) => Self::inc_i64(key, *a, *b)?,
+            (Bson::Int64(a), Bson::Int32(b)) => Self::inc_i64(key, *a, *b as i64)?,
             (Bson::Int64(a), Bson::Double(b)) => Bson::Double(*a as f64 + *b),
             (Bson::Double(a), Bson::Double(b)) => Bson::Double(*a + *b),
             (Bson::Double(a), Bson::Int32(b)) => Bson::Double(*a + *b as f64),
@@ -41,6 +45,12 @@ impl IncOperator {
         Ok(val)
     }
 
+    fn inc_i64(key: &str, a: i64, b: i64) -> Result<Bson> {
+        a.checked_add(b).map(Bson::Int64).ok_or_else(|| {
+            Error::ValidationError(format!("$inc overflows the field \"{}\"", key))
+        })
+    }
+
     fn inc_field(doc: &mut Document, key: &str, value: Bson) -> Result<()> {
         match doc.get(key) {
             Some(Bson::Null) => {
diff --git a/src/polodb_core/vm/update_operators/mul_operator.rs b/src/polodb_core/vm/update_operators/mul_operator.rs
index 21e391d..03cb12d 100644
--- a/src/polodb_core/vm/update_operators/mul_operator.rs
+++ b/src/polodb_core/vm/update_operators/mul_operator.rs
@@ -1,7 +1,7 @@
 use bson::{Bson, Document};
 use crate::errors::CannotApplyOperationForTypes;
 use crate::vm::update_operators::{UpdateOperator, UpdateResult};
-use crate::Result;
+use crate::{Error, Result};
 
 pub(crate) struct MulOperator {
     doc: Document
@@ -18,11 +18,15 @@ impl MulOperator {
 
     fn mul_numeric(key: &str, a: &Bson, b: &Bson) -> Result<Bson> {
         let val = match (a, b) {
-            (Bson::Int32(a), Bson::Int32(b)) => Bson::Int32(*a * *b),
-            (Bson::Int32(a), Bson::Int64(b)) => Bson::Int64(*a as i64 * *b),
+            // the result of two int32 widens to int64 when it does not fit
+            (Bson::Int32(a), Bson::Int32(b)) => match a.checked_mul(*b) {
+                Some(result) => Bson::Int32(result),
+                None => Bson::Int64(*a as i64 * *b as i64),
+            },
+            (Bson::Int32(a), Bson::Int64(b)) => Self::mul_i64(key, *a as i64, *b)?,
             (Bson::Int32(a), Bson::Double(b)) => Bson::Double(*a as f64 * *b),
-            (Bson::Int64(a), Bson::Int64(b)) => Bson::Int64(*a * *b),
-            (Bson::Int64(a), Bson::Int32(b)) => Bson::Int64(*a * *b as i64),
+            (Bson::Int64(a), Bson::Int64(b)) => Self::mul_i64(key, *a, *b)?,
+            (Bson::Int64(a), Bson::Int32(b)) => Self::mul_i64(key, *a, *b as i64)?,
             (Bson::Int64(a), Bson::Double(b)) => Bson::Double(*a as f64 * *b),
             (Bson::Double(a), Bson::Double(b)) => Bson::Double(*a * *b),
             (Bson::Double(a), Bson::Int32(b)) => Bson::Double(*a * *b as f64),
@@ -41,6 +45,12 @@ impl MulOperator {
         Ok(val)
     }
 
+    fn mul_i64(key: &str, a: i64, b: i64) -> Result<Bson> {
+        a.checked_mul(b).map(Bson::Int64).ok_or_else(|| {
+            Error::ValidationError(format!("$mul overflows the field \"{}\"", key))
+        })
+    }
+
     fn mul_field(doc: &mut Document, key: &str, value: Bson) -> Result<()> {
         match doc.get(key) {
             Some(original_value) => {
-- 
2.43.0


From 2fb45d172b5b4c4dcb1dfed9cc681ae9fbbaa350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 12/52] fix: $abs handles doubles and the smallest integers

---
 src/polodb_core/vm/operators/abs_operator.rs | 27 +++++++++-----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/polodb_core/vm/operators/abs_operator.rs b/src/polodb_core/vm/operators/abs_operator.rs
index 4a48ab5..c7c1e7f 100644
--- a/src/polodb_core/vm/operators/abs_operator.rs
+++ b/src/polodb_core/vm/operators/abs_operator.rs
@@ -24,14 +24,16 @@ impl AbsOperator {
 
     fn bson_abs(input: Bson) -> Bson {
         match input {
-            Bson::Int32(v) => {
-                let result = v.abs();
-                Bson::Int32(result)
-            }
-            Bson::Int64(v) => {
-                let result = v.abs();
-                Bson::Int64(result)
-            }
+            // the magnitude of the smallest value needs a wider type
+            Bson::Int32(v) => match v.checked_abs() {
+                Some(result) => Bson::Int32(result),
+                None => Bson::Int64((v as i64).abs()),
+            },
+            Bson::Int64(v) => match v.checked_abs() {
+                Some(result) => Bson::Int64(result),
+                None => Bson::Double((v as f64).abs()),
+            },
+            Bson::Double(v) => Bson::Double(v.abs()),
             _ => input,
         }
     }
@@ -45,13 +47,8 @@ impl AbsOperator {
             Bson::Null => {
                 OperatorExpr::Constant(Bson::Null)
             }
-            Bson::Int32(v) => {
-               let result = v.abs();
-                OperatorExpr::Constant(Bson::Int32(result))
-            }
-            Bson::Int64(v) => {
-                let result = v.abs();
-                OperatorExpr::Constant(Bson::Int64(result))
+            Bson::Int32(_) | Bson::Int64(_) | Bson::Double(_) => {
+                OperatorExpr::Constant(Self::bson_abs(v.clone()))
             }
             Bson::String(field_name) => {
                 if let Some(stripped_field_name) = field_name.strip_prefix("$") {
-- 
2.43.0


From cac7719fbbfc9780b88c7d87b54195feaaa21ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 13/52] fix: a pipeline stage is completed once, $limit drops
 documents silently

---
 src/polodb_core/vm/vm_add_fields.rs |  2 +-
 src/polodb_core/vm/vm_limit.rs      |  4 ++--
 src/polodb_core/vm/vm_skip.rs       |  2 +-
 src/polodb_core/vm/vm_sort.rs       | 16 ++++++----------
 src/polodb_core/vm/vm_unset.rs      |  2 +-
 5 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/polodb_core/vm/vm_add_fields.rs b/src/polodb_core/vm/vm_add_fields.rs
index 58a3b9f..b4ce2fb 100644
--- a/src/polodb_core/vm/vm_add_fields.rs
+++ b/src/polodb_core/vm/vm_add_fields.rs
@@ -70,7 +70,7 @@ impl VmExternalFunc for VmFuncAddFields {
     fn call(&self, args: &[Bson]) -> Result<VmExternalFuncStatus> {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
         let mut doc = match arg0 {
             Bson::Document(doc) => doc.clone(),
diff --git a/src/polodb_core/vm/vm_limit.rs b/src/polodb_core/vm/vm_limit.rs
index 54285fb..6e21b2a 100644
--- a/src/polodb_core/vm/vm_limit.rs
+++ b/src/polodb_core/vm/vm_limit.rs
@@ -49,11 +49,11 @@ impl VmExternalFunc for VmFuncLimit {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {  // complete
             self.remain.store(0, Ordering::Relaxed);
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
 
         match self.remain.load(Ordering::Relaxed) {
-            0 => Ok(VmExternalFuncStatus::Next(Bson::Null)),
+            0 => Ok(VmExternalFuncStatus::Continue),
             _ => {
                 self.remain.fetch_sub(1, Ordering::Relaxed);
                 Ok(VmExternalFuncStatus::Next(args[0].clone()))
diff --git a/src/polodb_core/vm/vm_skip.rs b/src/polodb_core/vm/vm_skip.rs
index 6a08003..0215739 100644
--- a/src/polodb_core/vm/vm_skip.rs
+++ b/src/polodb_core/vm/vm_skip.rs
@@ -49,7 +49,7 @@ impl VmExternalFunc for VmFuncSkip {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {  // complete
             self.remain.store(0, Ordering::Relaxed);
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
 
         match self.remain.load(Ordering::Relaxed) {
diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index a722904..bafeb48 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -102,16 +102,12 @@ impl VmExternalFunc for VmFuncSort {
             }
             Bson::Null => {
                 self.sort_array();
-                let next = {
-                    let idx = self.idx.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
-                    let buffer = self.buffer.borrow();
-                    if idx >= buffer.len() {
-                        Bson::Null
-                    } else {
-                        buffer[idx].clone().into()
-                    }
-                };
-                Ok(VmExternalFuncStatus::Next(next))
+                let idx = self.idx.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
+                let buffer = self.buffer.borrow();
+                match buffer.get(idx) {
+                    Some(doc) => Ok(VmExternalFuncStatus::Next(doc.clone().into())),
+                    None => Ok(VmExternalFuncStatus::Continue),
+                }
             }
             _ => {
                 Err(Error::ValidationError("Invalid sort value".into()))
diff --git a/src/polodb_core/vm/vm_unset.rs b/src/polodb_core/vm/vm_unset.rs
index 1b2126e..b41461c 100644
--- a/src/polodb_core/vm/vm_unset.rs
+++ b/src/polodb_core/vm/vm_unset.rs
@@ -57,7 +57,7 @@ impl VmExternalFunc for VmFuncUnset {
     fn call(&self, args: &[Bson]) -> Result<VmExternalFuncStatus> {
         let arg0 = &args[0];
         if arg0.as_null().is_some() {
-            return Ok(VmExternalFuncStatus::Next(Bson::Null));
+            return Ok(VmExternalFuncStatus::Continue);
         }
         let mut doc = match arg0 {
             Bson::Document(doc) => doc.clone(),
-- 
2.43.0


From 717e569bce8512846f5c2390d39cb481774661f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 14/52] fix: $sort compares keys in the order given, reports
 invalid orders and values instead of panicking

---
 src/polodb_core/vm/vm_sort.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/polodb_core/vm/vm_sort.rs b/src/polodb_core/vm/vm_sort.rs
index bafeb48..6ec10ef 100644
--- a/src/polodb_core/vm/vm_sort.rs
+++ b/src/polodb_core/vm/vm_sort.rs
@@ -13,15 +13,15 @@
 // limitations under the License.
 
 use std::cell::RefCell;
-use std::collections::HashMap;
 use std::sync::atomic::AtomicUsize;
 use bson::{Bson, Document};
+use indexmap::IndexMap;
 use crate::vm::vm_external_func::{VmExternalFunc, VmExternalFuncStatus};
 use crate::{Result, Error};
 use crate::errors::mk_invalid_aggregate_field;
 
 pub(crate) struct VmFuncSort {
-    order_map: HashMap<String, i8>,
+    order_map: IndexMap<String, i8>,
     buffer: RefCell<Vec<Document>>,
     idx: AtomicUsize,
 }
@@ -30,11 +30,11 @@ impl VmFuncSort {
     pub(crate) fn compile(paths: &mut Vec<String>, val: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let order_map = match val {
             Bson::Document(doc) => {
-                let mut result = HashMap::default();
+                let mut result = IndexMap::default();
                 for (k, v) in doc.iter() {
                     let order = match v {
-                        Bson::Int32(val) => *val as i8,
-                        Bson::Int64(val) => *val as i8,
+                        Bson::Int32(1) | Bson::Int64(1) => 1,
+                        Bson::Int32(-1) | Bson::Int64(-1) => -1,
                         _ => return Err(Error::ValidationError("Invalid sort value".into()))
                     };
                     result.insert(k.clone(), order);
@@ -62,19 +62,23 @@ impl VmFuncSort {
         }
     }
 
-    fn sort_array(&self) {
+    fn sort_array(&self) -> Result<()> {
         let mut array = self.buffer.borrow_mut();
+        let mut error = None;
         array.sort_by(|a, b| {
             for (k, v) in self.order_map.iter() {
                 let a_val = a.get(k);
                 let b_val = b.get(k);
                 match (a_val, b_val) {
                     (Some(a_val), Some(b_val)) => {
-                        let result =  crate::utils::bson::value_cmp(a_val, b_val).expect("Invalid sort value");
-                        match result {
-                            std::cmp::Ordering::Equal => continue,
-                            std::cmp::Ordering::Less => return Self::i8_to_ordering(*v),
-                            std::cmp::Ordering::Greater => return Self::i8_to_ordering(-*v),
+                        match crate::utils::bson::value_cmp(a_val, b_val) {
+                            Ok(std::cmp::Ordering::Equal) => continue,
+                            Ok(std::cmp::Ordering::Less) => return Self::i8_to_ordering(*v),
+                            Ok(std::cmp::Ordering::Greater) => return Self::i8_to_ordering(-*v),
+                            Err(err) => {
+                                error.get_or_insert(err);
+                                continue;
+                            }
                         }
                     }
                     (Some(_), None) => return Self::i8_to_ordering(*v),
@@ -84,6 +88,10 @@ impl VmFuncSort {
             }
             std::cmp::Ordering::Equal
         });
+        match error {
+            Some(err) => Err(err.into()),
+            None => Ok(()),
+        }
     }
 }
 
@@ -101,7 +109,7 @@ impl VmExternalFunc for VmFuncSort {
                 Ok(VmExternalFuncStatus::Continue)
             }
             Bson::Null => {
-                self.sort_array();
+                self.sort_array()?;
                 let idx = self.idx.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                 let buffer = self.buffer.borrow();
                 match buffer.get(idx) {
-- 
2.43.0


From 1d6deb992882bab1ac92c0ce0626202100745679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:25 +0000
Subject: [PATCH 15/52] fix: mixed values have one total order, timestamps and
 symbols are comparable

---
 src/polodb_core/utils/bson.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/utils/bson.rs b/src/polodb_core/utils/bson.rs
index 32323c7..3a10175 100644
--- a/src/polodb_core/utils/bson.rs
+++ b/src/polodb_core/utils/bson.rs
@@ -201,6 +201,16 @@ fn cmp_i64_f64(i: i64, d: f64) -> Ordering {
         .then_with(|| cmp_f64(truncated as f64, d))
 }
 
+/// Values of different types are ordered by their type. The numeric types are
+/// comparable with each other, so they share one rank: otherwise the order of
+/// mixed values would not be transitive.
+fn type_rank(value: &Bson) -> u8 {
+    match value {
+        Bson::Double(_) | Bson::Int32(_) | Bson::Int64(_) => ElementType::Int64 as u8,
+        _ => value.element_type() as u8,
+    }
+}
+
 pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
     match (a, b) {
         (Bson::Null, Bson::Null) => Ok(Ordering::Equal),
@@ -225,10 +235,14 @@ pub fn value_cmp(a: &Bson, b: &Bson) -> BsonResult<Ordering> {
         (Bson::Binary(b1), Bson::Binary(b2)) => Ok(b1.bytes.cmp(&b2.bytes)),
         (Bson::String(str1), Bson::String(str2)) => Ok(str1.cmp(str2)),
         (Bson::ObjectId(oid1), Bson::ObjectId(oid2)) => Ok(oid1.cmp(oid2)),
+        (Bson::Symbol(str1), Bson::Symbol(str2)) => Ok(str1.cmp(str2)),
+        (Bson::Timestamp(ts1), Bson::Timestamp(ts2)) => {
+            Ok((ts1.time, ts1.increment).cmp(&(ts2.time, ts2.increment)))
+        }
         _ => {
             // compare the numeric type
-            let a_type = a.element_type() as u8;
-            let b_type = b.element_type() as u8;
+            let a_type = type_rank(a);
+            let b_type = type_rank(b);
             if a_type != b_type {
                 return Ok(a_type.cmp(&b_type));
             }
-- 
2.43.0


From a5165fbee392fd85c6f7ece825a690cc5eced5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:25 +0000
Subject: [PATCH 16/52] fix: reject negative $skip and $limit, saturate huge
 find offsets

---
 src/polodb_core/action/find.rs | 4 ++--
 src/polodb_core/vm/vm_limit.rs | 4 ++--
 src/polodb_core/vm/vm_skip.rs  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/polodb_core/action/find.rs b/src/polodb_core/action/find.rs
index 78ca752..c6ff9f8 100644
--- a/src/polodb_core/action/find.rs
+++ b/src/polodb_core/action/find.rs
@@ -86,13 +86,13 @@ impl <'a, 'b , T: DeserializeOwned + Send + Sync> Find<'a, 'b, T> {
 
                 if let Some(skip) = self.skip {
                     pipeline.push(doc! {
-                        "$skip": skip as i64,
+                        "$skip": skip.min(i64::MAX as u64) as i64,
                     });
                 }
 
                 if let Some(limit) = self.limit {
                     pipeline.push(doc! {
-                        "$limit": limit as i64,
+                        "$limit": limit.min(i64::MAX as u64) as i64,
                     });
                 }
 
diff --git a/src/polodb_core/vm/vm_limit.rs b/src/polodb_core/vm/vm_limit.rs
index 6e21b2a..b4d3f9f 100644
--- a/src/polodb_core/vm/vm_limit.rs
+++ b/src/polodb_core/vm/vm_limit.rs
@@ -26,8 +26,8 @@ impl VmFuncLimit {
 
     pub(crate) fn compile(paths: &mut Vec<String>, bson: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let limit = match bson {
-            Bson::Int32(val) => *val as usize,
-            Bson::Int64(val) => *val as usize,
+            Bson::Int32(val) if *val >= 0 => *val as usize,
+            Bson::Int64(val) if *val >= 0 => *val as usize,
             _ => {
                 let invalid_err = mk_invalid_aggregate_field(paths);
                 return Err(Error::InvalidField(invalid_err));
diff --git a/src/polodb_core/vm/vm_skip.rs b/src/polodb_core/vm/vm_skip.rs
index 0215739..53d3933 100644
--- a/src/polodb_core/vm/vm_skip.rs
+++ b/src/polodb_core/vm/vm_skip.rs
@@ -27,8 +27,8 @@ pub(crate) struct VmFuncSkip {
 impl VmFuncSkip {
     pub(crate) fn compile(paths: &mut Vec<String>, skip_val: &Bson) -> Result<Box<dyn VmExternalFunc>> {
         let skip = match skip_val {
-            Bson::Int32(val) => *val as usize,
-            Bson::Int64(val) => *val as usize,
+            Bson::Int32(val) if *val >= 0 => *val as usize,
+            Bson::Int64(val) if *val >= 0 => *val as usize,
             _ => {
                 let invalid_err = mk_invalid_aggregate_field(paths);
                 return Err(Error::InvalidField(invalid_err))
-- 
2.43.0


From 02a07e0d93a87a6045625c964347ffa9dbf110f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 17/52] fix: creating an index rejects an empty collection name
 like every other way of creating it

---
 src/polodb_core/db/db_inner.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index c2ffdb6..0cf754e 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -238,6 +238,9 @@ impl DatabaseInner {
         let mut collection_spec = match test_collection_spec {
             Ok(spec) => spec,
             Err(Error::CollectionNotFound(_)) => {
+                if col_name.is_empty() {
+                    return Err(Error::IllegalCollectionName(col_name.into()));
+                }
                 let uuid = uuid::Uuid::now_v1(&self.node_id);
                 CollectionSpecification::new(col_name.to_string(), uuid)
             }
-- 
2.43.0


From 2c0a7b96f933c62551b6b4af36334b0d85357b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 18/52] fix: an index name taken by a different index is
 reported instead of silently skipping the new index

---
 src/polodb_core/db/db_inner.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 0cf754e..3a9a4b9 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -249,15 +249,19 @@ impl DatabaseInner {
             }
         };
 
-        if collection_spec.indexes.get(&index_name).is_some() {
-            return Ok(())
-        }
-
         let index_info = IndexInfo::single_index(
             key.to_string(),
             1,
             options.cloned(),
         );
+        if let Some(existing) = collection_spec.indexes.get(&index_name) {
+            // the name is taken by a different index: it cannot stand for this one
+            if existing.keys != index_info.keys || existing.is_unique() != index_info.is_unique() {
+                return Err(Error::IllegalIndexName(index_name));
+            }
+            return Ok(())
+        }
+
         collection_spec.indexes.insert(index_name.clone(), index_info.clone());
 
         DatabaseInner::update_collection_spec(
-- 
2.43.0


From 7f3e6df3ec5360192dba664284d3db816b44fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 19/52] fix: replies carry zero flag bits instead of the
 document length

---
 src/polodb/reply.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/polodb/reply.rs b/src/polodb/reply.rs
index 448a11f..65178b1 100644
--- a/src/polodb/reply.rs
+++ b/src/polodb/reply.rs
@@ -26,13 +26,11 @@ pub(crate) struct Reply {
 impl Reply {
 
     pub(crate) fn new(response_to: i32, doc: RawDocumentBuf) -> Reply {
+        const NO_FLAGS: u32 = 0;
         const SINGLE_DOC_KIND: u8 = 0;
         let mut payload = Vec::with_capacity(doc.as_bytes().len() + 5);
-        std::io::Write::write_all(&mut payload, [SINGLE_DOC_KIND].as_slice()).unwrap();
-
-        let doc_len = doc.as_bytes().len() as u32;
-        std::io::Write::write_all(&mut payload, doc_len.to_le_bytes().as_slice()).unwrap();
-
+        payload.extend_from_slice(NO_FLAGS.to_le_bytes().as_slice());
+        payload.push(SINGLE_DOC_KIND);
         payload.extend_from_slice(doc.as_bytes());
 
         Reply { response_to, doc, payload }
-- 
2.43.0


From 6b3aeb71982cb7660e0166331e6a7eeb23c1cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:56 +0000
Subject: [PATCH 20/52] fix: the reply to find answers the request's id

---
 src/polodb/handlers/find_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 914acf6..2f4ef5b 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -176,7 +176,7 @@ impl Handler for FindHandler {
             "ok": 1,
             "cursor": cursor_doc,
         };
-        let reply = Reply::new(ctx.message.response_to, body);
+        let reply = Reply::new(ctx.message.request_id.unwrap(), body);
         debug!("find reply: {:?}", reply);
         Ok(reply)
     }
-- 
2.43.0


From 83d1b6df471b3d6293bcd788029b7fcd55d91db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:57 +0000
Subject: [PATCH 21/52] fix: a new cursor never takes the id of one that is
 still open

---
 src/polodb/app_context.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polodb/app_context.rs b/src/polodb/app_context.rs
index b7ff78b..957df1b 100644
--- a/src/polodb/app_context.rs
+++ b/src/polodb/app_context.rs
@@ -14,7 +14,7 @@
 
 use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
-use std::sync::atomic::AtomicU64;
+use std::sync::atomic::{AtomicI64, AtomicU64};
 use bson::{Document, RawDocumentBuf};
 use bson::uuid::Uuid;
 use polodb_core::{ClientCursor, Database, Transaction};
@@ -64,8 +64,8 @@ impl AppContext {
 
     pub (crate) fn save_cursor(&self, cursor: Arc<Mutex<ClientCursor<Document>>>) -> i64 {
         let mut cursors = self.inner.cursors.lock().unwrap();
-        let mut cursor_id = cursors.len() as i64;
-        cursor_id += 1; // cursor_id starts from 1
+        // cursor_id starts from 1 and is never reused
+        let cursor_id = self.inner.cursor_id.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
         cursors.insert(cursor_id, cursor);
         cursor_id
     }
@@ -99,6 +99,7 @@ struct AppContextInner {
     db: Arc<Database>,
     handlers: Mutex<Vec<Arc<dyn Handler>>>,
     cursors: Mutex<HashMap<i64, Arc<Mutex<ClientCursor<Document>>>>>,
+    cursor_id: AtomicI64,
     conn_id: AtomicU64,
     session_ctx: Mutex<HashMap<Uuid, SessionContext>>,
 }
@@ -110,6 +111,7 @@ impl AppContextInner {
             db: Arc::new(db),
             handlers: Mutex::new(Vec::with_capacity(32)),
             cursors: Mutex::new(HashMap::new()),
+            cursor_id: AtomicI64::new(1),
             conn_id: AtomicU64::new(0),
             session_ctx: Mutex::new(HashMap::new()),
         }
-- 
2.43.0


From 5f5effee72c8777361892dbe9c247eece9c89e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:57 +0000
Subject: [PATCH 22/52] fix: a document length below the minimum is an error,
 not a panic

---
 src/polodb/bson_util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/polodb/bson_util.rs b/src/polodb/bson_util.rs
index 5be9af1..1011464 100644
--- a/src/polodb/bson_util.rs
+++ b/src/polodb/bson_util.rs
@@ -148,8 +148,11 @@ fn num_decimal_digits(mut n: usize) -> usize {
 /// Read a document's raw BSON bytes from the provided reader.
 pub(crate) fn read_document_bytes<R: Read>(mut reader: R) -> Result<Vec<u8>> {
     let length = reader.read_i32_sync()?;
+    if length < 5 {
+        return Err(anyhow!("invalid document length: {}", length));
+    }
 
-    let mut bytes = Vec::with_capacity(length as usize);
+    let mut bytes = Vec::new();
     bytes.write_all(&length.to_le_bytes())?;
 
     reader.take(length as u64 - 4).read_to_end(&mut bytes)?;
-- 
2.43.0


From fbdd998938928c95123e6fb3189d1e5cf886441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 23/52] fix: the update command runs in its transaction,
 honours multi and upsert, reports matches

---
 src/polodb/handlers/update_handler.rs | 35 +++++++++++++++++++++------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/polodb/handlers/update_handler.rs b/src/polodb/handlers/update_handler.rs
index f7d4b18..e2259cb 100644
--- a/src/polodb/handlers/update_handler.rs
+++ b/src/polodb/handlers/update_handler.rs
@@ -19,9 +19,11 @@ use async_trait::async_trait;
 use bson::{rawdoc, Document, RawDocumentBuf};
 use log::debug;
 use polodb_core::results::UpdateResult;
+use polodb_core::options::UpdateOptions;
 use polodb_core::CollectionT;
 use crate::app_context::AppContext;
 use crate::reply::Reply;
+use crate::session_context::SessionContext;
 
 pub(crate) struct UpdateHandler {}
 
@@ -31,17 +33,36 @@ impl UpdateHandler {
         Arc::new(UpdateHandler {})
     }
 
-    fn handle_update(ctx: AppContext, col_name: &str, update: Document, result: &mut UpdateResult) -> Result<()> {
-        let db = ctx.db();
-        let collection = db.collection::<Document>(col_name);
+    fn handle_update(ctx: AppContext, session_opt: &Option<SessionContext>, col_name: &str, update: Document, result: &mut UpdateResult) -> Result<()> {
+        let multi = update.get_bool("multi").unwrap_or(false);
+        let options = UpdateOptions::builder()
+            .upsert(update.get_bool("upsert").unwrap_or(false))
+            .build();
 
         let filter = update.get("q").ok_or(anyhow!("update document missing q field"))?;
         let update = update.get("u").ok_or(anyhow!("update document missing u field"))?;
 
-        let filter_doc = filter.as_document().ok_or(anyhow!("q field is not a document"))?;
-        let update_doc = update.as_document().ok_or(anyhow!("u field is not a document"))?;
+        let filter_doc = filter.as_document().ok_or(anyhow!("q field is not a document"))?.clone();
+        let update_doc = update.as_document().ok_or(anyhow!("u field is not a document"))?.clone();
 
-        let tmp_result = collection.update_many(filter_doc.clone(), update_doc.clone())?;
+        let tmp_result = if let Some(session) = session_opt {
+            let txn = session.get_transaction().ok_or(anyhow!("transaction not started"))?;
+            let collection = txn.collection::<Document>(col_name);
+            if multi {
+                collection.update_many_with_options(filter_doc, update_doc, options)?
+            } else {
+                collection.update_one_with_options(filter_doc, update_doc, options)?
+            }
+        } else {
+            let db = ctx.db();
+            let collection = db.collection::<Document>(col_name);
+            if multi {
+                collection.update_many_with_options(filter_doc, update_doc, options)?
+            } else {
+                collection.update_one_with_options(filter_doc, update_doc, options)?
+            }
+        };
+        result.matched_count += tmp_result.matched_count;
         result.modified_count += tmp_result.modified_count;
 
         Ok(())
@@ -69,7 +90,7 @@ impl Handler for UpdateHandler {
         for update in updates.into_iter() {
             let update = update?.as_document().ok_or(anyhow!("update is not a document"))?;
             let d = bson::from_slice::<Document>(update.as_bytes())?;
-            UpdateHandler::handle_update(ctx.app_context.clone(), collection_name, d, &mut update_result)?;
+            UpdateHandler::handle_update(ctx.app_context.clone(), &ctx.session, collection_name, d, &mut update_result)?;
         }
         debug!("update result: {:?}", update_result);
 
-- 
2.43.0


From cc7e2373122940be65fa87c30782f85a5bf27355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 24/52] fix: the delete command honours its limit and reports a
 missing list

---
 src/polodb/handlers/delete_handler.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/polodb/handlers/delete_handler.rs b/src/polodb/handlers/delete_handler.rs
index bc217e5..cef01b3 100644
--- a/src/polodb/handlers/delete_handler.rs
+++ b/src/polodb/handlers/delete_handler.rs
@@ -20,6 +20,7 @@ use anyhow::{anyhow, Result};
 use polodb_core::results::DeleteResult;
 use polodb_core::CollectionT;
 use crate::app_context::AppContext;
+use crate::bson_util::get_int;
 use crate::reply::Reply;
 use crate::session_context::SessionContext;
 
@@ -34,14 +35,26 @@ impl DeleteHandler {
     fn handle_delete(ctx: AppContext, session_opt: &Option<SessionContext>, col_name: &str, delete_doc: Document, result: &mut DeleteResult) -> Result<()> {
         let db = ctx.db();
         let filter = delete_doc.get_document("q")?;
+        let only_one = match delete_doc.get("limit") {
+            Some(limit) => get_int(limit) == Some(1),
+            None => false,
+        };
 
         let tmp_result = if let Some(session) = session_opt {
             let txn = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
             let collection = txn.collection::<Document>(col_name);
-            collection.delete_many(filter.clone())?
+            if only_one {
+                collection.delete_one(filter.clone())?
+            } else {
+                collection.delete_many(filter.clone())?
+            }
         } else {
             let collection = db.collection::<Document>(col_name);
-            collection.delete_many(filter.clone())?
+            if only_one {
+                collection.delete_one(filter.clone())?
+            } else {
+                collection.delete_many(filter.clone())?
+            }
         };
 
         result.deleted_count += tmp_result.deleted_count;
@@ -65,7 +78,7 @@ impl Handler for DeleteHandler {
         let doc = &ctx.message.document_payload;
         let collection_name = doc.get("delete")?.unwrap().as_str().ok_or(anyhow!("delete field is not a string"))?;
 
-        let deletes_arr = doc.get("deletes")?.unwrap().as_array().ok_or(anyhow!("deletes field is not an array"))?;
+        let deletes_arr = doc.get("deletes")?.ok_or(anyhow!("deletes is missing"))?.as_array().ok_or(anyhow!("deletes field is not an array"))?;
         let mut delete_result = DeleteResult::default();
 
         let session_opt = ctx.session.clone();
-- 
2.43.0


From 2d04430c56279a9ac90673004ee55dd8c330b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 25/52] fix: a session is usable after its transaction ended,
 abort accepts every integer

---
 src/polodb/handlers/abort_transaction.rs  | 2 +-
 src/polodb/handlers/commit_transaction.rs | 1 +
 src/polodb/main.rs                        | 2 ++
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/polodb/handlers/abort_transaction.rs b/src/polodb/handlers/abort_transaction.rs
index 4047ab9..0b7aa7c 100644
--- a/src/polodb/handlers/abort_transaction.rs
+++ b/src/polodb/handlers/abort_transaction.rs
@@ -21,7 +21,7 @@ impl Handler for AbortTransactionHandler {
     fn test(&self, doc: &RawDocumentBuf) -> anyhow::Result<bool> {
         let val = doc.get("abortTransaction")?;
         match val {
-            Some(r) => Ok(r.as_i64().is_some()),
+            Some(r) => Ok(r.as_i32().is_some() || r.as_i64().is_some()),
             None => Ok(false),
         }
     }
diff --git a/src/polodb/handlers/commit_transaction.rs b/src/polodb/handlers/commit_transaction.rs
index 37f5d2e..4ce8480 100644
--- a/src/polodb/handlers/commit_transaction.rs
+++ b/src/polodb/handlers/commit_transaction.rs
@@ -37,6 +37,7 @@ impl Handler for CommitTransactionHandler {
         let session = ctx.session.as_ref().ok_or(anyhow!("session not found"))?;
         let conn_ctx = session.get_transaction().ok_or(anyhow!("transaction not found"))?;
         conn_ctx.commit()?;
+        session.clear_transaction();
 
         let body = rawdoc! {
             "ok": 1,
diff --git a/src/polodb/main.rs b/src/polodb/main.rs
index 3a27d53..f3a5e2b 100644
--- a/src/polodb/main.rs
+++ b/src/polodb/main.rs
@@ -218,6 +218,8 @@ async fn handle_message<W: AsyncWrite + Unpin>(ctx: AppContext, conn_id: u64, st
             }
         };
         let auto_commit = utils::truly_value_for_bson_ref(message.document_payload.get("autocommit")?, true);
+        // outside of a transaction a session is only an id
+        let session = session.filter(|session| !auto_commit || session.get_transaction().is_some());
 
         let ctx = HandleContext {
             app_context: ctx.clone(),
-- 
2.43.0


From 8413d30dd261a6dba1337691ec7acd986b323569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:15 +0000
Subject: [PATCH 26/52] fix: find with limit 0 is unlimited

---
 src/polodb/handlers/find_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb/handlers/find_handler.rs b/src/polodb/handlers/find_handler.rs
index 2f4ef5b..8f70cce 100644
--- a/src/polodb/handlers/find_handler.rs
+++ b/src/polodb/handlers/find_handler.rs
@@ -120,7 +120,7 @@ impl Handler for FindHandler {
                 RawBsonRef::Int64(val) => val,
                 _ => 0,
             }
-        });
+        }).filter(|limit| *limit != 0); // no limit
 
         let skip = doc.get("skip")?.map( |val| {
             match val {
-- 
2.43.0


From 662ebb5a69c40fc852cf322416de9867271509d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:52 +0000
Subject: [PATCH 27/52] fix: line diff reports leading lines that only one text
 has

---
 src/polodb_line_diff/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/polodb_line_diff/lib.rs b/src/polodb_line_diff/lib.rs
index 02b371a..c88a65a 100644
--- a/src/polodb_line_diff/lib.rs
+++ b/src/polodb_line_diff/lib.rs
@@ -183,8 +183,16 @@ impl std::fmt::Display for Diff {
 
 fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i: usize, mut j: usize) -> Vec<Diff> {
     let mut result: Vec<Diff> = vec![];
-    while i > 0 && j > 0 {
-        match matrix[i][j].op {
+    while i > 0 || j > 0 {
+        // one side is used up: what is left of the other differs
+        let op = if i == 0 {
+            &DiffOp::Insert
+        } else if j == 0 {
+            &DiffOp::Delete
+        } else {
+            &matrix[i][j].op
+        };
+        match op {
             DiffOp::Preserve => {
                 i -= 1;
                 j -= 1;
-- 
2.43.0


From 4ce4636f9287355e07927933b461e4540f60ac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:52 +0000
Subject: [PATCH 28/52] fix: a replaced line shows the old text as removed and
 the new one as added

---
 src/polodb_line_diff/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polodb_line_diff/lib.rs b/src/polodb_line_diff/lib.rs
index c88a65a..3b51d60 100644
--- a/src/polodb_line_diff/lib.rs
+++ b/src/polodb_line_diff/lib.rs
@@ -199,8 +199,8 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
             }
 
             DiffOp::Replace => {
-                let in_line = Line::new(i - 1,a_lines[i - 1].into());
-                let de_line = Line::new(j - 1, b_lines[j - 1].into());
+                let in_line = Line::new(j - 1, b_lines[j - 1].into());
+                let de_line = Line::new(i - 1, a_lines[i - 1].into());
                 if let Some(last) = result.last_mut() {
                     if last.op == DiffOp::Replace {
                         last.in_lines.push_front(in_line);
-- 
2.43.0


From d108656ebd36a7239116ef77d21bf7426a669819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:39 +0000
Subject: [PATCH 29/52] fix: a failed read ends an operation with the error
 instead of as the end of data

---
 src/polodb_core/cursor.rs              | 6 ++++++
 src/polodb_core/db/rocksdb_iterator.rs | 1 -
 src/polodb_core/index/index_helper.rs  | 1 +
 src/polodb_core/vm/vm.rs               | 1 +
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/polodb_core/cursor.rs b/src/polodb_core/cursor.rs
index 21f690e..e40d4c9 100644
--- a/src/polodb_core/cursor.rs
+++ b/src/polodb_core/cursor.rs
@@ -64,6 +64,9 @@ impl Cursor {
 
         if self.kv_cursor.valid() {
             self.current_key = Some(self.kv_cursor.copy_key_arc()?);
+        } else {
+            // an invalid cursor is either at the end or has failed
+            self.kv_cursor.error()?;
         }
 
         Ok(())
@@ -102,6 +105,7 @@ impl Cursor {
             }
         }
 
+        self.kv_cursor.error()?;
         Ok(false)
     }
 
@@ -121,6 +125,7 @@ impl Cursor {
             }
         }
 
+        self.kv_cursor.error()?;
         Ok(false)
     }
 
@@ -147,6 +152,7 @@ impl Cursor {
         self.kv_cursor.next();
         if !self.kv_cursor.valid() {
             self.current_key = None;
+            self.kv_cursor.error()?;
             return Ok(());
         }
         self.current_key = Some(self.kv_cursor.copy_key_arc()?);
diff --git a/src/polodb_core/db/rocksdb_iterator.rs b/src/polodb_core/db/rocksdb_iterator.rs
index d560a53..10950b7 100644
--- a/src/polodb_core/db/rocksdb_iterator.rs
+++ b/src/polodb_core/db/rocksdb_iterator.rs
@@ -54,7 +54,6 @@ impl RocksDBIterator {
         self.inner.prev()
     }
 
-    #[allow(dead_code)]
     pub fn error(&self) -> Result<()> {
         self.inner.error()
     }
diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index 843b3dd..000c1be 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -147,6 +147,7 @@ impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
         cursor.seek(&index_key_tester);
 
         if !cursor.valid() {
+            cursor.error()?;
             return Ok(());
         }
         let current_key = cursor.copy_key_arc()?;
diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index bce513e..057796c 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -217,6 +217,7 @@ impl VM {
         db_iter.seek(pkey_in_kv.as_slice());
 
         if !db_iter.valid() {
+            db_iter.error()?;
             return Ok(None);
         }
         let current_key = db_iter.copy_key()?;
-- 
2.43.0


From 527d46caf74fb7e2c763c89c72d90de2f2707a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:18 +0000
Subject: [PATCH 30/52] fix: a transaction does not overwrite what others
 committed since it began

---
 src/polodb_core/db/db_inner.rs            |  2 +-
 src/polodb_core/db/rocksdb_options.rs     |  6 ++++++
 src/polodb_core/db/rocksdb_transaction.rs |  7 ++++---
 src/polodb_core/db/rocksdb_wrapper.rs     | 11 ++++++++++-
 4 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 3a9a4b9..d95efde 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -90,7 +90,7 @@ impl DatabaseInner {
     }
 
     pub fn start_transaction(&self) -> Result<TransactionInner> {
-        Ok(TransactionInner::new(self.rocksdb.begin_transaction()?))
+        Ok(TransactionInner::new(self.rocksdb.begin_isolated_transaction()?))
     }
 
     fn internal_get_collection_id_by_name(&self, txn: &TransactionInner, name: &str) -> Result<CollectionSpecification> {
diff --git a/src/polodb_core/db/rocksdb_options.rs b/src/polodb_core/db/rocksdb_options.rs
index fc4cf78..489848c 100644
--- a/src/polodb_core/db/rocksdb_options.rs
+++ b/src/polodb_core/db/rocksdb_options.rs
@@ -122,6 +122,12 @@ impl RocksDBTransactionOptions {
         self.inner
     }
 
+    pub(crate) fn set_set_snapshot(&self, set_snapshot: bool) {
+        unsafe {
+            ffi::rocksdb_transaction_options_set_set_snapshot(self.inner, set_snapshot as u8)
+        }
+    }
+
 }
 
 impl Drop for RocksDBTransactionOptions {
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 568b15d..c1ab12c 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -45,8 +45,8 @@ pub(crate) struct RocksDBTransaction {
 
 impl RocksDBTransaction {
 
-    pub(crate) fn new(db_inner: *mut RocksDBWrapperInner) -> Result<RocksDBTransaction>  {
-        let inner = RocksDBTransactionInner::new(db_inner)?;
+    pub(crate) fn new(db_inner: *mut RocksDBWrapperInner, set_snapshot: bool) -> Result<RocksDBTransaction>  {
+        let inner = RocksDBTransactionInner::new(db_inner, set_snapshot)?;
         Ok(RocksDBTransaction {
             inner: Arc::new(Mutex::new(inner)),
         })
@@ -99,12 +99,13 @@ unsafe impl Sync for RocksDBTransactionInner {}
 
 impl RocksDBTransactionInner {
 
-    pub(crate) fn new(db_inner: *mut RocksDBWrapperInner) -> Result<RocksDBTransactionInner>  {
+    pub(crate) fn new(db_inner: *mut RocksDBWrapperInner, set_snapshot: bool) -> Result<RocksDBTransactionInner>  {
         unsafe {
             let read_options = RocksDBReadOptions::new();
             let write_options = RocksDBWriteOptions::new();
             write_options.set_sync(true);
             let txn_options = RocksDBTransactionOptions::new();
+            txn_options.set_set_snapshot(set_snapshot);
             _ = (*db_inner).txn_count.fetch_add(1, Ordering::SeqCst);
             let inner = ffi::rocksdb_transaction_begin(
                 (*db_inner).inner,
diff --git a/src/polodb_core/db/rocksdb_wrapper.rs b/src/polodb_core/db/rocksdb_wrapper.rs
index b930d46..b03d2af 100644
--- a/src/polodb_core/db/rocksdb_wrapper.rs
+++ b/src/polodb_core/db/rocksdb_wrapper.rs
@@ -52,9 +52,18 @@ impl RocksDBWrapper {
         })
     }
 
+    #[allow(dead_code)]
     pub fn begin_transaction(&self) -> Result<RocksDBTransaction> {
         let mut db_inner = self.inner.lock()?;
-        RocksDBTransaction::new(db_inner.deref_mut() as *mut _)
+        RocksDBTransaction::new(db_inner.deref_mut() as *mut _, false)
+    }
+
+    /// In this transaction, a write to a key that another transaction has
+    /// committed since the beginning is refused. Otherwise, the write could be
+    /// based on an outdated value and the other commit would be lost.
+    pub fn begin_isolated_transaction(&self) -> Result<RocksDBTransaction> {
+        let mut db_inner = self.inner.lock()?;
+        RocksDBTransaction::new(db_inner.deref_mut() as *mut _, true)
     }
 
 }
-- 
2.43.0


From a2cf776d44d4038f98b8471cb6fb09c96637ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 31/52] fix: a find or aggregation reads one state of the
 database from start to end

---
 src/polodb_core/action/aggregate.rs       |  2 +-
 src/polodb_core/action/find.rs            |  2 +-
 src/polodb_core/coll/collection.rs        |  2 +-
 src/polodb_core/db/db_inner.rs            |  8 ++++++++
 src/polodb_core/db/rocksdb_options.rs     |  5 +++++
 src/polodb_core/db/rocksdb_transaction.rs | 16 ++++++++++++++++
 6 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/polodb_core/action/aggregate.rs b/src/polodb_core/action/aggregate.rs
index b392275..b4a1739 100644
--- a/src/polodb_core/action/aggregate.rs
+++ b/src/polodb_core/action/aggregate.rs
@@ -43,7 +43,7 @@ impl <'a, 'b , T: DeserializeOwned + Send + Sync> Aggregate<'a, 'b, T> {
         let txn = match self.txn {
             Some(txn) => txn.clone(),
             None => {
-                db.start_transaction()?
+                db.start_read_transaction()?
             }
         };
         db.aggregate_with_owned_session(self.name, self.pipeline, txn.clone())
diff --git a/src/polodb_core/action/find.rs b/src/polodb_core/action/find.rs
index c6ff9f8..636aac2 100644
--- a/src/polodb_core/action/find.rs
+++ b/src/polodb_core/action/find.rs
@@ -64,7 +64,7 @@ impl <'a, 'b , T: DeserializeOwned + Send + Sync> Find<'a, 'b, T> {
         let txn = match self.txn {
             Some(txn) => txn.clone(),
             None => {
-                db.start_transaction()?
+                db.start_read_transaction()?
             }
         };
         match (self.skip.as_ref(), self.limit.as_ref(), self.sort.as_ref()) {
diff --git a/src/polodb_core/coll/collection.rs b/src/polodb_core/coll/collection.rs
index 0baaba1..7f517ac 100644
--- a/src/polodb_core/coll/collection.rs
+++ b/src/polodb_core/coll/collection.rs
@@ -132,7 +132,7 @@ impl<T> CollectionT<T> for Collection<T> {
 
     fn count_documents(&self) -> Result<u64> {
         let db = self.db.upgrade().ok_or(Error::DbIsClosed)?;
-        let txn = db.start_transaction()?;
+        let txn = db.start_read_transaction()?;
         let count = db.count_documents(&self.name, &txn)?;
         Ok(count)
     }
diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index d95efde..8f05f5b 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -93,6 +93,14 @@ impl DatabaseInner {
         Ok(TransactionInner::new(self.rocksdb.begin_isolated_transaction()?))
     }
 
+    /// A transaction for a read operation. All of its reads see the same state,
+    /// no matter what others commit while the result is consumed.
+    pub fn start_read_transaction(&self) -> Result<TransactionInner> {
+        let txn = self.start_transaction()?;
+        txn.rocksdb_txn.read_at_snapshot();
+        Ok(txn)
+    }
+
     fn internal_get_collection_id_by_name(&self, txn: &TransactionInner, name: &str) -> Result<CollectionSpecification> {
         let mut cursor =  {
             let kv_cursor = txn.rocksdb_txn.new_iterator();
diff --git a/src/polodb_core/db/rocksdb_options.rs b/src/polodb_core/db/rocksdb_options.rs
index 489848c..07d2f1a 100644
--- a/src/polodb_core/db/rocksdb_options.rs
+++ b/src/polodb_core/db/rocksdb_options.rs
@@ -98,6 +98,11 @@ impl RocksDBReadOptions {
         self.inner
     }
 
+    /// The snapshot must live as long as these options are used
+    pub(crate) unsafe fn set_snapshot(&self, snapshot: *const ffi::rocksdb_snapshot_t) {
+        ffi::rocksdb_readoptions_set_snapshot(self.inner, snapshot)
+    }
+
 }
 
 impl Drop for RocksDBReadOptions {
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index c1ab12c..cd718ba 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -57,6 +57,13 @@ impl RocksDBTransaction {
         RocksDBIterator::new(inner.deref_mut() as *mut RocksDBTransactionInner)
     }
 
+    /// From here on, all reads see the state in which the transaction began.
+    /// This is for transactions which only read.
+    pub fn read_at_snapshot(&self) {
+        let inner = self.inner.lock().unwrap();
+        inner.read_at_snapshot()
+    }
+
     pub fn set(&self, key: &[u8], value: &[u8]) -> Result<()> {
         let inner = self.inner.lock().unwrap();
         inner.set(key, value)
@@ -125,6 +132,15 @@ impl RocksDBTransactionInner {
         }
     }
 
+    pub fn read_at_snapshot(&self) {
+        unsafe {
+            // the snapshot itself is owned by the transaction
+            let snapshot = ffi::rocksdb_transaction_get_snapshot(self.inner);
+            self.read_options.set_snapshot(snapshot);
+            ffi::rocksdb_free(snapshot as *mut libc::c_void);
+        }
+    }
+
     pub fn set(&self, key: &[u8], value: &[u8]) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
-- 
2.43.0


From cb1ed64a42e4ea12a2c37835e9b1f3f6fcae4f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 32/52] fix: an index lookup passes over entries whose document
 is gone instead of ending

---
 src/polodb_core/vm/vm.rs | 55 ++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/src/polodb_core/vm/vm.rs b/src/polodb_core/vm/vm.rs
index 057796c..104bf9e 100644
--- a/src/polodb_core/vm/vm.rs
+++ b/src/polodb_core/vm/vm.rs
@@ -192,14 +192,16 @@ impl VM {
 
         let index_value = self.read_index_value_by_index_key(key.as_ref())?;
 
+        self.metrics.add_find_by_index_count();
+
         if index_value.is_none() {
-            return Ok(false);
+            // the document was removed in the meantime, there may be others
+            self.next_index_value()?;
+            return Ok(self.r0 != 0);
         }
 
         self.stack.push(index_value.unwrap());
 
-        self.metrics.add_find_by_index_count();
-
         Ok(true)
     }
 
@@ -256,36 +258,33 @@ impl VM {
     }
 
     fn next_index_value(&mut self) -> Result<()> {
-        let cursor = self.r1.as_mut().unwrap();
-        cursor.next()?;
-        let current_key = cursor.peek_key();
-        if current_key.is_none() {
-            self.r0 = 0;
-            return Ok(());
-        }
+        loop {
+            let cursor = self.r1.as_mut().unwrap();
+            cursor.next()?;
+            let current_key = cursor.peek_key();
+            if current_key.is_none() {
+                self.r0 = 0;
+                return Ok(());
+            }
 
-        let index_value = self.index_value.as_ref().expect("index_value must exist");
+            let index_value = self.index_value.as_ref().expect("index_value must exist");
 
-        let key_buffer =
-            make_index_key_with_query_key(cursor.prefix_bytes.as_slice(), index_value)?;
+            let key_buffer =
+                make_index_key_with_query_key(cursor.prefix_bytes.as_slice(), index_value)?;
 
-        let current_key = current_key.unwrap();
-        if !current_key.starts_with(key_buffer.as_slice()) {
-            self.r0 = 0;
-            return Ok(());
-        }
+            let current_key = current_key.unwrap();
+            if !current_key.starts_with(key_buffer.as_slice()) {
+                self.r0 = 0;
+                return Ok(());
+            }
 
-        let value_opt = self.read_index_value_by_index_key(current_key.as_ref())?;
-        if value_opt.is_none() {
-            self.r0 = 0;
-            return Ok(());
+            // skip a document that was removed in the meantime
+            if let Some(value) = self.read_index_value_by_index_key(current_key.as_ref())? {
+                self.stack.push(value);
+                self.r0 = 1;
+                return Ok(());
+            }
         }
-
-        self.stack.push(value_opt.unwrap());
-
-        self.r0 = 1;
-
-        Ok(())
     }
 
     pub(crate) fn stack_top(&self) -> &Bson {
-- 
2.43.0


From 070f26870030fb9efce314ad3a6ee96a25b2866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 33/52] fix: two overlapping transactions cannot both take a
 unique value

---
 src/polodb_core/db/rocksdb_transaction.rs | 31 +++++++++++++++++++++++
 src/polodb_core/index/index_helper.rs     |  3 +++
 2 files changed, 34 insertions(+)

diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index cd718ba..7bec055 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -75,6 +75,13 @@ impl RocksDBTransaction {
         inner.get(key)
     }
 
+    /// Locks a key until the end of the transaction. Several transactions can
+    /// hold a key which none of them has locked exclusively.
+    pub fn lock(&self, key: &[u8], exclusive: bool) -> Result<()> {
+        let inner = self.inner.lock().unwrap();
+        inner.lock(key, exclusive)
+    }
+
     pub fn delete(&self, key: &[u8]) -> Result<()> {
         let inner = self.inner.lock().unwrap();
         inner.delete(key)
@@ -183,6 +190,30 @@ impl RocksDBTransactionInner {
         }
     }
 
+    pub fn lock(&self, key: &[u8], exclusive: bool) -> Result<()> {
+        unsafe {
+            let mut err: *mut c_char = ptr::null_mut();
+            let mut value_len: usize = 0;
+
+            let value = ffi::rocksdb_transaction_get_for_update(
+                self.inner,
+                self.read_options.get(),
+                key.as_ptr().cast::<c_char>(),
+                key.len(),
+                &mut value_len,
+                exclusive as u8,
+                &mut err,
+            );
+
+            if !value.is_null() {
+                ffi::rocksdb_free(value.cast::<libc::c_void>());
+            }
+
+            check_err!(err);
+            Ok(())
+        }
+    }
+
     pub fn delete(&self, key: &[u8]) -> Result<()> {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
diff --git a/src/polodb_core/index/index_helper.rs b/src/polodb_core/index/index_helper.rs
index 000c1be..43b19b8 100644
--- a/src/polodb_core/index/index_helper.rs
+++ b/src/polodb_core/index/index_helper.rs
@@ -143,6 +143,9 @@ impl<'b, 'c, 'd, 'e> IndexHelper<'b, 'c, 'd, 'e> {
             None,
         )?;
 
+        // nobody else can take the value between this check and the commit
+        txn.rocksdb_txn.lock(&index_key_tester, true)?;
+
         let cursor = txn.rocksdb_txn.new_iterator();
         cursor.seek(&index_key_tester);
 
-- 
2.43.0


From facf951f2f0aa9cd367763c55b0532ce3f93a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 34/52] fix: collections and indexes cannot be changed under a
 write that is going on

---
 src/polodb_core/db/db_inner.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 8f05f5b..436b4c6 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -121,6 +121,17 @@ impl DatabaseInner {
         Ok(entry)
     }
 
+    /// Until the transaction ends, the indexes of the collection and its
+    /// existence cannot be changed by others (shared), or nobody else can write
+    /// to the collection (exclusive).
+    fn lock_collection(txn: &TransactionInner, name: &str, exclusive: bool) -> Result<()> {
+        let stacked_key = crate::utils::bson::stacked_key(&[
+            Bson::String(TABLE_META_PREFIX.to_string()),
+            Bson::String(name.to_string()),
+        ])?;
+        txn.rocksdb_txn.lock(stacked_key.as_slice(), exclusive)
+    }
+
     pub fn get_collection_meta_by_name_advanced_auto(
         &self,
         name: &str,
@@ -330,6 +341,8 @@ impl DatabaseInner {
 
         let index_info = index_info.unwrap();
 
+        DatabaseInner::lock_collection(txn, col_name, true)?;
+
         let mut builder = IndexBuilder::new(
             txn,
             col_name,
@@ -430,6 +443,7 @@ impl DatabaseInner {
     fn insert_one_internal(&self, txn: &TransactionInner, col_name: &str, doc: Document, node_id: &[u8; 6]) -> Result<InsertOneResult> {
         let col_meta = self.get_collection_meta_by_name_advanced(txn, col_name, true, node_id)?
             .expect("internal: meta must exist");
+        DatabaseInner::lock_collection(txn, col_name, false)?;
         let (result, _) = self.insert_one_with_meta(txn, col_meta, doc)?;
         Ok(result)
     }
@@ -502,6 +516,7 @@ impl DatabaseInner {
     ) -> Result<InsertManyResult> {
         let mut col_spec = self.get_collection_meta_by_name_advanced(txn, col_name, true, node_id)?
             .expect("internal: meta must exist");
+        DatabaseInner::lock_collection(txn, col_name, false)?;
         let mut inserted_ids: HashMap<usize, Bson> = HashMap::new();
 
         for (counter, item) in docs.into_iter().enumerate() {
@@ -590,6 +605,8 @@ impl DatabaseInner {
 
         let result = match &meta_opt {
             Some(col_spec) => {
+                DatabaseInner::lock_collection(txn, col_name, false)?;
+
                 let subprogram = SubProgram::compile_update(
                     col_spec,
                     &query,
@@ -665,6 +682,7 @@ impl DatabaseInner {
             Err(Error::CollectionNotFound(_)) => return Ok(()),
             Err(err) => return Err(err),
         };
+        DatabaseInner::lock_collection(txn, col_name, true)?;
 
         // Delete content begin
         let subprogram = SubProgram::compile_delete_all(
@@ -721,6 +739,7 @@ impl DatabaseInner {
             return Ok(0);
         }
         let col_spec = col_spec.unwrap();
+        DatabaseInner::lock_collection(txn, col_name, false)?;
 
         let subprogram = SubProgram::compile_delete(
             &col_spec,
@@ -747,6 +766,7 @@ impl DatabaseInner {
             Err(Error::CollectionNotFound(_)) => return Ok(0),
             Err(err) => return Err(err),
         };
+        DatabaseInner::lock_collection(txn, col_name, false)?;
 
         // Delete content begin
         let subprogram = SubProgram::compile_delete_all(
-- 
2.43.0


From d6bc4c260594de4f32acbf2fd919bea2ff771963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 35/52] fix: $addFields computes every field from the incoming
 document

---
 src/polodb_core/vm/vm_add_fields.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polodb_core/vm/vm_add_fields.rs b/src/polodb_core/vm/vm_add_fields.rs
index b4ce2fb..da80fd2 100644
--- a/src/polodb_core/vm/vm_add_fields.rs
+++ b/src/polodb_core/vm/vm_add_fields.rs
@@ -72,17 +72,19 @@ impl VmExternalFunc for VmFuncAddFields {
         if arg0.as_null().is_some() {
             return Ok(VmExternalFuncStatus::Continue);
         }
-        let mut doc = match arg0 {
-            Bson::Document(doc) => doc.clone(),
+        let input = match arg0 {
+            Bson::Document(doc) => doc,
             _ => return Err(Error::UnknownAggregationOperation("Invalid argument for $addFields".to_string())),
         };
+        let mut doc = input.clone();
+        // every field is computed from the incoming document
         for (k, v) in &self.fields {
             let value = match v {
                 OperatorExpr::Expr(op) => op.next(arg0),
                 OperatorExpr::Constant(v) => v.clone(),
                 OperatorExpr::Alias(alias) => {
                     let alias = alias.as_str();
-                    doc.get(alias).cloned().unwrap_or(Bson::Null)
+                    input.get(alias).cloned().unwrap_or(Bson::Null)
                 }
             };
             doc.insert(k.clone(), value);
-- 
2.43.0


From d7100dd7639ac49f8ef1ad10d3a78d198b4bb9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 36/52] fix: an empty aggregation stage is refused instead of
 panicking

---
 src/polodb_core/vm/codegen.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/polodb_core/vm/codegen.rs b/src/polodb_core/vm/codegen.rs
index f5d18d1..c482adb 100644
--- a/src/polodb_core/vm/codegen.rs
+++ b/src/polodb_core/vm/codegen.rs
@@ -1042,10 +1042,7 @@ impl Codegen {
         let stage = &pipeline[index];
         let stage_ctx_item = &ctx.items[index];
         let stage_num = format!("{}", index);
-        if stage.is_empty() {
-            return Ok(());
-        }
-        if stage.len() > 1 {
+        if stage.len() != 1 {
             return Err(Error::InvalidAggregationStage(Box::new(stage.clone())));
         }
 
@@ -1166,7 +1163,7 @@ impl Codegen {
     ) -> Result<()> {
         for stage_doc in pipeline {
             if stage_doc.is_empty() {
-                return Ok(());
+                return Err(Error::InvalidAggregationStage(Box::new(stage_doc.clone())));
             }
 
             let label = self.new_label();
-- 
2.43.0


From ff9a323b3d95e2368499ce60b8336a485ee3325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 37/52] fix: a document that does not fit the asked type is an
 error of the cursor

---
 src/polodb_core/db/client_cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/db/client_cursor.rs b/src/polodb_core/db/client_cursor.rs
index 6507fe5..82b8521 100644
--- a/src/polodb_core/db/client_cursor.rs
+++ b/src/polodb_core/db/client_cursor.rs
@@ -82,7 +82,7 @@ impl<T> Iterator for ClientCursor<T>
         match test {
             Ok(false) => None,
             Ok(true) => {
-                Some(Ok(bson::from_bson(self.get().clone()).unwrap()))
+                Some(self.deserialize_current())
             }
             Err(err) =>{
                 Some(Err(err))
-- 
2.43.0


From 7e950ebc3ea660937dd294963d56557d1fa70bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 38/52] fix: $regex matches the string itself, not its quoted
 rendering

---
 src/polodb_core/vm/query_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb_core/vm/query_matcher.rs b/src/polodb_core/vm/query_matcher.rs
index df76a3a..e097602 100644
--- a/src/polodb_core/vm/query_matcher.rs
+++ b/src/polodb_core/vm/query_matcher.rs
@@ -55,7 +55,7 @@ pub(super) fn validate_membership_candidates(candidates: &[Bson]) -> Result<()>
 
 pub(super) fn matches_regex(field_value: &Bson, expression: &Regex) -> Result<bool> {
     let regex = compile_regex(expression)?;
-    Ok(regex.is_match(&field_value.to_string()))
+    Ok(matches_compiled_regex(field_value, &regex))
 }
 
 fn matches_compiled_regex(field_value: &Bson, regex: &CompiledRegex) -> bool {
-- 
2.43.0


From 400c039ff9af026b1227c393a95798c36a0ceb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 39/52] fix: a message section of an unknown kind is refused
 instead of read as a document sequence

---
 src/polodb/wire/message.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index fa196d3..d9b17cb 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -419,6 +419,10 @@ impl MessageSection {
             return Ok(MessageSection::Document(document));
         }
 
+        if payload_type != 1 {
+            return Err(anyhow!("unknown payload type of a section: {}", payload_type));
+        }
+
         let size = Checked::<usize>::try_from(reader.read_i32_sync()?)?;
         let mut length_remaining = size - std::mem::size_of::<i32>();
 
-- 
2.43.0


From 4246d87b0cefd1eacfa4b228f792fd1e12c1b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 40/52] fix: the size of a document sequence no longer
 allocates memory the message does not fill

---
 src/polodb/wire/message.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index d9b17cb..ba5512f 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -426,8 +426,15 @@ impl MessageSection {
         let size = Checked::<usize>::try_from(reader.read_i32_sync()?)?;
         let mut length_remaining = size - std::mem::size_of::<i32>();
 
-        let mut remain_buffer = vec![0u8; length_remaining.get()?];
-        reader.read_exact(&mut remain_buffer)?;
+        // the size is the sender's claim: take no more than there is
+        let mut remain_buffer = Vec::new();
+        reader.by_ref().take(length_remaining.get()? as u64).read_to_end(&mut remain_buffer)?;
+        if remain_buffer.len() != length_remaining.get()? {
+            return Err(anyhow!(
+                "the section is said to be {} bytes long, but the message ends before",
+                size,
+            ));
+        }
 
         let mut buf_slice = remain_buffer.as_slice();
         let reader = &mut buf_slice;
-- 
2.43.0


From f161656904af2f6f29ac64ef491845bc9f836c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 41/52] fix: the identifier of a document sequence does not
 include its terminator

---
 src/polodb/wire/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index ba5512f..ee71619 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -445,12 +445,12 @@ impl MessageSection {
         let mut identifier = Vec::<u8>::new();
         loop {
             let c: u8 = reader.read_u8_sync()?;
-            identifier.push(c);
             length_remaining -= 1;
 
             if c == 0 {
                 break;
             }
+            identifier.push(c);
         }
 
         let mut documents = Vec::new();
-- 
2.43.0


From 8d2b62bc27a90c427e4468e6f0d2734c1eb4b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 42/52] fix: a message without the checksum its flags announce
 is refused

---
 src/polodb/wire/message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/polodb/wire/message.rs b/src/polodb/wire/message.rs
index ee71619..90a6d64 100644
--- a/src/polodb/wire/message.rs
+++ b/src/polodb/wire/message.rs
@@ -254,6 +254,8 @@ impl Message {
 
         if length_remaining.get()? == 4 && flags.contains(MessageFlags::CHECKSUM_PRESENT) {
             checksum = Some(reader.read_u32_sync()?);
+        } else if flags.contains(MessageFlags::CHECKSUM_PRESENT) {
+            return Err(anyhow!("the checksum of the message is missing"));
         } else if length_remaining.get()? != 0 {
             let header_len = Checked::<usize>::try_from(header.length)?;
             return Err(anyhow!(
-- 
2.43.0


From 30f438c03a3092108801065d25aa0917491496a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:10 +0000
Subject: [PATCH 43/52] fix: the insert command stores documents sent in the
 command itself

---
 src/polodb/handlers/insert_handler.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/polodb/handlers/insert_handler.rs b/src/polodb/handlers/insert_handler.rs
index 61486d3..8eb642c 100644
--- a/src/polodb/handlers/insert_handler.rs
+++ b/src/polodb/handlers/insert_handler.rs
@@ -52,6 +52,14 @@ impl Handler for InsertHandler {
         let db = ctx.app_context.db();
 
         let mut batch_insert = Vec::<bson::Document>::new();
+        // the documents come in the command itself or as document sequences
+        if let Some(documents) = doc.get("documents")? {
+            let documents = documents.as_array().ok_or(anyhow!("documents field is not an array"))?;
+            for d in documents.into_iter() {
+                let d = d?.as_document().ok_or(anyhow!("document to insert is not a document"))?;
+                batch_insert.push(bson::from_slice::<bson::Document>(d.as_bytes())?);
+            }
+        }
         for doc_seq in ctx.message.document_sequences.as_slice() {
             for doc in doc_seq.documents.as_slice() {
                 let d = bson::from_slice::<bson::Document>(doc.as_bytes())?;
-- 
2.43.0


From d01f84775755bcb58b36583d317a69e1b67e504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 44/52] fix: a line diff reports differences apart from each
 other at their own places

---
 src/polodb_line_diff/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/polodb_line_diff/lib.rs b/src/polodb_line_diff/lib.rs
index 3b51d60..115fde9 100644
--- a/src/polodb_line_diff/lib.rs
+++ b/src/polodb_line_diff/lib.rs
@@ -181,6 +181,11 @@ impl std::fmt::Display for Diff {
 
 }
 
+/// whether the first of the lines is the one with the index, i.e. directly follows the one before it
+fn starts_at(lines: &LinkedList<Line>, index: usize) -> bool {
+    lines.front().map(Line::index) == Some(index)
+}
+
 fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i: usize, mut j: usize) -> Vec<Diff> {
     let mut result: Vec<Diff> = vec![];
     while i > 0 || j > 0 {
@@ -202,7 +207,7 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
                 let in_line = Line::new(j - 1, b_lines[j - 1].into());
                 let de_line = Line::new(i - 1, a_lines[i - 1].into());
                 if let Some(last) = result.last_mut() {
-                    if last.op == DiffOp::Replace {
+                    if last.op == DiffOp::Replace && starts_at(&last.in_lines, j) {
                         last.in_lines.push_front(in_line);
                         last.de_lines.push_front(de_line);
 
@@ -233,7 +238,7 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
                 let in_line = Line::new(j - 1, b_lines[j - 1].into());
 
                 if let Some(last) = result.last_mut() {
-                    if last.op == DiffOp::Insert {
+                    if last.op == DiffOp::Insert && starts_at(&last.in_lines, j) {
                         last.in_lines.push_front(in_line);
                         j -= 1;
                         continue;
@@ -257,7 +262,7 @@ fn backtracking(matrix: &[Vec<Item>], a_lines: &[&str], b_lines: &[&str], mut i:
                 let de_line = Line::new(i - 1, a_lines[i - 1].into());
 
                 if let Some(last) = result.last_mut() {
-                    if last.op == DiffOp::Delete {
+                    if last.op == DiffOp::Delete && starts_at(&last.de_lines, i) {
                         last.de_lines.push_front(de_line);
                         i -= 1;
                         continue;
-- 
2.43.0


From ea479735eac77f81d941f8b56398bc17286db7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 45/52] fix: a cursor does not touch its transaction's changes
 after these were released

---
 src/polodb_core/db/rocksdb_iterator.rs    | 28 +++++++++++++++++++++++
 src/polodb_core/db/rocksdb_transaction.rs |  6 +++++
 2 files changed, 34 insertions(+)

diff --git a/src/polodb_core/db/rocksdb_iterator.rs b/src/polodb_core/db/rocksdb_iterator.rs
index 10950b7..19cfa09 100644
--- a/src/polodb_core/db/rocksdb_iterator.rs
+++ b/src/polodb_core/db/rocksdb_iterator.rs
@@ -74,6 +74,7 @@ impl RocksDBIterator {
 pub(crate) struct RocksDBIteratorInner {
     inner: *mut ffi::rocksdb_iterator_t,
     txn_inner: *mut RocksDBTransactionInner,
+    end_count: u64,
 }
 
 unsafe impl Send for RocksDBIteratorInner {}
@@ -90,41 +91,68 @@ impl RocksDBIteratorInner {
             RocksDBIteratorInner {
                 inner: iter,
                 txn_inner,
+                end_count: (*txn_inner).end_count.load(Ordering::SeqCst),
             }
         }
     }
 
+    /// An iterator cannot be used any more when its transaction has been
+    /// committed or rolled back.
+    fn is_outdated(&self) -> bool {
+        unsafe {
+            (*self.txn_inner).end_count.load(Ordering::SeqCst) != self.end_count
+        }
+    }
+
     pub fn seek_to_first(&self) {
+        if self.is_outdated() {
+            return;
+        }
         unsafe {
             ffi::rocksdb_iter_seek_to_first(self.inner);
         }
     }
 
     pub fn seek(&self, key: &[u8]) {
+        if self.is_outdated() {
+            return;
+        }
         unsafe {
             ffi::rocksdb_iter_seek(self.inner, key.as_ptr().cast::<c_char>(), key.len());
         }
     }
 
     pub fn valid(&self) -> bool {
+        if self.is_outdated() {
+            return false;
+        }
         unsafe {
             ffi::rocksdb_iter_valid(self.inner) != 0
         }
     }
 
     pub fn next(&self) {
+        if self.is_outdated() {
+            return;
+        }
         unsafe {
             ffi::rocksdb_iter_next(self.inner);
         }
     }
 
     pub fn prev(&self) {
+        if self.is_outdated() {
+            return;
+        }
         unsafe {
             ffi::rocksdb_iter_prev(self.inner);
         }
     }
 
     pub fn error(&self) -> Result<()> {
+        if self.is_outdated() {
+            return Err(crate::Error::NoTransactionStarted);
+        }
         unsafe {
             let mut err: *mut c_char = null_mut();
             ffi::rocksdb_iter_get_error(self.inner, &mut err);
diff --git a/src/polodb_core/db/rocksdb_transaction.rs b/src/polodb_core/db/rocksdb_transaction.rs
index 7bec055..317de64 100644
--- a/src/polodb_core/db/rocksdb_transaction.rs
+++ b/src/polodb_core/db/rocksdb_transaction.rs
@@ -106,6 +106,9 @@ pub(crate) struct RocksDBTransactionInner {
     pub(crate) inner: *mut ffi::rocksdb_transaction_t,
     db_inner: *mut RocksDBWrapperInner,
     pub(crate) iter_count: AtomicU64,
+    /// how often the changes have been committed or rolled back, which
+    /// releases the memory the open iterators refer to
+    pub(crate) end_count: AtomicU64,
 }
 
 unsafe impl Send for RocksDBTransactionInner {}
@@ -135,6 +138,7 @@ impl RocksDBTransactionInner {
                 inner,
                 db_inner,
                 iter_count: AtomicU64::new(0),
+                end_count: AtomicU64::new(0),
             })
         }
     }
@@ -234,6 +238,7 @@ impl RocksDBTransactionInner {
         unsafe {
             let mut err: *mut c_char = ptr::null_mut();
             ffi::rocksdb_transaction_rollback(self.inner, &mut err);
+            self.end_count.fetch_add(1, Ordering::SeqCst);
 
             check_err!(err);
             Ok(())
@@ -245,6 +250,7 @@ impl RocksDBTransactionInner {
             let mut err: *mut c_char = ptr::null_mut();
 
             ffi::rocksdb_transaction_commit(self.inner, &mut err);
+            self.end_count.fetch_add(1, Ordering::SeqCst);
 
             check_err!(err);
             Ok(())
-- 
2.43.0


From 31749b233317ebc5668c670578d595491195421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 46/52] fix: the store stays open until the last transaction
 and cursor are dropped

---
 src/polodb_core/db/db_inner.rs                   | 3 ++-
 src/polodb_core/db/mod.rs                        | 1 +
 src/polodb_core/transaction/transaction_inner.rs | 7 ++++++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/polodb_core/db/db_inner.rs b/src/polodb_core/db/db_inner.rs
index 436b4c6..bf8a6c9 100644
--- a/src/polodb_core/db/db_inner.rs
+++ b/src/polodb_core/db/db_inner.rs
@@ -90,7 +90,8 @@ impl DatabaseInner {
     }
 
     pub fn start_transaction(&self) -> Result<TransactionInner> {
-        Ok(TransactionInner::new(self.rocksdb.begin_isolated_transaction()?))
+        let rocksdb_txn = self.rocksdb.begin_isolated_transaction()?;
+        Ok(TransactionInner::new(self.rocksdb.clone(), rocksdb_txn))
     }
 
     /// A transaction for a read operation. All of its reads see the same state,
diff --git a/src/polodb_core/db/mod.rs b/src/polodb_core/db/mod.rs
index a9933a8..80130ce 100644
--- a/src/polodb_core/db/mod.rs
+++ b/src/polodb_core/db/mod.rs
@@ -22,4 +22,5 @@ mod rocksdb_options;
 
 pub use db::{Database, Result};
 pub(crate) use rocksdb_transaction::RocksDBTransaction;
+pub(crate) use rocksdb_wrapper::RocksDBWrapper;
 pub(crate) use rocksdb_iterator::RocksDBIterator;
diff --git a/src/polodb_core/transaction/transaction_inner.rs b/src/polodb_core/transaction/transaction_inner.rs
index dacac74..d14cc2d 100644
--- a/src/polodb_core/transaction/transaction_inner.rs
+++ b/src/polodb_core/transaction/transaction_inner.rs
@@ -13,19 +13,24 @@
 // limitations under the License.
 
 use crate::db::RocksDBTransaction;
+use crate::db::RocksDBWrapper;
 
 #[derive(Clone)]
 pub(crate) struct TransactionInner {
     pub(crate) rocksdb_txn: RocksDBTransaction,
     auto_commit: bool,
+    // keeps the store open as long as the transaction exists, so it has to be
+    // dropped after it
+    _rocksdb: RocksDBWrapper,
 }
 
 impl TransactionInner {
 
-    pub fn new(rocksdb_txn: RocksDBTransaction) -> TransactionInner {
+    pub fn new(rocksdb: RocksDBWrapper, rocksdb_txn: RocksDBTransaction) -> TransactionInner {
         TransactionInner {
             rocksdb_txn,
             auto_commit: true,
+            _rocksdb: rocksdb,
         }
     }
 
-- 
2.43.0


From 48c0c867a80c483a14099db0649a7f1bf8b34fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 47/52] fix: the Python binding refuses integers beyond 64 bits
 instead of rounding them to floats

---
 py-polodb/src/helper_type_translator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index 3574c77..00d3e79 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -2,7 +2,7 @@ use polodb_core::bson::{Bson, Document};
 use polodb_core::results;
 use pyo3::prelude::*;
 use pyo3::types::PyDict;
-use pyo3::types::{PyAny, PyBool, PyBytes, PyFloat, PyList, PyString};
+use pyo3::types::{PyAny, PyBool, PyBytes, PyFloat, PyInt, PyList, PyString};
 use pyo3::IntoPyObjectExt;
 
 pub fn convert_py_list_to_vec_document(py_list: &Bound<'_, PyList>) -> PyResult<Vec<Document>> {
@@ -33,6 +33,9 @@ pub fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>) -> PyResult<Bson> {
         Ok(Bson::String(rust_string))
     } else if let Ok(rust_bool) = py_obj.extract::<bool>() {
         Ok(Bson::Boolean(rust_bool))
+    } else if py_obj.is_instance_of::<PyInt>() {
+        // An integer which does not fit is refused: as a float it would be another number
+        Ok(Bson::Int64(py_obj.extract::<i64>()?))
     } else if let Ok(rust_int) = py_obj.extract::<i64>() {
         Ok(Bson::Int64(rust_int))
     } else if let Ok(rust_float) = py_obj.extract::<f64>() {
-- 
2.43.0


From 1c122b7bb412a88c3ae684d408e02d29ced7093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 48/52] fix: an error while results are read is raised in
 Python instead of a panic

---
 py-polodb/src/py_database.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/py-polodb/src/py_database.rs b/py-polodb/src/py_database.rs
index 160142f..e4ae2d8 100644
--- a/py-polodb/src/py_database.rs
+++ b/py-polodb/src/py_database.rs
@@ -143,9 +143,13 @@ impl PyCollection {
         let pipeline_documents = convert_py_list_to_vec_document(pipeline.bind(py))?;
         match self.inner.aggregate(pipeline_documents).run() {
             Ok(agg_cursor) => {
-                let vec_res: Vec<Py<PyDict>> = agg_cursor
-                    .map(|x| document_to_pydict(py, x.unwrap()).unwrap())
-                    .collect();
+                let mut vec_res: Vec<Py<PyDict>> = Vec::new();
+                for item in agg_cursor {
+                    let doc = item.map_err(|e| {
+                        PyRuntimeError::new_err(format!("Error in Aggregate {}", e))
+                    })?;
+                    vec_res.push(document_to_pydict(py, doc)?);
+                }
                 vec_res.into_py_any(py)
             }
             Err(e) => Err(PyErr::new::<pyo3::exceptions::PyRuntimeError, _>(format!(
@@ -180,9 +184,12 @@ impl PyCollection {
         match self.inner.find(filter_doc).run() {
             Ok(result_doc) => {
                 // Convert BSON Document to Python Dict
-                let py_result: Vec<Py<PyDict>> = result_doc
-                    .map(|x| document_to_pydict(py, x.unwrap()).unwrap())
-                    .collect();
+                let mut py_result: Vec<Py<PyDict>> = Vec::new();
+                for item in result_doc {
+                    let doc = item
+                        .map_err(|e| PyRuntimeError::new_err(format!("Find error: {}", e)))?;
+                    py_result.push(document_to_pydict(py, doc)?);
+                }
                 // let py_result = document_to_pydict(py, result_doc).unwrap();
                 Ok(Some(py_result.into_py_any(py)?))
             }
-- 
2.43.0


From 290513f5abdb2b3e9348e3b23b1eea45c5453aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 49/52] fix: dates and regular expressions reach Python whole,
 what Python cannot hold is an exception instead of a panic

---
 py-polodb/src/helper_type_translator.rs | 47 +++++++++++++++++--------
 py-polodb/src/py_database.rs            |  6 ++--
 2 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index 00d3e79..8d22778 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -88,17 +88,17 @@ pub fn update_result_to_pydict(
 pub fn document_to_pydict(py: Python<'_>, doc: Document) -> PyResult<Py<PyDict>> {
     let py_dict = PyDict::new(py);
     for (key, value) in doc {
-        let py_value = bson_to_py_obj(py, &value);
+        let py_value = bson_to_py_obj(py, &value)?;
         py_dict.set_item(key, py_value)?;
     }
     Ok(py_dict.into())
 }
 
-pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
-    match bson {
+pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> PyResult<Py<PyAny>> {
+    let obj = match bson {
         Bson::Null => py.None(),
-        Bson::Int32(i) => i.into_py_any(py).unwrap(),
-        Bson::Int64(i) => i.into_py_any(py).unwrap(),
+        Bson::Int32(i) => i.into_py_any(py)?,
+        Bson::Int64(i) => i.into_py_any(py)?,
         Bson::Double(f) => PyFloat::new(py, *f).into_any().unbind(),
         Bson::String(s) => PyString::new(py, s).into_any().unbind(),
         Bson::Boolean(b) => PyBool::new(py, *b).to_owned().into_any().unbind(),
@@ -106,34 +106,50 @@ pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
             // Create an empty PyList without specifying a slice
             let py_list = PyList::empty(py);
             for item in arr {
-                py_list.append(bson_to_py_obj(py, item)).unwrap();
+                py_list.append(bson_to_py_obj(py, item)?)?;
             }
             py_list.into_any().unbind()
         }
         Bson::Document(doc) => {
             let py_dict = PyDict::new(py);
             for (key, value) in doc.iter() {
-                py_dict.set_item(key, bson_to_py_obj(py, value)).unwrap();
+                py_dict.set_item(key, bson_to_py_obj(py, value)?)?;
             }
             py_dict.into_any().unbind()
         }
         Bson::RegularExpression(regex) => {
-            let re_module = py.import("re").unwrap();
+            let re_module = py.import("re")?;
+            let mut flags = 0i64;
+            for option in regex.options.chars() {
+                flags |= match option {
+                    'i' => re_module.getattr("IGNORECASE")?.extract::<i64>()?,
+                    'm' => re_module.getattr("MULTILINE")?.extract::<i64>()?,
+                    's' => re_module.getattr("DOTALL")?.extract::<i64>()?,
+                    'x' => re_module.getattr("VERBOSE")?.extract::<i64>()?,
+                    _ => 0,
+                };
+            }
             re_module
-                .call_method1("compile", (regex.pattern.as_str(),))
-                .unwrap()
+                .call_method1("compile", (regex.pattern.as_str(), flags))?
                 .into_any()
                 .unbind()
         }
         // Handle JavaScript code
         Bson::JavaScriptCode(code) => PyString::new(py, code).into_any().unbind(),
-        Bson::Timestamp(ts) => (ts.time, ts.increment).into_py_any(py).unwrap(),
+        Bson::Timestamp(ts) => (ts.time, ts.increment).into_py_any(py)?,
         Bson::Binary(bin) => PyBytes::new(py, &bin.bytes).into_any().unbind(),
         Bson::ObjectId(oid) => PyString::new(py, &oid.to_hex()).into_any().unbind(),
         Bson::DateTime(dt) => {
-            let timestamp = dt.timestamp_millis() / 1000;
-            let datetime = py.import("datetime").unwrap().getattr("datetime").unwrap();
-            datetime.call1((timestamp,)).unwrap().into_any().unbind()
+            // epoch + timedelta(milliseconds=...): exact, also before 1970
+            let module = py.import("datetime")?;
+            let utc = module.getattr("timezone")?.getattr("utc")?;
+            let epoch = module
+                .getattr("datetime")?
+                .call_method1("fromtimestamp", (0i64, utc))?;
+            let delta = module
+                .getattr("timedelta")?
+                .call1((0i64, 0i64, 0i64, dt.timestamp_millis()))?;
+            epoch.add(delta)?.unbind()
         }
         Bson::Symbol(s) => PyString::new(py, s).into_any().unbind(),
 
@@ -147,5 +163,6 @@ pub fn bson_to_py_obj(py: Python<'_>, bson: &Bson) -> Py<PyAny> {
         Bson::MinKey => py.None(),
 
         _ => py.None(), // Handle other BSON types as needed
-    }
+    };
+    Ok(obj)
 }
diff --git a/py-polodb/src/py_database.rs b/py-polodb/src/py_database.rs
index e4ae2d8..3108af6 100644
--- a/py-polodb/src/py_database.rs
+++ b/py-polodb/src/py_database.rs
@@ -76,7 +76,7 @@ impl PyCollection {
             Ok(result) => {
                 let dict = PyDict::new(py);
                 for (key, value) in &result.inserted_ids {
-                    dict.set_item(key, bson_to_py_obj(py, value))?;
+                    dict.set_item(key, bson_to_py_obj(py, value)?)?;
                 }
                 Ok(dict.into_any().unbind())
             }
@@ -101,7 +101,7 @@ impl PyCollection {
         };
         match self.inner.insert_one(bson_doc) {
             Ok(result) => {
-                let py_inserted_id = bson_to_py_obj(py, &result.inserted_id);
+                let py_inserted_id = bson_to_py_obj(py, &result.inserted_id)?;
                 let dict = PyDict::new(py);
                 dict.set_item("inserted_id", py_inserted_id)?;
                 Ok(dict.into_any().unbind())
@@ -166,7 +166,7 @@ impl PyCollection {
         match self.inner.find_one(filter_doc) {
             Ok(Some(result_doc)) => {
                 // Convert BSON Document to Python Dict
-                let py_result = document_to_pydict(py, result_doc).unwrap();
+                let py_result = document_to_pydict(py, result_doc)?;
                 Ok(Some(py_result.into_any()))
             }
             Ok(None) => Ok(None), // Return None if no document is found
-- 
2.43.0


From 0e42f79d15f6539f41fcb93cc38bed75f917dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 50/52] fix: create_collection reports its failure to Python

---
 py-polodb/src/py_database.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py-polodb/src/py_database.rs b/py-polodb/src/py_database.rs
index 3108af6..ccf4d6e 100644
--- a/py-polodb/src/py_database.rs
+++ b/py-polodb/src/py_database.rs
@@ -238,8 +238,11 @@ impl PyDatabase {
     }
 
     pub fn create_collection(&self, name: &str) -> PyResult<()> {
-        let _ = self.inner.lock().unwrap().create_collection(name);
-        Ok(())
+        self.inner
+            .lock()
+            .unwrap()
+            .create_collection(name)
+            .map_err(|e| PyRuntimeError::new_err(format!("Create collection error: {}", e)))
     }
 
     fn collection(&self, name: &str) -> PyResult<PyCollection> {
-- 
2.43.0


From 19ecf130657350763eefa66d27c81dc8433a4083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 51/52] fix: a with statement opens a Python database once and
 closes it at its end

---
 py-polodb/polodb/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py-polodb/polodb/core.py b/py-polodb/polodb/core.py
index e0de4ec..d32946f 100644
--- a/py-polodb/polodb/core.py
+++ b/py-polodb/polodb/core.py
@@ -9,11 +9,13 @@ class PoloDB:
         self.__rust_db = PyDatabase(self._path)
 
     def __enter__(self):
-        self.__rust_db = PyDatabase(self._path)
+        # Open since __init__: opening the same path again would be refused
+        if self.__rust_db is None:
+            self.__rust_db = PyDatabase(self._path)
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        pass
+        self.__rust_db = None
 
     def __getitem__(self, name):
         return self.collection(name)
-- 
2.43.0


From a2ac2642a8a1d51520829e9a3596de5f0d1c9342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 52/52] fix: a list or dict that contains itself is refused
 instead of overflowing the stack

---
 py-polodb/src/helper_type_translator.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/py-polodb/src/helper_type_translator.rs b/py-polodb/src/helper_type_translator.rs
index 8d22778..c3b35e1 100644
--- a/py-polodb/src/helper_type_translator.rs
+++ b/py-polodb/src/helper_type_translator.rs
@@ -28,7 +28,20 @@ pub fn convert_py_obj_to_document(py_obj: &Bound<'_, PyAny>) -> PyResult<Documen
     }
 }
 
+/// How deep lists and dicts may be nested. A list can contain itself: without a
+/// limit its conversion would not end before the stack does.
+const MAX_DEPTH: usize = 200;
+
 pub fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>) -> PyResult<Bson> {
+    convert_nested_to_bson(py_obj, 0)
+}
+
+fn convert_nested_to_bson(py_obj: &Bound<'_, PyAny>, depth: usize) -> PyResult<Bson> {
+    if depth > MAX_DEPTH {
+        return Err(PyErr::new::<pyo3::exceptions::PyValueError, _>(
+            "Python object is nested too deeply for BSON conversion",
+        ));
+    }
     if let Ok(rust_string) = py_obj.extract::<String>() {
         Ok(Bson::String(rust_string))
     } else if let Ok(rust_bool) = py_obj.extract::<bool>() {
@@ -44,14 +57,14 @@ pub fn convert_py_obj_to_bson(py_obj: &Bound<'_, PyAny>) -> PyResult<Bson> {
         let mut bson_doc = Document::new();
         for (key, value) in dict.iter() {
             let key_str: String = key.extract::<String>()?;
-            let bson_value = convert_py_obj_to_bson(&value)?;
+            let bson_value = convert_nested_to_bson(&value, depth + 1)?;
             bson_doc.insert(key_str, bson_value);
         }
         Ok(Bson::Document(bson_doc))
     } else if let Ok(list) = py_obj.cast::<PyList>() {
         let mut bson_array = Vec::new();
         for item in list.iter() {
-            bson_array.push(convert_py_obj_to_bson(&item)?);
+            bson_array.push(convert_nested_to_bson(&item, depth + 1)?);
         }
         Ok(Bson::Array(bson_array))
     } else {
-- 
2.43.0

