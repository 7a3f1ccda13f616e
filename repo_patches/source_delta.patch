From 268b07738ddd6fc3dbff8a0ae4224424f9607f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 01/15] fix: reject NameAndType descriptors that refer back to
 a NameAndType

Validating a method reference followed the descriptor reference of its
NameAndType recursively, so two NameAndType entries naming each other made the
parser overflow the stack (or deadlock with the threadsafe feature).
---
 src/constant_pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 3721b02..487711a 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -384,7 +384,13 @@ impl<'a> ConstantPoolEntry<'a> {
 
     fn validate_method_descriptor(&self) -> Result<(), ParseError> {
         match self {
-            ConstantPoolEntry::NameAndType(_, y) => peel!(y).validate_method_descriptor(),
+            ConstantPoolEntry::NameAndType(_, y) => {
+                if is_method_descriptor(peel!(y).str()?) {
+                    Ok(())
+                } else {
+                    fail!("Invalid method descriptor")
+                }
+            }
             _ => {
                 if is_method_descriptor(self.str()?) {
                     Ok(())
-- 
2.43.0


From a1cf76a51f2bc034cae0506984425397aa658d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 02/15] fix: reject NameAndType entries whose descriptor is not
 valid modified UTF-8

Such an entry was accepted when nothing referred to it, and made the constant
pool iterator (or an EnclosingMethod attribute naming it) panic.
---
 src/constant_pool.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 487711a..a818f2f 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -401,6 +401,15 @@ impl<'a> ConstantPoolEntry<'a> {
         }
     }
 
+    /// The name and descriptor of a NameAndType are exposed as strings even if no other entry refers
+    /// to it, so they must be representable as such.
+    fn validate_name_and_type_text(&self) -> Result<(), ParseError> {
+        match self {
+            ConstantPoolEntry::NameAndType(_, y) => peel!(y).str().map(|_| ()),
+            _ => Ok(()),
+        }
+    }
+
     fn utf8(&self) -> Cow<'a, str> {
         match self {
             ConstantPoolEntry::Utf8(x) => x.clone(),
@@ -651,6 +660,7 @@ fn validate_constant_pool(
     for (i, cp_entry) in constant_pool.iter().enumerate() {
         cp_entry
             .validate(major_version)
+            .and_then(|()| cp_entry.validate_name_and_type_text())
             .map_err(|e| err!(e, "constant pool entry {}", i))?;
     }
     Ok(())
-- 
2.43.0


From 52f683e287d1a3934b72e216ac9ccfe53c131f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 03/15] fix: compute the tableswitch range without overflow

A range of 2^31 or more entries overflowed: a panic in builds with overflow
checks, and a table silently accepted with no jumps (or a bogus error) without.
---
 src/bytecode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index b9758e2..f4f6f7c 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -500,7 +500,7 @@ fn read_opcodes<'a>(
                 if low > high {
                     fail!("The low value must be less than or equal to the high value in tableswitch at index {}", ix - 4);
                 }
-                let jump_count = match usize::try_from(high - low + 1) {
+                let jump_count = match usize::try_from(i64::from(high) - i64::from(low) + 1) {
                     Ok(n) => n,
                     _ => fail!(
                         "Unable to convert range to usize in tableswitch at index {}",
-- 
2.43.0


From 28479be165690d718fe56e996c99047ffcfdc0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 04/15] fix: reject jump offsets that overflow instead of
 panicking

A goto_w, jsr_w or switch offset close to i32::MAX overflowed the addition in
builds with overflow checks.
---
 src/bytecode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index f4f6f7c..e17a3cd 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -249,8 +249,10 @@ impl<'a> ByteCode<'a> {
     }
 
     fn validate_jump(&self, source_offset: i32, jump: JumpOffset) -> Result<(), ParseError> {
-        let target_offset = usize::try_from(source_offset + jump)
-            .map_err(|_| err!("Invalid destination after applying jump"))?;
+        let target_offset = source_offset
+            .checked_add(jump)
+            .and_then(|target| usize::try_from(target).ok())
+            .ok_or_else(|| err!("Invalid destination after applying jump"))?;
         if self.get_opcode_index(target_offset).is_none() {
             fail!("Invalid opcode offset after applying jump");
         }
-- 
2.43.0


From a8b30f216cd1fdebcb2a5e8bfea17e3c22fb891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 05/15] fix: do not preallocate more elements than the
 remaining input can hold

Counts read from the file were used as vector capacities unchecked: a few bytes
of tableswitch or lookupswitch could request up to 16 GiB and abort the process,
and each level of nested annotation arrays reserved several megabytes.
---
 src/attributes.rs    | 73 +++++++++++++++++++++++---------------------
 src/bytecode.rs      |  6 ++--
 src/constant_pool.rs |  4 +--
 src/lib.rs           | 13 ++++++--
 4 files changed, 53 insertions(+), 43 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index c320f57..0cf05c9 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -13,7 +13,9 @@ use crate::constant_pool::{
 };
 use crate::descriptors::{is_return_descriptor, parse_field_descriptor, FieldDescriptor};
 use crate::names::is_unqualified_name;
-use crate::{read_u1, read_u2, read_u4, AccessFlags, CafeRc, ParseError, ParseOptions};
+use crate::{
+    capacity_for, read_u1, read_u2, read_u4, AccessFlags, CafeRc, ParseError, ParseOptions,
+};
 
 #[derive(Debug)]
 pub struct ExceptionTableEntry<'a> {
@@ -382,7 +384,7 @@ fn read_code_data<'a>(
     let code = &bytes[*ix..*ix + code_length];
     *ix += code_length;
     let exception_table_count = read_u2(bytes, ix)?;
-    let mut exception_table = Vec::with_capacity(exception_table_count.into());
+    let mut exception_table = Vec::with_capacity(capacity_for(exception_table_count, bytes, *ix));
     for i in 0..exception_table_count {
         let start_pc = read_u2(bytes, ix)?;
         let end_pc = read_u2(bytes, ix)?;
@@ -446,7 +448,7 @@ fn read_stackmaptable_data<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Vec<StackMapEntry<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut stackmapframes = Vec::with_capacity(count.into());
+    let mut stackmapframes = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         let entry =
             match read_u1(bytes, ix)? {
@@ -494,7 +496,8 @@ fn read_stackmaptable_data<'a>(
                 v @ 252..=254 => {
                     let offset_delta = read_u2(bytes, ix)?;
                     let verification_count = v - 251;
-                    let mut locals = Vec::with_capacity(verification_count.into());
+                    let mut locals =
+                        Vec::with_capacity(capacity_for(verification_count, bytes, *ix));
                     for j in 0..verification_count {
                         locals.push(read_stackmaptable_verification(bytes, ix, pool).map_err(
                             |e| err!(e, "local entry {} of append stack map entry {}", j, i),
@@ -508,14 +511,14 @@ fn read_stackmaptable_data<'a>(
                 255 => {
                     let offset_delta = read_u2(bytes, ix)?;
                     let locals_count = read_u2(bytes, ix)?;
-                    let mut locals = Vec::with_capacity(locals_count.into());
+                    let mut locals = Vec::with_capacity(capacity_for(locals_count, bytes, *ix));
                     for j in 0..locals_count {
                         locals.push(read_stackmaptable_verification(bytes, ix, pool).map_err(
                             |e| err!(e, "local entry {} of full-frame stack map entry {}", j, i),
                         )?);
                     }
                     let stack_count = read_u2(bytes, ix)?;
-                    let mut stack = Vec::with_capacity(stack_count.into());
+                    let mut stack = Vec::with_capacity(capacity_for(stack_count, bytes, *ix));
                     for j in 0..stack_count {
                         stack.push(read_stackmaptable_verification(bytes, ix, pool).map_err(
                             |e| err!(e, "stack entry {} of full-frame stack map entry {}", j, i),
@@ -539,7 +542,7 @@ fn read_exceptions_data<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Vec<Cow<'a, str>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut exceptions = Vec::with_capacity(count.into());
+    let mut exceptions = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         let exception =
             read_cp_classinfo(bytes, ix, pool).map_err(|e| err!(e, "exception {}", i))?;
@@ -554,7 +557,7 @@ fn read_innerclasses_data<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Vec<InnerClassEntry<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut innerclasses = Vec::with_capacity(count.into());
+    let mut innerclasses = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         let inner_class_info = read_cp_classinfo(bytes, ix, pool)
             .map_err(|e| err!(e, "inner class info for inner class {}", i))?;
@@ -575,7 +578,7 @@ fn read_innerclasses_data<'a>(
 
 fn read_linenumber_data(bytes: &[u8], ix: &mut usize) -> Result<Vec<LineNumberEntry>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut linenumbers = Vec::with_capacity(count.into());
+    let mut linenumbers = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for _i in 0..count {
         let start_pc = read_u2(bytes, ix)?;
         let line_number = read_u2(bytes, ix)?;
@@ -593,7 +596,7 @@ fn read_localvariable_data<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Vec<LocalVariableEntry<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut localvariables = Vec::with_capacity(count.into());
+    let mut localvariables = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         let start_pc = read_u2(bytes, ix)?;
         let length = read_u2(bytes, ix)?;
@@ -622,7 +625,7 @@ fn read_localvariabletype_data<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Vec<LocalVariableTypeEntry<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut localvariabletypes = Vec::with_capacity(count.into());
+    let mut localvariabletypes = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         let start_pc = read_u2(bytes, ix)?;
         let length = read_u2(bytes, ix)?;
@@ -679,7 +682,7 @@ fn read_annotation_element_value<'a>(
         '@' => AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool)?),
         '[' => {
             let count = read_u2(bytes, ix)?;
-            let mut array_values = Vec::with_capacity(count.into());
+            let mut array_values = Vec::with_capacity(capacity_for(count, bytes, *ix));
             for i in 0..count {
                 array_values.push(
                     read_annotation_element_value(bytes, ix, pool)
@@ -702,7 +705,7 @@ fn read_annotation<'a>(
         .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
         .map_err(|e| err!(e, "type descriptor field"))?;
     let element_count = read_u2(bytes, ix)?;
-    let mut elements = Vec::with_capacity(element_count.into());
+    let mut elements = Vec::with_capacity(capacity_for(element_count, bytes, *ix));
     for i in 0..element_count {
         let name = read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name of element {}", i))?;
         let value = read_annotation_element_value(bytes, ix, pool)
@@ -721,7 +724,7 @@ fn read_annotation_data<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Vec<Annotation<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut annotations = Vec::with_capacity(count.into());
+    let mut annotations = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         annotations
             .push(read_annotation(bytes, ix, pool).map_err(|e| err!(e, "annotation {}", i))?);
@@ -735,10 +738,10 @@ fn read_parameter_annotation_data<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Vec<ParameterAnnotation<'a>>, ParseError> {
     let count = read_u1(bytes, ix)?;
-    let mut parameters = Vec::with_capacity(count.into());
+    let mut parameters = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         let annotation_count = read_u2(bytes, ix)?;
-        let mut annotations = Vec::with_capacity(annotation_count.into());
+        let mut annotations = Vec::with_capacity(capacity_for(annotation_count, bytes, *ix));
         for j in 0..annotation_count {
             annotations.push(
                 read_annotation(bytes, ix, pool)
@@ -756,7 +759,7 @@ fn read_type_annotation_data<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Vec<TypeAnnotation<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut annotations = Vec::with_capacity(count.into());
+    let mut annotations = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         let target_type = match read_u1(bytes, ix)? {
             0x00 | 0x01 => TypeAnnotationTarget::TypeParameter {
@@ -778,7 +781,7 @@ fn read_type_annotation_data<'a>(
             },
             0x40 | 0x41 => {
                 let localvar_count = read_u2(bytes, ix)?;
-                let mut localvars = Vec::with_capacity(localvar_count.into());
+                let mut localvars = Vec::with_capacity(capacity_for(localvar_count, bytes, *ix));
                 for _j in 0..localvar_count {
                     let start_pc = read_u2(bytes, ix)?;
                     let length = read_u2(bytes, ix)?;
@@ -807,7 +810,7 @@ fn read_type_annotation_data<'a>(
             ),
         };
         let path_count = read_u1(bytes, ix)?;
-        let mut target_path = Vec::with_capacity(path_count.into());
+        let mut target_path = Vec::with_capacity(capacity_for(path_count, bytes, *ix));
         for j in 0..path_count {
             let path_kind = match read_u1(bytes, ix)? {
                 0 => TypeAnnotationTargetPathKind::DeeperArray,
@@ -842,12 +845,12 @@ fn read_bootstrapmethods_data<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Vec<BootstrapMethodEntry<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut bootstrapmethods = Vec::with_capacity(count.into());
+    let mut bootstrapmethods = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         let method = read_cp_methodhandle(bytes, ix, pool)
             .map_err(|e| err!(e, "method ref of bootstrap method {}", i))?;
         let arg_count = read_u2(bytes, ix)?;
-        let mut arguments = Vec::with_capacity(arg_count.into());
+        let mut arguments = Vec::with_capacity(capacity_for(arg_count, bytes, *ix));
         for j in 0..arg_count {
             let argument = read_cp_bootstrap_argument(bytes, ix, pool)
                 .map_err(|e| err!(e, "argument {} of bootstrap method {}", j, i))?;
@@ -864,7 +867,7 @@ fn read_methodparameters_data<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Vec<MethodParameterEntry<'a>>, ParseError> {
     let count = read_u1(bytes, ix)?;
-    let mut methodparameters = Vec::with_capacity(count.into());
+    let mut methodparameters = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         let name = read_cp_utf8_opt(bytes, ix, pool)
             .map_err(|e| err!(e, "name of method parameter {}", i))?;
@@ -888,7 +891,7 @@ fn read_module_data<'a>(
         .ok_or_else(|| err!("Invalid access flags found"))?;
     let version = read_cp_utf8_opt(bytes, ix, pool).map_err(|e| err!(e, "version"))?;
     let requires_count = read_u2(bytes, ix)?;
-    let mut requires = Vec::with_capacity(requires_count.into());
+    let mut requires = Vec::with_capacity(capacity_for(requires_count, bytes, *ix));
     for i in 0..requires_count {
         requires.push(ModuleRequireEntry {
             name: read_cp_moduleinfo(bytes, ix, pool)
@@ -900,14 +903,14 @@ fn read_module_data<'a>(
         });
     }
     let exports_count = read_u2(bytes, ix)?;
-    let mut exports = Vec::with_capacity(exports_count.into());
+    let mut exports = Vec::with_capacity(capacity_for(exports_count, bytes, *ix));
     for i in 0..exports_count {
         let package_name = read_cp_packageinfo(bytes, ix, pool)
             .map_err(|e| err!(e, "package name of exports entry {}", i))?;
         let flags = ModuleExportsFlags::from_bits(read_u2(bytes, ix)?)
             .ok_or_else(|| err!(("Invalid module exports flags"), ("entry {}", i)))?;
         let exports_to_count = read_u2(bytes, ix)?;
-        let mut exports_to = Vec::with_capacity(exports_to_count.into());
+        let mut exports_to = Vec::with_capacity(capacity_for(exports_to_count, bytes, *ix));
         for j in 0..exports_to_count {
             exports_to.push(
                 read_cp_moduleinfo(bytes, ix, pool).map_err(|e| {
@@ -922,14 +925,14 @@ fn read_module_data<'a>(
         });
     }
     let opens_count = read_u2(bytes, ix)?;
-    let mut opens = Vec::with_capacity(opens_count.into());
+    let mut opens = Vec::with_capacity(capacity_for(opens_count, bytes, *ix));
     for i in 0..opens_count {
         let package_name = read_cp_packageinfo(bytes, ix, pool)
             .map_err(|e| err!(e, "package name of opens entry {}", i))?;
         let flags = ModuleOpensFlags::from_bits(read_u2(bytes, ix)?)
             .ok_or_else(|| err!(("Invalid module opens flags"), ("entry {}", i)))?;
         let opens_to_count = read_u2(bytes, ix)?;
-        let mut opens_to = Vec::with_capacity(opens_to_count.into());
+        let mut opens_to = Vec::with_capacity(capacity_for(opens_to_count, bytes, *ix));
         for j in 0..opens_to_count {
             opens_to.push(
                 read_cp_moduleinfo(bytes, ix, pool)
@@ -943,19 +946,19 @@ fn read_module_data<'a>(
         });
     }
     let uses_count = read_u2(bytes, ix)?;
-    let mut uses = Vec::with_capacity(uses_count.into());
+    let mut uses = Vec::with_capacity(capacity_for(uses_count, bytes, *ix));
     for i in 0..uses_count {
         uses.push(
             read_cp_classinfo(bytes, ix, pool).map_err(|e| err!(e, "name of uses entry {}", i))?,
         );
     }
     let provides_count = read_u2(bytes, ix)?;
-    let mut provides = Vec::with_capacity(provides_count.into());
+    let mut provides = Vec::with_capacity(capacity_for(provides_count, bytes, *ix));
     for i in 0..provides_count {
         let service_interface_name = read_cp_classinfo(bytes, ix, pool)
             .map_err(|e| err!(e, "service interface name of provides entry {}", i))?;
         let provides_with_count = read_u2(bytes, ix)?;
-        let mut provides_with = Vec::with_capacity(provides_with_count.into());
+        let mut provides_with = Vec::with_capacity(capacity_for(provides_with_count, bytes, *ix));
         for j in 0..provides_with_count {
             provides_with.push(
                 read_cp_classinfo(bytes, ix, pool)
@@ -985,7 +988,7 @@ fn read_modulepackages_data<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Vec<Cow<'a, str>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut packages = Vec::with_capacity(count.into());
+    let mut packages = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         packages
             .push(read_cp_packageinfo(bytes, ix, pool).map_err(|e| err!(e, "package name {}", i))?);
@@ -999,7 +1002,7 @@ fn read_nestmembers_data<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Vec<Cow<'a, str>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut members = Vec::with_capacity(count.into());
+    let mut members = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         members.push(read_cp_classinfo(bytes, ix, pool).map_err(|e| err!(e, "class name {}", i))?);
     }
@@ -1012,7 +1015,7 @@ fn read_permitted_subclasses_data<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Vec<Cow<'a, str>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut permitted_subclasses = Vec::with_capacity(count.into());
+    let mut permitted_subclasses = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         let subclass =
             read_cp_classinfo(bytes, ix, pool).map_err(|e| err!(e, "permitted subclass {}", i))?;
@@ -1028,7 +1031,7 @@ fn read_record_data<'a>(
     opts: &ParseOptions,
 ) -> Result<Vec<RecordComponentEntry<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut components = Vec::with_capacity(count.into());
+    let mut components = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         let name = read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name of entry {}", i))?;
         if !is_unqualified_name(&name) {
@@ -1055,7 +1058,7 @@ pub(crate) fn read_attributes<'a>(
     opts: &ParseOptions,
 ) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut attributes = Vec::with_capacity(count.into());
+    let mut attributes = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         let name =
             read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name field of attribute {}", i))?;
diff --git a/src/bytecode.rs b/src/bytecode.rs
index e17a3cd..c539f44 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -8,7 +8,7 @@ use crate::constant_pool::{
 use crate::constant_pool::{
     ConstantPoolEntry, ConstantPoolEntryTypes, InvokeDynamic, Loadable, MemberRef, ObjectArrayType,
 };
-use crate::{read_u1, read_u2, read_u4, CafeRc, ParseError};
+use crate::{capacity_for, read_u1, read_u2, read_u4, CafeRc, ParseError};
 
 pub type JumpOffset = i32;
 
@@ -509,7 +509,7 @@ fn read_opcodes<'a>(
                         ix - 4
                     ),
                 };
-                let mut jumps = Vec::with_capacity(jump_count);
+                let mut jumps = Vec::with_capacity(capacity_for(jump_count, code, ix));
                 for _ in 0..jump_count {
                     jumps.push(read_u4(code, &mut ix)? as JumpOffset);
                 }
@@ -538,7 +538,7 @@ fn read_opcodes<'a>(
                         ix - 4
                     ),
                 };
-                let mut match_offsets = Vec::with_capacity(pair_count);
+                let mut match_offsets = Vec::with_capacity(capacity_for(pair_count, code, ix));
                 for _ in 0..pair_count {
                     let match_part = read_u4(code, &mut ix)? as i32;
                     let offset_part = read_u4(code, &mut ix)? as JumpOffset;
diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index a818f2f..fc4f5f1 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -14,7 +14,7 @@ use crate::descriptors::{
 use crate::names::{
     is_binary_name, is_module_name, is_unqualified_method_name, is_unqualified_name,
 };
-use crate::{read_u1, read_u2, read_u4, read_u8, CafeRc, ParseError};
+use crate::{capacity_for, read_u1, read_u2, read_u4, read_u8, CafeRc, ParseError};
 
 #[cfg(not(feature = "threadsafe"))]
 type CafeCell<T> = RefCell<T>;
@@ -672,7 +672,7 @@ pub(crate) fn read_constant_pool<'a>(
     major_version: u16,
 ) -> Result<Vec<CafeRc<ConstantPoolEntry<'a>>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut constant_pool = Vec::with_capacity(count.into());
+    let mut constant_pool = Vec::with_capacity(capacity_for(count, bytes, *ix));
     constant_pool.push(CafeRc::new(ConstantPoolEntry::Zero));
     let mut cp_ix = 1;
     while cp_ix < count {
diff --git a/src/lib.rs b/src/lib.rs
index e1683e1..2c18dc6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -91,13 +91,20 @@ pub(crate) fn read_u8(bytes: &[u8], ix: &mut usize) -> Result<u64, ParseError> {
     Ok(result)
 }
 
+/// Number of elements to preallocate for a list that claims to have `count` elements and starts at
+/// `ix`. Each element takes up at least one byte, so a (corrupt) count that is larger than the
+/// number of remaining bytes should not make us allocate memory that can never be filled.
+pub(crate) fn capacity_for<T: Into<usize>>(count: T, bytes: &[u8], ix: usize) -> usize {
+    count.into().min(bytes.len().saturating_sub(ix))
+}
+
 fn read_interfaces<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Vec<ClassName<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut interfaces = Vec::with_capacity(count.into());
+    let mut interfaces = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         interfaces.push(
             read_cp_classinfo(bytes, ix, pool)
@@ -165,7 +172,7 @@ fn read_fields<'a>(
     opts: &ParseOptions,
 ) -> Result<Vec<FieldInfo<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut fields = Vec::with_capacity(count.into());
+    let mut fields = Vec::with_capacity(capacity_for(count, bytes, *ix));
     let mut unique_ids: HashSet<(Cow<'a, str>, FieldDescriptor<'a>)> = HashSet::new();
     for i in 0..count {
         let access_flags = FieldAccessFlags::from_bits_truncate(read_u2(bytes, ix)?);
@@ -231,7 +238,7 @@ fn read_methods<'a>(
     major_version: u16,
 ) -> Result<Vec<MethodInfo<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
-    let mut methods = Vec::with_capacity(count.into());
+    let mut methods = Vec::with_capacity(capacity_for(count, bytes, *ix));
     let mut unique_ids: HashSet<(Cow<'a, str>, MethodDescriptor<'a>)> = HashSet::new();
     for i in 0..count {
         let access_flags = MethodAccessFlags::from_bits_truncate(read_u2(bytes, ix)?);
-- 
2.43.0


From 4f27b90417fdb3045b09df484ea764c9be13b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 06/15] fix: limit the nesting of attributes and annotation
 values

Corrupt files could nest Code or Record attributes, annotation arrays and
annotations without limit, so a few kilobytes overflowed the stack.
---
 src/attributes.rs | 54 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index 0cf05c9..12d39a9 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -359,6 +359,12 @@ pub struct AttributeInfo<'a> {
     pub data: AttributeData<'a>,
 }
 
+/// Limits on how deeply attributes (e.g. Code inside Code) and annotation element values may be
+/// nested. They are far beyond what real class files contain, and keep the recursive parsing (and
+/// dropping) of corrupt data from overflowing the stack.
+const MAX_ATTRIBUTE_DEPTH: usize = 16;
+const MAX_ANNOTATION_DEPTH: usize = 100;
+
 fn ensure_length(length: usize, expected: usize) -> Result<(), ParseError> {
     if length != expected {
         fail!("Unexpected length {}", length);
@@ -371,6 +377,7 @@ fn read_code_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<CodeData<'a>, ParseError> {
     let max_stack = read_u2(bytes, ix)?;
     let max_locals = read_u2(bytes, ix)?;
@@ -398,8 +405,8 @@ fn read_code_data<'a>(
             catch_type,
         });
     }
-    let code_attributes =
-        read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "code attribute"))?;
+    let code_attributes = read_attributes_at_depth(bytes, ix, pool, opts, depth + 1)
+        .map_err(|e| err!(e, "code attribute"))?;
     let bytecode = if opts.parse_bytecode {
         Some(ByteCode::from(code, pool).map_err(|e| err!(e, "bytecode"))?)
     } else {
@@ -651,7 +658,11 @@ fn read_annotation_element_value<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<AnnotationElementValue<'a>, ParseError> {
+    if depth > MAX_ANNOTATION_DEPTH {
+        fail!("Annotation element values are nested too deeply");
+    }
     let value = match read_u1(bytes, ix)? as char {
         'B' => AnnotationElementValue::ByteConstant(read_cp_integer(bytes, ix, pool)?),
         'C' => AnnotationElementValue::CharConstant(read_cp_integer(bytes, ix, pool)?),
@@ -679,13 +690,15 @@ fn read_annotation_element_value<'a>(
             }
             AnnotationElementValue::ClassLiteral { class_name }
         }
-        '@' => AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool)?),
+        '@' => {
+            AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool, depth + 1)?)
+        }
         '[' => {
             let count = read_u2(bytes, ix)?;
             let mut array_values = Vec::with_capacity(capacity_for(count, bytes, *ix));
             for i in 0..count {
                 array_values.push(
-                    read_annotation_element_value(bytes, ix, pool)
+                    read_annotation_element_value(bytes, ix, pool, depth + 1)
                         .map_err(|e| err!(e, "array index {}", i))?,
                 );
             }
@@ -700,6 +713,7 @@ fn read_annotation<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<Annotation<'a>, ParseError> {
     let type_descriptor = read_cp_utf8(bytes, ix, pool)
         .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
@@ -708,7 +722,7 @@ fn read_annotation<'a>(
     let mut elements = Vec::with_capacity(capacity_for(element_count, bytes, *ix));
     for i in 0..element_count {
         let name = read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name of element {}", i))?;
-        let value = read_annotation_element_value(bytes, ix, pool)
+        let value = read_annotation_element_value(bytes, ix, pool, depth)
             .map_err(|e| err!(e, "value of element {}", i))?;
         elements.push(AnnotationElement { name, value });
     }
@@ -727,7 +741,7 @@ fn read_annotation_data<'a>(
     let mut annotations = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
         annotations
-            .push(read_annotation(bytes, ix, pool).map_err(|e| err!(e, "annotation {}", i))?);
+            .push(read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "annotation {}", i))?);
     }
     Ok(annotations)
 }
@@ -744,7 +758,7 @@ fn read_parameter_annotation_data<'a>(
         let mut annotations = Vec::with_capacity(capacity_for(annotation_count, bytes, *ix));
         for j in 0..annotation_count {
             annotations.push(
-                read_annotation(bytes, ix, pool)
+                read_annotation(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "annotation {} of parameter {}", j, i))?,
             );
         }
@@ -829,7 +843,7 @@ fn read_type_annotation_data<'a>(
             });
         }
         let annotation =
-            read_annotation(bytes, ix, pool).map_err(|e| err!(e, "type annotation {}", i))?;
+            read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "type annotation {}", i))?;
         annotations.push(TypeAnnotation {
             target_type,
             target_path,
@@ -1029,6 +1043,7 @@ fn read_record_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<Vec<RecordComponentEntry<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
     let mut components = Vec::with_capacity(capacity_for(count, bytes, *ix));
@@ -1040,8 +1055,8 @@ fn read_record_data<'a>(
         let descriptor = read_cp_utf8(bytes, ix, pool)
             .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
             .map_err(|e| err!(e, "descriptor of entry {}", i))?;
-        let attributes =
-            read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "entry {}", i))?;
+        let attributes = read_attributes_at_depth(bytes, ix, pool, opts, depth + 1)
+            .map_err(|e| err!(e, "entry {}", i))?;
         components.push(RecordComponentEntry {
             name,
             descriptor,
@@ -1057,6 +1072,19 @@ pub(crate) fn read_attributes<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
 ) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
+    read_attributes_at_depth(bytes, ix, pool, opts, 0)
+}
+
+fn read_attributes_at_depth<'a>(
+    bytes: &'a [u8],
+    ix: &mut usize,
+    pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    opts: &ParseOptions,
+    depth: usize,
+) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
+    if depth > MAX_ATTRIBUTE_DEPTH {
+        fail!("Attributes are nested too deeply");
+    }
     let count = read_u2(bytes, ix)?;
     let mut attributes = Vec::with_capacity(capacity_for(count, bytes, *ix));
     for i in 0..count {
@@ -1079,7 +1107,7 @@ pub(crate) fn read_attributes<'a>(
                 )
             }
             "Code" => {
-                let code_data = read_code_data(bytes, ix, pool, opts)
+                let code_data = read_code_data(bytes, ix, pool, opts, depth)
                     .map_err(|e| err!(e, "Code attribute {}", i))?;
                 AttributeData::Code(code_data)
             }
@@ -1186,7 +1214,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::RuntimeInvisibleTypeAnnotations(annotation_data)
             }
             "AnnotationDefault" => {
-                let element_value = read_annotation_element_value(bytes, ix, pool)
+                let element_value = read_annotation_element_value(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "AnnotationDefault attribute {}", i))?;
                 AttributeData::AnnotationDefault(element_value)
             }
@@ -1233,7 +1261,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::PermittedSubclasses(permitted_subclasses_data)
             }
             "Record" => {
-                let record_data = read_record_data(bytes, ix, pool, opts)
+                let record_data = read_record_data(bytes, ix, pool, opts, depth)
                     .map_err(|e| err!(e, "Record attribute {}", i))?;
                 AttributeData::Record(record_data)
             }
-- 
2.43.0


From aa860acedd5504e55f8bbcbd50daff2c2aa1036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 07/15] fix: reject field and method descriptors with trailing
 characters

The descriptors of fields, methods, record components, local variables, enum
constants and annotation types were parsed as a prefix of the stored string, so
"Ifoo" was accepted and reported as "I", and "()IJ" as "()I".
---
 src/attributes.rs  | 10 +++++-----
 src/descriptors.rs | 22 ++++++++++++++++++++++
 src/lib.rs         |  8 ++++----
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index 12d39a9..5d6b6ce 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -11,7 +11,7 @@ use crate::constant_pool::{
 use crate::constant_pool::{
     BootstrapArgument, ConstantPoolEntry, LiteralConstant, MethodHandle, NameAndType,
 };
-use crate::descriptors::{is_return_descriptor, parse_field_descriptor, FieldDescriptor};
+use crate::descriptors::{is_return_descriptor, parse_entire_field_descriptor, FieldDescriptor};
 use crate::names::is_unqualified_name;
 use crate::{
     capacity_for, read_u1, read_u2, read_u4, AccessFlags, CafeRc, ParseError, ParseOptions,
@@ -612,7 +612,7 @@ fn read_localvariable_data<'a>(
             fail!("Invalid unqualified name for variable {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+            .and_then(|descriptor| parse_entire_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor for variable {}", i))?;
         let index = read_u2(bytes, ix)?;
         localvariables.push(LocalVariableEntry {
@@ -675,7 +675,7 @@ fn read_annotation_element_value<'a>(
         's' => AnnotationElementValue::StringConstant(read_cp_utf8(bytes, ix, pool)?),
         'e' => {
             let type_name = read_cp_utf8(bytes, ix, pool)
-                .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+                .and_then(|descriptor| parse_entire_field_descriptor(&descriptor))
                 .map_err(|e| err!(e, "annotation element value enum descriptor"))?;
             let const_name = read_cp_utf8(bytes, ix, pool)?;
             AnnotationElementValue::EnumConstant {
@@ -716,7 +716,7 @@ fn read_annotation<'a>(
     depth: usize,
 ) -> Result<Annotation<'a>, ParseError> {
     let type_descriptor = read_cp_utf8(bytes, ix, pool)
-        .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+        .and_then(|descriptor| parse_entire_field_descriptor(&descriptor))
         .map_err(|e| err!(e, "type descriptor field"))?;
     let element_count = read_u2(bytes, ix)?;
     let mut elements = Vec::with_capacity(capacity_for(element_count, bytes, *ix));
@@ -1053,7 +1053,7 @@ fn read_record_data<'a>(
             fail!("Invalid unqualified name for entry {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+            .and_then(|descriptor| parse_entire_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor of entry {}", i))?;
         let attributes = read_attributes_at_depth(bytes, ix, pool, opts, depth + 1)
             .map_err(|e| err!(e, "entry {}", i))?;
diff --git a/src/descriptors.rs b/src/descriptors.rs
index eadf427..3a6bff2 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -287,6 +287,28 @@ pub(crate) fn parse_method_descriptor<'a>(
     })
 }
 
+/// Like parse_field_descriptor, but returns an error if anything follows the descriptor.
+pub(crate) fn parse_entire_field_descriptor<'a>(
+    data: &Cow<'a, str>,
+) -> Result<FieldDescriptor<'a>, ParseError> {
+    let desc = parse_field_descriptor(data, 0)?;
+    if data.len() != desc.byte_len() {
+        fail!("Unexpected characters after field descriptor")
+    }
+    Ok(desc)
+}
+
+/// Like parse_method_descriptor, but returns an error if anything follows the descriptor.
+pub(crate) fn parse_entire_method_descriptor<'a>(
+    data: &Cow<'a, str>,
+) -> Result<MethodDescriptor<'a>, ParseError> {
+    let desc = parse_method_descriptor(data, 0)?;
+    if data.len() != desc.byte_len() {
+        fail!("Unexpected characters after method descriptor")
+    }
+    Ok(desc)
+}
+
 pub(crate) fn parse_array_descriptor<'a>(
     data: &Cow<'a, str>,
 ) -> Result<Option<FieldDescriptor<'a>>, ParseError> {
diff --git a/src/lib.rs b/src/lib.rs
index 2c18dc6..5949202 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -31,8 +31,8 @@ use crate::constant_pool::{
     ConstantPoolIter,
 };
 use crate::descriptors::{
-    parse_field_descriptor, parse_method_descriptor, ClassName, FieldDescriptor, MethodDescriptor,
-    ReturnDescriptor,
+    parse_entire_field_descriptor, parse_entire_method_descriptor, ClassName, FieldDescriptor,
+    MethodDescriptor, ReturnDescriptor,
 };
 pub use crate::error::ParseError;
 use crate::names::{is_unqualified_method_name, is_unqualified_name};
@@ -183,7 +183,7 @@ fn read_fields<'a>(
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
             .map_err(|e| err!(e, "descriptor of class field {}", i))?;
-        let descriptor = parse_field_descriptor(&descriptor, 0)?;
+        let descriptor = parse_entire_field_descriptor(&descriptor)?;
 
         let unique_id = (name.clone(), descriptor.clone());
         if !unique_ids.insert(unique_id) {
@@ -249,7 +249,7 @@ fn read_methods<'a>(
             fail!("Invalid unqualified name for class method {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|d| parse_method_descriptor(&d, 0))
+            .and_then(|d| parse_entire_method_descriptor(&d))
             .map_err(|e| err!(e, "descriptor of class method {}", i))?;
 
         if allow_init && name == "<init>" && descriptor.return_type != ReturnDescriptor::Void {
-- 
2.43.0


From 914cea4f5282c9ad04aadcb00cb9b0618c11b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 08/15] fix: accept '<' and '>' in class names

Only method names may not contain these characters (JVMS 4.2.2); names.rs gets
this right, but ClassName and object types in descriptors rejected them, so
valid class files with such a class name failed to parse.
---
 src/descriptors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/descriptors.rs b/src/descriptors.rs
index 3a6bff2..b651de9 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -16,7 +16,7 @@ fn parse_unqualified_segment(data: &str) -> Result<(&str, Option<char>), ParseEr
             '/' if ix == 0 => fail!("Unexpected '/' at start of unqualified segment"),
             ';' if ix == 0 => fail!("Unexpected ';' at start of unqualified segment"),
             '/' | ';' => return Ok((&data[0..ix], Some(c))),
-            '.' | '[' | '<' | '>' => fail!("Disallowed character in unqualified segment"),
+            '.' | '[' => fail!("Disallowed character in unqualified segment"),
             _ => (),
         };
     }
-- 
2.43.0


From 98fdc053e82e720446a87d4d001d975c053fb8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 09/15] fix: do not leak constant pools whose entries refer to
 each other

A rejected constant pool with a reference cycle (e.g. two String entries naming
each other) was never freed, because the entries kept each other alive.
---
 src/constant_pool.rs | 54 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index fc4f5f1..68b6bd7 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -53,6 +53,10 @@ impl<'a> ConstantPoolRef<'a> {
         }
     }
 
+    fn unlink(&mut self) {
+        *self = ConstantPoolRef::Unresolved(0);
+    }
+
     fn get(&self) -> &CafeRc<ConstantPoolEntry<'a>> {
         match self {
             ConstantPoolRef::Unresolved(_) => panic!("Called get on a unresolved ConstantPoolRef"),
@@ -81,6 +85,7 @@ trait CafeCellDeref<'a> {
         cp_index: usize,
         pool: &[CafeRc<ConstantPoolEntry<'a>>],
     ) -> Result<(), ParseError>;
+    fn unlink(&self);
     fn ensure_type(&self, allowed: ConstantPoolEntryTypes) -> Result<(), ParseError>;
 }
 
@@ -96,6 +101,13 @@ impl<'a> CafeCellDeref<'a> for CafeCell<ConstantPoolRef<'a>> {
         return self.lock().unwrap().deref_mut().resolve(cp_index, pool);
     }
 
+    fn unlink(&self) {
+        #[cfg(not(feature = "threadsafe"))]
+        self.borrow_mut().unlink();
+        #[cfg(feature = "threadsafe")]
+        self.lock().unwrap().deref_mut().unlink();
+    }
+
     fn ensure_type(&self, allowed: ConstantPoolEntryTypes) -> Result<(), ParseError> {
         peel!(self).ensure_type(allowed)
     }
@@ -207,6 +219,38 @@ impl<'a> ConstantPoolEntry<'a> {
         }
     }
 
+    /// Drops the references to other entries. Entries of an invalid constant pool can refer to each
+    /// other in a cycle, and would never be freed otherwise.
+    fn unlink(&self) {
+        match self {
+            ConstantPoolEntry::Zero
+            | ConstantPoolEntry::Utf8(_)
+            | ConstantPoolEntry::Utf8Bytes(_)
+            | ConstantPoolEntry::Integer(_)
+            | ConstantPoolEntry::Float(_)
+            | ConstantPoolEntry::Long(_)
+            | ConstantPoolEntry::Double(_)
+            | ConstantPoolEntry::Unused => (),
+
+            ConstantPoolEntry::ClassInfo(x)
+            | ConstantPoolEntry::String(x)
+            | ConstantPoolEntry::MethodHandle(_, x)
+            | ConstantPoolEntry::MethodType(x)
+            | ConstantPoolEntry::Dynamic(_, x)
+            | ConstantPoolEntry::InvokeDynamic(_, x)
+            | ConstantPoolEntry::ModuleInfo(x)
+            | ConstantPoolEntry::PackageInfo(x) => x.unlink(),
+
+            ConstantPoolEntry::FieldRef(x, y)
+            | ConstantPoolEntry::MethodRef(x, y)
+            | ConstantPoolEntry::InterfaceMethodRef(x, y)
+            | ConstantPoolEntry::NameAndType(x, y) => {
+                x.unlink();
+                y.unlink();
+            }
+        }
+    }
+
     fn get_type(&self) -> ConstantPoolEntryTypes {
         match self {
             ConstantPoolEntry::Zero => ConstantPoolEntryTypes::ZERO,
@@ -710,8 +754,14 @@ pub(crate) fn read_constant_pool<'a>(
             constant_pool.push(CafeRc::new(ConstantPoolEntry::Unused));
         }
     }
-    resolve_constant_pool(&constant_pool)?;
-    validate_constant_pool(&constant_pool, major_version)?;
+    let result = resolve_constant_pool(&constant_pool)
+        .and_then(|()| validate_constant_pool(&constant_pool, major_version));
+    if let Err(e) = result {
+        for cp_entry in &constant_pool {
+            cp_entry.unlink();
+        }
+        return Err(e);
+    }
     Ok(constant_pool)
 }
 
-- 
2.43.0


From 1901db39f800e016f61d19f3d97cf912101646b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 10/15] fix: accept dynamic constants as bootstrap method
 arguments

---
 src/constant_pool.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 68b6bd7..3edcce7 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -1107,6 +1107,7 @@ pub enum BootstrapArgument<'a> {
     ClassInfo(Cow<'a, str>),
     MethodHandle(MethodHandle<'a>),
     MethodType(Cow<'a, str>),
+    Dynamic(Dynamic<'a>),
 }
 
 pub(crate) fn read_cp_bootstrap_argument<'a>(
@@ -1136,6 +1137,10 @@ pub(crate) fn read_cp_bootstrap_argument<'a>(
             Ok(BootstrapArgument::MethodHandle(make_method_handle(x, y)?))
         }
         ConstantPoolEntry::MethodType(x) => Ok(BootstrapArgument::MethodType(peel!(x).utf8())),
+        ConstantPoolEntry::Dynamic(x, y) => Ok(BootstrapArgument::Dynamic(Dynamic {
+            attr_index: *x,
+            name_and_type: peel!(y).name_and_type(),
+        })),
         _ => fail!("Unexpected constant pool reference type"),
     }
 }
-- 
2.43.0


From b8844dc9c501e782a007a4d453087d512c77a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 11/15] fix: keep a class readable after a panic while it is
 being formatted

---
 src/constant_pool.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 3edcce7..2b890b7 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -5,7 +5,7 @@ use std::ops::Deref;
 #[cfg(feature = "threadsafe")]
 use std::ops::DerefMut;
 #[cfg(feature = "threadsafe")]
-use std::sync::Mutex;
+use std::sync::{Mutex, MutexGuard, PoisonError};
 
 use crate::descriptors::FieldDescriptor;
 use crate::descriptors::{
@@ -72,10 +72,17 @@ macro_rules! peel {
     };
 }
 
+/// The lock of a constant pool reference is poisoned if user code panics while it formats the
+/// reference, which leaves the reference intact.
+#[cfg(feature = "threadsafe")]
+fn lock<T>(cell: &CafeCell<T>) -> MutexGuard<'_, T> {
+    cell.lock().unwrap_or_else(PoisonError::into_inner)
+}
+
 #[cfg(feature = "threadsafe")]
 macro_rules! peel {
     ($x:expr) => {
-        $x.lock().unwrap().deref().get()
+        lock($x).deref().get()
     };
 }
 
@@ -98,14 +105,14 @@ impl<'a> CafeCellDeref<'a> for CafeCell<ConstantPoolRef<'a>> {
         #[cfg(not(feature = "threadsafe"))]
         return self.borrow_mut().resolve(cp_index, pool);
         #[cfg(feature = "threadsafe")]
-        return self.lock().unwrap().deref_mut().resolve(cp_index, pool);
+        return lock(self).deref_mut().resolve(cp_index, pool);
     }
 
     fn unlink(&self) {
         #[cfg(not(feature = "threadsafe"))]
         self.borrow_mut().unlink();
         #[cfg(feature = "threadsafe")]
-        self.lock().unwrap().deref_mut().unlink();
+        lock(self).deref_mut().unlink();
     }
 
     fn ensure_type(&self, allowed: ConstantPoolEntryTypes) -> Result<(), ParseError> {
-- 
2.43.0


From 27c0db598adcfc549ddcc152ce01a91df3ef839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 12/15] fix: do not preallocate long lists at every level of
 nesting

---
 src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5949202..bed6821 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -93,11 +93,18 @@ pub(crate) fn read_u8(bytes: &[u8], ix: &mut usize) -> Result<u64, ParseError> {
 
 /// Number of elements to preallocate for a list that claims to have `count` elements and starts at
 /// `ix`. Each element takes up at least one byte, so a (corrupt) count that is larger than the
-/// number of remaining bytes should not make us allocate memory that can never be filled.
+/// number of remaining bytes should not make us allocate memory that can never be filled. Corrupt
+/// counts can also be within that limit at each of many nested levels, so long lists are left to
+/// grow as their elements turn up.
 pub(crate) fn capacity_for<T: Into<usize>>(count: T, bytes: &[u8], ix: usize) -> usize {
-    count.into().min(bytes.len().saturating_sub(ix))
+    count
+        .into()
+        .min(bytes.len().saturating_sub(ix))
+        .min(MAX_PREALLOCATION)
 }
 
+const MAX_PREALLOCATION: usize = 64;
+
 fn read_interfaces<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
-- 
2.43.0


From 45e956fda6806d8b98cd9a42594e9b8264a6845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 13/15] fix: reject a long or double constant without its
 second entry

---
 src/constant_pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 2b890b7..c2b9a97 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -756,7 +756,13 @@ pub(crate) fn read_constant_pool<'a>(
         cp_ix += 1;
         if constant_type == 5 || constant_type == 6 {
             // long and double types take up two entries in the constant pool,
-            // so eat up another index.
+            // so eat up another index, which must be a valid one.
+            if cp_ix >= count {
+                fail!(
+                    "Second constant pool entry of long or double at index {} is out of bounds",
+                    cp_ix - 1
+                );
+            }
             cp_ix += 1;
             constant_pool.push(CafeRc::new(ConstantPoolEntry::Unused));
         }
-- 
2.43.0


From 6944fd86deaca2bac54c10247505fd7753543d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 14/15] fix: look at class attributes once when checking
 bootstrap method references

---
 src/lib.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bed6821..b155a10 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -307,20 +307,20 @@ fn validate_bootstrap_methods<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     attributes: &[AttributeInfo<'a>],
 ) -> Result<(), ParseError> {
+    // Look at the attributes once rather than once per constant pool entry
+    let mut found = 0;
+    let mut num_methods = usize::MAX;
+    for attr in attributes {
+        if let AttributeData::BootstrapMethods(methods) = &attr.data {
+            found += 1;
+            num_methods = num_methods.min(methods.len());
+        }
+    }
     for cp_entry in pool {
         match cp_entry.deref() {
             ConstantPoolEntry::Dynamic(x, _) | ConstantPoolEntry::InvokeDynamic(x, _) => {
-                let mut found = 0;
-                for attr in attributes {
-                    match &attr.data {
-                        AttributeData::BootstrapMethods(methods) => {
-                            found += 1;
-                            if usize::from(*x) >= methods.len() {
-                                fail!("Constant pool item contained invalid index into BootstrapMethods class attribute");
-                            }
-                        }
-                        _ => continue,
-                    }
+                if found > 0 && usize::from(*x) >= num_methods {
+                    fail!("Constant pool item contained invalid index into BootstrapMethods class attribute");
                 }
                 if found != 1 {
                     fail!("Found unexpected number of BootstrapMethods attributes in class; found {}, expected 1", found);
-- 
2.43.0


From 996d93bc77eaba3f185dfee943a4bad369bbda58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:20 +0000
Subject: [PATCH 15/15] fix: reject empty class names and a trailing '/' in
 ClassName::try_from

'' and 'a/' were accepted although the name of a class has at least one
segment and no segment of it may be empty; '/a' and 'a//b' were rejected.
---
 src/descriptors.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/descriptors.rs b/src/descriptors.rs
index b651de9..27eecf7 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -36,6 +36,7 @@ impl<'a> TryFrom<Cow<'a, str>> for ClassName<'a> {
         let mut index = 0;
         loop {
             match parse_unqualified_segment(&value[index..])? {
+                (segment, None) if segment.is_empty() => fail!("Empty unqualified segment"),
                 (_, None) => break,
                 (_, Some(';')) => fail!("Disallowed ';' in class name"),
                 (segment, Some('/')) => index += segment.len() + 1,
-- 
2.43.0

