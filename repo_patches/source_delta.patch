From e163ce62fef4ccb6cbf2552fdd714a1d420caf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:59 +0000
Subject: [PATCH 01/51] fix: autocxx-gen: detect conflicting output names on
 incremental runs

A file whose content was already up to date was not recorded as written, so
a second output of the same name with different contents silently
overwrote it instead of being reported.
---
 gen/cmd/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gen/cmd/src/main.rs b/gen/cmd/src/main.rs
index be462a0..01b186e 100644
--- a/gen/cmd/src/main.rs
+++ b/gen/cmd/src/main.rs
@@ -438,15 +438,16 @@ impl FileWriter<'_> {
                 let mut existing_content = Vec::new();
                 let r = f.read_to_end(&mut existing_content);
                 if r.is_ok() && existing_content == content {
+                    self.written.insert(filename);
                     return Ok(()); // don't change timestamp on existing file unnecessarily
                 }
             }
         }
-        let mut f = File::create(&path).into_diagnostic()?;
-        f.write_all(content).into_diagnostic()?;
         if self.written.contains(&filename) {
             return Err(miette::Report::msg(format!("autocxx_gen would write two files entitled '{filename}' which would have conflicting contents. Consider using --generate-exact.")));
         }
+        let mut f = File::create(&path).into_diagnostic()?;
+        f.write_all(content).into_diagnostic()?;
         self.written.insert(filename);
         Ok(())
     }
-- 
2.43.0


From 21d25ac2340ede56fdf26b0945c44e5b0a4acff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:59 +0000
Subject: [PATCH 02/51] fix: name ToCppString by path so std::string params
 work in namespaces

The trait is defined at the top level of the generated module, so functions
and methods inside a C++ namespace (a nested Rust mod) which take a
std::string by value did not compile.
---
 engine/src/conversion/codegen_rs/function_wrapper_rs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/conversion/codegen_rs/function_wrapper_rs.rs b/engine/src/conversion/codegen_rs/function_wrapper_rs.rs
index ac461ba..eed7894 100644
--- a/engine/src/conversion/codegen_rs/function_wrapper_rs.rs
+++ b/engine/src/conversion/codegen_rs/function_wrapper_rs.rs
@@ -41,7 +41,7 @@ impl TypeConversionPolicy {
                 conversion_requires_unsafe: false,
             },
             RustConversionType::FromStr => RustParamConversion::Param {
-                ty: parse_quote! { impl ToCppString },
+                ty: parse_quote! { impl output::ToCppString },
                 local_variables: Vec::new(),
                 conversion: quote! ( #var .into_cpp() ),
                 conversion_requires_unsafe: false,
-- 
2.43.0


From f9678456d29e3f797780d5f6fab1cc5c09122b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:24 +0000
Subject: [PATCH 03/51] fix: give bindgen's stand-ins for vector, shared_ptr
 and weak_ptr their real size

Types with such a field were too small in Rust, so that storing them on the
stack, in a Box or as a by-value parameter overran their storage.
---
 engine/src/known_types.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/engine/src/known_types.rs b/engine/src/known_types.rs
index 1285a12..4ec5154 100644
--- a/engine/src/known_types.rs
+++ b/engine/src/known_types.rs
@@ -74,10 +74,22 @@ impl TypeDetails {
             | Behavior::RustContainerByValueSafe => {
                 let tn = QualifiedName::new_from_cpp_name(&self.rs_name);
                 let cxx_name = tn.get_final_item();
+                // bindgen believes that an instantiation of one of these templates
+                // has the layout of the C++ type being replaced, and won't add
+                // any padding of its own, so the size has to match.
                 let (templating, payload) = match self.behavior {
+                    Behavior::CxxContainerVector => ("template<typename T> ", "T* ptr[3]"),
                     Behavior::CxxContainerPtr
-                    | Behavior::CxxContainerVector
-                    | Behavior::RustContainerByValueSafe => ("template<typename T> ", "T* ptr"),
+                        if matches!(
+                            self.cpp_name.as_str(),
+                            "std::shared_ptr" | "std::weak_ptr"
+                        ) =>
+                    {
+                        ("template<typename T> ", "T* ptr[2]")
+                    }
+                    Behavior::CxxContainerPtr | Behavior::RustContainerByValueSafe => {
+                        ("template<typename T> ", "T* ptr")
+                    }
                     _ => ("", "char* ptr"),
                 };
                 Some(format!(
-- 
2.43.0


From 4dd78026ebf42253ad3bd654e802fa978d3f4958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:24 +0000
Subject: [PATCH 04/51] fix: resolve enum typedefs declared inside namespaces

bindgen refers to the target by self::super:: followed by one more super for
each level of namespace; only the first was stripped, so that such typedefs
and everything using them were discarded.
---
 engine/src/conversion/parse/parse_bindgen.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/conversion/parse/parse_bindgen.rs b/engine/src/conversion/parse/parse_bindgen.rs
index 513278a..e507310 100644
--- a/engine/src/conversion/parse/parse_bindgen.rs
+++ b/engine/src/conversion/parse/parse_bindgen.rs
@@ -321,6 +321,10 @@ impl<'a> ParseBindgen<'a> {
                                 segs.remove(0) == "super",
                                 "Path didn't start with self::super"
                             );
+                            // One 'super' for each level of namespace.
+                            while segs.first().is_some_and(|seg| seg == "super") {
+                                segs.remove(0);
+                            }
                             // This is similar to the path encountered within 'tree'
                             // but without the self::super prefix which is unhelpful
                             // in our output mod, because we prefer relative paths
-- 
2.43.0


From 6d26c996ca525ccd841d010591977f1808cc4d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:46 +0000
Subject: [PATCH 05/51] fix: call static methods of nested classes by their C++
 name

The C++ wrapper named the class as it is called in Rust (Outer_Inner) rather
than Outer::Inner, so the generated C++ didn't compile.
---
 engine/src/conversion/codegen_cpp/mod.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/engine/src/conversion/codegen_cpp/mod.rs b/engine/src/conversion/codegen_cpp/mod.rs
index 02c494f..ec382f8 100644
--- a/engine/src/conversion/codegen_cpp/mod.rs
+++ b/engine/src/conversion/codegen_cpp/mod.rs
@@ -539,20 +539,13 @@ impl<'a> CppCodeGenerator<'a> {
                 }
             },
             CppFunctionBody::StaticMethodCall(ns, ty_id, fn_id) => {
-                let underlying_function_call = ns
-                    .into_iter()
-                    .cloned()
-                    .chain(
-                        [
-                            ty_id.to_string(),
-                            fn_id.to_string_for_cpp_generation().to_string(),
-                        ]
-                        .iter()
-                        .cloned(),
-                    )
-                    .join("::");
+                let ty_id = QualifiedName::new(ns, ty_id.clone());
+                let ty_id = self.namespaced_name(&ty_id);
                 (
-                    format!("{underlying_function_call}({arg_list})"),
+                    format!(
+                        "{ty_id}::{}({arg_list})",
+                        fn_id.to_string_for_cpp_generation()
+                    ),
                     "".to_string(),
                     false,
                 )
-- 
2.43.0


From 56dc9ae2461e806ad1e2a4a9ffcd9acb01e3b016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:23 +0000
Subject: [PATCH 06/51] fix: avoid double underscores in disambiguated bridge
 names

A top-level function named by a Rust keyword (so renamed e.g. use_) whose name is
also used elsewhere got a bridge name such as use__autocxx1, which cxx rejects,
and was therefore dropped.
---
 engine/src/conversion/analysis/fun/bridge_name_tracker.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engine/src/conversion/analysis/fun/bridge_name_tracker.rs b/engine/src/conversion/analysis/fun/bridge_name_tracker.rs
index 4224fcb..3054255 100644
--- a/engine/src/conversion/analysis/fun/bridge_name_tracker.rs
+++ b/engine/src/conversion/analysis/fun/bridge_name_tracker.rs
@@ -104,7 +104,12 @@ impl BridgeNameTracker {
             *count += 1;
             prefix
         } else {
-            let r = format!("{prefix}_autocxx{count}");
+            // cxx rejects names containing a double underscore.
+            let r = if prefix.ends_with('_') {
+                format!("{prefix}autocxx_{count}")
+            } else {
+                format!("{prefix}_autocxx{count}")
+            };
             *count += 1;
             r
         }
-- 
2.43.0


From 1dea5efae1df53f0a0a66731aee85ba8269525b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:21 +0000
Subject: [PATCH 07/51] fix: use global placement new so class-specific
 operator new does not break generated C++

---
 engine/src/conversion/codegen_cpp/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/conversion/codegen_cpp/mod.rs b/engine/src/conversion/codegen_cpp/mod.rs
index ec382f8..7205cff 100644
--- a/engine/src/conversion/codegen_cpp/mod.rs
+++ b/engine/src/conversion/codegen_cpp/mod.rs
@@ -479,7 +479,7 @@ impl<'a> CppCodeGenerator<'a> {
                 let ty_id = QualifiedName::new(ns, id.clone());
                 let ty_id = self.namespaced_name(&ty_id);
                 (
-                    format!("new ({}) {}({})", receiver.unwrap(), ty_id, arg_list),
+                    format!("::new ({}) {}({})", receiver.unwrap(), ty_id, arg_list),
                     "".to_string(),
                     false,
                 )
@@ -584,7 +584,7 @@ impl<'a> CppCodeGenerator<'a> {
             underlying_function_call = match placement_param {
                 Some(placement_param) => {
                     let tyname = self.original_name_map.type_to_cpp(ret.cxxbridge_type())?;
-                    format!("new({placement_param}) {tyname}({call_itself})")
+                    format!("::new({placement_param}) {tyname}({call_itself})")
                 }
                 None => format!("return {call_itself}"),
             };
-- 
2.43.0


From 9b19173c6e485cc36038130a1fc8105412b56540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:02 +0000
Subject: [PATCH 08/51] fix: honour the alignment of over-aligned types in heap
 storage from C++17 on

---
 engine/src/conversion/codegen_cpp/mod.rs          |  1 +
 .../codegen_cpp/new_and_delete_prelude.rs         | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/engine/src/conversion/codegen_cpp/mod.rs b/engine/src/conversion/codegen_cpp/mod.rs
index 7205cff..cfaed04 100644
--- a/engine/src/conversion/codegen_cpp/mod.rs
+++ b/engine/src/conversion/codegen_cpp/mod.rs
@@ -617,6 +617,7 @@ impl<'a> CppCodeGenerator<'a> {
         };
         let mut headers = vec![Header::System("memory")];
         if need_allocators {
+            headers.push(Header::System("new"));
             headers.push(Header::System("stddef.h"));
             headers.push(Header::NewDeletePrelude);
         }
diff --git a/engine/src/conversion/codegen_cpp/new_and_delete_prelude.rs b/engine/src/conversion/codegen_cpp/new_and_delete_prelude.rs
index d860789..c0612bf 100644
--- a/engine/src/conversion/codegen_cpp/new_and_delete_prelude.rs
+++ b/engine/src/conversion/codegen_cpp/new_and_delete_prelude.rs
@@ -21,7 +21,15 @@ pub(super) static NEW_AND_DELETE_PRELUDE: &str = indoc! {"
     auto delete_imp(T *ptr, int) -> decltype((void)T::operator delete(ptr)) {
       T::operator delete(ptr);
     }
-    template <typename T> void delete_imp(T *ptr, long) { ::operator delete(ptr); }
+    template <typename T> void delete_imp(T *ptr, long) {
+    #ifdef __cpp_aligned_new
+      if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+        ::operator delete(ptr, std::align_val_t(alignof(T)));
+        return;
+      }
+    #endif
+      ::operator delete(ptr);
+    }
     template <typename T> void delete_appropriately(T *obj) {
       // 0 is a better match for the first 'delete_imp' so will match
       // preferentially.
@@ -32,6 +40,11 @@ pub(super) static NEW_AND_DELETE_PRELUDE: &str = indoc! {"
       return T::operator new(count);
     }
     template <typename T> void *new_imp(size_t count, long) {
+    #ifdef __cpp_aligned_new
+      if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+        return ::operator new(count, std::align_val_t(alignof(T)));
+      }
+    #endif
       return ::operator new(count);
     }
     template <typename T> T *new_appropriately() {
-- 
2.43.0


From 3290c86634145b9636d72b086eb3edc4e7eb248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:26 +0000
Subject: [PATCH 09/51] fix: fully qualify free function calls in generated C++

---
 engine/src/conversion/codegen_cpp/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine/src/conversion/codegen_cpp/mod.rs b/engine/src/conversion/codegen_cpp/mod.rs
index cfaed04..2a816bb 100644
--- a/engine/src/conversion/codegen_cpp/mod.rs
+++ b/engine/src/conversion/codegen_cpp/mod.rs
@@ -531,8 +531,10 @@ impl<'a> CppCodeGenerator<'a> {
                             id.to_string_for_cpp_generation().to_string(),
                         ))
                         .join("::");
+                    // Fully qualified so that argument-dependent lookup can't
+                    // find a different function of the same name.
                     (
-                        format!("{underlying_function_call}({arg_list})"),
+                        format!("::{underlying_function_call}({arg_list})"),
                         "".to_string(),
                         false,
                     )
-- 
2.43.0


From 7623e8bc52c23904cfe6f6b9bf975eb4b3b939f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:30 +0000
Subject: [PATCH 10/51] fix: let POD structs contain structs which bindgen
 emits later

---
 .../analysis/pod/byvalue_checker.rs           | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/engine/src/conversion/analysis/pod/byvalue_checker.rs b/engine/src/conversion/analysis/pod/byvalue_checker.rs
index 6e0dd62..83d1b68 100644
--- a/engine/src/conversion/analysis/pod/byvalue_checker.rs
+++ b/engine/src/conversion/analysis/pod/byvalue_checker.rs
@@ -16,7 +16,7 @@ use crate::{
     types::{Namespace, QualifiedName},
 };
 use autocxx_parser::IncludeCppConfig;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use syn::{ItemStruct, Type};
 
 #[derive(Clone)]
@@ -129,10 +129,31 @@ impl ByValueChecker {
                 _ => {}
             }
         }
-        for api in apis.iter() {
-            if let Api::Struct { details, .. } = api {
-                byvalue_checker.ingest_struct(&details.item, api.name().get_namespace())
+        let mut structs: Vec<_> = apis
+            .iter()
+            .filter_map(|api| match api {
+                Api::Struct { details, .. } => Some((api.name(), &details.item)),
+                _ => None,
+            })
+            .collect();
+        // bindgen emits structs namespace by namespace, so a struct may appear
+        // before another struct which it contains. Defer each one until
+        // everything it depends upon has been ingested.
+        while !structs.is_empty() {
+            let pending: HashSet<_> = structs.iter().map(|(name, _)| *name).collect();
+            let (mut deferred, mut ready): (Vec<_>, Vec<_>) =
+                structs.into_iter().partition(|(name, item)| {
+                    Self::get_field_types(item)
+                        .iter()
+                        .any(|dep| dep != *name && pending.contains(dep))
+                });
+            if ready.is_empty() {
+                std::mem::swap(&mut deferred, &mut ready);
+            }
+            for (name, item) in ready {
+                byvalue_checker.ingest_struct(item, name.get_namespace());
             }
+            structs = deferred;
         }
         let pod_requests = config
             .get_pod_requests()
-- 
2.43.0


From a8cc1fc2b156facd07411649f108da10f5461e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:15 +0000
Subject: [PATCH 11/51] fix: take unbindable unique_ptr and vector fields into
 account for implicit constructors

---
 engine/src/conversion/analysis/pod/mod.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/engine/src/conversion/analysis/pod/mod.rs b/engine/src/conversion/analysis/pod/mod.rs
index 47baade..fd8294d 100644
--- a/engine/src/conversion/analysis/pod/mod.rs
+++ b/engine/src/conversion/analysis/pod/mod.rs
@@ -25,6 +25,7 @@ use crate::{
         error_reporter::convert_apis,
         ConvertErrorFromCpp,
     },
+    known_types::known_types,
     types::{Namespace, QualifiedName},
     ParseCallbackResults,
 };
@@ -264,7 +265,27 @@ fn get_struct_field_types(
                     });
                 }
             }
-            Err(e) => convert_errors.push(e),
+            Err(e) => {
+                convert_errors.push(e);
+                // Even if we can't bind this field, our knowledge of types such as
+                // std::unique_ptr is still needed to work out implicit constructors.
+                let elem_type = match &f.ty {
+                    Type::Array(arr) => &arr.elem,
+                    other => other,
+                };
+                if let Type::Path(typ) = elem_type {
+                    if known_types()
+                        .get_constructor_details(&QualifiedName::from_type_path(typ))
+                        .is_some()
+                    {
+                        field_info.push(FieldInfo {
+                            ty: f.ty.clone(),
+                            type_kind: type_converter::TypeKind::Regular,
+                            bindgen_opaque_data: false,
+                        });
+                    }
+                }
+            }
         };
     }
     convert_errors
-- 
2.43.0


From 6f0fee17462418240e3ac0ebba18abd03ed2d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:53 +0000
Subject: [PATCH 12/51] fix: a member without accessible destructor deletes the
 implicit move constructor

---
 .../src/conversion/analysis/fun/implicit_constructors.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/implicit_constructors.rs b/engine/src/conversion/analysis/fun/implicit_constructors.rs
index 5a503b7..8c3af22 100644
--- a/engine/src/conversion/analysis/fun/implicit_constructors.rs
+++ b/engine/src/conversion/analysis/fun/implicit_constructors.rs
@@ -510,7 +510,7 @@ pub(super) fn find_constructors_present(
                 // The implicitly-declared or defaulted move constructor for class T is defined as deleted if any of the following is true:
                 // T has non-static data members that cannot be moved (have deleted, inaccessible, or ambiguous move constructors);
                 // T has direct or virtual base class that cannot be moved (has deleted, inaccessible, or ambiguous move constructors);
-                // T has direct or virtual base class with a deleted or inaccessible destructor;
+                // T has direct or virtual base class or a non-static data member with a deleted or inaccessible destructor;
                 // T is a union-like class and has a variant member with non-trivial move constructor. // we don't support unions anyway
                 let move_constructor = {
                     let explicit = find_explicit(ExplicitKind::MoveConstructor);
@@ -528,9 +528,10 @@ pub(super) fn find_constructors_present(
                             items_found.destructor.callable_subclass()
                                 && items_found.move_constructor.callable_subclass()
                         });
-                        let members_allow = fields_items_found
-                            .iter()
-                            .all(|items_found| items_found.move_constructor.callable_any());
+                        let members_allow = fields_items_found.iter().all(|items_found| {
+                            items_found.destructor.callable_any()
+                                && items_found.move_constructor.callable_any()
+                        });
                         if bases_allow && members_allow {
                             // TODO: For https://github.com/google/autocxx/issues/815, grab the
                             // visibility from an explicit default if present.
-- 
2.43.0


From fd927de3752e738b5e32f2a223ded0e73593746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:53 +0000
Subject: [PATCH 13/51] fix: analyze the element types of array fields before
 the types containing them

---
 engine/src/conversion/analysis/pod/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/engine/src/conversion/analysis/pod/mod.rs b/engine/src/conversion/analysis/pod/mod.rs
index fd8294d..81779c1 100644
--- a/engine/src/conversion/analysis/pod/mod.rs
+++ b/engine/src/conversion/analysis/pod/mod.rs
@@ -246,12 +246,15 @@ fn get_struct_field_types(
                     .unwrap_or(false)
                 {
                     field_deps.extend(r.types_encountered);
-                    if let Type::Path(typ) = &r.ty {
+                    let mut definition_ty = &r.ty;
+                    while let Type::Array(arr) = definition_ty {
+                        definition_ty = &arr.elem;
+                    }
+                    if let Type::Path(typ) = definition_ty {
                         // Later analyses need to know about the field
                         // types where we need full definitions, as opposed
                         // to just declarations. That means just the outermost
-                        // type path.
-                        // TODO: consider arrays.
+                        // type path, or that of the elements of an array.
                         field_definition_deps.insert(QualifiedName::from_type_path(typ));
                     }
                     field_info.push(FieldInfo {
-- 
2.43.0


From cf2d7df2c3dbc72cfc5f212d44943cdea3e764fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:53 +0000
Subject: [PATCH 14/51] fix: don't create std::vector bindings for types which
 cannot be destroyed

---
 engine/src/conversion/codegen_rs/impl_item_creator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/conversion/codegen_rs/impl_item_creator.rs b/engine/src/conversion/codegen_rs/impl_item_creator.rs
index 89ef896..19499f3 100644
--- a/engine/src/conversion/codegen_rs/impl_item_creator.rs
+++ b/engine/src/conversion/codegen_rs/impl_item_creator.rs
@@ -32,7 +32,8 @@ pub(crate) fn create_impl_items(
             }),
         ]);
     }
-    if movable {
+    // std::vector needs to destroy its elements as well as move them.
+    if movable && destroyable {
         results.push(Item::Impl(parse_quote! {
             impl CxxVector<#id> {}
         }))
-- 
2.43.0


From f50cfc11d96f4cf97e72e986793ea007e56944e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:55 +0000
Subject: [PATCH 15/51] fix: explicit lifetimes for every reference-returning
 function cxx cannot elide

cxx turns references to C++ types into void pointers, so a function such as
'const std::string& f(const Pod&)' or 'const uint32_t& f(Opaque&)' generated
Rust which did not compile.
---
 engine/src/conversion/codegen_rs/lifetime.rs | 52 +++++++++-----------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/engine/src/conversion/codegen_rs/lifetime.rs b/engine/src/conversion/codegen_rs/lifetime.rs
index 9afa143..165cf2c 100644
--- a/engine/src/conversion/codegen_rs/lifetime.rs
+++ b/engine/src/conversion/codegen_rs/lifetime.rs
@@ -29,8 +29,8 @@ use syn::{
 ///    and the return type is some kind of reference - because lifetime elision
 ///    is not smart enough to see inside a Pin.
 /// 2) as a workaround for https://github.com/dtolnay/cxx/issues/1024, where the
-///    input parameter is a non-POD type but the output reference is a POD or
-///    built-in type
+///    input parameter is a (mutable or const) reference to some C++ type,
+///    whether POD or not, but the output reference is a POD or built-in type
 /// 3) Any parameter is any form of reference, and we're returning an `impl New`
 ///    3a) an 'impl ValueParam' counts as a reference.
 /// 4) If we're using CppRef<'a, T> as a param or return type
@@ -72,10 +72,12 @@ pub(crate) fn add_explicit_lifetime_if_necessary<'r>(
             ..
         })
     );
-    let non_pod_ref_param = reference_parameter_is_non_pod_reference(&params, non_pod_types);
+    let any_param_is_cpp_reference = param_details
+        .iter()
+        .any(|pd| pd.has_lifetime && !pd.is_placement_return_destination);
     let ret_type_pod = return_type_is_pod_or_known_type_reference(&ret_type, non_pod_types);
     let returning_impl_with_a_reference_param = return_type_is_impl && any_param_is_reference;
-    let hits_1024_bug = non_pod_ref_param && ret_type_pod;
+    let hits_1024_bug = any_param_is_cpp_reference && ret_type_pod;
     if !(has_mutable_receiver
         || hits_1024_bug
         || returning_impl_with_a_reference_param
@@ -137,36 +139,23 @@ pub(crate) fn add_explicit_lifetime_if_necessary<'r>(
     }
 }
 
-fn reference_parameter_is_non_pod_reference(
-    params: &Punctuated<FnArg, Comma>,
-    non_pod_types: &HashSet<QualifiedName>,
-) -> bool {
-    params.iter().any(|param| match &param.0 {
-        syn::FnArg::Typed(PatType { ty, .. }) => match ty.as_ref() {
-            Type::Reference(TypeReference { elem, .. }) => match elem.as_ref() {
-                Type::Path(typ) => {
-                    let qn = QualifiedName::from_type_path(typ);
-                    non_pod_types.contains(&qn)
-                }
-                _ => false,
-            },
-            _ => false,
-        },
-        _ => false,
-    })
-}
-
 fn return_type_is_pod_or_known_type_reference(
     ret_type: &ReturnType,
     non_pod_types: &HashSet<QualifiedName>,
 ) -> bool {
     match ret_type {
         ReturnType::Type(_, boxed_type) => match boxed_type.as_ref() {
-            Type::Reference(rtr) => match rtr.elem.as_ref() {
-                Type::Path(typ) => {
-                    let qn = QualifiedName::from_type_path(typ);
-                    !non_pod_types.contains(&qn)
-                }
+            Type::Reference(rtr) => is_pod_or_known_type(&rtr.elem, non_pod_types),
+            Type::Path(typ) => match typ.path.segments.last() {
+                Some(PathSegment {
+                    ident,
+                    arguments: syn::PathArguments::AngleBracketed(aba),
+                }) if ident == "Pin" => match aba.args.first() {
+                    Some(GenericArgument::Type(Type::Reference(rtr))) => {
+                        is_pod_or_known_type(&rtr.elem, non_pod_types)
+                    }
+                    _ => false,
+                },
                 _ => false,
             },
             _ => false,
@@ -175,6 +164,13 @@ fn return_type_is_pod_or_known_type_reference(
     }
 }
 
+fn is_pod_or_known_type(ty: &Type, non_pod_types: &HashSet<QualifiedName>) -> bool {
+    match ty {
+        Type::Path(typ) => !non_pod_types.contains(&QualifiedName::from_type_path(typ)),
+        _ => false,
+    }
+}
+
 fn return_type_is_impl(ret_type: &ReturnType) -> bool {
     matches!(ret_type, ReturnType::Type(_, boxed_type) if matches!(boxed_type.as_ref(), Type::ImplTrait(..)))
 }
-- 
2.43.0


From 7ed8e16df714c19f89f799ae98a16671cce6ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:06 +0000
Subject: [PATCH 16/51] fix: methods named like their class plus digits are not
 constructors

A const or static method such as Foo::Foo1 made the generator panic.
---
 engine/src/conversion/analysis/fun/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine/src/conversion/analysis/fun/mod.rs b/engine/src/conversion/analysis/fun/mod.rs
index 6ad07ef..77a429d 100644
--- a/engine/src/conversion/analysis/fun/mod.rs
+++ b/engine/src/conversion/analysis/fun/mod.rs
@@ -2210,7 +2210,9 @@ fn special_member_to_string(special_member: SpecialMemberKind) -> &'static str {
 fn constructor_with_suffix<'a>(rust_name: &'a str, nested_type_ident: &str) -> Option<&'a str> {
     let suffix = rust_name.strip_prefix(nested_type_ident);
     suffix.and_then(|suffix| {
-        if suffix.is_empty() || suffix.parse::<u32>().is_ok() {
+        // A numeric suffix is not an overloaded constructor (those arrive here
+        // without their suffix) but some other method, e.g. Foo::Foo2
+        if suffix.is_empty() {
             Some(suffix)
         } else {
             None
-- 
2.43.0


From 346426968ddb47cf51eaa40ba6edaea3336dbcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:57 +0000
Subject: [PATCH 17/51] fix: generate_ns! covers only that namespace, not
 others whose names extend it

---
 parser/src/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/config.rs b/parser/src/config.rs
index 925039c..393810b 100644
--- a/parser/src/config.rs
+++ b/parser/src/config.rs
@@ -371,7 +371,9 @@ impl IncludeCppConfig {
                 Allowlist::All => true,
                 Allowlist::Specific(items) => items.iter().any(|entry| match entry {
                     AllowlistEntry::Item(i) => i == cpp_name,
-                    AllowlistEntry::Namespace(ns) => cpp_name.starts_with(ns),
+                    AllowlistEntry::Namespace(ns) => cpp_name
+                        .strip_prefix(ns.as_str())
+                        .is_some_and(|rest| rest.starts_with("::")),
                 }),
             }
     }
-- 
2.43.0


From 6e39787770ebf3c4fd2eecdff6084daecff8d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:57 +0000
Subject: [PATCH 18/51] fix: assume nothing about the special members of
 classes with fields of blocked types

---
 engine/src/conversion/analysis/pod/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/engine/src/conversion/analysis/pod/mod.rs b/engine/src/conversion/analysis/pod/mod.rs
index 81779c1..32cd8cc 100644
--- a/engine/src/conversion/analysis/pod/mod.rs
+++ b/engine/src/conversion/analysis/pod/mod.rs
@@ -269,17 +269,20 @@ fn get_struct_field_types(
                 }
             }
             Err(e) => {
+                let is_blocked = matches!(e, ConvertErrorFromCpp::Blocked(_));
                 convert_errors.push(e);
                 // Even if we can't bind this field, our knowledge of types such as
-                // std::unique_ptr is still needed to work out implicit constructors.
+                // std::unique_ptr is still needed to work out implicit constructors,
+                // as is the fact that we know nothing about a blocked type.
                 let elem_type = match &f.ty {
                     Type::Array(arr) => &arr.elem,
                     other => other,
                 };
                 if let Type::Path(typ) = elem_type {
-                    if known_types()
-                        .get_constructor_details(&QualifiedName::from_type_path(typ))
-                        .is_some()
+                    if is_blocked
+                        || known_types()
+                            .get_constructor_details(&QualifiedName::from_type_path(typ))
+                            .is_some()
                     {
                         field_info.push(FieldInfo {
                             ty: f.ty.clone(),
-- 
2.43.0


From 44bbe3339210ec3b5f0ef381d9d12df1784e22d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:57 +0000
Subject: [PATCH 19/51] fix: discard methods of types on the blocklist

---
 engine/src/conversion/parse/parse_bindgen.rs     |  2 +-
 engine/src/conversion/parse/parse_foreign_mod.rs | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/engine/src/conversion/parse/parse_bindgen.rs b/engine/src/conversion/parse/parse_bindgen.rs
index e507310..a76e040 100644
--- a/engine/src/conversion/parse/parse_bindgen.rs
+++ b/engine/src/conversion/parse/parse_bindgen.rs
@@ -201,7 +201,7 @@ impl<'a> ParseBindgen<'a> {
             });
         }
         self.apis.append(&mut more_apis);
-        mod_converter.finished(&mut self.apis);
+        mod_converter.finished(&mut self.apis, self.config);
     }
 
     fn parse_item(
diff --git a/engine/src/conversion/parse/parse_foreign_mod.rs b/engine/src/conversion/parse/parse_foreign_mod.rs
index cc268e7..8e0ac27 100644
--- a/engine/src/conversion/parse/parse_foreign_mod.rs
+++ b/engine/src/conversion/parse/parse_foreign_mod.rs
@@ -6,6 +6,8 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
+use autocxx_parser::IncludeCppConfig;
+
 use crate::conversion::api::{ApiName, NullPhase, Provenance};
 use crate::conversion::apivec::ApiVec;
 use crate::conversion::doc_attr::get_doc_attrs;
@@ -130,11 +132,17 @@ impl<'a> ParseForeignMod<'a> {
     /// Indicate that all foreign mods and all impl blocks have been
     /// fed into us, and we should process that information to generate
     /// the resulting APIs.
-    pub(crate) fn finished(mut self, apis: &mut ApiVec<NullPhase>) {
+    /// Members of types on the blocklist are discarded.
+    pub(crate) fn finished(mut self, apis: &mut ApiVec<NullPhase>, config: &IncludeCppConfig) {
         apis.append(&mut self.ignored_apis);
         while !self.funcs_to_convert.is_empty() {
             let mut fun = self.funcs_to_convert.remove(0);
             fun.self_ty = self.method_receivers.get(&fun.ident).cloned();
+            if let Some(self_ty) = &fun.self_ty {
+                if config.is_on_blocklist(&self_ty.to_cpp_name()) {
+                    continue;
+                }
+            }
             apis.push(UnanalyzedApi::Function {
                 name: ApiName::new_with_cpp_name(
                     &self.ns,
-- 
2.43.0


From 66833c282763cc911f5e3680c6f7b0c85058b4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:08 +0000
Subject: [PATCH 20/51] fix: depfiles outside the directory from which other
 paths are relative

---
 gen/cmd/src/depfile.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gen/cmd/src/depfile.rs b/gen/cmd/src/depfile.rs
index 315ff89..2887ca4 100644
--- a/gen/cmd/src/depfile.rs
+++ b/gen/cmd/src/depfile.rs
@@ -28,7 +28,7 @@ impl Depfile {
             file,
             outputs: Vec::new(),
             dependencies: Vec::new(),
-            depfile_dir: depfile.parent().unwrap().to_path_buf(),
+            depfile_dir: resolve_dirs(depfile)?.parent().unwrap().to_path_buf(),
         })
     }
 
@@ -51,6 +51,7 @@ impl Depfile {
 
     /// Return a string giving a relative path from the depfile.
     fn relativize(&self, path: &Path) -> String {
+        let path = resolve_dirs(path).expect("Unable to find the current directory");
         pathdiff::diff_paths(path, &self.depfile_dir)
             .expect("Unable to make a relative path from the depfile's directory to the dependency")
             .to_str()
@@ -59,6 +60,18 @@ impl Depfile {
     }
 }
 
+/// Make a path absolute, resolving any symlinks and `..` in whichever of its
+/// directories exist, such that it can be compared with other paths.
+fn resolve_dirs(path: &Path) -> std::io::Result<PathBuf> {
+    let path = std::env::current_dir()?.join(path);
+    for dir in path.ancestors().skip(1) {
+        if let Ok(resolved) = dir.canonicalize() {
+            return Ok(resolved.join(path.strip_prefix(dir).unwrap()));
+        }
+    }
+    Ok(path)
+}
+
 #[cfg(test)]
 mod tests {
     use std::{fs::File, io::Read};
-- 
2.43.0


From 2251a5a2d3416ada1a688e5b55768e6576da6520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:08 +0000
Subject: [PATCH 21/51] fix: quote spaces and special characters of file names
 in depfiles

---
 gen/cmd/src/depfile.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gen/cmd/src/depfile.rs b/gen/cmd/src/depfile.rs
index 2887ca4..a662853 100644
--- a/gen/cmd/src/depfile.rs
+++ b/gen/cmd/src/depfile.rs
@@ -49,14 +49,17 @@ impl Depfile {
         Ok(())
     }
 
-    /// Return a string giving a relative path from the depfile.
+    /// Return a string giving a relative path from the depfile,
+    /// quoted as is necessary within a makefile.
     fn relativize(&self, path: &Path) -> String {
         let path = resolve_dirs(path).expect("Unable to find the current directory");
         pathdiff::diff_paths(path, &self.depfile_dir)
             .expect("Unable to make a relative path from the depfile's directory to the dependency")
             .to_str()
             .expect("Unable to represent the file path in a UTF8 encoding")
-            .into()
+            .replace('$', "$$")
+            .replace(' ', "\\ ")
+            .replace('#', "\\#")
     }
 }
 
-- 
2.43.0


From 23aff0a5ee278b733adce45b4964c8b3e4955b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:38 +0000
Subject: [PATCH 22/51] fix: subclass methods with move-only or smart pointer
 parameters

---
 .../conversion/analysis/fun/function_wrapper.rs  |  1 +
 .../codegen_cpp/function_wrapper_cpp.rs          | 16 +++++++++++-----
 engine/src/conversion/codegen_cpp/mod.rs         |  8 ++++++--
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/function_wrapper.rs b/engine/src/conversion/analysis/fun/function_wrapper.rs
index ea5521f..9c760e8 100644
--- a/engine/src/conversion/analysis/fun/function_wrapper.rs
+++ b/engine/src/conversion/analysis/fun/function_wrapper.rs
@@ -37,6 +37,7 @@ impl CppConversionType {
     fn inverse(&self) -> Self {
         match self {
             CppConversionType::None => CppConversionType::None,
+            CppConversionType::Move => CppConversionType::Move,
             CppConversionType::FromUniquePtrToValue | CppConversionType::FromPtrToValue => {
                 CppConversionType::FromValueToUniquePtr
             }
diff --git a/engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs b/engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs
index 2a19f39..9375a33 100644
--- a/engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs
+++ b/engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs
@@ -89,11 +89,17 @@ impl TypeConversionPolicy {
             CppConversionType::FromUniquePtrToValue | CppConversionType::FromPtrToMove => {
                 Some(format!("std::move(*{var_name})"))
             }
-            CppConversionType::FromValueToUniquePtr => Some(format!(
-                "std::make_unique<{}>({})",
-                self.unconverted_type(cpp_name_map)?,
-                var_name
-            )),
+            CppConversionType::FromValueToUniquePtr => {
+                let value = if is_return {
+                    var_name.to_string()
+                } else {
+                    format!("std::move({var_name})")
+                };
+                Some(format!(
+                    "std::make_unique<{}>({value})",
+                    self.unconverted_type(cpp_name_map)?,
+                ))
+            }
             CppConversionType::FromPtrToValue => {
                 let dereference = format!("*{var_name}");
                 Some(if is_return {
diff --git a/engine/src/conversion/codegen_cpp/mod.rs b/engine/src/conversion/codegen_cpp/mod.rs
index 2a816bb..c2fc2e4 100644
--- a/engine/src/conversion/codegen_cpp/mod.rs
+++ b/engine/src/conversion/codegen_cpp/mod.rs
@@ -451,7 +451,11 @@ impl<'a> CppCodeGenerator<'a> {
                 ConversionDirection::RustCallsCpp => {
                     conv.cpp_conversion(&get_arg_name(counter), &self.original_name_map, false)
                 }
-                ConversionDirection::CppCallsCpp => Ok(Some(get_arg_name(counter))),
+                // Parameters taken by value may be of a type which can't be
+                // copied, so forward each one on to the function we're calling.
+                ConversionDirection::CppCallsCpp => conv
+                    .converted_type(&self.original_name_map)
+                    .map(|ty| Some(format!("std::forward<{ty}>({})", get_arg_name(counter)))),
                 ConversionDirection::CppCallsRust => conv.inverse().cpp_conversion(
                     &get_arg_name(counter),
                     &self.original_name_map,
@@ -617,7 +621,7 @@ impl<'a> CppCodeGenerator<'a> {
                 None,
             )
         };
-        let mut headers = vec![Header::System("memory")];
+        let mut headers = vec![Header::System("memory"), Header::System("utility")];
         if need_allocators {
             headers.push(Header::System("new"));
             headers.push(Header::System("stddef.h"));
-- 
2.43.0


From 3701aee173aadba3e2f9d9721b96fe6ff8035068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:38 +0000
Subject: [PATCH 23/51] fix: subclass method parameters named like generated
 locals

---
 engine/src/conversion/analysis/fun/subclass.rs |  2 +-
 engine/src/conversion/codegen_rs/mod.rs        | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/subclass.rs b/engine/src/conversion/analysis/fun/subclass.rs
index 1e25335..d1ae355 100644
--- a/engine/src/conversion/analysis/fun/subclass.rs
+++ b/engine/src/conversion/analysis/fun/subclass.rs
@@ -126,7 +126,7 @@ pub(super) fn create_subclass_function(
         name.name.get_final_item()
     );
     let params = std::iter::once(crate::minisyn::FnArg(parse_quote! {
-        me: & #holder_name
+        autocxx_gen_peer: & #holder_name
     }))
     .chain(analysis.params.iter().skip(1).cloned())
     .collect();
diff --git a/engine/src/conversion/codegen_rs/mod.rs b/engine/src/conversion/codegen_rs/mod.rs
index dc169ee..f52d771 100644
--- a/engine/src/conversion/codegen_rs/mod.rs
+++ b/engine/src/conversion/codegen_rs/mod.rs
@@ -718,19 +718,21 @@ impl<'a> RsCodeGenerator<'a> {
         let borrow = make_ident(borrow);
         let destroy_panic_msg = format!("Rust subclass API (method {} of subclass {} of superclass {}) called after subclass destroyed", method_name, subclass.0.name, superclass_id);
         let reentrancy_panic_msg = format!("Rust subclass API (method {} of subclass {} of superclass {}) called whilst subclass already borrowed - likely a re-entrant call",  method_name, subclass.0.name, superclass_id);
+        // The names of local variables must not clash with those of any of the parameters
+        // of the C++ method.
         RsCodegenResult {
             global_items: vec![parse_quote! {
                 #global_def {
-                    let rc = me.0
+                    let autocxx_gen_rc = autocxx_gen_peer.0
                         .get()
                         .expect(#destroy_panic_msg);
-                    let #mut_token b = rc
+                    let #mut_token autocxx_gen_borrow = autocxx_gen_rc
                         .as_ref()
                         .#borrow()
                         .expect(#reentrancy_panic_msg);
-                    let r = ::core::ops::#deref_ty::#deref_call(& #mut_token b);
+                    let autocxx_gen_this = ::core::ops::#deref_ty::#deref_call(& #mut_token autocxx_gen_borrow);
                     #methods_trait :: #method_name
-                        (r,
+                        (autocxx_gen_this,
                         #args)
                 }
             }],
-- 
2.43.0


From 66ba4a3c8dc19b9c0de803848bc37a4c32293183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:38 +0000
Subject: [PATCH 24/51] fix: subclasses of classes with virtual methods that
 can't be overridden

---
 .../analysis/fun/implicit_constructors.rs     |  2 +-
 engine/src/conversion/analysis/fun/mod.rs     |  3 ++-
 .../src/conversion/analysis/fun/subclass.rs   | 25 +++++++++++++++++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/implicit_constructors.rs b/engine/src/conversion/analysis/fun/implicit_constructors.rs
index 8c3af22..515160b 100644
--- a/engine/src/conversion/analysis/fun/implicit_constructors.rs
+++ b/engine/src/conversion/analysis/fun/implicit_constructors.rs
@@ -700,7 +700,7 @@ fn find_explicit_items(
     (result, unknown_types)
 }
 
-fn any_input_is_rvalue_reference(
+pub(super) fn any_input_is_rvalue_reference(
     inputs: &syn::punctuated::Punctuated<crate::minisyn::FnArg, syn::token::Comma>,
 ) -> bool {
     inputs.iter().any(|input| match &input.0 {
diff --git a/engine/src/conversion/analysis/fun/mod.rs b/engine/src/conversion/analysis/fun/mod.rs
index 77a429d..c7ee128 100644
--- a/engine/src/conversion/analysis/fun/mod.rs
+++ b/engine/src/conversion/analysis/fun/mod.rs
@@ -602,7 +602,8 @@ impl<'a> FnAnalyzer<'a> {
                 TypeConversionSophistication::SimpleForSubclasses,
                 Some(analysis.rust_name.clone()),
             );
-            for sub in self.subclasses_by_superclass(sup) {
+            let can_override = subclass::can_override(&fun, &analysis);
+            for sub in self.subclasses_by_superclass(sup).filter(|_| can_override) {
                 // For each subclass, we need to create a plain-C++ method to call its superclass
                 // and a Rust/C++ bridge API to call _that_.
                 // What we're generating here is entirely about the subclass, so the
diff --git a/engine/src/conversion/analysis/fun/subclass.rs b/engine/src/conversion/analysis/fun/subclass.rs
index d1ae355..02ddda8 100644
--- a/engine/src/conversion/analysis/fun/subclass.rs
+++ b/engine/src/conversion/analysis/fun/subclass.rs
@@ -10,7 +10,7 @@ use std::ops::DerefMut;
 
 use indexmap::map::IndexMap as HashMap;
 
-use syn::{parse_quote, FnArg, PatType, Type, TypePtr};
+use syn::{parse_quote, FnArg, PatType, ReturnType, Type, TypePtr};
 
 use crate::conversion::analysis::fun::{FnKind, MethodKind, ReceiverMutability, UnsafePolicy};
 use crate::conversion::analysis::pod::PodPhase;
@@ -19,6 +19,7 @@ use crate::conversion::api::{
     SubclassName, SuperclassMethod, UnsafetyNeeded,
 };
 use crate::conversion::apivec::ApiVec;
+use crate::conversion::type_helpers::type_is_reference;
 use crate::conversion::CppEffectiveName;
 use crate::minisyn::minisynize_punctuated;
 use crate::parse_callbacks::CppOriginalName;
@@ -32,7 +33,7 @@ use crate::{
     types::{make_ident, Namespace, QualifiedName},
 };
 
-use super::{FnAnalysis, FnPrePhase1};
+use super::{implicit_constructors::any_input_is_rvalue_reference, FnAnalysis, FnPrePhase1};
 
 pub(super) fn subclasses_by_superclass(
     apis: &ApiVec<PodPhase>,
@@ -50,6 +51,26 @@ pub(super) fn subclasses_by_superclass(
     subclasses_per_superclass
 }
 
+/// Whether it's possible for a Rust subclass to override this virtual method
+/// of its superclass. If not, the superclass implementation remains in use.
+pub(super) fn can_override(fun: &FuncToConvert, analysis: &FnAnalysis) -> bool {
+    let is_pure_virtual = matches!(
+        analysis.kind,
+        FnKind::Method {
+            method_kind: MethodKind::PureVirtual(..),
+            ..
+        }
+    );
+    // We can't represent an rvalue reference in a call from C++ to Rust.
+    !any_input_is_rvalue_reference(&fun.inputs)
+        // The Rust peer is borrowed only for the duration of the call, so
+        // nothing within it can be returned by reference.
+        && !matches!(&fun.output.0, ReturnType::Type(_, ty) if type_is_reference(ty, false))
+        // An implementation which is private to the superclass can't be
+        // called by the default implementation of the trait method.
+        && (is_pure_virtual || !matches!(fun.cpp_vis, CppVisibility::Private))
+}
+
 pub(super) fn create_subclass_fn_wrapper(
     sub: &SubclassName,
     super_fn_name: &QualifiedName,
-- 
2.43.0


From e848cc492b77e2d0c847b0255eba662589ed0fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:38 +0000
Subject: [PATCH 25/51] fix: remove dependents of items removed for unknown
 types

---
 engine/src/conversion/analysis/remove_ignored.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engine/src/conversion/analysis/remove_ignored.rs b/engine/src/conversion/analysis/remove_ignored.rs
index 4ed4b9f..96954de 100644
--- a/engine/src/conversion/analysis/remove_ignored.rs
+++ b/engine/src/conversion/analysis/remove_ignored.rs
@@ -55,6 +55,8 @@ pub(crate) fn filter_apis_by_ignored_dependents(mut apis: ApiVec<FnPhase>) -> Ap
                     let first = missing_deps.next();
                     std::mem::drop(missing_deps);
                     if let Some(missing_dep) = first.cloned() {
+                        iterate_again = true;
+                        ignored_items.insert(api.name().clone());
                         create_ignore_item(
                             api,
                             ConvertErrorFromCpp::UnknownDependentType(missing_dep),
-- 
2.43.0


From 643b04c7884d0c8b4fd02f4ce1f4b0026eefa951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:38 +0000
Subject: [PATCH 26/51] fix: subclasses of nested classes

---
 .../src/conversion/analysis/fun/function_wrapper.rs  |  2 +-
 engine/src/conversion/analysis/fun/subclass.rs       |  2 +-
 engine/src/conversion/codegen_cpp/mod.rs             | 12 +++++++-----
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/function_wrapper.rs b/engine/src/conversion/analysis/fun/function_wrapper.rs
index 9c760e8..38106d2 100644
--- a/engine/src/conversion/analysis/fun/function_wrapper.rs
+++ b/engine/src/conversion/analysis/fun/function_wrapper.rs
@@ -238,7 +238,7 @@ pub(crate) enum CppFunctionBody {
     FunctionCall(Namespace, CppEffectiveName),
     StaticMethodCall(Namespace, Ident, CppEffectiveName),
     PlacementNew(Namespace, Ident),
-    ConstructSuperclass(String),
+    ConstructSuperclass(QualifiedName),
     Cast,
     Destructor(Namespace, Ident),
     AllocUninitialized(QualifiedName),
diff --git a/engine/src/conversion/analysis/fun/subclass.rs b/engine/src/conversion/analysis/fun/subclass.rs
index 02ddda8..7f5e746 100644
--- a/engine/src/conversion/analysis/fun/subclass.rs
+++ b/engine/src/conversion/analysis/fun/subclass.rs
@@ -222,7 +222,7 @@ pub(super) fn create_subclass_constructor(
             .map(|aa| aa.conversion.clone()),
     );
     let cpp_impl = CppFunction {
-        payload: CppFunctionBody::ConstructSuperclass(sup.to_cpp_name()),
+        payload: CppFunctionBody::ConstructSuperclass(sup.clone()),
         wrapper_function_name,
         return_conversion: None,
         argument_conversion: args.collect(),
diff --git a/engine/src/conversion/codegen_cpp/mod.rs b/engine/src/conversion/codegen_cpp/mod.rs
index c2fc2e4..5ab102a 100644
--- a/engine/src/conversion/codegen_cpp/mod.rs
+++ b/engine/src/conversion/codegen_cpp/mod.rs
@@ -599,7 +599,8 @@ impl<'a> CppCodeGenerator<'a> {
             underlying_function_call = format!("{underlying_function_call};");
         }
         let field_assignments =
-            if let CppFunctionBody::ConstructSuperclass(superclass_name) = &details.payload {
+            if let CppFunctionBody::ConstructSuperclass(superclass) = &details.payload {
+                let superclass_name = self.namespaced_name(superclass);
                 let superclass_assignments = if field_assignments.is_empty() {
                     "".to_string()
                 } else {
@@ -703,16 +704,17 @@ impl<'a> CppCodeGenerator<'a> {
         }
         // In future, for each superclass..
         let super_name = superclass.get_final_item();
+        let super_cpp_name = self.namespaced_name(superclass);
         method_decls.push(format!(
-            "const {super_name}& As_{super_name}() const {{ return *this; }}",
+            "const {super_cpp_name}& As_{super_name}() const {{ return *this; }}",
         ));
         method_decls.push(format!(
-            "{super_name}& As_{super_name}_mut() {{ return *this; }}"
+            "{super_cpp_name}& As_{super_name}_mut() {{ return *this; }}"
         ));
         self.additional_functions.push(ExtraCpp {
             declaration: Some(format!(
                 "inline std::unique_ptr<{}> {}_As_{}_UniquePtr(std::unique_ptr<{}> u) {{ return std::unique_ptr<{}>(u.release()); }}",
-                superclass.to_cpp_name(), subclass.cpp(), super_name, subclass.cpp(), superclass.to_cpp_name(),
+                super_cpp_name, subclass.cpp(), super_name, subclass.cpp(), super_cpp_name,
                 )),
                 ..Default::default()
         });
@@ -734,7 +736,7 @@ impl<'a> CppCodeGenerator<'a> {
             type_definition: Some(format!(
                 "class {} : public {}\n{{\npublic:\n{}\n{}\nvoid {}() const;\nprivate:rust::Box<{}> obs;\nvoid really_remove_ownership();\n\n}};",
                 subclass.cpp(),
-                superclass.to_cpp_name(),
+                super_cpp_name,
                 constructor_decls.join("\n"),
                 method_decls.join("\n"),
                 subclass.cpp_remove_ownership(),
-- 
2.43.0


From e1f8a55852ad95ba433fa1ec628a6a73934fc23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:23 +0000
Subject: [PATCH 27/51] fix: drop everything generated for a subclass whose
 superclass is dropped

A subclass of a class that can't be represented (for example a nested
abstract class) was itself ignored, but the functions of its C++ peer and
its holder type were still generated, so no bindings at all could be
produced for the rest of the header.
---
 engine/src/conversion/analysis/fun/mod.rs        | 2 +-
 engine/src/conversion/analysis/remove_ignored.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/mod.rs b/engine/src/conversion/analysis/fun/mod.rs
index c7ee128..a6c6228 100644
--- a/engine/src/conversion/analysis/fun/mod.rs
+++ b/engine/src/conversion/analysis/fun/mod.rs
@@ -625,7 +625,7 @@ impl<'a> FnAnalyzer<'a> {
                 );
                 let trait_api_name = SubclassName::get_trait_api_name(sup, &analysis.rust_name);
 
-                let mut subclass_fn_deps = vec![trait_api_name.clone()];
+                let mut subclass_fn_deps = vec![trait_api_name.clone(), sub.cpp()];
                 if !is_pure_virtual {
                     // Create a C++ API representing the superclass implementation (allowing
                     // calls from Rust->C++)
diff --git a/engine/src/conversion/analysis/remove_ignored.rs b/engine/src/conversion/analysis/remove_ignored.rs
index 96954de..e6abcaa 100644
--- a/engine/src/conversion/analysis/remove_ignored.rs
+++ b/engine/src/conversion/analysis/remove_ignored.rs
@@ -43,7 +43,7 @@ pub(crate) fn filter_apis_by_ignored_dependents(mut apis: ApiVec<FnPhase>) -> Ap
                     .collect();
                 if !ignored_dependents.is_empty() {
                     iterate_again = true;
-                    ignored_items.insert(api.name().clone());
+                    ignored_items.extend(api.valid_types());
                     create_ignore_item(
                         api,
                         ConvertErrorFromCpp::IgnoredDependent(ignored_dependents),
@@ -56,7 +56,7 @@ pub(crate) fn filter_apis_by_ignored_dependents(mut apis: ApiVec<FnPhase>) -> Ap
                     std::mem::drop(missing_deps);
                     if let Some(missing_dep) = first.cloned() {
                         iterate_again = true;
-                        ignored_items.insert(api.name().clone());
+                        ignored_items.extend(api.valid_types());
                         create_ignore_item(
                             api,
                             ConvertErrorFromCpp::UnknownDependentType(missing_dep),
-- 
2.43.0


From efb79f1b934a9c6dcd2870479c73797b5142493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 28/51] fix: remove an import that is no longer used

---
 engine/src/conversion/codegen_rs/lifetime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/conversion/codegen_rs/lifetime.rs b/engine/src/conversion/codegen_rs/lifetime.rs
index 165cf2c..24a910a 100644
--- a/engine/src/conversion/codegen_rs/lifetime.rs
+++ b/engine/src/conversion/codegen_rs/lifetime.rs
@@ -19,7 +19,7 @@ use quote::{quote, ToTokens};
 use std::borrow::Cow;
 use syn::{
     parse_quote, punctuated::Punctuated, token::Comma, GenericArgument, PatType, Path, PathSegment,
-    ReturnType, Type, TypePath, TypeReference,
+    ReturnType, Type, TypePath,
 };
 
 /// Function which can add explicit lifetime parameters to function signatures
-- 
2.43.0


From 7541c0ac0df3522b42b914000352d760c52c4d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 29/51] fix: don't mix up Rust functions and C++ functions of
 the same name

Methods of equal names on two extern Rust types got the same API name, so
all but one were dropped; so did a Rust function named like a C++ one.
---
 .../conversion/analysis/fun/bridge_name_tracker.rs | 10 ++++++----
 engine/src/conversion/analysis/fun/mod.rs          | 10 +++++++++-
 engine/src/conversion/parse/parse_bindgen.rs       | 14 ++++++++++----
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/bridge_name_tracker.rs b/engine/src/conversion/analysis/fun/bridge_name_tracker.rs
index 3054255..20fb9a9 100644
--- a/engine/src/conversion/analysis/fun/bridge_name_tracker.rs
+++ b/engine/src/conversion/analysis/fun/bridge_name_tracker.rs
@@ -46,14 +46,16 @@ use std::collections::HashMap;
 ///    #[rust_name] attribute and instead generate a 'use A = B;'
 ///    declaration in the mod which we generate for the output
 ///    namespace.
-#[derive(Default)]
 pub(crate) struct BridgeNameTracker {
     next_cxx_bridge_name_for_prefix: HashMap<String, usize>,
 }
 
 impl BridgeNameTracker {
-    pub(crate) fn new() -> Self {
-        Self::default()
+    /// Make a new tracker, given the names which are already spoken for.
+    pub(crate) fn new(reserved_names: impl Iterator<Item = String>) -> Self {
+        Self {
+            next_cxx_bridge_name_for_prefix: reserved_names.map(|name| (name, 1)).collect(),
+        }
     }
 
     /// Figure out the least confusing unique name for this function in the
@@ -124,7 +126,7 @@ mod tests {
 
     #[test]
     fn test() {
-        let mut bnt = BridgeNameTracker::new();
+        let mut bnt = BridgeNameTracker::new(std::iter::empty());
         let ns_root = Namespace::new();
         let ns_a = Namespace::from_user_input("A");
         let ns_b = Namespace::from_user_input("B");
diff --git a/engine/src/conversion/analysis/fun/mod.rs b/engine/src/conversion/analysis/fun/mod.rs
index a6c6228..5c0fb97 100644
--- a/engine/src/conversion/analysis/fun/mod.rs
+++ b/engine/src/conversion/analysis/fun/mod.rs
@@ -312,7 +312,12 @@ impl<'a> FnAnalyzer<'a> {
             unsafe_policy,
             extra_apis: ApiVec::new(),
             type_converter: TypeConverter::new(config, &apis),
-            bridge_name_tracker: BridgeNameTracker::new(),
+            bridge_name_tracker: BridgeNameTracker::new(apis.iter().filter_map(|api| match api {
+                Api::RustFn { details, .. } if !details.has_receiver => {
+                    Some(details.sig.ident.to_string())
+                }
+                _ => None,
+            })),
             config,
             overload_trackers_by_mod: HashMap::new(),
             pod_safe_types: Self::build_pod_safe_type_set(&apis),
@@ -2232,6 +2237,9 @@ impl Api<FnPhase> {
                 }
             },
             Api::RustSubclassFn { subclass, .. } => subclass.0.name.clone(),
+            Api::RustFn { name, details, .. } => {
+                QualifiedName::new(name.name.get_namespace(), details.sig.ident.clone().into())
+            }
             Api::IgnoredItem {
                 name,
                 ctx: Some(ctx),
diff --git a/engine/src/conversion/parse/parse_bindgen.rs b/engine/src/conversion/parse/parse_bindgen.rs
index a76e040..0dc092f 100644
--- a/engine/src/conversion/parse/parse_bindgen.rs
+++ b/engine/src/conversion/parse/parse_bindgen.rs
@@ -28,7 +28,7 @@ use crate::{
         convert_error::{ConvertErrorWithContext, ErrorContext},
         error_reporter::report_any_error,
     },
-    types::validate_ident_ok_for_cxx,
+    types::{make_ident, validate_ident_ok_for_cxx},
 };
 use autocxx_parser::{IncludeCppConfig, RustPath};
 use syn::{parse_quote, Fields, Ident, Item, Type, TypePath, UseTree};
@@ -109,10 +109,16 @@ impl<'a> ParseBindgen<'a> {
                 name: SubclassName::new(sc.subclass.clone().into()),
                 superclass: QualifiedName::new_from_cpp_name(&sc.superclass),
             }));
-        for fun in &self.config.extern_rust_funs {
-            let id = fun.sig.ident.clone();
+        for (counter, fun) in self.config.extern_rust_funs.iter().enumerate() {
+            let id = if fun.has_receiver {
+                // Methods may share their names with other functions, or with
+                // methods of other types. Nothing else refers to this ID.
+                make_ident(format!("{}_rust_method{counter}", fun.sig.ident))
+            } else {
+                fun.sig.ident.clone().into()
+            };
             self.apis.push(Api::RustFn {
-                name: ApiName::new_in_root_namespace(id.into()),
+                name: ApiName::new_in_root_namespace(id),
                 details: fun.clone(),
                 deps: super::extern_fun_signatures::assemble_extern_fun_deps(
                     &fun.sig,
-- 
2.43.0


From abdad0598d906071fb60bbb39377897fbdabdaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 30/51] fix: std::vector bindings for types which are copied
 rather than moved

A class with a destructor or copy constructor has no implicit move
constructor, but can be constructed from an rvalue all the same. Functions
handling vectors of such types failed to compile.
---
 .../analysis/fun/implicit_constructors.rs     | 22 +++++++++++++++++++
 engine/src/conversion/analysis/fun/mod.rs     |  3 ++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/engine/src/conversion/analysis/fun/implicit_constructors.rs b/engine/src/conversion/analysis/fun/implicit_constructors.rs
index 515160b..7777571 100644
--- a/engine/src/conversion/analysis/fun/implicit_constructors.rs
+++ b/engine/src/conversion/analysis/fun/implicit_constructors.rs
@@ -91,6 +91,9 @@ pub(super) struct ItemsFound {
     /// Remember that [`const_copy_constructor`] may be used in place of this if it exists.
     pub(super) non_const_copy_constructor: SpecialMemberFound,
     pub(super) move_constructor: SpecialMemberFound,
+    /// Whether a move constructor was declared, but as deleted. If it's simply
+    /// absent, rvalues are copied instead.
+    pub(super) move_constructor_deleted: bool,
 
     /// The full name of the type. We identify instances by [`QualifiedName`], because that's
     /// the only thing which [`FnKind::Method`] has to tie it to, and that's unique enough for
@@ -103,6 +106,16 @@ pub(super) struct ItemsFound {
 }
 
 impl ItemsFound {
+    /// Returns whether any code can construct this type from an rvalue, which is what
+    /// C++ containers need. Copy constructors do this job if there's no move constructor.
+    pub(super) fn constructible_from_rvalue(&self) -> bool {
+        if self.move_constructor.exists() || self.move_constructor_deleted {
+            self.move_constructor.callable_any()
+        } else {
+            self.const_copy_constructor.callable_any()
+        }
+    }
+
     /// Returns whether we should generate a default constructor wrapper, because bindgen won't do
     /// one for the implicit default constructor which exists.
     pub(super) fn implicit_default_constructor_needed(&self) -> bool {
@@ -233,6 +246,7 @@ pub(super) fn find_constructors_present(
                         const_copy_constructor: SpecialMemberFound::Implicit,
                         non_const_copy_constructor: SpecialMemberFound::NotPresent,
                         move_constructor: SpecialMemberFound::Implicit,
+                        move_constructor_deleted: false,
                         name: Some(name.clone()),
                     })
                 } else if let Some(constructor_details) = known_types().get_constructor_details(qn)
@@ -268,11 +282,16 @@ pub(super) fn find_constructors_present(
                         const_copy_constructor: SpecialMemberFound::Implicit,
                         non_const_copy_constructor: SpecialMemberFound::NotPresent,
                         move_constructor: SpecialMemberFound::Implicit,
+                        move_constructor_deleted: false,
                         name: Some(name.clone()),
                     }),
                 })
                 .collect();
             let has_rvalue_reference_fields = details.has_rvalue_reference_fields;
+            let move_constructor_deleted = matches!(
+                find_explicit(ExplicitKind::MoveConstructor),
+                Some(ExplicitFound::Deleted | ExplicitFound::Multiple)
+            );
 
             // Check that all the bases and field types are known first. This combined with
             // iterating via [`depth_first`] means we can safely search in `items_found` for all of
@@ -329,6 +348,7 @@ pub(super) fn find_constructors_present(
                     const_copy_constructor: is_explicit(ExplicitKind::ConstCopyConstructor),
                     non_const_copy_constructor: is_explicit(ExplicitKind::NonConstCopyConstructor),
                     move_constructor: is_explicit(ExplicitKind::MoveConstructor),
+                    move_constructor_deleted,
                     name: Some(name.clone()),
                 };
                 log::info!(
@@ -552,6 +572,7 @@ pub(super) fn find_constructors_present(
                     const_copy_constructor,
                     non_const_copy_constructor,
                     move_constructor,
+                    move_constructor_deleted,
                     name: Some(name.clone()),
                 };
                 log::info!(
@@ -725,6 +746,7 @@ fn known_type_items_found(constructor_details: KnownTypeConstructorDetails) -> I
         const_copy_constructor: exists_public_if(constructor_details.has_const_copy_constructor),
         non_const_copy_constructor: SpecialMemberFound::NotPresent,
         move_constructor: exists_public_if(constructor_details.has_move_constructor),
+        move_constructor_deleted: false,
         name: None,
     }
 }
diff --git a/engine/src/conversion/analysis/fun/mod.rs b/engine/src/conversion/analysis/fun/mod.rs
index 5c0fb97..0dc589b 100644
--- a/engine/src/conversion/analysis/fun/mod.rs
+++ b/engine/src/conversion/analysis/fun/mod.rs
@@ -256,6 +256,7 @@ pub(crate) struct FnPhase;
 /// Indicates which kinds of public constructors are known to exist for a type.
 #[derive(Debug, Default, Copy, Clone)]
 pub(crate) struct PublicConstructors {
+    /// Whether it can be constructed from an rvalue, by a move or copy constructor.
     pub(crate) move_constructor: bool,
     pub(crate) destructor: bool,
 }
@@ -263,7 +264,7 @@ pub(crate) struct PublicConstructors {
 impl PublicConstructors {
     fn from_items_found(items_found: &ItemsFound) -> Self {
         Self {
-            move_constructor: items_found.move_constructor.callable_any(),
+            move_constructor: items_found.constructible_from_rvalue(),
             destructor: items_found.destructor.callable_any(),
         }
     }
-- 
2.43.0


From cbca6f24e3f9d14882ebb070dd615e9595f398c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 31/51] fix: discard functions with vectors in shared_ptr or
 weak_ptr

cxx can't represent them, so they made code generation fail entirely.
---
 .../src/conversion/analysis/type_converter.rs |  2 +-
 engine/src/known_types.rs                     | 20 +++++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/engine/src/conversion/analysis/type_converter.rs b/engine/src/conversion/analysis/type_converter.rs
index 78e9e00..bd1ea0c 100644
--- a/engine/src/conversion/analysis/type_converter.rs
+++ b/engine/src/conversion/analysis/type_converter.rs
@@ -620,7 +620,7 @@ impl<'a> TypeConverter<'a> {
                             }
                         }
                         CxxGenericType::CppPtr => {
-                            if !known_types().permissible_within_unique_ptr(&inner_qn) {
+                            if !known_types().permissible_within_cpp_ptr(desc, &inner_qn) {
                                 return Err(ConvertErrorFromCpp::InvalidTypeForCppPtr(inner_qn));
                             }
                         }
diff --git a/engine/src/known_types.rs b/engine/src/known_types.rs
index 4ec5154..7d3ed35 100644
--- a/engine/src/known_types.rs
+++ b/engine/src/known_types.rs
@@ -328,13 +328,21 @@ impl TypeDatabase {
             .unwrap_or(true)
     }
 
-    pub(crate) fn permissible_within_unique_ptr(&self, ty: &QualifiedName) -> bool {
+    /// Whether `ty` can be the payload of the C++ smart pointer `ptr`.
+    pub(crate) fn permissible_within_cpp_ptr(
+        &self,
+        ptr: &QualifiedName,
+        ty: &QualifiedName,
+    ) -> bool {
         self.get(ty)
-            .map(|x| {
-                matches!(
-                    x.behavior,
-                    Behavior::CxxString | Behavior::CxxContainerVector
-                )
+            .map(|x| match x.behavior {
+                Behavior::CxxString => true,
+                // cxx supports vectors only within unique_ptr
+                Behavior::CxxContainerVector => self
+                    .get(ptr)
+                    .map(|ptr| ptr.cpp_name == "std::unique_ptr")
+                    .unwrap_or_default(),
+                _ => false,
             })
             .unwrap_or(true)
     }
-- 
2.43.0


From 0ece88151a78a45ada9d405a9137766fa2b1685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:59 +0000
Subject: [PATCH 32/51] fix: discard functions with smart pointers or vectors
 of types cxx can't keep there

No impl is generated for types which can't be destroyed or moved, and
functions needing one made the bindings fail to compile.
---
 .../src/conversion/analysis/abstract_types.rs | 150 +++++++++++++++++-
 engine/src/conversion/mod.rs                  |   7 +-
 2 files changed, 153 insertions(+), 4 deletions(-)

diff --git a/engine/src/conversion/analysis/abstract_types.rs b/engine/src/conversion/analysis/abstract_types.rs
index 7a9986f..580f020 100644
--- a/engine/src/conversion/analysis/abstract_types.rs
+++ b/engine/src/conversion/analysis/abstract_types.rs
@@ -7,12 +7,12 @@
 // except according to those terms.
 
 use indexmap::map::IndexMap as HashMap;
-use syn::{punctuated::Punctuated, token::Comma};
+use syn::{punctuated::Punctuated, token::Comma, GenericArgument, PathArguments, Type, TypePath};
 
 use super::{
     fun::{
         FnAnalysis, FnKind, FnPhase, FnPrePhase2, MethodKind, PodAndConstructorAnalysis,
-        TraitMethodKind,
+        PodAndDepAnalysis, PublicConstructors, TraitMethodKind,
     },
     pod::PodAnalysis,
 };
@@ -20,15 +20,18 @@ use crate::{
     conversion::{
         analysis::{depth_first::fields_and_bases_first, fun::ReceiverMutability},
         api::{ApiName, TypeKind},
+        convert_error::{ConvertErrorWithContext, ErrorContext},
         error_reporter::{convert_apis, convert_item_apis},
         ConvertErrorFromCpp, CppEffectiveName,
     },
+    known_types::{known_types, CxxGenericType},
     minisyn::FnArg,
 };
 use crate::{
     conversion::{api::Api, apivec::ApiVec},
-    types::QualifiedName,
+    types::{make_ident, QualifiedName},
 };
+use autocxx_parser::IncludeCppConfig;
 use indexmap::set::IndexSet as HashSet;
 
 #[derive(Hash, PartialEq, Eq, Clone, Debug)]
@@ -237,3 +240,144 @@ pub(crate) fn discard_ignored_functions(apis: ApiVec<FnPhase>) -> ApiVec<FnPhase
     );
     apis_new
 }
+
+/// Spots generic C++ containers which [`create_impl_items`] won't make
+/// available for the type they contain.
+///
+/// [`create_impl_items`]: crate::conversion::codegen_rs
+struct UnsupportedContainerFinder<'a> {
+    constructors: &'a HashMap<QualifiedName, PublicConstructors>,
+    err: Option<ConvertErrorFromCpp>,
+}
+
+impl UnsupportedContainerFinder<'_> {
+    fn check_type(&mut self, ty: &Type) {
+        match ty {
+            Type::Path(tp) => {
+                if known_types().cxx_generic_behavior(&QualifiedName::from_type_path(tp))
+                    == CxxGenericType::CppPtr
+                {
+                    if let Some(payload) = sole_generic_arg(tp) {
+                        self.check_owning_ptr(payload);
+                    }
+                } else if let Some(PathArguments::AngleBracketed(args)) =
+                    tp.path.segments.last().map(|seg| &seg.arguments)
+                {
+                    for arg in &args.args {
+                        if let GenericArgument::Type(ty) = arg {
+                            self.check_type(ty);
+                        }
+                    }
+                }
+            }
+            Type::Reference(r) => self.check_type(&r.elem),
+            Type::Ptr(p) => self.check_type(&p.elem),
+            _ => {}
+        }
+    }
+
+    fn check_owning_ptr(&mut self, payload: &TypePath) {
+        let payload_name = QualifiedName::from_type_path(payload);
+        if let Some(constructors) = self.constructors.get(&payload_name) {
+            if !constructors.destructor {
+                self.err = Some(ConvertErrorFromCpp::InvalidTypeForCppPtr(payload_name));
+            }
+        } else if known_types().cxx_generic_behavior(&payload_name) == CxxGenericType::CppVector {
+            if let Some(element) = sole_generic_arg(payload) {
+                let element_name = QualifiedName::from_type_path(element);
+                if self
+                    .constructors
+                    .get(&element_name)
+                    .map(|c| !c.move_constructor || !c.destructor)
+                    .unwrap_or_default()
+                {
+                    self.err = Some(ConvertErrorFromCpp::InvalidTypeForCppVector(element_name));
+                }
+            }
+        }
+    }
+}
+
+fn sole_generic_arg(ty: &TypePath) -> Option<&TypePath> {
+    match &ty.path.segments.last()?.arguments {
+        PathArguments::AngleBracketed(args) => match args.args.first()? {
+            GenericArgument::Type(Type::Path(typ)) => Some(typ),
+            _ => None,
+        },
+        _ => None,
+    }
+}
+
+/// cxx's smart pointers and vectors can hold only those types for which we
+/// tell cxx to implement them. Now that we know the constructors and
+/// destructors of each type, discard the functions which need others: they'd
+/// make the bindings fail to compile.
+pub(crate) fn discard_functions_with_unsupported_containers(
+    apis: ApiVec<FnPhase>,
+    config: &IncludeCppConfig,
+) -> ApiVec<FnPhase> {
+    if config.exclude_impls {
+        return apis;
+    }
+    let constructors: HashMap<QualifiedName, PublicConstructors> = apis
+        .iter()
+        .filter_map(|api| match api {
+            Api::Struct {
+                name,
+                analysis:
+                    PodAndDepAnalysis {
+                        pod:
+                            PodAnalysis {
+                                kind: TypeKind::Pod | TypeKind::NonPod,
+                                ..
+                            },
+                        constructors,
+                        ..
+                    },
+                ..
+            } => Some((name.name.clone(), *constructors)),
+            _ => None,
+        })
+        .collect();
+    let mut apis_new = ApiVec::new();
+    convert_apis(
+        apis,
+        &mut apis_new,
+        |name, fun, analysis| {
+            let mut finder = UnsupportedContainerFinder {
+                constructors: &constructors,
+                err: None,
+            };
+            for conversion in analysis
+                .param_details
+                .iter()
+                .map(|param| &param.conversion)
+                .chain(analysis.ret_conversion.iter())
+            {
+                finder.check_type(&conversion.unconverted_rust_type());
+                finder.check_type(&conversion.converted_rust_type());
+            }
+            match finder.err {
+                Some(err) => Err(ConvertErrorWithContext(
+                    err,
+                    Some(match &analysis.kind {
+                        FnKind::Method { impl_for, .. } => ErrorContext::new_for_method(
+                            impl_for.get_final_ident(),
+                            make_ident(&analysis.rust_name),
+                        ),
+                        _ => ErrorContext::new_for_item(make_ident(&analysis.rust_name)),
+                    }),
+                )),
+                None => Ok(Box::new(std::iter::once(Api::Function {
+                    name,
+                    fun,
+                    analysis,
+                }))),
+            }
+        },
+        Api::struct_unchanged,
+        Api::enum_unchanged,
+        Api::typedef_unchanged,
+    );
+    apis_new
+}
diff --git a/engine/src/conversion/mod.rs b/engine/src/conversion/mod.rs
index 0012fad..65ff5f9 100644
--- a/engine/src/conversion/mod.rs
+++ b/engine/src/conversion/mod.rs
@@ -36,7 +36,10 @@ use crate::{
 
 use self::{
     analysis::{
-        abstract_types::{discard_ignored_functions, mark_types_abstract},
+        abstract_types::{
+            discard_functions_with_unsupported_containers, discard_ignored_functions,
+            mark_types_abstract,
+        },
         allocators::create_alloc_and_frees,
         casts::add_casts,
         check_names,
@@ -165,6 +168,8 @@ impl<'a> BridgeConverter<'a> {
                 Self::dump_apis("adding constructor deps", &analyzed_apis);
                 let analyzed_apis = discard_ignored_functions(analyzed_apis);
                 Self::dump_apis("ignoring ignorable fns", &analyzed_apis);
+                let analyzed_apis =
+                    discard_functions_with_unsupported_containers(analyzed_apis, self.config);
                 // Remove any APIs whose names are not compatible with cxx.
                 let analyzed_apis = check_names(analyzed_apis);
                 // During parsing or subsequent processing we might have encountered
-- 
2.43.0


From d82081fa744f5c1ce698531d0a7f9769bf601da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:51 +0000
Subject: [PATCH 33/51] fix: panic when a null UniquePtr is passed as a C++
 string

As for other types passed by value, rather than dereference the null pointer
in C++.
---
 engine/src/conversion/codegen_rs/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine/src/conversion/codegen_rs/mod.rs b/engine/src/conversion/codegen_rs/mod.rs
index f52d771..d4b1c92 100644
--- a/engine/src/conversion/codegen_rs/mod.rs
+++ b/engine/src/conversion/codegen_rs/mod.rs
@@ -109,6 +109,7 @@ fn get_string_items() -> Vec<Item> {
         Item::Impl(parse_quote! {
             impl ToCppString for cxx::UniquePtr<cxx::CxxString> {
                 fn into_cpp(self) -> cxx::UniquePtr<cxx::CxxString> {
+                    assert!(!self.is_null(), "Passed a NULL UniquePtr as a C++ string");
                     self
                 }
             }
-- 
2.43.0


From 694773d1c87485947914f60d3161c52d993cbb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:55 +0000
Subject: [PATCH 34/51] fix: look up archived bindings by the include_cpp block
 as written

---
 parser/src/config.rs         | 12 ++++++++++++
 parser/src/multi_bindings.rs |  5 +++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/parser/src/config.rs b/parser/src/config.rs
index 393810b..eda88eb 100644
--- a/parser/src/config.rs
+++ b/parser/src/config.rs
@@ -228,6 +228,9 @@ pub struct IncludeCppConfig {
     pub concretes: ConcretesMap,
     pub externs: ExternCppTypeMap,
     pub opaquelist: Vec<String>,
+    /// A hash of what was written in the `include_cpp!` block. Absent if
+    /// this didn't come from such a block.
+    hash_as_written: Option<u64>,
 }
 
 impl Parse for IncludeCppConfig {
@@ -266,6 +269,7 @@ impl Parse for IncludeCppConfig {
                 break;
             }
         }
+        config.hash_as_written = Some(config.get_hash());
         Ok(config)
     }
 }
@@ -405,6 +409,14 @@ impl IncludeCppConfig {
         s.finish()
     }
 
+    /// Get a hash of the contents of this `include_cpp!` block as the user
+    /// wrote it. Unlike [`Self::get_hash`] this doesn't change as further
+    /// items are discovered elsewhere in the Rust code, so it's the same
+    /// during code generation and during macro expansion.
+    pub(crate) fn get_hash_as_written(&self) -> u64 {
+        self.hash_as_written.unwrap_or_else(|| self.get_hash())
+    }
+
     /// In case there are multiple sets of ffi mods in a single binary,
     /// endeavor to return a name which can be used to make symbols
     /// unique.
diff --git a/parser/src/multi_bindings.rs b/parser/src/multi_bindings.rs
index 4ca86d9..135b03c 100644
--- a/parser/src/multi_bindings.rs
+++ b/parser/src/multi_bindings.rs
@@ -36,12 +36,13 @@ pub enum MultiBindingsErr {
 impl MultiBindings {
     /// Insert some generated Rust bindings into this data structure.
     pub fn insert(&mut self, config: &IncludeCppConfig, bindings: TokenStream) {
-        self.0.insert(config.get_hash(), bindings.to_string());
+        self.0
+            .insert(config.get_hash_as_written(), bindings.to_string());
     }
 
     /// Retrieves the bindings corresponding to a given [`IncludeCppConfig`].
     pub fn get(&self, config: &IncludeCppConfig) -> Result<TokenStream, MultiBindingsErr> {
-        match self.0.get(&(config.get_hash())) {
+        match self.0.get(&(config.get_hash_as_written())) {
             None => Err(MultiBindingsErr::MissingBindings),
             Some(bindings) => Ok(bindings
                 .parse()
-- 
2.43.0


From f4a09e17aa323b61ab604bfe5445263191e30157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:06 +0000
Subject: [PATCH 35/51] fix: discover subclasses and Rust items for include_cpp
 blocks in nested modules

---
 engine/src/parse_file.rs | 38 ++++++++++++++++++++++++--------------
 parser/src/path.rs       | 17 ++++++++++++++++-
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/engine/src/parse_file.rs b/engine/src/parse_file.rs
index 9dd620c..6d3e8ee 100644
--- a/engine/src/parse_file.rs
+++ b/engine/src/parse_file.rs
@@ -87,6 +87,8 @@ fn parse_file_contents(
         results: Vec<Segment>,
         extra_superclasses: Vec<Subclass>,
         discoveries: Discoveries,
+        /// The Rust mod in which each `include_cpp!` macro was found.
+        engine_mods: Vec<Option<RustPath>>,
     }
     let file_contents = Rc::new(file_contents.to_string());
     impl State {
@@ -106,6 +108,7 @@ fn parse_file_contents(
                         .map(|s| s.ident == "include_cpp")
                         .unwrap_or(false) =>
                 {
+                    self.engine_mods.push(mod_path);
                     Segment::Autocxx(
                         crate::IncludeCppEngine::new_from_syn(mac.mac, file_contents)
                             .map_err(ParseError::AutocxxCodegenError)?,
@@ -137,6 +140,7 @@ fn parse_file_contents(
                         }
                         self.extra_superclasses.extend(mod_state.extra_superclasses);
                         self.discoveries.extend(mod_state.discoveries);
+                        self.engine_mods.extend(mod_state.engine_mods);
                         Segment::Mod(mod_state.results)
                     } else {
                         Segment::Other
@@ -202,10 +206,12 @@ fn parse_file_contents(
     }
     let State {
         auto_allowlist,
-        mut results,
+        results,
         mut extra_superclasses,
         mut discoveries,
+        engine_mods,
     } = state;
+    let mut parsed_file = ParsedFile(results);
 
     let must_handle_discovered_things = discoveries.found_rust()
         || !extra_superclasses.is_empty()
@@ -216,13 +222,12 @@ fn parse_file_contents(
     if must_handle_discovered_things {
         // If we have to handle discovered things but there was no include_cpp! macro,
         // fake one.
-        if !results.iter().any(|seg| matches!(seg, Segment::Autocxx(_))) {
-            results.push(Segment::Autocxx(IncludeCppEngine::new_for_autodiscover()));
+        if parsed_file.get_autocxxes().next().is_none() {
+            parsed_file
+                .0
+                .push(Segment::Autocxx(IncludeCppEngine::new_for_autodiscover()));
         }
-        let mut autocxx_seg_iterator = results.iter_mut().filter_map(|seg| match seg {
-            Segment::Autocxx(engine) => Some(engine),
-            _ => None,
-        });
+        let mut autocxx_seg_iterator = parsed_file.get_autocxxes_mut();
         let our_seg = autocxx_seg_iterator.next();
         match our_seg {
             None => panic!("We should have just added a fake mod but apparently didn't"),
@@ -240,6 +245,15 @@ fn parse_file_contents(
                             .map_err(|_| ParseError::ConflictingAllowlist)?;
                     }
                 }
+                // The generated mod refers to these relative to its own location.
+                if let Some(Some(engine_mod)) = engine_mods.first() {
+                    for fun in &mut discoveries.extern_rust_funs {
+                        fun.path = fun.path.relative_to(engine_mod);
+                    }
+                    for path in &mut discoveries.extern_rust_types {
+                        *path = path.relative_to(engine_mod);
+                    }
+                }
                 engine
                     .config_mut()
                     .extern_rust_funs
@@ -254,14 +268,10 @@ fn parse_file_contents(
             return Err(ParseError::MultipleModsForDynamicDiscovery);
         }
     }
-    let autocxx_seg_iterator = results.iter_mut().filter_map(|seg| match seg {
-        Segment::Autocxx(engine) => Some(engine),
-        _ => None,
-    });
-    for seg in autocxx_seg_iterator {
-        seg.config.confirm_complete();
+    for engine in parsed_file.get_autocxxes_mut() {
+        engine.config.confirm_complete();
     }
-    Ok(ParsedFile(results))
+    Ok(parsed_file)
 }
 
 /// A Rust file parsed by autocxx. May contain zero or more autocxx 'engines',
diff --git a/parser/src/path.rs b/parser/src/path.rs
index e3a0f9f..9fa984b 100644
--- a/parser/src/path.rs
+++ b/parser/src/path.rs
@@ -7,7 +7,7 @@
 // except according to those terms.
 
 use crate::ParseResult;
-use proc_macro2::Ident;
+use proc_macro2::{Ident, Span};
 use quote::{quote, ToTokens, TokenStreamExt};
 use syn::parse::{Parse, ParseStream};
 
@@ -30,6 +30,21 @@ impl RustPath {
         self.0.last().unwrap()
     }
 
+    /// How to refer, from within the module `from`, to what this path refers to
+    /// from within the root.
+    #[must_use]
+    pub fn relative_to(&self, from: &RustPath) -> Self {
+        let shared = self.0[..self.0.len() - 1]
+            .iter()
+            .zip(&from.0)
+            .take_while(|(a, b)| a == b)
+            .count();
+        let supers = from.0[shared..]
+            .iter()
+            .map(|_| Ident::new("super", Span::call_site()));
+        Self(supers.chain(self.0[shared..].iter().cloned()).collect())
+    }
+
     pub fn len(&self) -> usize {
         self.0.len()
     }
-- 
2.43.0


From 13dcd0ed6c5193c7bca855f996a1b396a6e031aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:07 +0000
Subject: [PATCH 36/51] fix: read back rust_type and extern_rust_fun directives
 of reproduction cases

---
 .../conversion/parse/extern_fun_signatures.rs    |  3 +++
 parser/src/directives.rs                         |  6 +++---
 parser/src/path.rs                               | 16 ++++++++++++----
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/engine/src/conversion/parse/extern_fun_signatures.rs b/engine/src/conversion/parse/extern_fun_signatures.rs
index cb002b5..b573118 100644
--- a/engine/src/conversion/parse/extern_fun_signatures.rs
+++ b/engine/src/conversion/parse/extern_fun_signatures.rs
@@ -37,6 +37,9 @@ pub(super) fn assemble_extern_fun_deps(
     }
     for input in &sig.inputs {
         match input {
+            syn::FnArg::Receiver(rec) if rec.colon_token.is_some() => {
+                add_type_to_deps(&rec.ty, &mut deps, file)?
+            }
             syn::FnArg::Receiver(_) => {
                 return Err(LocatedConvertErrorFromRust::new(
                     ConvertErrorFromRust::ExternRustFunRequiresFullyQualifiedReceiver,
diff --git a/parser/src/directives.rs b/parser/src/directives.rs
index a76cb06..4cf02a3 100644
--- a/parser/src/directives.rs
+++ b/parser/src/directives.rs
@@ -434,8 +434,7 @@ impl Directive for RustType {
         config: &mut IncludeCppConfig,
         _ident_span: &Span,
     ) -> ParseResult<()> {
-        let id: Ident = args.parse()?;
-        config.rust_types.push(RustPath::new_from_ident(id));
+        config.rust_types.push(args.parse::<RustPath>()?);
         Ok(())
     }
 
@@ -498,10 +497,11 @@ impl Directive for ExternRustFun {
         let path: RustPath = args.parse()?;
         args.parse::<syn::token::Comma>()?;
         let sig: syn::Signature = args.parse()?;
+        let has_receiver = sig.receiver().is_some();
         config.extern_rust_funs.push(RustFun {
             path,
             sig,
-            has_receiver: false,
+            has_receiver,
         });
         Ok(())
     }
diff --git a/parser/src/path.rs b/parser/src/path.rs
index 9fa984b..5fd474e 100644
--- a/parser/src/path.rs
+++ b/parser/src/path.rs
@@ -9,7 +9,9 @@
 use crate::ParseResult;
 use proc_macro2::{Ident, Span};
 use quote::{quote, ToTokens, TokenStreamExt};
+use syn::ext::IdentExt;
 use syn::parse::{Parse, ParseStream};
+use syn::Token;
 
 /// A little like [`syn::Path`] but simpler - contains only identifiers,
 /// no path arguments. Guaranteed to always have at least one identifier.
@@ -45,6 +47,14 @@ impl RustPath {
         Self(supers.chain(self.0[shared..].iter().cloned()).collect())
     }
 
+    fn parse_segment(input: ParseStream) -> ParseResult<Ident> {
+        if input.peek(Token![super]) || input.peek(Token![crate]) || input.peek(Token![self]) {
+            input.call(Ident::parse_any)
+        } else {
+            input.parse()
+        }
+    }
+
     pub fn len(&self) -> usize {
         self.0.len()
     }
@@ -71,11 +81,9 @@ impl ToTokens for RustPath {
 
 impl Parse for RustPath {
     fn parse(input: ParseStream) -> ParseResult<Self> {
-        let id: Ident = input.parse()?;
-        let mut p = RustPath::new_from_ident(id);
+        let mut p = RustPath::new_from_ident(Self::parse_segment(input)?);
         while input.parse::<Option<syn::token::PathSep>>()?.is_some() {
-            let id: Ident = input.parse()?;
-            p = p.append(id);
+            p = p.append(Self::parse_segment(input)?);
         }
         Ok(p)
     }
-- 
2.43.0


From 5a0c5eeddfc23d2b190c08df1639411ddd44f8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:07 +0000
Subject: [PATCH 37/51] fix: don't bind functions with references to arrays

---
 engine/src/conversion/analysis/type_converter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/src/conversion/analysis/type_converter.rs b/engine/src/conversion/analysis/type_converter.rs
index bd1ea0c..c958687 100644
--- a/engine/src/conversion/analysis/type_converter.rs
+++ b/engine/src/conversion/analysis/type_converter.rs
@@ -205,6 +205,9 @@ impl<'a> TypeConverter<'a> {
                 ns,
                 &TypeConversionContext::WithinReference,
             )?;
+            if matches!(*elem.ty, Type::Array(..)) {
+                return Err(ConvertErrorFromCpp::InvalidArrayPointee);
+            }
             // TODO - in the future, we should check if this is a rust::Str and throw
             // a wobbler if not. rust::Str should only be seen _by value_ in C++
             // headers; it manifests as &str in Rust but on the C++ side it must
-- 
2.43.0


From 1d60e8e2a7775d8834db929f820a619a029c4d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:07 +0000
Subject: [PATCH 38/51] fix: don't bind functions which use types bindgen only
 knows the size of

---
 .../src/conversion/analysis/type_converter.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/engine/src/conversion/analysis/type_converter.rs b/engine/src/conversion/analysis/type_converter.rs
index c958687..58d2442 100644
--- a/engine/src/conversion/analysis/type_converter.rs
+++ b/engine/src/conversion/analysis/type_converter.rs
@@ -94,6 +94,9 @@ impl TypeConversionContext {
     fn allow_instantiation_of_forward_declaration(&self) -> bool {
         matches!(self, Self::WithinReference)
     }
+    fn allow_opaque_blob(&self) -> bool {
+        matches!(self, Self::WithinStructField { .. })
+    }
     fn allowed_generic_type(&self, ident: &Ident) -> bool {
         !matches!(self,
             Self::WithinStructField { struct_type_params }
@@ -101,6 +104,15 @@ impl TypeConversionContext {
     }
 }
 
+/// Whether a type which bindgen considers opaque is represented by an
+/// arbitrary blob of the right size, instead of by a type of its own.
+fn is_blob(ty: &Type) -> bool {
+    match ty {
+        Type::Path(typ) => typ.path.segments.len() == 1,
+        _ => true,
+    }
+}
+
 /// A type which can convert from a type encountered in `bindgen`
 /// output to the sort of type we should represeent to `cxx`.
 /// As a simple example, `std::string` should be replaced
@@ -196,6 +208,13 @@ impl<'a> TypeConverter<'a> {
         if let Some(ty) = unwrap_has_unused_template_param(&typ) {
             self.convert_type(ty.clone(), ns, ctx)
         } else if let Some(ty) = unwrap_has_opaque(&typ) {
+            if !ctx.allow_opaque_blob() && is_blob(ty) {
+                // bindgen knows nothing but the size of this type, so what it gives
+                // us isn't the type which C++ would expect.
+                return Err(ConvertErrorFromCpp::UnsupportedType(
+                    ty.to_token_stream().to_string(),
+                ));
+            }
             self.convert_type(ty.clone(), ns, ctx)
         } else if let Some(ptr) = unwrap_reference(&typ, false) {
             // LValue reference
-- 
2.43.0


From 872b75ae88ed636a178e005b8642a7566957067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:07 +0000
Subject: [PATCH 39/51] fix: classes with pure virtual destructors are abstract

---
 .../src/conversion/analysis/abstract_types.rs | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/engine/src/conversion/analysis/abstract_types.rs b/engine/src/conversion/analysis/abstract_types.rs
index 580f020..9809ab8 100644
--- a/engine/src/conversion/analysis/abstract_types.rs
+++ b/engine/src/conversion/analysis/abstract_types.rs
@@ -31,6 +31,7 @@ use crate::{
     conversion::{api::Api, apivec::ApiVec},
     types::{make_ident, QualifiedName},
 };
+use autocxx_bindgen::callbacks::Virtualness;
 use autocxx_parser::IncludeCppConfig;
 use indexmap::set::IndexSet as HashSet;
 
@@ -112,6 +113,30 @@ pub(crate) fn mark_types_abstract(apis: ApiVec<FnPrePhase2>) -> ApiVec<FnPrePhas
         }
     }
 
+    // A pure virtual destructor makes a class abstract too, though not the
+    // classes derived from it, because those always have a destructor of their own.
+    for api in apis.iter() {
+        if let Api::Function {
+            fun,
+            analysis:
+                FnAnalysis {
+                    kind:
+                        FnKind::TraitMethod {
+                            kind: TraitMethodKind::Destructor,
+                            impl_for,
+                            ..
+                        },
+                    ..
+                },
+            ..
+        } = api
+        {
+            if matches!(fun.virtualness, Some(Virtualness::PureVirtual)) {
+                abstract_classes.insert(impl_for.clone());
+            }
+        }
+    }
+
     for api in fields_and_bases_first(apis.iter()) {
         if let Api::Struct {
             analysis:
-- 
2.43.0


From ceca09c07c827a8ef71163e4c9297b36968e420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 40/51] fix: drop template aliases for which bindgen gives no
 parameters

---
 engine/src/conversion/codegen_rs/mod.rs | 46 ++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/engine/src/conversion/codegen_rs/mod.rs b/engine/src/conversion/codegen_rs/mod.rs
index d4b1c92..4f30118 100644
--- a/engine/src/conversion/codegen_rs/mod.rs
+++ b/engine/src/conversion/codegen_rs/mod.rs
@@ -24,12 +24,14 @@ use itertools::Itertools;
 use proc_macro2::{Span, TokenStream};
 use syn::{
     parse_quote, punctuated::Punctuated, token::Comma, Attribute, Expr, FnArg, ForeignItem,
-    ForeignItemFn, Ident, ImplItem, Item, ItemForeignMod, ItemMod, TraitItem, Type, TypePath,
+    ForeignItemFn, GenericArgument, Ident, ImplItem, Item, ItemForeignMod, ItemMod, PathArguments,
+    TraitItem, Type, TypePath,
 };
 use utils::{find_output_mod_root, generate_cxx_use_stmt};
 
 use crate::{
     conversion::codegen_rs::unqualify::{unqualify_params, unqualify_ret_type},
+    known_types::{known_types, CxxGenericType},
     minisyn::minisynize_punctuated,
     types::{make_ident, Namespace, QualifiedName},
 };
@@ -118,6 +120,47 @@ fn get_string_items() -> Vec<Item> {
     .to_vec()
 }
 
+/// `bindgen` may represent `template <typename T> using A = std::vector<T>;` as
+/// an alias which isn't itself generic. There's nothing its `T` could refer to,
+/// and so nothing else could refer to that alias either. Remove these.
+fn remove_unresolvable_aliases(bindgen_mod: &mut ItemMod) {
+    let Some((_, items)) = &mut bindgen_mod.content else {
+        return;
+    };
+    items.retain_mut(|item| match item {
+        Item::Mod(child) => {
+            remove_unresolvable_aliases(child);
+            true
+        }
+        Item::Type(alias) => {
+            !(alias.generics.params.is_empty() && is_container_of_unknown_type(&alias.ty))
+        }
+        _ => true,
+    });
+}
+
+fn is_container_of_unknown_type(ty: &Type) -> bool {
+    // Those which we don't otherwise know about
+    const PRIMITIVES: &[&str] = &["isize", "i128", "u128", "f16", "f128"];
+    let Type::Path(typ) = ty else {
+        return false;
+    };
+    let container = QualifiedName::from_type_path(typ);
+    if known_types().cxx_generic_behavior(&container) == CxxGenericType::Not {
+        return false;
+    }
+    match &typ.path.segments.last().unwrap().arguments {
+        PathArguments::AngleBracketed(args) => args.args.iter().any(|arg| match arg {
+            GenericArgument::Type(Type::Path(inner)) => inner.path.get_ident().is_some_and(|id| {
+                let name = QualifiedName::new(&Namespace::new(), id.clone().into());
+                !known_types().is_known_type(&name) && !PRIMITIVES.iter().any(|p| id == p)
+            }),
+            _ => false,
+        }),
+        _ => false,
+    }
+}
+
 /// Type which handles generation of Rust code.
 /// In practice, much of the "generation" involves connecting together
 /// existing lumps of code within the Api structures.
@@ -228,6 +271,7 @@ impl<'a> RsCodeGenerator<'a> {
         // to set the 'contents' field of the ItemMod
         // structures directly.
         self.bindgen_mod.vis = parse_quote! {};
+        remove_unresolvable_aliases(&mut self.bindgen_mod);
         self.bindgen_mod.attrs.push(parse_quote! {
             #[doc = "A private mod containing the bindings generated by `bindgen`. Do not use the contents directly - the useful parts will be re-exported into the main FFI mod."]
         });
-- 
2.43.0


From 89cc7915a2e8778f513dc4b5d5cc3be7cfa07917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:08 +0000
Subject: [PATCH 41/51] fix: name placeholders after the function rather than
 its wrapper

---
 engine/src/conversion/analysis/remove_ignored.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine/src/conversion/analysis/remove_ignored.rs b/engine/src/conversion/analysis/remove_ignored.rs
index e6abcaa..39c1f3b 100644
--- a/engine/src/conversion/analysis/remove_ignored.rs
+++ b/engine/src/conversion/analysis/remove_ignored.rs
@@ -12,7 +12,7 @@ use super::deps::HasDependencies;
 use super::fun::{FnAnalysis, FnKind, FnPhase};
 use crate::conversion::apivec::ApiVec;
 use crate::conversion::{convert_error::ErrorContext, ConvertErrorFromCpp};
-use crate::{conversion::api::Api, known_types};
+use crate::{conversion::api::Api, known_types, types::make_ident};
 
 /// Remove any APIs which depend on other items which have been ignored.
 /// We also eliminate any APIs that depend on some type that we just don't
@@ -72,7 +72,11 @@ pub(crate) fn filter_apis_by_ignored_dependents(mut apis: ApiVec<FnPhase>) -> Ap
 }
 
 fn create_ignore_item(api: Api<FnPhase>, err: ConvertErrorFromCpp) -> Api<FnPhase> {
-    let id = api.name().get_final_ident();
+    let id = match api {
+        // The name of this API may be that of a wrapper we no longer need.
+        Api::Function { ref analysis, .. } => make_ident(&analysis.rust_name),
+        _ => api.name().get_final_ident(),
+    };
     log::info!("Marking as ignored: {} because {}", id.to_string(), err);
     Api::IgnoredItem {
         name: api.name_info().clone(),
-- 
2.43.0


From 449486254f4920d28d7698b0596741e09c7ecad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 42/51] fix: keep bindgen output valid when non-generic aliases
 mention types it didn't generate

---
 engine/src/conversion/codegen_rs/mod.rs | 72 ++++++++++++++-----------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/engine/src/conversion/codegen_rs/mod.rs b/engine/src/conversion/codegen_rs/mod.rs
index 4f30118..4974153 100644
--- a/engine/src/conversion/codegen_rs/mod.rs
+++ b/engine/src/conversion/codegen_rs/mod.rs
@@ -31,7 +31,7 @@ use utils::{find_output_mod_root, generate_cxx_use_stmt};
 
 use crate::{
     conversion::codegen_rs::unqualify::{unqualify_params, unqualify_ret_type},
-    known_types::{known_types, CxxGenericType},
+    known_types::known_types,
     minisyn::minisynize_punctuated,
     types::{make_ident, Namespace, QualifiedName},
 };
@@ -120,44 +120,54 @@ fn get_string_items() -> Vec<Item> {
     .to_vec()
 }
 
-/// `bindgen` may represent `template <typename T> using A = std::vector<T>;` as
-/// an alias which isn't itself generic. There's nothing its `T` could refer to,
-/// and so nothing else could refer to that alias either. Remove these.
-fn remove_unresolvable_aliases(bindgen_mod: &mut ItemMod) {
+/// `bindgen` may represent a template alias, such as
+/// `template <typename T> using A = std::vector<T>;`, or an alias within a
+/// template, as one which isn't itself generic. There's nothing its `T` could
+/// refer to. Only other internals of `bindgen` can refer to such an alias, and
+/// they don't depend on what `T` is, but it needs to be something.
+fn replace_unresolvable_type_params(bindgen_mod: &mut ItemMod) {
     let Some((_, items)) = &mut bindgen_mod.content else {
         return;
     };
-    items.retain_mut(|item| match item {
-        Item::Mod(child) => {
-            remove_unresolvable_aliases(child);
-            true
-        }
-        Item::Type(alias) => {
-            !(alias.generics.params.is_empty() && is_container_of_unknown_type(&alias.ty))
+    for item in items {
+        match item {
+            Item::Mod(child) => replace_unresolvable_type_params(child),
+            Item::Type(alias) if alias.generics.params.is_empty() => {
+                replace_unknown_names(&mut alias.ty)
+            }
+            _ => {}
         }
-        _ => true,
-    });
+    }
 }
 
-fn is_container_of_unknown_type(ty: &Type) -> bool {
+/// Replace anything which can't refer to any type. All `bindgen`'s references
+/// to its own types are qualified.
+fn replace_unknown_names(ty: &mut Type) {
     // Those which we don't otherwise know about
     const PRIMITIVES: &[&str] = &["isize", "i128", "u128", "f16", "f128"];
-    let Type::Path(typ) = ty else {
-        return false;
-    };
-    let container = QualifiedName::from_type_path(typ);
-    if known_types().cxx_generic_behavior(&container) == CxxGenericType::Not {
-        return false;
-    }
-    match &typ.path.segments.last().unwrap().arguments {
-        PathArguments::AngleBracketed(args) => args.args.iter().any(|arg| match arg {
-            GenericArgument::Type(Type::Path(inner)) => inner.path.get_ident().is_some_and(|id| {
+    match ty {
+        Type::Path(typ) => {
+            if let Some(id) = typ.path.get_ident() {
                 let name = QualifiedName::new(&Namespace::new(), id.clone().into());
-                !known_types().is_known_type(&name) && !PRIMITIVES.iter().any(|p| id == p)
-            }),
-            _ => false,
-        }),
-        _ => false,
+                if !known_types().is_known_type(&name) && !PRIMITIVES.iter().any(|p| id == p) {
+                    *ty = parse_quote! { () };
+                }
+                return;
+            }
+            for seg in &mut typ.path.segments {
+                if let PathArguments::AngleBracketed(args) = &mut seg.arguments {
+                    for arg in &mut args.args {
+                        if let GenericArgument::Type(inner) = arg {
+                            replace_unknown_names(inner);
+                        }
+                    }
+                }
+            }
+        }
+        Type::Ptr(ptr) => replace_unknown_names(&mut ptr.elem),
+        Type::Reference(reference) => replace_unknown_names(&mut reference.elem),
+        Type::Array(array) => replace_unknown_names(&mut array.elem),
+        _ => {}
     }
 }
 
@@ -271,7 +281,7 @@ impl<'a> RsCodeGenerator<'a> {
         // to set the 'contents' field of the ItemMod
         // structures directly.
         self.bindgen_mod.vis = parse_quote! {};
-        remove_unresolvable_aliases(&mut self.bindgen_mod);
+        replace_unresolvable_type_params(&mut self.bindgen_mod);
         self.bindgen_mod.attrs.push(parse_quote! {
             #[doc = "A private mod containing the bindings generated by `bindgen`. Do not use the contents directly - the useful parts will be re-exported into the main FFI mod."]
         });
-- 
2.43.0


From 212aeafc4eaa42e320d18533db2f7df0c9360fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 43/51] fix: don't drop a value parameter whose constructor
 panicked

---
 src/value_param.rs | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/value_param.rs b/src/value_param.rs
index bb837f1..d5a18e9 100644
--- a/src/value_param.rs
+++ b/src/value_param.rs
@@ -83,17 +83,40 @@ pub unsafe trait ValueParam<T> {
     fn do_drop(_stack: Pin<&mut Self::StackStorage>) {}
 }
 
+/// Construct an object in some stack space. If the constructor panics,
+/// the space is left empty, so that nothing tries to drop an object which
+/// doesn't exist.
+///
+/// # Safety
+///
+/// As for [`ValueParam::populate_stack_space`].
+unsafe fn construct_in_stack_space<N: New>(
+    constructor: N,
+    stack: Pin<&mut Option<MaybeUninit<N::Output>>>,
+) {
+    struct EmptyOnUnwind<'a, T>(&'a mut Option<T>);
+
+    impl<T> Drop for EmptyOnUnwind<'_, T> {
+        fn drop(&mut self) {
+            *self.0 = None;
+        }
+    }
+
+    // Safety: we won't move/swap things within the pin.
+    let slot = EmptyOnUnwind(Pin::into_inner_unchecked(stack));
+    let space = slot.0.insert(MaybeUninit::uninit());
+    constructor.new(Pin::new_unchecked(space));
+    std::mem::forget(slot);
+}
+
 unsafe impl<T> ValueParam<T> for &T
 where
     T: CopyNew,
 {
     type StackStorage = MaybeUninit<T>;
 
-    unsafe fn populate_stack_space(self, mut stack: Pin<&mut Option<Self::StackStorage>>) {
-        // Safety: we won't move/swap things within the pin.
-        let slot = Pin::into_inner_unchecked(stack.as_mut());
-        *slot = Some(MaybeUninit::uninit());
-        crate::moveit::new::copy(self).new(Pin::new_unchecked(slot.as_mut().unwrap()))
+    unsafe fn populate_stack_space(self, stack: Pin<&mut Option<Self::StackStorage>>) {
+        construct_in_stack_space(crate::moveit::new::copy(self), stack)
     }
     fn get_ptr(stack: Pin<&mut Self::StackStorage>) -> *mut T {
         // Safety: it's OK to (briefly) create a reference to the T because we
@@ -220,11 +243,8 @@ pub struct ByNew<N: New>(N);
 unsafe impl<N: New> ValueParam<N::Output> for ByNew<N> {
     type StackStorage = MaybeUninit<N::Output>;
 
-    unsafe fn populate_stack_space(self, mut stack: Pin<&mut Option<Self::StackStorage>>) {
-        // Safety: we won't move/swap things within the pin.
-        let slot = Pin::into_inner_unchecked(stack.as_mut());
-        *slot = Some(MaybeUninit::uninit());
-        self.0.new(Pin::new_unchecked(slot.as_mut().unwrap()))
+    unsafe fn populate_stack_space(self, stack: Pin<&mut Option<Self::StackStorage>>) {
+        construct_in_stack_space(self.0, stack)
     }
     fn get_ptr(stack: Pin<&mut Self::StackStorage>) -> *mut N::Output {
         // Safety: it's OK to (briefly) create a reference to the N::Output because we
-- 
2.43.0


From 2fea767904dc101649e2b32dd8af112c68f340fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 44/51] fix: CppPin and CppUniquePtrPin shouldn't assert unique
 access to their contents

---
 src/reference_wrapper.rs | 63 +++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 40 deletions(-)

diff --git a/src/reference_wrapper.rs b/src/reference_wrapper.rs
index 8919745..3b77103 100644
--- a/src/reference_wrapper.rs
+++ b/src/reference_wrapper.rs
@@ -321,20 +321,6 @@ impl<T: ?Sized> AsCppRef<T> for CppMutRef<T> {
     }
 }
 
-/// Workaround for the inability to use std::ptr::addr_of! on the contents
-/// of a box.
-#[repr(transparent)]
-struct CppPinContents<T: ?Sized>(T);
-
-impl<T: ?Sized> CppPinContents<T> {
-    fn addr_of(&self) -> *const T {
-        std::ptr::addr_of!(self.0)
-    }
-    fn addr_of_mut(&mut self) -> *mut T {
-        std::ptr::addr_of_mut!(self.0)
-    }
-}
-
 /// A newtype wrapper which causes the contained object to obey C++ reference
 /// semantics rather than Rust reference semantics. That is, multiple aliasing
 /// mutable C++ references may exist to the contents.
@@ -383,9 +369,11 @@ impl<T: ?Sized> CppPinContents<T> {
 ///
 /// See also [`CppUniquePtrPin`], which is equivalent for data which is in
 /// a [`cxx::UniquePtr`].
+// This owns the contents, which live in what was a `Box`. It's kept as a pointer
+// because using or moving a `Box` asserts that nothing else points to its contents.
 // We also keep a `CppMutRef` to the contents for the sake of our `Deref`
 // implementation.
-pub struct CppPin<T: ?Sized>(Box<CppPinContents<T>>, CppMutRef<T>);
+pub struct CppPin<T: ?Sized>(*mut T, CppMutRef<T>);
 
 impl<T: ?Sized> CppPin<T> {
     /// Imprison the Rust data within a `CppPin`. This eliminates any remaining
@@ -396,9 +384,7 @@ impl<T: ?Sized> CppPin<T> {
     where
         T: Sized,
     {
-        let mut contents = Box::new(CppPinContents(item));
-        let ptr = contents.addr_of_mut();
-        Self(contents, CppMutRef(ptr))
+        Self::from_box(Box::new(item))
     }
 
     /// Imprison the boxed Rust data within a `CppPin`. This eliminates any remaining
@@ -409,15 +395,8 @@ impl<T: ?Sized> CppPin<T> {
     /// If the item is already in a `Box`, this is slightly more efficient than
     /// `new` because it will avoid moving/reallocating it.
     pub fn from_box(item: Box<T>) -> Self {
-        // Safety: CppPinContents<T> is #[repr(transparent)] so
-        // this transmute from
-        //   Box<T>
-        // to
-        //   Box<CppPinContents<T>>
-        // is safe.
-        let mut contents = unsafe { std::mem::transmute::<Box<T>, Box<CppPinContents<T>>>(item) };
-        let ptr = contents.addr_of_mut();
-        Self(contents, CppMutRef(ptr))
+        let ptr = Box::into_raw(item);
+        Self(ptr, CppMutRef(ptr))
     }
 
     // Imprison the boxed Rust data within a `CppPin`.  This eliminates any remaining
@@ -435,12 +414,12 @@ impl<T: ?Sized> CppPin<T> {
 
     /// Get an immutable pointer to the underlying object.
     pub fn as_ptr(&self) -> *const T {
-        self.0.addr_of()
+        self.0
     }
 
     /// Get a mutable pointer to the underlying object.
     pub fn as_mut_ptr(&mut self) -> *mut T {
-        self.0.addr_of_mut()
+        self.0
     }
 
     /// Get a normal Rust reference to the underlying object. This is unsafe.
@@ -475,13 +454,15 @@ impl<T: ?Sized> CppPin<T> {
     /// in the form of Rust [`CppRef`]/[`CppMutRef`] or any remaining pointers/
     /// references within C++.
     pub unsafe fn extract(self) -> Box<T> {
-        // Safety: CppPinContents<T> is #[repr(transparent)] so
-        // this transmute from
-        //   Box<CppPinContents<T>>
-        // to
-        //   Box<T>
-        // is safe.
-        std::mem::transmute(self.0)
+        // Safety: this pointer came from a Box, which nobody else will free.
+        Box::from_raw(std::mem::ManuallyDrop::new(self).0)
+    }
+}
+
+impl<T: ?Sized> Drop for CppPin<T> {
+    fn drop(&mut self) {
+        // Safety: this pointer came from a Box, which nobody else will free.
+        drop(unsafe { Box::from_raw(self.0) })
     }
 }
 
@@ -531,10 +512,12 @@ impl<T: UniquePtrTarget> CppUniquePtrPin<T> {
 
     /// Get an immutable pointer to the underlying object.
     pub fn as_ptr(&self) -> *const T {
-        // TODO - avoid brief reference here
-        self.0
-            .as_ref()
-            .expect("UniquePtr was null; we can't make a C++ reference")
+        let ptr = self.0.as_ptr();
+        assert!(
+            !ptr.is_null(),
+            "UniquePtr was null; we can't make a C++ reference"
+        );
+        ptr
     }
 }
 
-- 
2.43.0


From 80fa26f5a0f17f089e0c3e046539fd464d505c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:48 +0000
Subject: [PATCH 45/51] fix: report failures to generate C++ as errors

---
 gen/cmd/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gen/cmd/src/main.rs b/gen/cmd/src/main.rs
index 01b186e..7a85f7a 100644
--- a/gen/cmd/src/main.rs
+++ b/gen/cmd/src/main.rs
@@ -17,7 +17,7 @@ use autocxx_engine::{
 use clap::{crate_authors, crate_version, Arg, ArgGroup, Command};
 use depfile::Depfile;
 use indexmap::IndexSet;
-use miette::IntoDiagnostic;
+use miette::{IntoDiagnostic, WrapErr};
 use std::cell::RefCell;
 use std::io::{Read, Write};
 use std::path::PathBuf;
@@ -294,7 +294,6 @@ fn main() -> miette::Result<()> {
     let outdir: PathBuf = matches.value_of_os("outdir").unwrap().into();
 
     if !outdir.exists() {
-        use miette::WrapErr as _;
         std::fs::create_dir_all(&outdir)
             .into_diagnostic()
             .wrap_err_with(|| format!("Failed to create `outdir` '{}'", outdir.display()))?;
@@ -315,7 +314,8 @@ fn main() -> miette::Result<()> {
         {
             let generations = include_cxx
                 .generate_h_and_cxx(&codegen_options.cpp_codegen_options)
-                .expect("Unable to generate header and C++ code");
+                .into_diagnostic()
+                .wrap_err("Unable to generate header and C++ code")?;
             for pair in generations.0 {
                 let cppname = name_cc_file(counter);
                 writer.write_to_file(cppname, &pair.implementation.unwrap_or_default())?;
-- 
2.43.0


From 1c9d2bd678decc00e16195dbd0da94ab70814fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:48 +0000
Subject: [PATCH 46/51] fix: reject C++ type names which can't be Rust
 identifiers in directives

---
 parser/src/directives.rs     | 33 ++++++++++++++++++++++++++++-----
 parser/src/subclass_attrs.rs |  5 +++--
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/parser/src/directives.rs b/parser/src/directives.rs
index 4cf02a3..de8425a 100644
--- a/parser/src/directives.rs
+++ b/parser/src/directives.rs
@@ -16,7 +16,8 @@ use proc_macro2::TokenStream;
 
 #[cfg(feature = "reproduction_case")]
 use quote::{quote, ToTokens};
-use syn::parse::ParseStream;
+use syn::ext::IdentExt;
+use syn::parse::{ParseStream, Parser};
 
 use crate::config::AllowlistErr;
 
@@ -451,6 +452,28 @@ impl Directive for RustType {
     }
 }
 
+/// Parses a string literal which holds the name of a C++ type such as `a::b::C`,
+/// whose parts can be Rust identifiers.
+pub(crate) fn parse_cpp_type_name(args: ParseStream) -> ParseResult<String> {
+    let literal: syn::LitStr = args.parse()?;
+    let name = literal.value();
+    let is_ident =
+        |segment: &str| matches!(Ident::parse_any.parse_str(segment), Ok(id) if id == segment);
+    if name
+        .strip_prefix("::")
+        .unwrap_or(&name)
+        .split("::")
+        .all(is_ident)
+    {
+        Ok(name)
+    } else {
+        Err(syn::Error::new(
+            literal.span(),
+            "expected the name of a C++ type (without template arguments)",
+        ))
+    }
+}
+
 struct Subclass;
 
 impl Directive for Subclass {
@@ -460,11 +483,11 @@ impl Directive for Subclass {
         config: &mut IncludeCppConfig,
         _ident_span: &Span,
     ) -> ParseResult<()> {
-        let superclass: syn::LitStr = args.parse()?;
+        let superclass = parse_cpp_type_name(args)?;
         args.parse::<syn::token::Comma>()?;
         let subclass: syn::Ident = args.parse()?;
         config.subclasses.push(crate::config::Subclass {
-            superclass: superclass.value(),
+            superclass,
             subclass,
         });
         Ok(())
@@ -530,11 +553,11 @@ impl Directive for ExternCppType {
         config: &mut IncludeCppConfig,
         _ident_span: &Span,
     ) -> ParseResult<()> {
-        let definition: syn::LitStr = args.parse()?;
+        let definition = parse_cpp_type_name(args)?;
         args.parse::<syn::token::Comma>()?;
         let rust_path: syn::TypePath = args.parse()?;
         config.externs.0.insert(
-            definition.value(),
+            definition,
             crate::config::ExternCppType {
                 rust_path,
                 opaque: self.opaque,
diff --git a/parser/src/subclass_attrs.rs b/parser/src/subclass_attrs.rs
index 9174bec..bcd09fd 100644
--- a/parser/src/subclass_attrs.rs
+++ b/parser/src/subclass_attrs.rs
@@ -6,6 +6,7 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
+use crate::directives::parse_cpp_type_name;
 use proc_macro2::Ident;
 use quote::ToTokens;
 use syn::Result as ParseResult;
@@ -30,14 +31,14 @@ impl Parse for SubclassAttrs {
                 Some(id) if id == "superclass" => {
                     let args;
                     syn::parenthesized!(args in input);
-                    let superclass: syn::LitStr = args.parse()?;
+                    let superclass = parse_cpp_type_name(&args)?;
                     if me.superclass.is_some() {
                         return Err(syn::Error::new_spanned(
                             id.into_token_stream(),
                             "Expected single superclass specification",
                         ));
                     }
-                    me.superclass = Some(superclass.value());
+                    me.superclass = Some(superclass);
                 }
                 Some(id) => {
                     return Err(syn::Error::new_spanned(
-- 
2.43.0


From 82dcd424cddf598921dc2459360a346662ec7446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:51 +0000
Subject: [PATCH 47/51] fix: C++ fields named _base_something aren't base
 classes

---
 engine/src/conversion/analysis/pod/mod.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/engine/src/conversion/analysis/pod/mod.rs b/engine/src/conversion/analysis/pod/mod.rs
index 32cd8cc..090716c 100644
--- a/engine/src/conversion/analysis/pod/mod.rs
+++ b/engine/src/conversion/analysis/pod/mod.rs
@@ -13,7 +13,7 @@ use indexmap::set::IndexSet as HashSet;
 
 use autocxx_parser::IncludeCppConfig;
 use byvalue_checker::ByValueChecker;
-use syn::{ItemStruct, Type, Visibility};
+use syn::{Ident, ItemStruct, Type, Visibility};
 
 use crate::{
     conversion::{
@@ -240,8 +240,7 @@ fn get_struct_field_types(
                     .ident
                     .as_ref()
                     .map(|id| {
-                        id.to_string().starts_with("_base")
-                            || id.to_string().starts_with("__bindgen_padding")
+                        is_base_field_name(id) || id.to_string().starts_with("__bindgen_padding")
                     })
                     .unwrap_or(false)
                 {
@@ -297,6 +296,18 @@ fn get_struct_field_types(
     convert_errors
 }
 
+/// Whether this is one of the names which bindgen gives to the fields by
+/// which it represents base classes (`_base`, `_base_1`, ...), as opposed to
+/// a C++ field whose name merely starts the same way.
+fn is_base_field_name(id: &Ident) -> bool {
+    id.to_string()
+        .strip_prefix("_base")
+        .is_some_and(|suffix| match suffix.strip_prefix('_') {
+            Some(digits) => !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit()),
+            None => suffix.is_empty(),
+        })
+}
+
 /// Map to whether the bases are public.
 fn get_bases(item: &ItemStruct) -> HashMap<QualifiedName, bool> {
     item.fields
@@ -307,7 +318,7 @@ fn get_bases(item: &ItemStruct) -> HashMap<QualifiedName, bool> {
                 Type::Path(typ) => f
                     .ident
                     .as_ref()
-                    .filter(|id| id.to_string().starts_with("_base"))
+                    .filter(|id| is_base_field_name(id))
                     .map(|_| (QualifiedName::from_type_path(typ), is_public)),
                 _ => None,
             }
-- 
2.43.0


From 64dc4e5c2f50854b4ea4e493d33e87455a5c51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:01 +0000
Subject: [PATCH 48/51] fix: leave out functions using names reserved by cxx
 instead of failing

An identifier starting with cxxbridge made cxx reject the whole bridge.
---
 engine/src/types.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/types.rs b/engine/src/types.rs
index 7dfc86d..c45ba4a 100644
--- a/engine/src/types.rs
+++ b/engine/src/types.rs
@@ -242,6 +242,8 @@ pub enum InvalidIdentError {
     Bitfield,
     #[error("Names containing __ are reserved by C++ so not acceptable to cxx")]
     TooManyUnderscores,
+    #[error("Names starting with cxxbridge are reserved by cxx")]
+    ReservedByCxx,
     #[error("bindgen decided to call this type _bindgen_ty_N because it couldn't deduce the correct name for it. That means we can't generate C++ bindings to it.")]
     BindgenTy,
     #[error("The item name '{0}' is a reserved word in Rust.")]
@@ -262,6 +264,8 @@ pub fn validate_ident_ok_for_cxx(id: &str) -> Result<(), InvalidIdentError> {
         Err(InvalidIdentError::Union)
     } else if id.contains("__") && !id.starts_with("__bindgen_marker") {
         Err(InvalidIdentError::TooManyUnderscores)
+    } else if id.starts_with("cxxbridge") {
+        Err(InvalidIdentError::ReservedByCxx)
     } else if id.starts_with("_bindgen_ty_") {
         Err(InvalidIdentError::BindgenTy)
     } else {
-- 
2.43.0


From 7d7ea16bed15a4d1818fb914b1c8ff5390b36203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:01 +0000
Subject: [PATCH 49/51] fix: avoid clashes between parameter names and names
 made up by autocxx

---
 engine/src/conversion/analysis/fun/mod.rs       | 17 +++++++++++++++--
 .../codegen_rs/function_wrapper_rs.rs           |  4 +++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/mod.rs b/engine/src/conversion/analysis/fun/mod.rs
index 0dc589b..98803f5 100644
--- a/engine/src/conversion/analysis/fun/mod.rs
+++ b/engine/src/conversion/analysis/fun/mod.rs
@@ -1212,7 +1212,13 @@ impl<'a> FnAnalyzer<'a> {
         // Analyze the return type, just as we previously did for the
         // parameters.
         let mut return_analysis = self
-            .convert_return_type(&fun.output, ns, &diagnostic_name, sophistication)
+            .convert_return_type(
+                &fun.output,
+                &param_details,
+                ns,
+                &diagnostic_name,
+                sophistication,
+            )
             .unwrap_or_else(|err| {
                 set_ignore_reason(err);
                 ReturnTypeAnalysis::default()
@@ -1946,6 +1952,7 @@ impl<'a> FnAnalyzer<'a> {
     fn convert_return_type(
         &mut self,
         rt: &ReturnType,
+        param_details: &[ArgumentAnalysis],
         ns: &Namespace,
         diagnostic_name: &QualifiedName,
         sophistication: TypeConversionSophistication,
@@ -1971,8 +1978,14 @@ impl<'a> FnAnalyzer<'a> {
                             // That means, we do not literally _return_ it from C++ to Rust. Instead, our call
                             // from Rust to C++ will include an extra placement parameter into which the object
                             // is constructed.
+                            let mut fnarg_name = make_ident("placement_return_type");
+                            while param_details.iter().any(
+                                |pd| matches!(&pd.name.0, syn::Pat::Ident(pp) if pp.ident == fnarg_name.0),
+                            ) {
+                                fnarg_name = make_ident(format!("{fnarg_name}_"));
+                            }
                             let fnarg = parse_quote! {
-                                placement_return_type: *mut #ty
+                                #fnarg_name: *mut #ty
                             };
                             let (fnarg, analysis) = self.convert_fn_arg(
                                 &fnarg,
diff --git a/engine/src/conversion/codegen_rs/function_wrapper_rs.rs b/engine/src/conversion/codegen_rs/function_wrapper_rs.rs
index eed7894..3333b1f 100644
--- a/engine/src/conversion/codegen_rs/function_wrapper_rs.rs
+++ b/engine/src/conversion/codegen_rs/function_wrapper_rs.rs
@@ -124,7 +124,9 @@ impl TypeConversionPolicy {
                 let param_trait = make_ident(param_trait);
                 let var_counter = *counter;
                 *counter += 1;
-                let space_var_name = format!("space{var_counter}");
+                // Parameters with __ in their names aren't supported,
+                // so this can't be the name of another parameter.
+                let space_var_name = format!("__space{var_counter}");
                 let space_var_name = make_ident(space_var_name);
                 let ty = self.cxxbridge_type();
                 let ty = parse_quote! { impl autocxx::#param_trait<#ty> };
-- 
2.43.0


From 11c7a2f23d0df7a4dd3903ffdfa07e258763c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:49 +0000
Subject: [PATCH 50/51] fix: copy constructors taking non-const references
 aren't enough for CopyNew

Classes with only such a constructor got an implicit copy constructor taking a
const reference, and so did classes containing them: the C++ did not build.
---
 .../analysis/fun/implicit_constructors.rs         | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/implicit_constructors.rs b/engine/src/conversion/analysis/fun/implicit_constructors.rs
index 7777571..66f8140 100644
--- a/engine/src/conversion/analysis/fun/implicit_constructors.rs
+++ b/engine/src/conversion/analysis/fun/implicit_constructors.rs
@@ -125,11 +125,11 @@ impl ItemsFound {
     /// Returns whether we should generate a copy constructor wrapper, because bindgen won't do one
     /// for the implicit copy constructor which exists.
     pub(super) fn implicit_copy_constructor_needed(&self) -> bool {
-        let any_implicit_copy = self.const_copy_constructor.exists_implicit()
-            || self.non_const_copy_constructor.exists_implicit();
+        // If the implicit copy constructor takes a non-const reference, that's not sufficient to
+        // implement CopyNew.
         let no_explicit_copy = !(self.const_copy_constructor.exists_explicit()
             || self.non_const_copy_constructor.exists_explicit());
-        any_implicit_copy && no_explicit_copy
+        self.const_copy_constructor.exists_implicit() && no_explicit_copy
     }
 
     /// Returns whether we should generate a move constructor wrapper, because bindgen won't do one
@@ -688,6 +688,13 @@ fn find_explicit_items(
                 MethodKind::Constructor { is_default: true } => {
                     Some(ExplicitKind::DefaultConstructor)
                 }
+                // In `analyze_foreign_fn` we treat non-const copy constructors as regular
+                // constructors.
+                MethodKind::Constructor { is_default: false }
+                    if matches!(fun.special_member, Some(SpecialMemberKind::CopyConstructor)) =>
+                {
+                    Some(ExplicitKind::NonConstCopyConstructor)
+                }
                 MethodKind::Constructor { is_default: false } => {
                     Some(ExplicitKind::OtherConstructor)
                 }
@@ -706,8 +713,6 @@ fn find_explicit_items(
                 ..
             } => match kind {
                 TraitMethodKind::Destructor => Some(ExplicitKind::Destructor),
-                // In `analyze_foreign_fn` we mark non-const copy constructors as not being copy
-                // constructors for now, so we don't have to worry about them.
                 TraitMethodKind::CopyConstructor => Some(ExplicitKind::ConstCopyConstructor),
                 TraitMethodKind::MoveConstructor => Some(ExplicitKind::MoveConstructor),
                 _ => None,
-- 
2.43.0


From ff4bd9bdf34f1f1800501a22ea8ed5afa9907cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:21 +0000
Subject: [PATCH 51/51] fix: generated C++ headers of several modules can be
 included in one file

---
 engine/src/conversion/codegen_cpp/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/engine/src/conversion/codegen_cpp/mod.rs b/engine/src/conversion/codegen_cpp/mod.rs
index 5ab102a..9304091 100644
--- a/engine/src/conversion/codegen_cpp/mod.rs
+++ b/engine/src/conversion/codegen_cpp/mod.rs
@@ -232,9 +232,12 @@ impl<'a> CppCodeGenerator<'a> {
             let cpp_headers = self.collect_headers(|additional_need| &additional_need.cpp_headers);
             let type_definitions = self.concat_additional_items(|x| x.type_definition.as_ref());
             let declarations = self.concat_additional_items(|x| x.declaration.as_ref());
+            // Several such headers may be included in the same place, so the guard
+            // must differ from one set of bindings to the next.
+            let guard = self.config.uniquify_name_per_mod("AUTOCXXGEN_H");
             let declarations = format!(
-                "{}\n#ifndef __AUTOCXXGEN_H__\n#define __AUTOCXXGEN_H__\n\n{}\n{}\n{}\n{}#endif // __AUTOCXXGEN_H__\n",
-                GENERATED_FILE_HEADER, headers, self.inclusions, type_definitions, declarations
+                "{GENERATED_FILE_HEADER}\n#ifndef {guard}\n#define {guard}\n\n{headers}\n{}\n{type_definitions}\n{declarations}#endif // {guard}\n",
+                self.inclusions
             );
             log::info!("Additional C++ decls:\n{}", declarations);
             let header_name = self
-- 
2.43.0

