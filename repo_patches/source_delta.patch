From 2050b85b99c038e63251cc3a7955cb577f626162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 01/47] fix: restore the Python output streams also when
 parsing fails

---
 pyo3_bindgen_engine/src/utils/io.rs | 38 ++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/pyo3_bindgen_engine/src/utils/io.rs b/pyo3_bindgen_engine/src/utils/io.rs
index a00b1b4..e50d290 100644
--- a/pyo3_bindgen_engine/src/utils/io.rs
+++ b/pyo3_bindgen_engine/src/utils/io.rs
@@ -22,23 +22,33 @@ pub fn with_suppressed_python_output<T>(
 
     // Suppress the output
     let supressed_output = py.eval_bound(r"lambda: type('SupressedOutput', (), {'write': lambda self, x: None, 'flush': lambda self: None})", None, None)?;
-    if suppress_stdout {
-        sys.setattr(stdout_ident, &supressed_output)?;
-    }
-    if suppress_stderr {
-        sys.setattr(stderr_ident, &supressed_output)?;
-    }
+    let suppress = || -> Result<()> {
+        if suppress_stdout {
+            sys.setattr(stdout_ident, &supressed_output)?;
+        }
+        if suppress_stderr {
+            sys.setattr(stderr_ident, &supressed_output)?;
+        }
+        Ok(())
+    };
 
     // Run the function
-    let ret = f()?;
+    let ret = suppress().and_then(|()| f());
 
-    // Restore the original stdout and stderr
-    if suppress_stdout {
-        sys.setattr(stdout_ident, original_stdout)?;
-    }
-    if suppress_stderr {
-        sys.setattr(stderr_ident, original_stderr)?;
-    }
+    // Restore the original stdout and stderr (even if the function failed)
+    let restored_stdout = if suppress_stdout {
+        sys.setattr(stdout_ident, original_stdout)
+    } else {
+        Ok(())
+    };
+    let restored_stderr = if suppress_stderr {
+        sys.setattr(stderr_ident, original_stderr)
+    } else {
+        Ok(())
+    };
 
+    let ret = ret?;
+    restored_stdout?;
+    restored_stderr?;
     Ok(ret)
 }
-- 
2.43.0


From bff55a1ba171e7b7e238702bb6c66b1526a89059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 02/47] fix: methods without parameters are looked up on their
 class

---
 pyo3_bindgen_engine/src/syntax/function.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index bf046c3..7fd0f91 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -231,8 +231,8 @@ impl Function {
             // Hack: Reassign InstanceMethod with no parameter to StaticMethod
             // This should not be necessary as every InstanceMethod should have at least one parameter (self), but it does for certain complex Python modules
             if let FunctionType::Method {
+                class_path,
                 typ: MethodType::InstanceMethod,
-                ..
             } = &typ
             {
                 if parameters.is_empty() {
@@ -240,7 +240,7 @@ impl Function {
                             "WARN: Method '{name}' is marked as an instance method, but has no parameters. Changed to static method.",
                         );
                     typ = FunctionType::Method {
-                        class_path: name.clone(),
+                        class_path: class_path.clone(),
                         typ: MethodType::StaticMethod,
                     };
                 }
-- 
2.43.0


From f4bce6bb7b328025368b400d50ef7fcdf4495a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 03/47] fix: only drop the receiver of a method if it is a
 positional parameter

---
 pyo3_bindgen_engine/src/syntax/function.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 7fd0f91..4adbd19 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -102,9 +102,6 @@ impl Function {
                 })
                 .collect::<Result<Vec<_>>>()?;
 
-            // Retain only used parameters (discard unused `_` parameters)
-            parameters.retain(|param| param.name.as_rs() != "r#_");
-
             // Extract the return annotation of the function
             let return_annotation = {
                 let return_annotation =
@@ -252,9 +249,21 @@ impl Function {
                 ..
             } = typ
             {
-                parameters.remove(0);
+                // A receiver collected by `*args` must not discard the remaining positional arguments
+                if parameters.first().is_some_and(|param| {
+                    [
+                        ParameterKind::PositionalOnly,
+                        ParameterKind::PositionalOrKeyword,
+                    ]
+                    .contains(&param.kind)
+                }) {
+                    parameters.remove(0);
+                }
             };
 
+            // Retain only used parameters (discard unused `_` parameters)
+            parameters.retain(|param| param.name.as_rs() != "r#_");
+
             // If any of the parameters is still called 'self', do not handle the parameters
             if parameters
                 .iter()
-- 
2.43.0


From dea0573b1a3d69bacda80a39ce2872d018e962c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 04/47] fix: recognise class methods of extension types

---
 pyo3_bindgen_engine/src/syntax/function.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 4adbd19..cc16c59 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -143,7 +143,11 @@ impl Function {
                     }) {
                         let locals = [("obj", static_fn_obj)].into_py_dict_bound(py);
                         let method_type = if py
-                            .eval_bound("isinstance(obj, classmethod)", None, Some(&locals))?
+                            .eval_bound(
+                                "isinstance(obj, (classmethod, type(dict.__dict__['fromkeys'])))",
+                                None,
+                                Some(&locals),
+                            )?
                             .is_truthy()?
                         {
                             MethodType::ClassMethod
-- 
2.43.0


From 6eddcb9d69c65f4e35cafa7c689a3d83b4670bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 05/47] fix: do not panic on generics with missing inner types

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 30 ++++++++++++-----------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 50d259b..fc0d78a 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -151,46 +151,43 @@ impl Type {
                         }
                         Self::Optional(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
-                            Self::Optional(Box::new(inner_types[0].clone()))
+                            Self::Optional(Box::new(nth_inner_type(&inner_types, 0)))
                         }
                         Self::PyDict { .. } => {
                             // debug_assert_eq!(inner_types.len(), 2);
                             Self::PyDict {
-                                key_type: Box::new(inner_types[0].clone()),
-                                value_type: Box::new(inner_types[1].clone()),
+                                key_type: Box::new(nth_inner_type(&inner_types, 0)),
+                                value_type: Box::new(nth_inner_type(&inner_types, 1)),
                             }
                         }
                         Self::PyFrozenSet(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
-                            Self::PyFrozenSet(Box::new(inner_types[0].clone()))
+                            Self::PyFrozenSet(Box::new(nth_inner_type(&inner_types, 0)))
                         }
                         Self::PyList(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
-                            Self::PyList(Box::new(inner_types[0].clone()))
+                            Self::PyList(Box::new(nth_inner_type(&inner_types, 0)))
                         }
                         Self::PySet(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
-                            Self::PySet(Box::new(inner_types[0].clone()))
+                            Self::PySet(Box::new(nth_inner_type(&inner_types, 0)))
                         }
                         Self::PyTuple(..) => Self::PyTuple(inner_types),
                         Self::PyFunction { .. } => {
                             // debug_assert!(!inner_types.is_empty());
                             Self::PyFunction {
                                 param_types: match inner_types.len() {
-                                    1 => Vec::default(),
+                                    0 | 1 => Vec::default(),
                                     _ => inner_types[..inner_types.len() - 1].to_owned(),
                                 },
                                 return_annotation: Box::new(
-                                    inner_types
-                                        .last()
-                                        .unwrap_or_else(|| unreachable!())
-                                        .to_owned(),
+                                    inner_types.last().cloned().unwrap_or(Self::Unknown),
                                 ),
                             }
                         }
                         Self::PyType => {
                             // debug_assert_eq!(inner_types.len(), 1);
-                            inner_types[0].clone()
+                            nth_inner_type(&inner_types, 0)
                         }
                         _ => {
                             // TODO: Handle other types with inner types if useful (e.g. Generator)
@@ -268,8 +265,8 @@ impl std::str::FromStr for Type {
                     .map(|x| Self::from_str(x))
                     .collect::<Result<Vec<_>>>()?;
                 Self::PyDict {
-                    key_type: Box::new(inner_types[0].clone()),
-                    value_type: Box::new(inner_types[1].clone()),
+                    key_type: Box::new(nth_inner_type(&inner_types, 0)),
+                    value_type: Box::new(nth_inner_type(&inner_types, 1)),
                 }
             }
             "dict" | "Dict" | "Mapping" => Self::PyDict {
@@ -476,6 +473,11 @@ impl std::str::FromStr for Type {
     }
 }
 
+/// Returns the nth inner type of a generic, which is unknown if the generic specifies fewer types.
+fn nth_inner_type(inner_types: &[Type], n: usize) -> Type {
+    inner_types.get(n).cloned().unwrap_or(Type::Unknown)
+}
+
 // TODO: Refactor `repair_complex_sequence()` into something more sensible
 /// Repairs complex wrapped sequences.
 fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
-- 
2.43.0


From aa06b651ef98dad1bfbc8c9f5bd77368614c6290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 06/47] fix: do not panic on unbalanced brackets in annotation
 strings

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index fc0d78a..e4e46bd 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -492,13 +492,14 @@ fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
     'outer: while !traversed_all_elements {
         traversed_all_elements = true;
         'inner: for i in start_index..(sequence.len() - 1) {
-            let mut n_scopes = sequence[i].matches('[').count() - sequence[i].matches(']').count();
+            let mut n_scopes = sequence[i].matches('[').count() as isize
+                - sequence[i].matches(']').count() as isize;
             if n_scopes == 0 {
                 continue;
             }
             for j in (i + 1)..sequence.len() {
-                n_scopes += sequence[j].matches('[').count();
-                n_scopes -= sequence[j].matches(']').count();
+                n_scopes += sequence[j].matches('[').count() as isize;
+                n_scopes -= sequence[j].matches(']').count() as isize;
                 if n_scopes == 0 {
                     let mut new_element = sequence[i].clone();
                     for relevant_element in sequence.iter().take(j + 1).skip(i + 1) {
-- 
2.43.0


From e5e943387c1e0d4692bcbc09f8890ea61fcf4fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 07/47] fix: do not panic on property setters with an unusual
 signature

---
 pyo3_bindgen_engine/src/syntax/property.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 3f89eff..5c1e61c 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -96,12 +96,17 @@ impl Property {
                                     .call_method0(pyo3::intern!(py, "values"))?
                                     .iter()?
                                     .nth(1)
-                                    .unwrap()?;
-                                let annotation = param.getattr(pyo3::intern!(py, "annotation"))?;
-                                if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
-                                    Type::Unknown
+                                    .transpose()?;
+                                if let Some(param) = param {
+                                    let annotation =
+                                        param.getattr(pyo3::intern!(py, "annotation"))?;
+                                    if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
+                                        Type::Unknown
+                                    } else {
+                                        annotation.try_into()?
+                                    }
                                 } else {
-                                    annotation.try_into()?
+                                    Type::Unknown
                                 }
                             };
                         } else {
-- 
2.43.0


From 95855fe5afc34c4e9af19f558f6770489abfe2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 08/47] fix: do not panic on local types that are not valid
 Rust identifiers

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index d9f27f1..022a0a6 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -318,8 +318,10 @@ impl Type {
         // Try to map the local types
         let type_name_without_delimiters =
             type_name.split_once('[').map(|s| s.0).unwrap_or(&type_name);
-        if let Some(relative_path) = local_types.get(&Path::from_py(type_name_without_delimiters)) {
-            let relative_path: syn::Path = relative_path.try_into().unwrap();
+        if let Some(relative_path) = local_types
+            .get(&Path::from_py(type_name_without_delimiters))
+            .and_then(|relative_path| syn::Path::try_from(relative_path).ok())
+        {
             return OutputType::new(
                 quote!(::pyo3::Bound<'py, #relative_path>),
                 quote!(&::pyo3::Bound<'py, #relative_path>),
-- 
2.43.0


From 0c01a46d2546e188be2126205f2993ed5dc44329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 09/47] fix: report modules without a name as an error

---
 pyo3_bindgen_engine/src/syntax/module.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 31fc78e..c085c13 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -55,7 +55,7 @@ impl Module {
         let py = module.py();
 
         // Extract the name of the module
-        let name = Path::from_py(&module.name().unwrap().to_string());
+        let name = Path::from_py(&module.name()?.to_string());
 
         // Extract the index of the module as prelude (if enabled)
         let prelude = if cfg.generate_preludes {
@@ -223,11 +223,6 @@ impl Module {
                         if let Ok(submodule) = py
                             .import_bound(full_submodule_name.to_py().as_str())
                             .map_err(crate::PyBindgenError::from)
-                            .map(|attr| {
-                                <pyo3::Bound<'_, PyAny> as Clone>::clone(&attr)
-                                    .downcast_into::<pyo3::types::PyModule>()
-                                    .unwrap()
-                            })
                             .and_then(|module| Self::parse(cfg, &module))
                         {
                             // It could be any attribute, so all of them need to be checked
@@ -536,7 +531,7 @@ impl Module {
             .collect::<Result<Vec<_>>>()?;
 
         // Extract the names of all submodules via `pkgutil.iter_modules`
-        let module_name = Path::from_py(&module.name().unwrap().to_string());
+        let module_name = Path::from_py(&module.name()?.to_string());
         pkgutil
             .call_method1(pyo3::intern!(py, "iter_modules"), (module_paths,))?
             .iter()?
-- 
2.43.0


From 8397609a8cae57064e72817eaf91d0c1fb5ee4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 10/47] fix: do not panic on dependencies that cannot be
 imported

---
 pyo3_bindgen_engine/src/codegen.rs | 31 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 32bf8e0..2f33c22 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -197,16 +197,16 @@ impl Codegen {
             external_imports
                 .iter()
                 // Get the last valid module within the path of the import
-                .map(|import| {
-                    let mut last_module = py
-                        .import_bound(
-                            import
-                                .root()
-                                .unwrap_or_else(|| unreachable!())
-                                .to_py()
-                                .as_str(),
-                        )
-                        .unwrap();
+                .filter_map(|import| {
+                    let Some(mut last_module) = import
+                        .root()
+                        .and_then(|root| py.import_bound(root.to_py().as_str()).ok())
+                    else {
+                        eprintln!(
+                            "WARN: Cannot import the module of '{import}'. Bindings for this dependency will not be generated.",
+                        );
+                        return None;
+                    };
                     for path in &import[1..] {
                         if let Ok(attr) = last_module.getattr(path.as_py()) {
                             if let Ok(module) = attr.downcast_into::<pyo3::types::PyModule>() {
@@ -218,14 +218,15 @@ impl Codegen {
                             break;
                         }
                     }
-                    last_module
+                    let module_name = last_module.name().ok()?.to_string();
+                    Some((last_module, module_name))
                 })
                 // Parse the module and add it to the module tree
-                .unique_by(|module| module.name().unwrap().to_string())
+                .unique_by(|(_module, module_name)| module_name.clone())
                 // Filter attributes based on various configurable conditions
-                .filter(|module| {
+                .filter(|(module, module_name)| {
                     self.cfg.is_attr_allowed(
-                        &Ident::from_py(&module.name().unwrap().to_string()),
+                        &Ident::from_py(module_name),
                         &Path::from_py(
                             &module
                                 .getattr(pyo3::intern!(py, "__module__"))
@@ -235,7 +236,7 @@ impl Codegen {
                         &py.get_type_bound::<pyo3::types::PyModule>(),
                     )
                 })
-                .try_for_each(|module| {
+                .try_for_each(|(module, _module_name)| {
                     crate::io_utils::with_suppressed_python_output(
                         module.py(),
                         self.cfg.suppress_python_stdout,
-- 
2.43.0


From 7a69f61c243a92763c44f09eac938f24c98f4f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:48 +0000
Subject: [PATCH 11/47] fix: use the correct names of the IP address types

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 022a0a6..1f39ab1 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -202,8 +202,8 @@ impl Type {
             }
 
             // Additional types - std
-            Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::IpV4Addr)),
-            Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::IpV6Addr)),
+            Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::Ipv4Addr)),
+            Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::Ipv6Addr)),
             Self::Path => OutputType::new(quote!(::std::path::PathBuf), quote!(&::std::path::Path)),
             // TODO: Map `PySlice` to `std::ops::Range` if possible
             Self::PySlice => OutputType::new(
-- 
2.43.0


From fe56d8b315e1ab71d3dc2efe744f53ef90f4f883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:48 +0000
Subject: [PATCH 12/47] fix: only treat types as hashable if their Rust
 counterpart is

---
 pyo3_bindgen_engine/src/typing/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/mod.rs b/pyo3_bindgen_engine/src/typing/mod.rs
index c5ec710..192b765 100644
--- a/pyo3_bindgen_engine/src/typing/mod.rs
+++ b/pyo3_bindgen_engine/src/typing/mod.rs
@@ -79,11 +79,7 @@ impl Type {
                 | Self::IpV4Addr
                 | Self::IpV6Addr
                 | Self::Path
-                | Self::PyDelta
-                | Self::PyDict { .. }
-                | Self::PyFrozenSet(..)
                 | Self::PyLong
-                | Self::PySet(..)
                 | Self::PyString
         )
     }
-- 
2.43.0


From 6d41795f4610b3d7700ab0621107ca2e20de6a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:48 +0000
Subject: [PATCH 13/47] fix: type property setters by the parameter of the
 setter

---
 pyo3_bindgen_engine/src/syntax/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 5c1e61c..e28bc9e 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -320,11 +320,11 @@ impl Property {
             }
         };
         let param_name = self.name.name().as_py();
-        let param_preprocessing = self.annotation.preprocess_borrowed(
+        let param_preprocessing = self.setter_annotation.preprocess_borrowed(
             &syn::Ident::new("p_value", proc_macro2::Span::call_site()),
             local_types,
         );
-        let param_type = self.annotation.clone().into_rs_borrowed(local_types);
+        let param_type = self.setter_annotation.clone().into_rs_borrowed(local_types);
         match &self.owner {
             PropertyOwner::Module => {
                 let import = pyo3::Python::with_gil(|py| {
-- 
2.43.0


From 2eb8aece34206febe299c2c6f64ff56b0efa516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:48 +0000
Subject: [PATCH 14/47] fix: do not map datetime to its base class date

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index e4e46bd..af8298d 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -75,11 +75,12 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyType>> for Type {
             t if t.is_subclass_of::<pyo3::types::PyComplex>()? => Self::PyComplex,
 
             // Additional types - datetime
-            #[cfg(not(Py_LIMITED_API))]
-            t if t.is_subclass_of::<pyo3::types::PyDate>()? => Self::PyDate,
+            // Note: `datetime` must be checked first because it is a subclass of `date`
             #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyDateTime>()? => Self::PyDateTime,
             #[cfg(not(Py_LIMITED_API))]
+            t if t.is_subclass_of::<pyo3::types::PyDate>()? => Self::PyDate,
+            #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyDelta>()? => Self::PyDelta,
             #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyTime>()? => Self::PyTime,
-- 
2.43.0


From 0e6c117a1a7aca00d9bbf2202431321468709e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:48 +0000
Subject: [PATCH 15/47] fix: do not split unions nested within the brackets of
 an annotation string

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 39 +++++++++++++++--------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index af8298d..7cba8f6 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -223,26 +223,23 @@ impl std::str::FromStr for Type {
 
             // Enums
             optional
-                if optional.matches('|').count() == 1 && optional.matches("None").count() == 1 =>
+                if matches!(
+                    split_union(optional)[..],
+                    ["None", inner_type] | [inner_type, "None"] if inner_type != "None"
+                ) =>
             {
                 let inner_type = Self::from_str(
-                    optional
-                        .split('|')
-                        .map(str::trim)
+                    split_union(optional)
+                        .into_iter()
                         .find(|x| *x != "None")
                         .unwrap_or_else(|| unreachable!()),
                 )?;
                 Self::Optional(Box::new(inner_type))
             }
-            r#union if r#union.contains('|') => {
-                let mut inner_types = r#union
-                    .split('|')
-                    .map(|x| x.trim().to_owned())
-                    .collect_vec();
-                repair_complex_sequence(&mut inner_types, ',');
-                let inner_types = inner_types
-                    .iter()
-                    .map(|x| Self::from_str(x))
+            r#union if split_union(r#union).len() > 1 => {
+                let inner_types = split_union(r#union)
+                    .into_iter()
+                    .map(Self::from_str)
                     .collect::<Result<_>>()?;
                 Self::Union(inner_types)
             }
@@ -479,6 +476,22 @@ fn nth_inner_type(inner_types: &[Type], n: usize) -> Type {
     inner_types.get(n).cloned().unwrap_or(Type::Unknown)
 }
 
+/// Splits a union into its variants, i.e. at each `|` that is not nested within brackets.
+fn split_union(value: &str) -> Vec<&str> {
+    let mut n_scopes = 0_isize;
+    value
+        .split(|c| {
+            match c {
+                '[' => n_scopes += 1,
+                ']' => n_scopes -= 1,
+                _ => {}
+            }
+            c == '|' && n_scopes == 0
+        })
+        .map(str::trim)
+        .collect()
+}
+
 // TODO: Refactor `repair_complex_sequence()` into something more sensible
 /// Repairs complex wrapped sequences.
 fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
-- 
2.43.0


From 7b0de62d087a75af713e4efda5ee7a8e26106c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 16/47] fix: do not panic on annotation strings with
 overlapping quotes

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 7cba8f6..4b652c3 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -430,7 +430,7 @@ impl std::str::FromStr for Type {
                     .strip_prefix("<class '")
                     .unwrap_or_else(|| unreachable!())
                     .strip_suffix("'>")
-                    .unwrap_or_else(|| unreachable!()),
+                    .unwrap_or_default(),
             )?,
 
             // enums
@@ -439,7 +439,7 @@ impl std::str::FromStr for Type {
                     .strip_prefix("<enum '")
                     .unwrap_or_else(|| unreachable!())
                     .strip_suffix("'>")
-                    .unwrap_or_else(|| unreachable!()),
+                    .unwrap_or_default(),
             )?,
 
             // typing
-- 
2.43.0


From eea504f54a1fb1f59b6ad094f569ec85911a0a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 17/47] fix: do not panic on unions that contain nothing but
 None

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 4b652c3..8c20bfe 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -143,8 +143,8 @@ impl Type {
                                     inner_types
                                         .iter()
                                         .find(|x| **x != Self::PyNone)
-                                        .unwrap_or_else(|| unreachable!())
-                                        .to_owned(),
+                                        .cloned()
+                                        .unwrap_or(Self::PyNone),
                                 ))
                             } else {
                                 Self::Union(inner_types)
-- 
2.43.0


From dc39bed78ddc14635ae51b1222b8c6320f317a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 18/47] fix: preserve Python items named super in paths

---
 pyo3_bindgen_engine/src/syntax/common/path.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 789a005..33677ac 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -61,8 +61,14 @@ impl Path {
     pub fn to_py(&self) -> String {
         self.segments
             .iter()
-            .map(Ident::as_py)
-            .map(|s| if s == "super" { "" } else { s })
+            // Note: An item named `super` is escaped, unlike the segments of a relative path
+            .map(|ident| {
+                if ident.as_rs() == "super" {
+                    ""
+                } else {
+                    ident.as_py()
+                }
+            })
             .collect_vec()
             .join(".")
     }
-- 
2.43.0


From be87a955149073a4f49d0a4095de41ac50f70485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 19/47] fix: do not panic on unusual Python names in debug
 builds

---
 pyo3_bindgen_engine/src/syntax/common/ident.rs | 1 -
 pyo3_bindgen_engine/src/syntax/common/path.rs  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/ident.rs b/pyo3_bindgen_engine/src/syntax/common/ident.rs
index b6fda6a..379f4ff 100644
--- a/pyo3_bindgen_engine/src/syntax/common/ident.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/ident.rs
@@ -9,7 +9,6 @@ impl Ident {
     }
 
     pub fn from_py(value: &str) -> Self {
-        debug_assert!(!value.is_empty());
         Self(Self::py_to_rs(value))
     }
 
diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 33677ac..bc6ddab 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -27,7 +27,6 @@ impl Path {
         if value.is_empty() {
             return Self::default();
         }
-        debug_assert!(!value.contains("::"), "Invalid Python path: {value}");
         Self {
             leading_colon: false,
             segments: std::iter::repeat(Ident::from_rs("super"))
-- 
2.43.0


From db2baa280e5b74783dc20a3691d0f14a7689000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 20/47] fix: do not emit a stray visibility for omitted
 property accessors

---
 pyo3_bindgen_engine/src/syntax/property.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index e28bc9e..de9d17e 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -165,14 +165,18 @@ impl Property {
                 let impl_fn = self
                     .generate_getter(cfg, scoped_function_idents, local_types)?
                     .impl_fn;
-                functions.extend(quote::quote! { pub #impl_fn });
+                if !impl_fn.is_empty() {
+                    functions.extend(quote::quote! { pub #impl_fn });
+                }
 
                 // Setter (if mutable)
                 if self.is_mutable {
                     let impl_fn = self
                         .generate_setter(cfg, scoped_function_idents, local_types)?
                         .impl_fn;
-                    functions.extend(quote::quote! { pub #impl_fn });
+                    if !impl_fn.is_empty() {
+                        functions.extend(quote::quote! { pub #impl_fn });
+                    }
                 }
 
                 FunctionImplementation::Function(functions)
-- 
2.43.0


From 7a9cf5670d94e7575ef0ffd14b646dfefda0e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 21/47] fix: skip properties whose name is not a valid Rust
 identifier

---
 pyo3_bindgen_engine/src/syntax/property.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index de9d17e..6d805e3 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -245,8 +245,14 @@ impl Property {
                     || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&getter_name.as_py())
                 {
                     return Ok(TraitMethod::empty());
+                } else if let Ok(getter_ident) = getter_name.try_into() {
+                    getter_ident
                 } else {
-                    getter_name.try_into()?
+                    eprintln!(
+                        "WARN: Property '{}' is an invalid Rust ident. Bindings will not be generated.",
+                        self.name
+                    );
+                    return Ok(TraitMethod::empty());
                 }
             }
         };
@@ -319,8 +325,14 @@ impl Property {
                 || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&setter_name.as_py())
             {
                 return Ok(TraitMethod::empty());
+            } else if let Ok(setter_ident) = setter_name.try_into() {
+                setter_ident
             } else {
-                setter_name.try_into()?
+                eprintln!(
+                    "WARN: Property '{}' is an invalid Rust ident. Bindings will not be generated.",
+                    self.name
+                );
+                return Ok(TraitMethod::empty());
             }
         };
         let param_name = self.name.name().as_py();
-- 
2.43.0


From 84162d3fcc93db0a90422df8a4b3d5ea8b24dcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 22/47] fix: embed the source code of nested modules under
 their Python name

---
 pyo3_bindgen_engine/src/codegen.rs       | 46 +++++++++++++-----------
 pyo3_bindgen_engine/src/syntax/module.rs | 10 +++---
 2 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 2f33c22..8f8363d 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -146,14 +146,10 @@ impl Codegen {
         }
 
         // Canonicalize the module tree
-        self.canonicalize();
+        self.canonicalize()?;
 
         // Embed the source code of the modules
-        self.modules.iter_mut().for_each(|module| {
-            if let Some(source_code) = self.embedded_source_code.get(&module.name.to_rs()) {
-                module.source_code = Some(source_code.clone());
-            }
-        });
+        Self::embed_source_code(&mut self.modules, &self.embedded_source_code);
 
         // Generate the bindings for all modules
         self.modules
@@ -251,29 +247,39 @@ impl Codegen {
         })
     }
 
-    fn canonicalize(&mut self) {
+    fn embed_source_code(modules: &mut [Module], embedded_source_code: &HashMap<String, String>) {
+        for module in modules {
+            if let Some(source_code) = embedded_source_code.get(&module.name.to_py()) {
+                module.source_code = Some(source_code.clone());
+            }
+            Self::embed_source_code(&mut module.submodules, embedded_source_code);
+        }
+    }
+
+    fn canonicalize(&mut self) -> Result<()> {
         // Canonicalize the module tree, such that no submodules remain at the top-level
         // Example: If `mod.submod.subsubmod` is currently top-level, it will be embedded as submodule into `mod.submod`
         //          and `mod.submod` will be embedded in top-level `mod`
         pyo3::Python::with_gil(|py| {
-            self.modules.iter_mut().for_each(|module| {
+            self.modules.iter_mut().try_for_each(|module| {
                 if module.name.len() > 1 {
-                    *module =
-                        (0..module.name.len() - 1)
-                            .rev()
-                            .fold(module.clone(), |package, i| {
-                                let name = Path::from(&module.name[0..=i]);
-                                let mut parent_package =
-                                    Module::empty(py, name).unwrap_or_else(|_| unreachable!());
-                                parent_package.submodules.push(package);
-                                parent_package
-                            });
+                    *module = (0..module.name.len() - 1).rev().try_fold(
+                        module.clone(),
+                        |package, i| {
+                            let name = Path::from(&module.name[0..=i]);
+                            let mut parent_package = Module::empty(py, name)?;
+                            parent_package.submodules.push(package);
+                            Result::Ok(parent_package)
+                        },
+                    )?;
                 }
-            });
-        });
+                Result::Ok(())
+            })
+        })?;
 
         // Merge duplicate modules in the tree
         self.merge_duplicate_modules();
+        Ok(())
     }
 
     fn merge_duplicate_modules(&mut self) {
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index c085c13..8991ebb 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -24,16 +24,16 @@ pub struct Module {
 
 impl Module {
     pub fn empty(py: pyo3::Python, name: Path) -> Result<Self> {
-        let module = py.import_bound(name.to_py().as_str())?;
-
-        // Extract the docstring of the module
-        let docstring = {
+        // Extract the docstring of the module (parents of modules added from source code might not be importable)
+        let docstring = if let Ok(module) = py.import_bound(name.to_py().as_str()) {
             let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
             if docstring.is_empty() || docstring == "None" {
                 None
             } else {
                 Some(docstring)
             }
+        } else {
+            None
         };
 
         Ok(Self {
@@ -472,7 +472,7 @@ impl Module {
 
         // Embed the source code if the module was parsed directly from source code
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
-            let module_name = self.name.to_rs();
+            let module_name = self.name.to_py();
             let file_name = format!("{module_name}/__init__.py");
             quote::quote! {
                 /// Embed the Python source code of the module into the Python interpreter
-- 
2.43.0


From a98c6795cf4127fb9cc3dfe94efdf9fd238f8421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 23/47] fix: do not discard the prelude if any of its items is
 not a valid Rust identifier

---
 pyo3_bindgen_engine/src/syntax/module.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 8991ebb..85306a1 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -402,7 +402,7 @@ impl Module {
         }
         // Prelude
         if cfg.generate_preludes {
-            module_content.extend(self.generate_prelude());
+            module_content.extend(self.generate_prelude()?);
         }
         // Type variables
         if cfg.generate_type_vars {
@@ -630,13 +630,14 @@ impl Module {
             .iter()
             // Retain only attributes that are within self.modules, self.classes, self.functions, self.type_vars, self.properties
             .filter(|&ident| self.check_ident_exists_immediate(ident, false))
+            // Items that are not valid Rust identifiers are not available under their own name
+            .filter_map(|ident| syn::Ident::try_from(ident).ok())
             .map(|ident| {
-                let ident: syn::Ident = ident.try_into()?;
-                Ok(quote::quote! {
+                quote::quote! {
                     #ident,
-                })
+                }
             })
-            .collect::<Result<proc_macro2::TokenStream>>()?;
+            .collect::<proc_macro2::TokenStream>();
 
         // Return empty prelude if there are no exports
         if exports.is_empty() {
-- 
2.43.0


From 809549ccf5c81c7bde19216e2b46d7f915bac0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 24/47] fix: skip type variables and imports whose name is not
 a valid Rust identifier

---
 pyo3_bindgen_engine/src/syntax/import.rs   | 4 +++-
 pyo3_bindgen_engine/src/syntax/type_var.rs | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/import.rs b/pyo3_bindgen_engine/src/syntax/import.rs
index a3e3b5b..03fa5cd 100644
--- a/pyo3_bindgen_engine/src/syntax/import.rs
+++ b/pyo3_bindgen_engine/src/syntax/import.rs
@@ -53,7 +53,9 @@ impl Import {
             let maybe_alias = if self.origin.name() == self.target.name() {
                 proc_macro2::TokenStream::new()
             } else {
-                let alias: syn::Ident = self.target.name().try_into()?;
+                let Ok(alias) = syn::Ident::try_from(self.target.name()) else {
+                    return Ok(proc_macro2::TokenStream::new());
+                };
                 quote::quote! { as #alias }
             };
 
diff --git a/pyo3_bindgen_engine/src/syntax/type_var.rs b/pyo3_bindgen_engine/src/syntax/type_var.rs
index 7813c58..e9a5b27 100644
--- a/pyo3_bindgen_engine/src/syntax/type_var.rs
+++ b/pyo3_bindgen_engine/src/syntax/type_var.rs
@@ -12,7 +12,13 @@ impl TypeVar {
     }
 
     pub fn generate(&self, _cfg: &Config) -> Result<proc_macro2::TokenStream> {
-        let typevar_ident: syn::Ident = self.name.name().try_into()?;
+        let Ok(typevar_ident) = syn::Ident::try_from(self.name.name()) else {
+            eprintln!(
+                "WARN: Type variable '{}' is an invalid Rust ident. Bindings will not be generated.",
+                self.name
+            );
+            return Ok(proc_macro2::TokenStream::new());
+        };
         Ok(quote::quote! {
             pub type #typevar_ident = ::pyo3::types::PyAny;
         })
-- 
2.43.0


From f5e37b1288f871dae406e3db00e98eb35fa87292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 25/47] fix: reserve the actual name of constructors and
 callables

---
 pyo3_bindgen_engine/src/syntax/class.rs        |  6 ++++--
 pyo3_bindgen_engine/src/syntax/common/ident.rs | 11 +++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index e54f538..6bc3579 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -241,7 +241,8 @@ impl Class {
                     }
                 )
             }) {
-                scoped_function_idents_extra.push(Ident::from_py("new"));
+                scoped_function_idents_extra
+                    .push(Ident::first_unused("new", &scoped_function_idents));
             }
             if self.methods.iter().any(|method| {
                 matches!(
@@ -252,7 +253,8 @@ impl Class {
                     }
                 )
             }) {
-                scoped_function_idents_extra.push(Ident::from_py("call"));
+                scoped_function_idents_extra
+                    .push(Ident::first_unused("call", &scoped_function_idents));
             }
             scoped_function_idents.extend(scoped_function_idents_extra.iter());
             self.properties
diff --git a/pyo3_bindgen_engine/src/syntax/common/ident.rs b/pyo3_bindgen_engine/src/syntax/common/ident.rs
index 379f4ff..2972aae 100644
--- a/pyo3_bindgen_engine/src/syntax/common/ident.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/ident.rs
@@ -24,6 +24,17 @@ impl Ident {
         Self::rs_as_py(&self.0)
     }
 
+    /// The first of `{name}`, `{name}1`, `{name}2`, ... that is not used yet.
+    pub fn first_unused(name: &str, used: &[&Self]) -> Self {
+        let mut ident = Self::from_py(name);
+        let mut i = 1;
+        while used.contains(&&ident) {
+            ident = Self::from_py(&format!("{name}{i}"));
+            i += 1;
+        }
+        ident
+    }
+
     fn rs_as_py(value: &str) -> &str {
         value.strip_prefix("r#").unwrap_or(value)
     }
-- 
2.43.0


From e43dc6020baf4bcffa587ffd93c011dcd6254be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:47 +0000
Subject: [PATCH 26/47] fix: suppress Python output with an object that can be
 written to

The replacement of sys.stdout and sys.stderr was a function without a write
method, so that a module that prints while it is introspected failed.
---
 pyo3_bindgen_engine/src/utils/io.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/utils/io.rs b/pyo3_bindgen_engine/src/utils/io.rs
index e50d290..dff67e2 100644
--- a/pyo3_bindgen_engine/src/utils/io.rs
+++ b/pyo3_bindgen_engine/src/utils/io.rs
@@ -21,7 +21,7 @@ pub fn with_suppressed_python_output<T>(
     let original_stderr = sys.getattr(stderr_ident)?;
 
     // Suppress the output
-    let supressed_output = py.eval_bound(r"lambda: type('SupressedOutput', (), {'write': lambda self, x: None, 'flush': lambda self: None})", None, None)?;
+    let supressed_output = py.eval_bound(r"type('SupressedOutput', (), {'write': lambda self, x: None, 'flush': lambda self: None})()", None, None)?;
     let suppress = || -> Result<()> {
         if suppress_stdout {
             sys.setattr(stdout_ident, &supressed_output)?;
-- 
2.43.0


From 59bf0f496bc2c1395d7b17c7e9e3d8a430f6b697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:29 +0000
Subject: [PATCH 27/47] fix: report an exception raised by a custom __dir__ as
 an error

PyAnyMethods::dir() panics if __dir__ raises.
---
 pyo3_bindgen_engine/src/syntax/class.rs  |  3 +--
 pyo3_bindgen_engine/src/syntax/module.rs | 14 ++++++--------
 pyo3_bindgen_engine/src/utils/mod.rs     |  1 +
 pyo3_bindgen_engine/src/utils/python.rs  | 14 ++++++++++++++
 4 files changed, 22 insertions(+), 10 deletions(-)
 create mode 100644 pyo3_bindgen_engine/src/utils/python.rs

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 6bc3579..1fcba75 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -30,8 +30,7 @@ impl Class {
         let mut properties = Vec::new();
 
         // Extract the list of all attribute names in the module
-        class
-            .dir()
+        crate::utils::python::dir(class)?
             .iter()
             // Convert each attribute name to an identifier
             .map(|attr_name| Ident::from_py(&attr_name.to_string()))
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 85306a1..2566d3d 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -59,7 +59,7 @@ impl Module {
 
         // Extract the index of the module as prelude (if enabled)
         let prelude = if cfg.generate_preludes {
-            Self::extract_prelude(cfg, module, &name)
+            Self::extract_prelude(cfg, module, &name)?
         } else {
             Vec::new()
         };
@@ -83,8 +83,7 @@ impl Module {
         let mut properties = Vec::new();
 
         // Extract the list of all attribute names in the module
-        module
-            .dir()
+        crate::utils::python::dir(module)?
             .iter()
             // Convert each attribute name to an identifier
             .map(|attr_name| Ident::from_py(&attr_name.to_string()))
@@ -557,7 +556,7 @@ impl Module {
         cfg: &Config,
         module: &pyo3::Bound<pyo3::types::PyModule>,
         module_name: &Path,
-    ) -> Vec<Ident> {
+    ) -> Result<Vec<Ident>> {
         // Extract the index (__all__) of the module if it exists
         let mut index_attr_names = if let Ok(index) = module.index() {
             index
@@ -572,8 +571,7 @@ impl Module {
         // Compare the index with public attrs of the module
         // Return an empty vector if they are identical (no need to generate a prelude)
         {
-            let public_attr_names_set: HashSet<_> = module
-                .dir()
+            let public_attr_names_set: HashSet<_> = crate::utils::python::dir(module)?
                 .iter()
                 .map(|attr_name| Ident::from_py(&attr_name.to_string()))
                 .filter(|attr_name| !attr_name.as_py().starts_with('_'))
@@ -581,7 +579,7 @@ impl Module {
             let index_attr_names_set: HashSet<_> = index_attr_names.iter().cloned().collect();
 
             if index_attr_names_set == public_attr_names_set {
-                return Vec::new();
+                return Ok(Vec::new());
             }
         }
 
@@ -615,7 +613,7 @@ impl Module {
             }
         });
 
-        index_attr_names
+        Ok(index_attr_names)
     }
 
     fn generate_prelude(&self) -> Result<proc_macro2::TokenStream> {
diff --git a/pyo3_bindgen_engine/src/utils/mod.rs b/pyo3_bindgen_engine/src/utils/mod.rs
index 2620963..bef7e43 100644
--- a/pyo3_bindgen_engine/src/utils/mod.rs
+++ b/pyo3_bindgen_engine/src/utils/mod.rs
@@ -2,5 +2,6 @@
 
 pub mod error;
 pub(crate) mod io;
+pub(crate) mod python;
 pub mod result;
 pub(crate) mod text;
diff --git a/pyo3_bindgen_engine/src/utils/python.rs b/pyo3_bindgen_engine/src/utils/python.rs
new file mode 100644
index 0000000..8061708
--- /dev/null
+++ b/pyo3_bindgen_engine/src/utils/python.rs
@@ -0,0 +1,14 @@
+use pyo3::prelude::*;
+
+/// Get the list of all attribute names of a Python object.
+///
+/// Unlike `PyAnyMethods::dir()`, an exception raised by a custom `__dir__()` is returned as an error.
+pub fn dir<'py>(
+    object: &pyo3::Bound<'py, pyo3::types::PyAny>,
+) -> PyResult<pyo3::Bound<'py, pyo3::types::PyList>> {
+    let py = object.py();
+    Ok(py
+        .import_bound(pyo3::intern!(py, "builtins"))?
+        .call_method1(pyo3::intern!(py, "dir"), (object,))?
+        .downcast_into::<pyo3::types::PyList>()?)
+}
-- 
2.43.0


From 8cd7dce37692389ae67c5abb93cf47849e3730ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:34 +0000
Subject: [PATCH 28/47] fix: only use the docstring of an object if it is a
 string

---
 pyo3_bindgen_engine/src/syntax/class.rs    |  9 +--------
 pyo3_bindgen_engine/src/syntax/function.rs |  9 +--------
 pyo3_bindgen_engine/src/syntax/module.rs   | 16 ++--------------
 pyo3_bindgen_engine/src/syntax/property.rs | 20 ++------------------
 pyo3_bindgen_engine/src/utils/python.rs    | 14 ++++++++++++++
 5 files changed, 20 insertions(+), 48 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 1fcba75..3033b52 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -123,14 +123,7 @@ impl Class {
             })?;
 
         // Extract the docstring of the class
-        let docstring = {
-            let docstring = class.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::python::docstring(class)?;
 
         Ok(Self {
             name,
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index cc16c59..9c7b28b 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -41,14 +41,7 @@ impl Function {
         let py = function.py();
 
         // Extract the docstring of the function
-        let docstring = {
-            let docstring = function.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::python::docstring(function)?;
 
         // Extract the signature of the function
         if let Ok(function_signature) = py
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 2566d3d..2a5a4a2 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -26,12 +26,7 @@ impl Module {
     pub fn empty(py: pyo3::Python, name: Path) -> Result<Self> {
         // Extract the docstring of the module (parents of modules added from source code might not be importable)
         let docstring = if let Ok(module) = py.import_bound(name.to_py().as_str()) {
-            let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
+            crate::utils::python::docstring(&module)?
         } else {
             None
         };
@@ -285,14 +280,7 @@ impl Module {
         };
 
         // Extract the docstring of the module
-        let docstring = {
-            let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::python::docstring(module)?;
 
         Ok(Self {
             name,
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 6d805e3..af5723c 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -70,15 +70,7 @@ impl Property {
 
                     // Update the docstring if it is empty
                     if docstring.is_none() {
-                        docstring = {
-                            let docstring =
-                                getter.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-                            if docstring.is_empty() || docstring == "None" {
-                                None
-                            } else {
-                                Some(docstring)
-                            }
-                        };
+                        docstring = crate::utils::python::docstring(&getter)?;
                     }
                 } else {
                     annotation = Type::try_from(typ)?;
@@ -113,15 +105,7 @@ impl Property {
                             setter_annotation = Type::Unknown;
                         }
 
-                        setter_docstring = {
-                            let docstring =
-                                setter.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-                            if docstring.is_empty() || docstring == "None" {
-                                None
-                            } else {
-                                Some(docstring)
-                            }
-                        };
+                        setter_docstring = crate::utils::python::docstring(&setter)?;
 
                         if docstring.is_none() {
                             // Update the getter docstring to match setter docstring if it is still empty
diff --git a/pyo3_bindgen_engine/src/utils/python.rs b/pyo3_bindgen_engine/src/utils/python.rs
index 8061708..bf8e995 100644
--- a/pyo3_bindgen_engine/src/utils/python.rs
+++ b/pyo3_bindgen_engine/src/utils/python.rs
@@ -12,3 +12,17 @@ pub fn dir<'py>(
         .call_method1(pyo3::intern!(py, "dir"), (object,))?
         .downcast_into::<pyo3::types::PyList>()?)
 }
+
+/// Get the docstring of a Python object.
+///
+/// The `__doc__` attribute can be an arbitrary object. Only strings are considered because the textual representation
+/// of other objects is not a documentation and it might differ between runs.
+pub fn docstring(object: &pyo3::Bound<pyo3::types::PyAny>) -> PyResult<Option<String>> {
+    let py = object.py();
+    let docstring = object.getattr(pyo3::intern!(py, "__doc__"))?;
+    Ok(docstring
+        .downcast::<pyo3::types::PyString>()
+        .map(|docstring| docstring.to_string())
+        .ok()
+        .filter(|docstring| !docstring.is_empty()))
+}
-- 
2.43.0


From 4bf71c1cfbbc569efbf8f4d3d70bcb851b5b7ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:33 +0000
Subject: [PATCH 29/47] fix: keep the documentation of merged modules

---
 pyo3_bindgen_engine/src/codegen.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 8f8363d..7c6926a 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -368,6 +368,7 @@ impl Codegen {
                     })
                     .into_iter()
                     .collect(),
+                docstring: input.iter().find_map(|module| module.docstring.clone()),
                 ..input[0].clone()
             }
         }
-- 
2.43.0


From 9ad565602f1408b74cd3f328001f7cc6c4509db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:41 +0000
Subject: [PATCH 30/47] fix: nest requested submodules even if submodules are
 not traversed

With `traverse_submodules` turned off, a request for `a.b` was generated as an
empty `a` because the nesting under its parents was skipped.
---
 pyo3_bindgen_engine/src/syntax/module.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 2a5a4a2..50b31ea 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -447,15 +447,13 @@ impl Module {
                     .collect::<Result<proc_macro2::TokenStream>>()?,
             );
         }
-        // Submodules
-        if cfg.traverse_submodules {
-            module_content.extend(
-                self.submodules
-                    .iter()
-                    .map(|module| module.generate(cfg, top_level_modules, all_types))
-                    .collect::<Result<proc_macro2::TokenStream>>()?,
-            );
-        }
+        // Submodules (only those that were traversed, or that lead to a requested module)
+        module_content.extend(
+            self.submodules
+                .iter()
+                .map(|module| module.generate(cfg, top_level_modules, all_types))
+                .collect::<Result<proc_macro2::TokenStream>>()?,
+        );
 
         // Embed the source code if the module was parsed directly from source code
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
-- 
2.43.0


From 8f3e88d33159619dbe5752b46bfa3b6336960e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:04 +0000
Subject: [PATCH 31/47] fix: do not refer to items that are excluded by the
 configuration

With classes (functions, ..) turned off, preludes, imports and type references
of the generated code still named them, so that it did not compile.
---
 pyo3_bindgen_engine/src/codegen.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 7c6926a..40112d3 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -148,6 +148,9 @@ impl Codegen {
         // Canonicalize the module tree
         self.canonicalize()?;
 
+        // Exclude all items that are not supposed to be generated, so that nothing refers to them
+        Self::exclude_disabled_items(&mut self.modules, &self.cfg);
+
         // Embed the source code of the modules
         Self::embed_source_code(&mut self.modules, &self.embedded_source_code);
 
@@ -247,6 +250,24 @@ impl Codegen {
         })
     }
 
+    fn exclude_disabled_items(modules: &mut [Module], cfg: &Config) {
+        for module in modules {
+            if !cfg.generate_classes {
+                module.classes.clear();
+            }
+            if !cfg.generate_type_vars {
+                module.type_vars.clear();
+            }
+            if !cfg.generate_functions {
+                module.functions.clear();
+            }
+            if !cfg.generate_properties {
+                module.properties.clear();
+            }
+            Self::exclude_disabled_items(&mut module.submodules, cfg);
+        }
+    }
+
     fn embed_source_code(modules: &mut [Module], embedded_source_code: &HashMap<String, String>) {
         for module in modules {
             if let Some(source_code) = embedded_source_code.get(&module.name.to_py()) {
-- 
2.43.0


From 646e8492a2be9582abff5d8ce3a2f95daa54a66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 32/47] fix: report parameters of an unknown kind instead of
 panicking

A `__signature__` whose parameters carry another kind reached `unreachable!()`.
---
 pyo3_bindgen_engine/src/syntax/function.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 9c7b28b..54fa223 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -58,9 +58,9 @@ impl Function {
 
                     let name =
                         Ident::from_py(&param.getattr(pyo3::intern!(py, "name"))?.to_string());
-                    let kind = ParameterKind::from(
+                    let kind = ParameterKind::try_from(
                         param.getattr(pyo3::intern!(py, "kind"))?.extract::<u8>()?,
-                    );
+                    )?;
                     let annotation = match kind {
                         ParameterKind::VarPositional => Type::PyTuple(vec![Type::Unknown]),
                         ParameterKind::VarKeyword => Type::Optional(Box::new(Type::PyDict {
@@ -708,15 +708,20 @@ enum ParameterKind {
     VarKeyword,
 }
 
-impl From<u8> for ParameterKind {
-    fn from(kind: u8) -> Self {
-        match kind {
+impl TryFrom<u8> for ParameterKind {
+    type Error = crate::PyBindgenError;
+    fn try_from(kind: u8) -> Result<Self> {
+        Ok(match kind {
             0 => Self::PositionalOnly,
             1 => Self::PositionalOrKeyword,
             2 => Self::VarPositional,
             3 => Self::KeywordOnly,
             4 => Self::VarKeyword,
-            _ => unreachable!(),
-        }
+            _ => {
+                return Err(crate::PyBindgenError::ParseError(format!(
+                    "Unknown kind of a parameter: {kind}"
+                )))
+            }
+        })
     }
 }
-- 
2.43.0


From 141217592d273440faf87265789ee2cddaba135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 33/47] fix: return IP addresses as a type that can be
 extracted from Python

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 1f39ab1..55b6c52 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -202,8 +202,13 @@ impl Type {
             }
 
             // Additional types - std
-            Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::Ipv4Addr)),
-            Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::Ipv6Addr)),
+            // Note: Only the version-agnostic `IpAddr` can be extracted from Python
+            Self::IpV4Addr => {
+                OutputType::new(quote!(::std::net::IpAddr), quote!(::std::net::Ipv4Addr))
+            }
+            Self::IpV6Addr => {
+                OutputType::new(quote!(::std::net::IpAddr), quote!(::std::net::Ipv6Addr))
+            }
             Self::Path => OutputType::new(quote!(::std::path::PathBuf), quote!(&::std::path::Path)),
             // TODO: Map `PySlice` to `std::ops::Range` if possible
             Self::PySlice => OutputType::new(
-- 
2.43.0


From 96e54f260810a02e89470fbf687013a28736a333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 34/47] fix: map tuples that are too long for Rust to Python
 tuples

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 55b6c52..ed1bd3b 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -5,6 +5,9 @@ use quote::quote;
 use rustc_hash::FxHashMap as HashMap;
 use std::rc::Rc;
 
+/// Maximum number of elements of a tuple that can be converted to and from Python.
+const MAX_TUPLE_LEN: usize = 12;
+
 impl Type {
     pub fn into_rs_owned(self, local_types: &HashMap<Path, Path>) -> proc_macro2::TokenStream {
         let owned = self.into_rs(local_types).owned;
@@ -37,7 +40,9 @@ impl Type {
                     let #ident = ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py);
                 }
             }
-            Self::PyTuple(inner_types) if inner_types.len() < 2 => {
+            Self::PyTuple(inner_types)
+                if inner_types.len() < 2 || inner_types.len() > MAX_TUPLE_LEN =>
+            {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyTuple>>::into_py(#ident, py);
                     let #ident = #ident.bind(py);
@@ -183,7 +188,7 @@ impl Type {
                 }
             }
             Self::PyTuple(inner_types) => {
-                if inner_types.len() < 2 {
+                if inner_types.len() < 2 || inner_types.len() > MAX_TUPLE_LEN {
                     OutputType::new(
                         quote!(::pyo3::Bound<'py, ::pyo3::types::PyTuple>),
                         quote!(impl ::pyo3::IntoPy<::pyo3::Py<::pyo3::types::PyTuple>>),
-- 
2.43.0


From 4d404cf92cf047225d65556b6896613393997a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 35/47] fix: name the standard Vec by its full path in
 generated code

---
 pyo3_bindgen_engine/src/syntax/function.rs | 2 +-
 pyo3_bindgen_engine/src/typing/into_rs.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 54fa223..a7377ab 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -538,7 +538,7 @@ impl Function {
                 let n_args_fixed = positional_args_idents.len();
                 quote::quote! {
                     {
-                        let mut __internal__args = Vec::with_capacity(#n_args_fixed + ::pyo3::types::PyTupleMethods::len(#var_positional_args_ident));
+                        let mut __internal__args = ::std::vec::Vec::with_capacity(#n_args_fixed + ::pyo3::types::PyTupleMethods::len(#var_positional_args_ident));
                         __internal__args.extend([#(::pyo3::ToPyObject::to_object(&#positional_args_idents, py),)*]);
                         __internal__args.extend(::pyo3::types::PyTupleMethods::iter(#var_positional_args_ident).map(|__internal__arg| ::pyo3::ToPyObject::to_object(&__internal__arg, py)));
                         ::pyo3::types::PyTuple::new_bound(
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index ed1bd3b..8982e77 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -111,7 +111,7 @@ impl Type {
 
             // Primitives
             Self::PyBool => OutputType::new_identical(quote!(bool)),
-            Self::PyByteArray | Self::PyBytes => OutputType::new(quote!(Vec<u8>), quote!(&[u8])),
+            Self::PyByteArray | Self::PyBytes => OutputType::new(quote!(::std::vec::Vec<u8>), quote!(&[u8])),
             Self::PyFloat => OutputType::new_identical(quote!(f64)),
             Self::PyLong => OutputType::new_identical(quote!(i64)),
             Self::PyString => OutputType::new(quote!(::std::string::String), quote!(&str)),
@@ -171,7 +171,7 @@ impl Type {
             }
             Self::PyList(inner_type) => {
                 let inner_type = inner_type.into_rs(local_types).owned;
-                OutputType::new(quote!(Vec<#inner_type>), quote!(&[#inner_type]))
+                OutputType::new(quote!(::std::vec::Vec<#inner_type>), quote!(&[#inner_type]))
             }
             Self::PySet(inner_type) => {
                 if inner_type.is_hashable() {
-- 
2.43.0


From ce0c9f61ab7d16776e36a4c632e1ec78dabd058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 36/47] fix: keep parameters named _ so that later arguments
 are not shifted

---
 pyo3_bindgen_engine/src/syntax/function.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index a7377ab..c804c40 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -258,9 +258,6 @@ impl Function {
                 }
             };
 
-            // Retain only used parameters (discard unused `_` parameters)
-            parameters.retain(|param| param.name.as_rs() != "r#_");
-
             // If any of the parameters is still called 'self', do not handle the parameters
             if parameters
                 .iter()
-- 
2.43.0


From be57a79a001fedd12259b0ee64855a6749895e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 37/47] fix: trust the class definition over the name of the
 first parameter of a method

---
 pyo3_bindgen_engine/src/syntax/function.rs | 29 +++++++++-------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index c804c40..e66b478 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -157,32 +157,27 @@ impl Function {
                             typ: method_type,
                         };
                     } else {
-                        // Cannot determine the method type, default to static method (will be changed to instance method if the first parameter is named 'self')
+                        // Cannot determine the method type, default to static method unless the first parameter is named 'self'
+                        // Note: This is not 100% reliable, because Python does not enforce the first parameter to be named "self"
+                        // TODO: See if there is a better way to infer the method type from parameters alone
+                        let method_type =
+                            if parameters.first().map(|p| p.name.as_rs()) == Some("r#self") {
+                                MethodType::InstanceMethod
+                            } else {
+                                MethodType::StaticMethod
+                            };
                         typ = FunctionType::Method {
                             class_path: class_path.clone(),
-                            typ: MethodType::StaticMethod,
+                            typ: method_type,
                         };
                     }
                 }
                 _ => {}
             };
 
-            // As a final step in determining the method type, check parameters for all non-instance/callable methods
-            // Note: This is not 100% reliable, because Python does not enforce the first parameter to be named "self"
-            // TODO: See if there is a better way to infer the method type from parameters alone
+            // A function that is no method might still have its first parameter named 'self'
             match &typ {
-                FunctionType::Method {
-                    typ: MethodType::InstanceMethod | MethodType::Constructor | MethodType::Callable,
-                    ..
-                } => {}
-                FunctionType::Method { class_path, typ: _ } => {
-                    if parameters.first().map(|p| p.name.as_rs()) == Some("r#self") {
-                        typ = FunctionType::Method {
-                            class_path: class_path.clone(),
-                            typ: MethodType::InstanceMethod,
-                        };
-                    }
-                }
+                FunctionType::Method { .. } => {}
                 FunctionType::Function | FunctionType::Closure => {
                     if parameters.first().map(|p| p.name.as_rs()) == Some("r#self") {
                         if [
-- 
2.43.0


From 4f7a0b7420d3d6f3b94507559e1480cd86d70470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 38/47] fix: recognise the kind of inherited methods

---
 pyo3_bindgen_engine/src/syntax/function.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index e66b478..71c8b29 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -128,11 +128,12 @@ impl Function {
                             )
                         });
 
-                    // Try to get the static object of the method (from __dict__), which still contains information about what kind of method it is
+                    // Try to get the static object of the method (also if it is inherited), which still contains information about what kind of method it is
                     if let Ok(static_fn_obj) = class.and_then(|class| {
-                        class
-                            .getattr(pyo3::intern!(py, "__dict__"))?
-                            .get_item(name.name().as_py())
+                        py.import_bound(pyo3::intern!(py, "inspect"))?.call_method1(
+                            pyo3::intern!(py, "getattr_static"),
+                            (class, name.name().as_py()),
+                        )
                     }) {
                         let locals = [("obj", static_fn_obj)].into_py_dict_bound(py);
                         let method_type = if py
-- 
2.43.0


From 1d51177021e25d8d7b617a20e5c1f3e4ab14c044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 39/47] fix: report a failure to set a keyword argument

---
 pyo3_bindgen_engine/src/syntax/function.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 71c8b29..972cc85 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -583,7 +583,7 @@ impl Function {
                     {
                         let __internal__kwargs = #var_keyword_args_ident;
                         #(
-                            ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents);
+                            ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents)?;
                         )*
                         __internal__kwargs
                     }
@@ -598,7 +598,7 @@ impl Function {
                 {
                     let __internal__kwargs = ::pyo3::types::PyDict::new_bound(py);
                     #(
-                        ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents);
+                        ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents)?;
                     )*
                     __internal__kwargs
                 }
-- 
2.43.0


From bfe88649e5ab42093e648d073198b7792dff0ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 40/47] fix: pass None for an optional dictionary on as None

---
 pyo3_bindgen_engine/src/syntax/function.rs | 17 ++++++++++++++---
 pyo3_bindgen_engine/src/typing/into_rs.rs  |  6 +-----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 972cc85..1e936f7 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -375,9 +375,20 @@ impl Function {
             .iter()
             .zip(param_idents.iter())
             .map(|(param, param_ident)| {
-                param
-                    .annotation
-                    .preprocess_borrowed(param_ident, local_types)
+                if param.kind == ParameterKind::VarKeyword {
+                    // No keyword arguments are the same as an empty dictionary of them
+                    quote::quote! {
+                        let #param_ident = if let Some(#param_ident) = #param_ident {
+                            ::pyo3::types::IntoPyDict::into_py_dict_bound(#param_ident, py)
+                        } else {
+                            ::pyo3::types::PyDict::new_bound(py)
+                        };
+                    }
+                } else {
+                    param
+                        .annotation
+                        .preprocess_borrowed(param_ident, local_types)
+                }
             })
             .collect();
         let param_types: Vec<proc_macro2::TokenStream> = self
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 8982e77..0b860bc 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -88,11 +88,7 @@ impl Type {
                         .contains("PyAny") =>
                 {
                     quote! {
-                        let #ident = if let Some(#ident) = #ident {
-                            ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py)
-                        } else {
-                            ::pyo3::types::PyDict::new_bound(py)
-                        };
+                        let #ident = #ident.map(|#ident| ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py));
                     }
                 }
                 _ => proc_macro2::TokenStream::new(),
-- 
2.43.0


From e280b1c26aeccd5ece0c14490fd20544046e36a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 41/47] fix: import the module of a function or property
 instead of looking it up in its package

---
 pyo3_bindgen_engine/src/syntax/common/path.rs | 10 ++++++++++
 pyo3_bindgen_engine/src/syntax/function.rs    |  2 +-
 pyo3_bindgen_engine/src/syntax/property.rs    |  4 ++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index bc6ddab..3daeb1b 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -230,6 +230,16 @@ impl Path {
             },
         )
     }
+
+    /// Import a module, which is reached as an attribute of its parent only if it cannot be imported by its own path
+    pub fn import_module_quote(&self, py: pyo3::Python) -> proc_macro2::TokenStream {
+        let module_path = self.to_py();
+        if self.len() > 1 && py.import_bound(module_path.as_str()).is_ok() {
+            quote::quote! { py.import_bound(::pyo3::intern!(py, #module_path))? }
+        } else {
+            self.import_quote(py)
+        }
+    }
 }
 
 impl From<Ident> for Path {
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 1e936f7..0130109 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -487,7 +487,7 @@ impl Function {
                 self.name
                     .parent()
                     .unwrap_or_else(|| unreachable!())
-                    .import_quote(py)
+                    .import_module_quote(py)
             }),
             FunctionType::Method {
                 class_path,
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index af5723c..0737fec 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -248,7 +248,7 @@ impl Property {
                     self.name
                         .parent()
                         .unwrap_or_else(|| unreachable!())
-                        .import_quote(py)
+                        .import_module_quote(py)
                 });
                 impl_fn.extend(quote::quote! {
                     fn #function_ident<'py>(
@@ -331,7 +331,7 @@ impl Property {
                     self.name
                         .parent()
                         .unwrap_or_else(|| unreachable!())
-                        .import_quote(py)
+                        .import_module_quote(py)
                 });
                 impl_fn.extend(quote::quote! {
                     fn #function_ident<'py>(
-- 
2.43.0


From 0cebf72b50f813d155b1caf8cb5812f4e4bf4f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 42/47] fix: repair all elements of a sequence of nested
 generics

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 8c20bfe..1656502 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -521,7 +521,7 @@ fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
                     }
                     sequence[i] = new_element;
                     sequence.drain((i + 1)..=j);
-                    if j < sequence.len() - 1 {
+                    if i + 1 < sequence.len() {
                         traversed_all_elements = false;
                         start_index = i;
                         break 'inner;
-- 
2.43.0


From d0b6e79d66a51c34bdec5c3e18261a30b6401f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 43/47] fix: do not wrap an annotated generic type twice

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 1656502..19e6160 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -124,6 +124,12 @@ impl Type {
 
         if let Ok(wrapping_type) = value.getattr(pyo3::intern!(py, "__origin__")) {
             let wrapping_type = Self::try_from(wrapping_type)?;
+
+            // The origin of `Annotated` is already the complete annotated type
+            if value.hasattr(pyo3::intern!(py, "__metadata__"))? {
+                return Ok(wrapping_type);
+            }
+
             Ok(
                 if let Ok(inner_types) =
                     value
-- 
2.43.0


From 100bdbcb1621611e05bc3562713260478de0debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 44/47] fix: map Type[X] to the class type instead of the type
 of its instances

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 19e6160..5a2642a 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -192,10 +192,6 @@ impl Type {
                                 ),
                             }
                         }
-                        Self::PyType => {
-                            // debug_assert_eq!(inner_types.len(), 1);
-                            nth_inner_type(&inner_types, 0)
-                        }
                         _ => {
                             // TODO: Handle other types with inner types if useful (e.g. Generator)
                             wrapping_type
@@ -423,12 +419,7 @@ impl std::str::FromStr for Type {
             #[cfg(not(PyPy))]
             "super" => Self::PySuper,
             "traceback" => Self::PyTraceback,
-            typ if typ.starts_with("type[") && typ.ends_with(']') => Self::from_str(
-                typ.strip_prefix("type[")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix(']')
-                    .unwrap_or_else(|| unreachable!()),
-            )?,
+            typ if typ.starts_with("type[") && typ.ends_with(']') => Self::PyType,
 
             // classes
             class if class.starts_with("<class '") && class.ends_with("'>") => Self::from_str(
-- 
2.43.0


From dabde3ac41602a0f2d7216521abc9bbac7c47224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 45/47] fix: map a type of an imported module under the name by
 which the module is imported

---
 pyo3_bindgen_engine/src/syntax/module.rs | 34 +++++++++---------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 50b31ea..b86d822 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -339,35 +339,25 @@ impl Module {
             .collect::<Vec<_>>();
 
         // Get all local types mapped to the full path
-        let local_types = all_types
+        // Note: Full paths take precedence over the names under which the types are imported
+        let local_types = self
+            .imports
             .iter()
-            .cloned()
-            .map(|path| {
-                let relative_path = self.name.relative_to(&path, false);
-                (path, relative_path)
-            })
-            .chain(self.imports.iter().flat_map(|import| {
+            .flat_map(|import| {
                 all_types
                     .iter()
                     .filter(|&path| path.starts_with(&import.origin))
-                    .cloned()
                     .map(|path| {
-                        let imported_path = {
-                            if let Some(stripped_path) = path
-                                .to_py()
-                                .strip_prefix(&format!("{}.", import.origin.to_py()))
-                            {
-                                let mut path = Path::from_py(stripped_path);
-                                // Overwrite the first segment with the target name to support aliasing
-                                import.target.name().clone_into(&mut path[0]);
-                                path
-                            } else {
-                                import.target.name().to_owned().into()
-                            }
-                        };
-                        let relative_path = self.name.relative_to(&path, false);
+                        // Replace the path of the imported item with the target name to support aliasing
+                        let imported_path = Path::from(import.target.name().to_owned())
+                            .join(&path[import.origin.len()..].into());
+                        let relative_path = self.name.relative_to(path, false);
                         (imported_path, relative_path)
                     })
+            })
+            .chain(all_types.iter().cloned().map(|path| {
+                let relative_path = self.name.relative_to(&path, false);
+                (path, relative_path)
             }))
             .collect();
 
-- 
2.43.0


From df88b93533b20604407906977b441cdc852337a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:21 +0000
Subject: [PATCH 46/47] fix: skip submodules that are aliases of other modules,
 which duplicated modules or never terminated

---
 pyo3_bindgen_engine/src/syntax/module.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index b86d822..492d996 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -209,15 +209,23 @@ impl Module {
                 .filter_map(|submodule_name| {
                     let full_submodule_name = name.join(&submodule_name.clone().into());
 
+                    // A submodule might be replaced by an alias of another module, which is not located below this module
+                    let is_alias = |submodule: &pyo3::Bound<pyo3::types::PyModule>| {
+                        submodule.name().is_ok_and(|name| {
+                            Path::from_py(&name.to_string()) != full_submodule_name
+                        })
+                    };
+
                     // Handle submodules that are overwritten by imports separately
                     if let Some(conflicting_import) = conflicting_imports
                         .iter()
                         .find(|import| import.target == full_submodule_name)
                     {
-                        if let Ok(submodule) = py
+                        if let Some(submodule) = py
                             .import_bound(full_submodule_name.to_py().as_str())
-                            .map_err(crate::PyBindgenError::from)
-                            .and_then(|module| Self::parse(cfg, &module))
+                            .ok()
+                            .filter(|module| !is_alias(module))
+                            .and_then(|module| Self::parse(cfg, &module).ok())
                         {
                             // It could be any attribute, so all of them need to be checked
                             if let Some(mut import) = submodule
@@ -272,6 +280,7 @@ impl Module {
                                 .and_then(|attr| Ok(attr.downcast_into::<pyo3::types::PyModule>()?))
                         })
                         .ok()
+                        .filter(|module| !is_alias(module))
                 })
                 .map(|submodule| Self::parse(cfg, &submodule))
                 .collect::<Result<_>>()?
-- 
2.43.0


From 92375ac305a144fb0c14b2ebd5c1a0f5ba855898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:53 +0000
Subject: [PATCH 47/47] fix: parameters of a type whose name is no Rust
 identifier are converted like any other unknown type

A class named e.g. `Self` is bound under a sanitised name, to which type
annotations do not refer. Its parameters were declared as generic objects,
but not converted to them, so the generated code did not compile.
---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 0b860bc..7eab9d1 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -68,7 +68,7 @@ impl Type {
             }
             Self::Other(type_name)
                 if Self::try_map_external_type(type_name).is_none()
-                    && !local_types.contains_key(&Path::from_py(type_name)) =>
+                    && Self::try_map_local_type(type_name, local_types).is_none() =>
             {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyAny>>::into_py(#ident, py);
@@ -322,12 +322,7 @@ impl Type {
         }
 
         // Try to map the local types
-        let type_name_without_delimiters =
-            type_name.split_once('[').map(|s| s.0).unwrap_or(&type_name);
-        if let Some(relative_path) = local_types
-            .get(&Path::from_py(type_name_without_delimiters))
-            .and_then(|relative_path| syn::Path::try_from(relative_path).ok())
-        {
+        if let Some(relative_path) = Self::try_map_local_type(&type_name, local_types) {
             return OutputType::new(
                 quote!(::pyo3::Bound<'py, #relative_path>),
                 quote!(&::pyo3::Bound<'py, #relative_path>),
@@ -341,6 +336,17 @@ impl Type {
         )
     }
 
+    fn try_map_local_type(
+        type_name: &str,
+        local_types: &HashMap<Path, Path>,
+    ) -> Option<syn::Path> {
+        let type_name_without_delimiters =
+            type_name.split_once('[').map(|s| s.0).unwrap_or(type_name);
+        local_types
+            .get(&Path::from_py(type_name_without_delimiters))
+            .and_then(|relative_path| syn::Path::try_from(relative_path).ok())
+    }
+
     fn try_map_external_type(type_name: &str) -> Option<OutputType> {
         // TODO: Handle types from other packages with Rust bindings here
         match type_name {
-- 
2.43.0

