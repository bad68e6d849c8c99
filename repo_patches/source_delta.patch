From 3eb983e5b2bc980f80ec706d1b9e9cf6d3a3a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 01/27] fix: keep types without a namespace out of the
 enclosing namespace in JSON output

---
 src/model/json.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/model/json.rs b/src/model/json.rs
index f715cf3..09fcb3b 100644
--- a/src/model/json.rs
+++ b/src/model/json.rs
@@ -55,7 +55,9 @@ pub fn protocol_to_json(protocol: &Protocol) -> Value {
     // Build a lookup table from all named types in the protocol's type list.
     // This includes nested types inside records/fields that were registered
     // in the schema registry.
-    let lookup = build_lookup(&protocol.types, protocol.namespace.as_deref());
+    // Registered types carry their own namespace: one without a namespace is in
+    // no namespace, not in the protocol's.
+    let lookup = build_lookup(&protocol.types, None);
 
     let mut known_names = HashSet::new();
     let mut obj = Map::new();
@@ -210,14 +212,12 @@ fn named_type_preamble(
     let mut obj = Map::new();
     obj.insert("type".to_string(), Value::String(type_str.to_string()));
     obj.insert("name".to_string(), Value::String(name.to_string()));
-    // Emit the namespace key when it differs from the enclosing context.
-    // Special case: when there's no enclosing namespace (standalone .avsc),
-    // treat an empty-string namespace the same as None — Java normalizes
-    // empty namespace to null, so `writeName()` omits it.
-    if namespace != enclosing_namespace
-        && let Some(ns) = namespace
-        && !(ns.is_empty() && enclosing_namespace.is_none())
-    {
+    // Emit the namespace key when it differs from the enclosing context. Like
+    // Java's `writeName()`, treat an empty namespace the same as none, and write
+    // `"namespace": ""` for a type without a namespace inside a namespaced
+    // context, since it would otherwise inherit the enclosing namespace.
+    let ns = namespace.unwrap_or("");
+    if ns != enclosing_namespace.unwrap_or("") {
         obj.insert("namespace".to_string(), Value::String(ns.to_string()));
     }
     if let Some(doc) = doc {
@@ -304,7 +304,7 @@ pub fn schema_to_json(
             };
             let fields_json: Vec<Value> = fields
                 .iter()
-                .map(|f| field_to_json(f, known_names, ns.or(enclosing_namespace), lookup))
+                .map(|f| field_to_json(f, known_names, ns, lookup))
                 .collect();
             obj.insert("fields".to_string(), Value::Array(fields_json));
             finish_named_type(&mut obj, properties, aliases, ns);
@@ -578,7 +578,7 @@ fn schema_ref_name(
     namespace: Option<&str>,
     enclosing_namespace: Option<&str>,
 ) -> String {
-    if namespace == enclosing_namespace {
+    if namespace.unwrap_or("") == enclosing_namespace.unwrap_or("") {
         if is_schema_type_name(name) {
             // Name collides with a built-in type -- must use the full name
             // to avoid ambiguity in the JSON output.
-- 
2.43.0


From 66b2044e6cd32bb0cbe0a61a0d56d9c67f1821f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 02/27] fix: register named types defined inline in the
 messages of an imported .avpr

---
 src/import.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index ee5f676..b6496a9 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -283,11 +283,26 @@ fn flatten_schema_inner(schema: AvroSchema, collected: &mut Vec<AvroSchema>) ->
 ///
 /// Duplicate registrations are silently ignored (the first definition wins),
 /// matching Java's behavior for imports.
-fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) {
-    let (types, _top_level) = flatten_schema(schema);
+fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> AvroSchema {
+    let (types, top_level) = flatten_schema(schema);
     for t in types {
         let _ = registry.register(t);
     }
+    top_level
+}
+
+/// Register the named types defined inline in a message's parameters, response
+/// and errors, leaving references to them in the message.
+fn flatten_and_register_message(message: &mut Message, registry: &mut SchemaRegistry) {
+    for schema in message
+        .request
+        .iter_mut()
+        .map(|param| &mut param.schema)
+        .chain(std::iter::once(&mut message.response))
+        .chain(message.errors.iter_mut().flatten())
+    {
+        *schema = flatten_and_register(schema.clone(), registry);
+    }
 }
 
 // ==============================================================================
@@ -331,12 +346,13 @@ pub fn import_protocol(
     // Extract messages.
     if let Some(msgs) = json.get("messages").and_then(|m| m.as_object()) {
         for (name, msg_json) in msgs {
-            let message = json_to_message(msg_json, default_namespace).map_err(|e| {
+            let mut message = json_to_message(msg_json, default_namespace).map_err(|e| {
                 miette::miette!(
                     "parse message `{name}` in protocol `{}`: {e}",
                     path.display()
                 )
             })?;
+            flatten_and_register_message(&mut message, registry);
             messages.insert(name.clone(), message);
         }
     }
-- 
2.43.0


From 9357be8c68b613c130574052b18c013cd3faf364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 03/27] fix: take the default namespace of an imported .avpr
 from a dotted protocol name

---
 src/import.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/import.rs b/src/import.rs
index b6496a9..b94fd6a 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -324,7 +324,12 @@ pub fn import_protocol(
     let json: Value = parse_json_with_comments(&content)
         .map_err(|e| miette::miette!("invalid JSON in {}: {e}", path.display()))?;
 
-    let default_namespace = json.get("namespace").and_then(|n| n.as_str());
+    // Without a "namespace" attribute, the dotted prefix of the protocol name is
+    // the default namespace.
+    let default_namespace = json
+        .get("namespace")
+        .and_then(|n| n.as_str())
+        .or_else(|| split_full_name(json.get("protocol")?.as_str()?).1);
     let mut messages = HashMap::new();
 
     // Extract types from the protocol JSON and register them. Schemas are
-- 
2.43.0


From cd0cd3d96d601ae9dd0ba989a81a0156f772da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 04/27] fix: keep base type and attributes of imported JSON
 types whose logicalType does not fit

---
 src/import.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index b94fd6a..4b1dcf4 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -707,7 +707,11 @@ fn parse_annotated_primitive(
         let scale_u64 = obj.get("scale").and_then(|s| s.as_u64());
         let scale = scale_u64.and_then(|v| u32::try_from(v).ok());
 
-        if let Some(lt) = parse_logical_type(logical, precision, scale) {
+        // A logical type never changes the base type that was written, so one
+        // that does not fit it is kept as plain attributes below.
+        if let Some(lt) = parse_logical_type(logical, precision, scale)
+            && lt.expected_base_type().as_str() == prim
+        {
             // For decimal, validate that precision >= 1 (the shared helper
             // returns None when precision is absent, but we also need to
             // reject explicit zero).
@@ -717,15 +721,19 @@ fn parse_annotated_primitive(
                 miette::bail!("decimal precision must be >= 1");
             }
 
-            let properties =
-                collect_extra_properties(obj, &["type", "logicalType", "precision", "scale"]);
+            // Precision and scale belong to the logical type only for decimal.
+            let known_keys: &[&str] = match &lt {
+                LogicalType::Decimal { .. } => &["type", "logicalType", "precision", "scale"],
+                _ => &["type", "logicalType"],
+            };
+            let properties = collect_extra_properties(obj, known_keys);
             return Ok(AvroSchema::Logical {
                 logical_type: lt,
                 properties,
             });
         }
 
-        // Unknown logical type -- preserve as properties on AnnotatedPrimitive.
+        // Unknown or ill-fitting logical type -- preserve as properties on AnnotatedPrimitive.
         let properties = collect_extra_properties(obj, &["type"]);
         return Ok(AvroSchema::AnnotatedPrimitive {
             kind: str_to_primitive_type(prim),
-- 
2.43.0


From 5e09688ef38d00fec4f230afa50c5f01cb33f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 05/27] fix: keep an unusable decimal scale attribute as
 written instead of replacing it by 0

---
 src/import.rs | 1 +
 src/reader.rs | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/import.rs b/src/import.rs
index 4b1dcf4..c6b349e 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -711,6 +711,7 @@ fn parse_annotated_primitive(
         // that does not fit it is kept as plain attributes below.
         if let Some(lt) = parse_logical_type(logical, precision, scale)
             && lt.expected_base_type().as_str() == prim
+            && (scale.is_some() || !obj.contains_key("scale"))
         {
             // For decimal, validate that precision >= 1 (the shared helper
             // returns None when precision is absent, but we also need to
diff --git a/src/reader.rs b/src/reader.rs
index c9f6196..f2470c2 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4382,6 +4382,11 @@ fn try_promote_logical_type(schema: AvroSchema) -> AvroSchema {
                 return AvroSchema::AnnotatedPrimitive { kind, properties };
             }
 
+            // An unusable scale is kept as written rather than replaced.
+            if scale.is_none() && properties.contains_key("scale") {
+                return AvroSchema::AnnotatedPrimitive { kind, properties };
+            }
+
             // Remove the consumed keys from properties so they are not
             // duplicated in the serialized output.
             properties.remove("logicalType");
-- 
2.43.0


From 837e7468806ae672f41880338950d4704dd9054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 06/27] fix: reject imported JSON types with invalid names
 instead of dropping them

---
 src/import.rs  | 5 ++++-
 src/resolve.rs | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index c6b349e..1a1afbe 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -30,7 +30,7 @@ use crate::model::protocol::Message;
 use crate::model::schema::{
     AvroSchema, FieldOrder, LogicalType, PrimitiveType, parse_logical_type, split_full_name,
 };
-use crate::resolve::SchemaRegistry;
+use crate::resolve::{SchemaRegistry, validate_schema_name};
 use miette::Result;
 
 /// Parse JSON with C-style comment stripping (`//` and `/* */`).
@@ -513,6 +513,7 @@ fn parse_record(
         .map(|s| s.to_string())
         .or(inferred_ns)
         .or_else(|| default_namespace.map(|s| s.to_string()));
+    validate_schema_name(&name, namespace.as_deref()).map_err(|e| miette::miette!("{e}"))?;
     let doc = obj
         .get("doc")
         .and_then(|d| d.as_str())
@@ -569,6 +570,7 @@ fn parse_enum(
         .map(|s| s.to_string())
         .or(inferred_ns)
         .or_else(|| default_namespace.map(|s| s.to_string()));
+    validate_schema_name(&name, namespace.as_deref()).map_err(|e| miette::miette!("{e}"))?;
     let doc = obj
         .get("doc")
         .and_then(|d| d.as_str())
@@ -619,6 +621,7 @@ fn parse_fixed(
         .map(|s| s.to_string())
         .or(inferred_ns)
         .or_else(|| default_namespace.map(|s| s.to_string()));
+    validate_schema_name(&name, namespace.as_deref()).map_err(|e| miette::miette!("{e}"))?;
     let doc = obj
         .get("doc")
         .and_then(|d| d.as_str())
diff --git a/src/resolve.rs b/src/resolve.rs
index 8b55d43..a98bba6 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -54,7 +54,7 @@ pub(crate) fn is_valid_avro_name(name: &str) -> bool {
 /// For namespaces, each dot-separated segment must independently satisfy the
 /// name pattern. Returns `Ok(())` if valid, or an error message describing
 /// which part is invalid.
-fn validate_schema_name(name: &str, namespace: Option<&str>) -> Result<(), String> {
+pub(crate) fn validate_schema_name(name: &str, namespace: Option<&str>) -> Result<(), String> {
     if !is_valid_avro_name(name) {
         return Err(format!(
             "invalid Avro name: `{name}` \
-- 
2.43.0


From 0923a6f1435b5c003e3a15a976dc55265baf3eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 07/27] fix: reject imported JSON records without fields and
 enums without symbols

---
 src/import.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/import.rs b/src/import.rs
index 1a1afbe..20b07e8 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -534,7 +534,7 @@ fn parse_record(
             })
             .collect::<Result<Vec<_>>>()?
     } else {
-        vec![]
+        miette::bail!("record `{name}` missing 'fields'");
     };
 
     let aliases = extract_string_array(obj.get("aliases"));
@@ -575,6 +575,9 @@ fn parse_enum(
         .get("doc")
         .and_then(|d| d.as_str())
         .map(|s| s.to_string());
+    if !obj.get("symbols").is_some_and(Value::is_array) {
+        miette::bail!("enum `{name}` missing 'symbols'");
+    }
     let symbols = extract_string_array(obj.get("symbols"));
     let default = obj
         .get("default")
-- 
2.43.0


From 8e6650750379873ef90d05a2232323fd7a45ea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 08/27] fix: reject imported .avpr files that are not protocols

---
 src/import.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/import.rs b/src/import.rs
index 20b07e8..e43bd29 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -324,6 +324,10 @@ pub fn import_protocol(
     let json: Value = parse_json_with_comments(&content)
         .map_err(|e| miette::miette!("invalid JSON in {}: {e}", path.display()))?;
 
+    if !json.get("protocol").is_some_and(Value::is_string) {
+        miette::bail!("not an Avro protocol: {}", path.display());
+    }
+
     // Without a "namespace" attribute, the dotted prefix of the protocol name is
     // the default namespace.
     let default_namespace = json
-- 
2.43.0


From 9d9dda5c4f74b082d07c5c243601fc499e447069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 09/27] fix: drop warnings of earlier calls also when a source
 cannot be read or a directory has no .avdl file

---
 src/compiler.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compiler.rs b/src/compiler.rs
index 3148bf3..c8d8be9 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -92,6 +92,7 @@ impl IdlCompiler {
     /// `Idl2Schemata::extract(path)`. It reads the file, determines the parent
     /// directory and canonical path, then delegates to [`compile`](Self::compile).
     fn compile_file(&mut self, path: &Path) -> miette::Result<CompileOutput> {
+        self.accumulated_warnings.clear();
         let source = fs::read_to_string(path)
             .map_err(|e| miette::miette!("{e}"))
             .with_context(|| format!("read {}", path.display()))?;
@@ -117,6 +118,7 @@ impl IdlCompiler {
         source: &'static str,
         name: &'static str,
     ) -> miette::Result<CompileOutput> {
+        self.accumulated_warnings.clear();
         let cwd = std::env::current_dir()
             .map_err(|e| miette::miette!("{e}"))
             .context("determine current directory")?;
@@ -493,6 +495,7 @@ impl Idl2Schemata {
     /// each. Each file is processed independently with its own registry.
     /// Results are concatenated.
     fn extract_directory(&mut self, dir: &Path) -> miette::Result<SchemataOutput> {
+        self.inner.accumulated_warnings.clear();
         let mut all_schemas = Vec::new();
         let mut all_warnings = Vec::new();
 
-- 
2.43.0


From a2ffd498d183ad7242577e912b42dcdc0b20ec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 10/27] fix: keep warnings of files already processed when
 extracting a directory fails

---
 src/compiler.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index c8d8be9..ae3b655 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -512,7 +512,15 @@ impl Idl2Schemata {
         }
 
         for avdl_path in &avdl_paths {
-            let compiled = self.inner.compile_file(avdl_path)?;
+            let compiled = match self.inner.compile_file(avdl_path) {
+                Ok(compiled) => compiled,
+                Err(e) => {
+                    // Keep the warnings of the files already processed.
+                    all_warnings.append(&mut self.inner.accumulated_warnings);
+                    self.inner.accumulated_warnings = all_warnings;
+                    return Err(e);
+                }
+            };
             let output = Self::extract_impl(compiled);
             all_schemas.extend(output.schemas);
             all_warnings.extend(output.warnings);
-- 
2.43.0


From e791750514cb41df4376e21980e7d334afc8e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 11/27] fix: do not try to compile directories whose name ends
 in .avdl

---
 src/compiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index ae3b655..02cd19d 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -506,7 +506,7 @@ impl Idl2Schemata {
             .filter_map(|e| e.ok())
         {
             let path = entry.path();
-            if path.extension().and_then(|e| e.to_str()) == Some("avdl") {
+            if path.extension().and_then(|e| e.to_str()) == Some("avdl") && !path.is_dir() {
                 avdl_paths.push(path.to_path_buf());
             }
         }
-- 
2.43.0


From 57695bfab725ed30f2e4c611a8b56ab0d00c549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 12/27] fix: let messages of an imported protocol win over
 those of its own imports

---
 src/compiler.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 02cd19d..a8ecff0 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -832,11 +832,6 @@ fn resolve_single_import(
                     .push(miette::Report::new(w).wrap_err(import_file_name.to_string()));
             }
 
-            // If the imported IDL is a protocol, merge its messages.
-            if let IdlFile::Protocol(imported_protocol) = &imported_idl {
-                ctx.messages.extend(imported_protocol.messages.clone());
-            }
-
             // Recursively process declaration items from the imported file.
             // IDL imports use their own source text for span tracking, so
             // `ctx.json_import_spans` is passed through to capture any nested
@@ -844,6 +839,12 @@ fn resolve_single_import(
             process_decl_items(&nested_decl_items, ctx, &import_dir).with_context(|| {
                 format!("resolve nested imports from `{}`", resolved_path.display())
             })?;
+
+            // If the imported IDL is a protocol, merge its messages. Like those
+            // of the main file, they win over the messages of its own imports.
+            if let IdlFile::Protocol(imported_protocol) = imported_idl {
+                ctx.messages.extend(imported_protocol.messages);
+            }
         }
     }
 
-- 
2.43.0


From 3379dc935bc60e9066c2de8dfb6a0c8b649b8922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 13/27] fix: report each undefined name at its earliest
 mention, in a deterministic order

---
 src/compiler.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index a8ecff0..835ff10 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -1034,7 +1034,10 @@ fn validate_all_references(
             // `validate_references()` alone does not see them. We must validate
             // them explicitly here. Without this, undefined types in messages
             // silently pass through (Java rejects them with "Undefined schema").
-            for msg in protocol.messages.values() {
+            // In a fixed order: the map's own order differs from run to run.
+            let mut messages: Vec<_> = protocol.messages.iter().collect();
+            messages.sort_by_key(|(name, _)| *name);
+            for (_, msg) in messages {
                 unresolved.extend(registry.validate_schema(&msg.response));
                 for field in &msg.request {
                     unresolved.extend(registry.validate_schema(&field.schema));
@@ -1048,21 +1051,20 @@ fn validate_all_references(
         }
     }
 
-    // Deduplicate by name while preserving source order (first occurrence
-    // wins). We use a `HashSet` to track which names we've already seen,
-    // retaining the entry whose span appears earliest in the file.
-    {
-        let mut seen = HashSet::new();
-        unresolved.retain(|(name, _)| seen.insert(name.clone()));
-    }
-
     // Sort by source span offset so the first error in the file is reported
     // first. References without a span (from JSON imports) sort to the end.
     unresolved.sort_by_key(|(_, span)| {
         span.as_ref()
-            .map_or(("", usize::MAX), |s| (s.name, s.offset))
+            .map_or((true, "", usize::MAX), |s| (false, s.name, s.offset))
     });
 
+    // Deduplicate by name, keeping the entry whose span appears earliest in the
+    // file.
+    {
+        let mut seen = HashSet::new();
+        unresolved.retain(|(name, _)| seen.insert(name.clone()));
+    }
+
     if unresolved.is_empty() {
         return Ok(());
     }
-- 
2.43.0


From 5d3b84b2c19d0b4e6ce505bdf148e5b8a5ec756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 14/27] fix: list annotations ignored on a union in a
 deterministic order

---
 src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index f2470c2..9e767bc 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3262,7 +3262,8 @@ fn walk_full_type<'input>(
     // drops them without feedback. Nullable unions (`type?` syntax) are fine
     // because annotations are applied to the non-null branch instead.
     if !props.properties.is_empty() && is_non_nullable_union(&schema) {
-        let keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        let mut keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        keys.sort_unstable();
         src.warnings
             .borrow_mut()
             .push(Warning::annotations_dropped_on_union(&keys, src, ctx));
-- 
2.43.0


From 3c46bc521811ff6a82371af9744e4071ed442ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 15/27] fix: check defaults of recursive and heavily shared
 record types completely and in bounded time

---
 src/model/schema.rs | 193 +++++++++++++++++++++++---------------------
 1 file changed, 99 insertions(+), 94 deletions(-)

diff --git a/src/model/schema.rs b/src/model/schema.rs
index 9963f9e..5a71b85 100644
--- a/src/model/schema.rs
+++ b/src/model/schema.rs
@@ -917,7 +917,7 @@ where
         // Only intervene for Reference types (and unions containing them).
         // Non-Reference types are already validated at parse time by
         // `walk_variable` in reader.rs.
-        let resolved_schema = resolve_for_validation(&field.schema, &resolver);
+        let resolved_schema = resolve_for_validation(&field.schema, default_val, &resolver);
         if let Some(ref resolved) = resolved_schema
             && let Some(reason) = validate_default(default_val, resolved)
         {
@@ -930,31 +930,33 @@ where
     errors
 }
 
-/// Attempt to resolve `Reference` types in a schema for default validation.
+/// Replace the references in `schema` that `values` reach by their definitions,
+/// so that the values can be checked against it.
 ///
-/// Returns `Some(resolved_schema)` if all references in the schema can be
-/// resolved, or `None` if any reference is unresolvable (forward reference).
-/// For non-Reference types, returns the schema unchanged.
-///
-/// This function performs deep resolution: it recursively resolves References
-/// inside record fields, array items, map values, and union branches. This is
-/// necessary for validating nested record defaults where inner types may also
-/// be References.
-fn resolve_for_validation<F>(schema: &AvroSchema, resolver: &F) -> Option<AvroSchema>
+/// Returns `None` when the type involves a reference that is not registered
+/// yet: nothing can then be said about the values. Following the values keeps
+/// the result finite for recursive types and small for types that mention each
+/// other many times.
+fn resolve_for_validation<F>(
+    schema: &AvroSchema,
+    value: &Value,
+    resolver: &F,
+) -> Option<AvroSchema>
 where
     F: Fn(&str) -> Option<AvroSchema>,
 {
-    use std::collections::HashSet;
-    let mut visited = HashSet::new();
-    resolve_for_validation_inner(schema, resolver, &mut visited)
+    let mut seen = std::collections::HashSet::new();
+    all_references_resolve(schema, resolver, &mut seen)
+        .then(|| resolve_along_values(schema, &[value], resolver))
 }
 
-/// Inner recursive function with cycle detection via a `visited` set.
-fn resolve_for_validation_inner<F>(
+/// Whether every reference that `schema` involves, directly or through other
+/// definitions, can be resolved.
+fn all_references_resolve<F>(
     schema: &AvroSchema,
     resolver: &F,
-    visited: &mut std::collections::HashSet<String>,
-) -> Option<AvroSchema>
+    seen: &mut std::collections::HashSet<String>,
+) -> bool
 where
     F: Fn(&str) -> Option<AvroSchema>,
 {
@@ -963,39 +965,49 @@ where
             name, namespace, ..
         } => {
             let full_name = make_full_name(name, namespace.as_deref()).into_owned();
-            // Cycle detection: if we've already seen this type, return a
-            // placeholder that will pass basic JSON type validation.
-            // Cyclic types can still have valid defaults (e.g., a tree node
-            // where child references are nullable), so we don't fail here.
-            if visited.contains(&full_name) {
-                // Return the Reference as-is; is_valid_default treats Reference
-                // as "skip validation", which is appropriate for cyclic refs.
-                return Some(schema.clone());
-            }
-            // Resolve the reference first, then recursively resolve any nested
-            // References inside the resolved type.
-            resolver(&full_name)
-                .and_then(|resolved| resolve_for_validation_inner(&resolved, resolver, visited))
+            seen.contains(&full_name)
+                || resolver(&full_name).is_some_and(|resolved| {
+                    seen.insert(full_name);
+                    all_references_resolve(&resolved, resolver, seen)
+                })
         }
+        AvroSchema::Union { types, .. } => types
+            .iter()
+            .all(|branch| all_references_resolve(branch, resolver, seen)),
+        AvroSchema::Record { fields, .. } => fields
+            .iter()
+            .all(|field| all_references_resolve(&field.schema, resolver, seen)),
+        AvroSchema::Array { items, .. } => all_references_resolve(items, resolver, seen),
+        AvroSchema::Map { values, .. } => all_references_resolve(values, resolver, seen),
+        _ => true,
+    }
+}
+
+/// Replace the references in `schema` that any of the `values` reaches.
+fn resolve_along_values<F>(schema: &AvroSchema, values: &[&Value], resolver: &F) -> AvroSchema
+where
+    F: Fn(&str) -> Option<AvroSchema>,
+{
+    if values.is_empty() {
+        return schema.clone();
+    }
+    match schema {
+        AvroSchema::Reference {
+            name, namespace, ..
+        } => match resolver(&make_full_name(name, namespace.as_deref())) {
+            Some(resolved) => resolve_along_values(&resolved, values, resolver),
+            None => schema.clone(),
+        },
         AvroSchema::Union {
             types,
             is_nullable_type,
-        } => {
-            // Resolve any Reference branches within the union. If any branch
-            // is an unresolvable forward reference, skip validation for the
-            // entire union.
-            let mut resolved_types = Vec::with_capacity(types.len());
-            for branch in types {
-                match resolve_for_validation_inner(branch, resolver, visited) {
-                    Some(resolved) => resolved_types.push(resolved),
-                    None => return None,
-                }
-            }
-            Some(AvroSchema::Union {
-                types: resolved_types,
-                is_nullable_type: *is_nullable_type,
-            })
-        }
+        } => AvroSchema::Union {
+            types: types
+                .iter()
+                .map(|branch| resolve_along_values(branch, values, resolver))
+                .collect(),
+            is_nullable_type: *is_nullable_type,
+        },
         AvroSchema::Record {
             name,
             namespace,
@@ -1004,58 +1016,51 @@ where
             is_error,
             aliases,
             properties,
-        } => {
-            // Mark this record as being visited to detect cycles.
-            let full_name = make_full_name(name, namespace.as_deref()).into_owned();
-            visited.insert(full_name.clone());
-
-            // Recursively resolve References inside record fields so that
-            // nested record default validation can see the full types.
-            let mut resolved_fields = Vec::with_capacity(fields.len());
-            for field in fields {
-                let resolved_schema =
-                    resolve_for_validation_inner(&field.schema, resolver, visited)?;
-                resolved_fields.push(Field {
-                    name: field.name.clone(),
-                    schema: resolved_schema,
-                    doc: field.doc.clone(),
-                    default: field.default.clone(),
-                    order: field.order.clone(),
-                    aliases: field.aliases.clone(),
-                    properties: field.properties.clone(),
-                });
-            }
-
-            // Unmark after processing this record's fields.
-            visited.remove(&full_name);
-
-            Some(AvroSchema::Record {
-                name: name.clone(),
-                namespace: namespace.clone(),
-                doc: doc.clone(),
-                fields: resolved_fields,
-                is_error: *is_error,
-                aliases: aliases.clone(),
-                properties: properties.clone(),
-            })
-        }
+        } => AvroSchema::Record {
+            name: name.clone(),
+            namespace: namespace.clone(),
+            doc: doc.clone(),
+            fields: fields
+                .iter()
+                .map(|field| {
+                    let field_values: Vec<&Value> =
+                        values.iter().filter_map(|v| v.get(&field.name)).collect();
+                    Field {
+                        schema: resolve_along_values(&field.schema, &field_values, resolver),
+                        ..field.clone()
+                    }
+                })
+                .collect(),
+            is_error: *is_error,
+            aliases: aliases.clone(),
+            properties: properties.clone(),
+        },
         AvroSchema::Array { items, properties } => {
-            let resolved_items = resolve_for_validation_inner(items, resolver, visited)?;
-            Some(AvroSchema::Array {
-                items: Box::new(resolved_items),
+            let elements: Vec<&Value> = values
+                .iter()
+                .filter_map(|v| v.as_array())
+                .flatten()
+                .collect();
+            AvroSchema::Array {
+                items: Box::new(resolve_along_values(items, &elements, resolver)),
                 properties: properties.clone(),
-            })
+            }
         }
-        AvroSchema::Map { values, properties } => {
-            let resolved_values = resolve_for_validation_inner(values, resolver, visited)?;
-            Some(AvroSchema::Map {
-                values: Box::new(resolved_values),
+        AvroSchema::Map {
+            values: value_schema,
+            properties,
+        } => {
+            let entries: Vec<&Value> = values
+                .iter()
+                .filter_map(|v| v.as_object())
+                .flat_map(|o| o.values())
+                .collect();
+            AvroSchema::Map {
+                values: Box::new(resolve_along_values(value_schema, &entries, resolver)),
                 properties: properties.clone(),
-            })
+            }
         }
-        // For primitives, enums, fixed, logical types, and annotated primitives,
-        // the schema is already concrete and does not need resolution.
-        other => Some(other.clone()),
+        other => other.clone(),
     }
 }
 
-- 
2.43.0


From 30cbcf018544893d5280bb5422909cfd7d77a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 16/27] fix: report undefined names mentioned by imported JSON
 outside any definition

---
 src/import.rs  |  1 +
 src/resolve.rs | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/import.rs b/src/import.rs
index e43bd29..038f727 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -288,6 +288,7 @@ fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> Av
     for t in types {
         let _ = registry.register(t);
     }
+    registry.mention(top_level.clone());
     top_level
 }
 
diff --git a/src/resolve.rs b/src/resolve.rs
index a98bba6..a00dbd4 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -85,12 +85,16 @@ pub(crate) fn validate_schema_name(name: &str, namespace: Option<&str>) -> Resul
 pub struct SchemaRegistry {
     /// Named schemas indexed by full name (namespace.name), in registration order.
     schemas: IndexMap<String, AvroSchema>,
+    /// Imported schemas that are not definitions themselves, but whose
+    /// references must resolve.
+    mentioned: Vec<AvroSchema>,
 }
 
 impl SchemaRegistry {
     pub fn new() -> Self {
         SchemaRegistry {
             schemas: IndexMap::new(),
+            mentioned: Vec::new(),
         }
     }
 
@@ -136,6 +140,11 @@ impl SchemaRegistry {
         Ok(())
     }
 
+    /// Record a schema whose references must resolve.
+    pub fn mention(&mut self, schema: AvroSchema) {
+        self.mentioned.push(schema);
+    }
+
     /// Look up a named schema by full name.
     pub fn lookup(&self, full_name: &str) -> Option<&AvroSchema> {
         self.schemas.get(full_name)
@@ -187,7 +196,7 @@ impl SchemaRegistry {
     /// `validate_all_references` in `compiler.rs`.
     pub fn validate_references(&self) -> Vec<(String, Option<SpanWithSource>)> {
         let mut unresolved = Vec::new();
-        for schema in self.schemas.values() {
+        for schema in self.schemas.values().chain(&self.mentioned) {
             collect_unresolved_refs(schema, &self.schemas, &mut unresolved);
         }
         unresolved
-- 
2.43.0


From 271452cb2734028f903ea72d4c8def8f0073d655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 17/27] fix: do not let a directory shadow a file of the same
 name in an import directory

---
 src/import.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 038f727..7c1170d 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -75,7 +75,7 @@ impl ImportContext {
     pub fn resolve_import(&self, import_file: &str, current_dir: &Path) -> Result<PathBuf> {
         // Try relative to current file's directory first.
         let relative = current_dir.join(import_file);
-        if relative.exists() {
+        if relative.exists() && !relative.is_dir() {
             return relative.canonicalize().map_err(|e| {
                 miette::miette!(
                     "canonicalize import path `{import_file}` relative to `{}`: {e}",
@@ -87,7 +87,7 @@ impl ImportContext {
         // Try each import search directory.
         for dir in &self.import_dirs {
             let candidate = dir.join(import_file);
-            if candidate.exists() {
+            if candidate.exists() && !candidate.is_dir() {
                 return candidate.canonicalize().map_err(|e| {
                     miette::miette!(
                         "canonicalize import path `{import_file}` in import dir `{}`: {e}",
@@ -97,6 +97,12 @@ impl ImportContext {
             }
         }
 
+        // A directory of that name is not a file to import, but reading it
+        // tells the user more than "not found".
+        if relative.is_dir() {
+            return Ok(relative);
+        }
+
         // Build a comma-separated list of all directories that were searched,
         // starting with the importing file's directory, then each --import-dir.
         let searched: Vec<String> = std::iter::once(current_dir.display().to_string())
-- 
2.43.0


From 7114cbb890084d6af77319287f14573ec0d57687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 18/27] fix: reject annotations that change what a logical type
 keyword says

---
 src/reader.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 9e767bc..4cae870 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3256,6 +3256,17 @@ fn walk_full_type<'input>(
         ));
     }
 
+    // The keyword of a logical type already determines its attributes, so an
+    // annotation must not change them. Java's `JsonProperties.addProp()`
+    // throws "Can't overwrite property: {name}" here.
+    if let Some(name) = overwritten_logical_attribute(&schema, &props.properties) {
+        return Err(make_diagnostic(
+            src,
+            ctx,
+            format!("Can't overwrite property: {name}"),
+        ));
+    }
+
     // Warn when annotations are placed on a non-nullable union type. These
     // annotations cannot be attached to the union schema (Avro unions don't
     // carry top-level properties) and will be silently discarded. Java also
@@ -4291,6 +4302,35 @@ fn fix_optional_schema(schema: AvroSchema, default_value: Option<&Value>) -> Avr
     }
 }
 
+/// The attribute of a logical type (possibly made nullable with `?`) that one
+/// of the annotations would change, if any.
+fn overwritten_logical_attribute(
+    schema: &AvroSchema,
+    properties: &HashMap<String, Value>,
+) -> Option<&'static str> {
+    let logical_type = match schema {
+        AvroSchema::Logical { logical_type, .. } => logical_type,
+        AvroSchema::Union {
+            types,
+            is_nullable_type: true,
+        } => {
+            return types
+                .iter()
+                .find_map(|t| overwritten_logical_attribute(t, properties));
+        }
+        _ => return None,
+    };
+    let mut fixed = vec![("logicalType", Value::from(logical_type.name()))];
+    if let LogicalType::Decimal { precision, scale } = logical_type {
+        fixed.push(("precision", Value::from(*precision)));
+        fixed.push(("scale", Value::from(*scale)));
+    }
+    fixed
+        .into_iter()
+        .find(|(name, value)| properties.get(*name).is_some_and(|v| v != value))
+        .map(|(name, _)| name)
+}
+
 /// Apply custom schema properties to a schema. For nullable unions, apply them
 /// to the non-null branch (matching the Java behavior where properties go on
 /// `type.getTypes().get(1)` for optional types).
-- 
2.43.0


From 2f83989fa1298e36b1fde4773c7d21fe0cecfe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 19/27] fix: accept the smallest 64-bit integer in hexadecimal
 and octal

---
 src/reader.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4cae870..2ed2c5f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4004,19 +4004,18 @@ fn parse_integer_literal(text: &str) -> Result<Value> {
         i64::from_str_radix(hex, 16)
             .map_err(|e| miette::miette!("invalid hex integer literal '{text}': {e}"))?
     } else if number.starts_with('-') && (number.starts_with("-0x") || number.starts_with("-0X")) {
-        let hex = &number[3..];
-        let abs = i64::from_str_radix(hex, 16)
-            .map_err(|e| miette::miette!("invalid hex integer literal '{text}': {e}"))?;
-        -abs
+        // Keep the sign on the digits: the magnitude of `i64::MIN` alone
+        // would not fit.
+        let hex = format!("-{}", &number[3..]);
+        i64::from_str_radix(&hex, 16)
+            .map_err(|e| miette::miette!("invalid hex integer literal '{text}': {e}"))?
     } else if number.starts_with('0') && number.len() > 1 && !number.contains('.') {
         // Octal.
         i64::from_str_radix(&number, 8)
             .map_err(|e| miette::miette!("invalid octal integer literal '{text}': {e}"))?
     } else if number.starts_with("-0") && number.len() > 2 && !number.contains('.') {
-        let oct = &number[1..];
-        let abs = i64::from_str_radix(oct, 8)
-            .map_err(|e| miette::miette!("invalid octal integer literal '{text}': {e}"))?;
-        -abs
+        i64::from_str_radix(&number, 8)
+            .map_err(|e| miette::miette!("invalid octal integer literal '{text}': {e}"))?
     } else {
         number
             .parse::<i64>()
-- 
2.43.0


From 66fc82d7f29952af4c8489ab9d10d24630dbc16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 20/27] fix: convert hexadecimal floating-point literals
 exactly

---
 src/reader.rs | 91 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 64 insertions(+), 27 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 2ed2c5f..5726f76 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4132,39 +4132,76 @@ fn parse_hex_float_mantissa_and_exponent(hex_body: &str, original: &str) -> Resu
         .parse()
         .map_err(|e| miette::miette!("invalid hex float exponent in '{original}': {e}"))?;
 
-    // Parse the hex mantissa, which may contain a '.' decimal point.
-    let mantissa = if let Some((int_part, frac_part)) = mantissa_str.split_once('.') {
-        // Integer part: each hex digit contributes its value in the
-        // corresponding hex place.
-        let int_val = if int_part.is_empty() {
-            0.0
+    // Parse the hex mantissa, which may contain a '.' decimal point, as an
+    // integer scaled by a power of two. Digits that no longer fit are dropped
+    // (they are too far right to matter except in breaking a tie, which the
+    // lowest bit remembers).
+    let mut mantissa: u64 = 0;
+    let mut exponent = i64::from(exponent);
+    let mut dropped = false;
+    let mut after_point = false;
+    for ch in mantissa_str.chars() {
+        if ch == '.' {
+            after_point = true;
+            continue;
+        }
+        let digit = ch.to_digit(16).ok_or_else(|| {
+            miette::miette!("invalid hex digit '{ch}' in float literal '{original}'")
+        })?;
+        if mantissa >> 60 == 0 {
+            mantissa = (mantissa << 4) | u64::from(digit);
+            exponent -= if after_point { 4 } else { 0 };
         } else {
-            u64::from_str_radix(int_part, 16)
-                .map_err(|e| miette::miette!("invalid hex float mantissa in '{original}': {e}"))?
-                as f64
-        };
+            dropped |= digit != 0;
+            exponent += if after_point { 0 } else { 4 };
+        }
+    }
 
-        // Fractional part: each hex digit after the point represents
-        // 1/16, 1/256, etc. of its value.
-        let mut frac_val = 0.0_f64;
-        let mut place = 1.0_f64 / 16.0;
-        for ch in frac_part.chars() {
-            let digit = ch.to_digit(16).ok_or_else(|| {
-                miette::miette!("invalid hex digit '{ch}' in float literal '{original}'")
-            })? as f64;
-            frac_val += digit * place;
-            place /= 16.0;
+    Ok(scale_by_power_of_two(
+        mantissa | u64::from(dropped),
+        exponent,
+    ))
+}
+
+/// Compute `mantissa * 2^exponent`, rounded to the nearest `f64` (ties to even).
+fn scale_by_power_of_two(mantissa: u64, exponent: i64) -> f64 {
+    if mantissa == 0 {
+        return 0.0;
+    }
+
+    // The exponent of the leading bit decides how many bits an `f64` can keep:
+    // 53, or fewer for subnormal numbers.
+    let bits = i64::from(u64::BITS - mantissa.leading_zeros());
+    let leading = exponent + bits - 1;
+    if leading > 1023 {
+        return f64::INFINITY;
+    }
+    let keep = 53.min(leading + 1075);
+    if keep < 0 {
+        return 0.0;
+    }
+
+    // Round to that many bits.
+    let drop = (bits - keep).max(0);
+    let wide = u128::from(mantissa);
+    let mut kept = wide >> drop;
+    if drop > 0 {
+        let rest = wide & ((1 << drop) - 1);
+        let half = 1 << (drop - 1);
+        if rest > half || (rest == half && kept & 1 == 1) {
+            kept += 1;
         }
+    }
 
-        int_val + frac_val
+    // `kept` times this power of two is now exactly representable (or
+    // overflows to infinity).
+    let exponent = exponent + drop;
+    let power = if exponent >= -1022 {
+        f64::from_bits(((exponent + 1023) as u64) << 52)
     } else {
-        // No decimal point — the mantissa is a plain hex integer.
-        u64::from_str_radix(mantissa_str, 16)
-            .map_err(|e| miette::miette!("invalid hex float mantissa in '{original}': {e}"))?
-            as f64
+        f64::from_bits(1 << (exponent + 1074))
     };
-
-    Ok(mantissa * 2.0_f64.powi(exponent))
+    kept as f64 * power
 }
 
 /// Parse an integer literal text into a u32 (for fixed size, decimal precision/scale).
-- 
2.43.0


From 4b9d536d6667c46014995d55e7e40b5763179907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:52 +0000
Subject: [PATCH 21/27] fix: keep a decimal of precision zero in imported JSON
 as plain attributes

An IDL source may say @logicalType("decimal") @precision(0) bytes, and the
compiler emits it as written; importing that document again failed.  As with
every other logical type that does not fit, the attributes are kept.
---
 src/import.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 7c1170d..50afea4 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -729,16 +729,9 @@ fn parse_annotated_primitive(
         if let Some(lt) = parse_logical_type(logical, precision, scale)
             && lt.expected_base_type().as_str() == prim
             && (scale.is_some() || !obj.contains_key("scale"))
+            // A decimal of no digits is not a decimal.
+            && !matches!(lt, LogicalType::Decimal { precision: 0, .. })
         {
-            // For decimal, validate that precision >= 1 (the shared helper
-            // returns None when precision is absent, but we also need to
-            // reject explicit zero).
-            if let LogicalType::Decimal { precision, .. } = &lt
-                && *precision < 1
-            {
-                miette::bail!("decimal precision must be >= 1");
-            }
-
             // Precision and scale belong to the logical type only for decimal.
             let known_keys: &[&str] = match &lt {
                 LogicalType::Decimal { .. } => &["type", "logicalType", "precision", "scale"],
-- 
2.43.0


From a2ee751ed4d17c7635eeb600ae8f283bb60ddd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 22/27] fix: report errors writing the last line to standard
 output

A document without a newline stayed in the line buffer of standard output,
which is flushed at exit ignoring errors: avdl idl exited 0 having written
nothing when the write failed. Flush explicitly.
---
 src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8d36c85..13ee3b4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -304,9 +304,12 @@ fn write_output(output: Option<&str>, content: &str) -> miette::Result<()> {
     match file_path {
         None => {
             // Write to stdout without trailing newline, matching Java behavior.
-            // Handle BrokenPipe gracefully.
+            // Handle BrokenPipe gracefully. Flush explicitly: the last line has
+            // no newline and would otherwise only be written at exit, where
+            // errors are ignored.
             use std::io::Write;
-            if let Err(e) = write!(io::stdout(), "{content}") {
+            let mut stdout = io::stdout();
+            if let Err(e) = write!(stdout, "{content}").and_then(|()| stdout.flush()) {
                 if e.kind() == io::ErrorKind::BrokenPipe {
                     return Ok(());
                 }
-- 
2.43.0


From 12cfc9af2491fe1fec35cd06e7d83519bf9f78b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 23/27] fix: reject deeply nested sources instead of
 overflowing the stack

Types, annotations and defaults nested a few hundred levels deep (a few dozen
on a spawned thread of an unoptimized build) aborted the process. Report an
error beyond 64 levels of brackets.
---
 src/reader.rs | 56 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 5726f76..22b069a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1810,6 +1810,48 @@ fn extract_line_prefix(msg: &str) -> &str {
     ""
 }
 
+/// How deeply brackets of all kinds may be nested in a source file. The parser
+/// needs about 30 KiB of stack per level in unoptimized builds, and spawned
+/// threads only have 2 MiB by default.
+const MAX_NESTING: usize = 64;
+
+/// Returns the byte offset of the first bracket nested more than
+/// [`MAX_NESTING`] levels deep, ignoring strings and comments.
+fn find_excessive_nesting(source: &str) -> Option<usize> {
+    let bytes = source.as_bytes();
+    let mut depth: usize = 0;
+    let mut i = 0;
+    while i < bytes.len() {
+        match bytes[i] {
+            b'"' => {
+                // Skip to the closing quote; strings end with their line.
+                i += 1;
+                while i < bytes.len() && !matches!(bytes[i], b'"' | b'\n' | b'\r') {
+                    i += if bytes[i] == b'\\' { 2 } else { 1 };
+                }
+            }
+            b'/' if bytes[i..].starts_with(b"//") => {
+                while i < bytes.len() && !matches!(bytes[i], b'\n' | b'\r') {
+                    i += 1;
+                }
+            }
+            b'/' if bytes[i..].starts_with(b"/*") => {
+                i = source[i + 2..].find("*/").map_or(bytes.len(), |end| i + end + 3);
+            }
+            b'{' | b'[' | b'(' | b'<' => {
+                depth += 1;
+                if depth > MAX_NESTING {
+                    return Some(i);
+                }
+            }
+            b'}' | b']' | b')' | b'>' => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+        i += 1;
+    }
+    None
+}
+
 /// Convert 1-based `line` and 0-based `column` (as reported by ANTLR) to a
 /// byte offset into `source`. Returns 0 if the coordinates are out of range.
 fn line_col_to_byte_offset(source: &str, line: isize, column: isize) -> usize {
@@ -2022,6 +2064,20 @@ pub fn parse_idl_named(
     } else {
         input
     };
+
+    // Parsing and everything downstream of it recurse into nested constructs,
+    // so excessive nesting has to be rejected before it overflows the stack.
+    if let Some(offset) = find_excessive_nesting(input) {
+        return Err(ParseDiagnostic {
+            span: SpanWithSource::new(offset, 1, source_name, input),
+            message: format!("nested more than {MAX_NESTING} levels deep"),
+            label: Some("too deeply nested".to_string()),
+            help: None,
+            related: Vec::new(),
+        }
+        .into());
+    }
+
     let input_stream = InputStream::new(input);
     let mut lexer = IdlLexer::new(input_stream);
 
-- 
2.43.0


From b38cdd86bde9a4e57b07dcb1ff87e6661a448cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:23 +0000
Subject: [PATCH 24/27] fix: check defaults behind long chains of references
 without overflowing the stack

---
 src/model/schema.rs | 53 +++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/src/model/schema.rs b/src/model/schema.rs
index 5a71b85..4b9f687 100644
--- a/src/model/schema.rs
+++ b/src/model/schema.rs
@@ -945,42 +945,43 @@ fn resolve_for_validation<F>(
 where
     F: Fn(&str) -> Option<AvroSchema>,
 {
-    let mut seen = std::collections::HashSet::new();
-    all_references_resolve(schema, resolver, &mut seen)
+    all_references_resolve(schema, resolver)
         .then(|| resolve_along_values(schema, &[value], resolver))
 }
 
 /// Whether every reference that `schema` involves, directly or through other
-/// definitions, can be resolved.
-fn all_references_resolve<F>(
-    schema: &AvroSchema,
-    resolver: &F,
-    seen: &mut std::collections::HashSet<String>,
-) -> bool
+/// definitions, can be resolved. Chains of references may be long, so this does
+/// not recurse.
+fn all_references_resolve<F>(schema: &AvroSchema, resolver: &F) -> bool
 where
     F: Fn(&str) -> Option<AvroSchema>,
 {
-    match schema {
-        AvroSchema::Reference {
-            name, namespace, ..
-        } => {
-            let full_name = make_full_name(name, namespace.as_deref()).into_owned();
-            seen.contains(&full_name)
-                || resolver(&full_name).is_some_and(|resolved| {
+    let mut seen = std::collections::HashSet::new();
+    let mut pending = vec![schema.clone()];
+    while let Some(schema) = pending.pop() {
+        match schema {
+            AvroSchema::Reference {
+                name, namespace, ..
+            } => {
+                let full_name = make_full_name(&name, namespace.as_deref()).into_owned();
+                if !seen.contains(&full_name) {
+                    match resolver(&full_name) {
+                        Some(resolved) => pending.push(resolved),
+                        None => return false,
+                    }
                     seen.insert(full_name);
-                    all_references_resolve(&resolved, resolver, seen)
-                })
+                }
+            }
+            AvroSchema::Union { types, .. } => pending.extend(types),
+            AvroSchema::Record { fields, .. } => {
+                pending.extend(fields.into_iter().map(|field| field.schema));
+            }
+            AvroSchema::Array { items, .. } => pending.push(*items),
+            AvroSchema::Map { values, .. } => pending.push(*values),
+            _ => {}
         }
-        AvroSchema::Union { types, .. } => types
-            .iter()
-            .all(|branch| all_references_resolve(branch, resolver, seen)),
-        AvroSchema::Record { fields, .. } => fields
-            .iter()
-            .all(|field| all_references_resolve(&field.schema, resolver, seen)),
-        AvroSchema::Array { items, .. } => all_references_resolve(items, resolver, seen),
-        AvroSchema::Map { values, .. } => all_references_resolve(values, resolver, seen),
-        _ => true,
     }
+    true
 }
 
 /// Replace the references in `schema` that any of the `values` reaches.
-- 
2.43.0


From 492d9400567cd2a45bb4d96a58d42a9d13c8d298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:46 +0000
Subject: [PATCH 25/27] fix: place unrecognized characters correctly after
 non-ASCII text

ANTLR reports columns in characters, but they were taken for byte offsets, so
warnings and errors about text after a non-ASCII character on the same line
pointed to the wrong place.
---
 src/reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 22b069a..4ab6286 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1862,7 +1862,12 @@ fn line_col_to_byte_offset(source: &str, line: isize, column: isize) -> usize {
     let mut offset = 0;
     for (i, src_line) in source.split('\n').enumerate() {
         if i == target_line {
-            return offset + (column as usize).min(src_line.len());
+            // ANTLR counts columns in characters.
+            return offset
+                + src_line
+                    .char_indices()
+                    .nth(column as usize)
+                    .map_or(src_line.len(), |(i, _)| i);
         }
         offset += src_line.len() + 1; // +1 for the newline character
     }
-- 
2.43.0


From e07d2c5d727cf45afb0e5bfdd9af9f8ad160f6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:43 +0000
Subject: [PATCH 26/27] fix: find excessive nesting behind text the lexer skips
 over

The check scanned for strings and comments itself, while the lexer also gives
up on text it does not recognize and may then take quotes and slashes
differently. Deep nesting behind such text was not noticed and overflowed the
stack. Use the lexer itself to tell which brackets the parser will see.
---
 src/reader.rs | 49 ++++++++++++++++++++++---------------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4ab6286..1affc4e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -30,11 +30,11 @@ use antlr4rust::common_token_stream::CommonTokenStream;
 use antlr4rust::error_listener::ErrorListener;
 use antlr4rust::parser::Parser;
 use antlr4rust::recognizer::Recognizer;
-use antlr4rust::token::Token;
+use antlr4rust::token::{Token, TOKEN_EOF};
 use antlr4rust::token_factory::TokenFactory;
 use antlr4rust::token_stream::TokenStream;
 use antlr4rust::tree::{ParseTree, Tree};
-use antlr4rust::{InputStream, TidExt};
+use antlr4rust::{InputStream, TidExt, TokenSource};
 use serde_json::Value;
 use std::collections::HashMap;
 
@@ -1816,40 +1816,35 @@ fn extract_line_prefix(msg: &str) -> &str {
 const MAX_NESTING: usize = 64;
 
 /// Returns the byte offset of the first bracket nested more than
-/// [`MAX_NESTING`] levels deep, ignoring strings and comments.
+/// [`MAX_NESTING`] levels deep, as the parser will see them: brackets in
+/// strings and comments do not count, and only the lexer knows where those
+/// start and end when it has to skip over text it does not recognize.
 fn find_excessive_nesting(source: &str) -> Option<usize> {
-    let bytes = source.as_bytes();
+    // Lexing is only worth its while where there are enough brackets.
+    let opening = |b: &u8| matches!(b, b'{' | b'[' | b'(' | b'<');
+    if source.bytes().filter(|b| opening(b)).count() <= MAX_NESTING {
+        return None;
+    }
+
+    let mut lexer = IdlLexer::new(InputStream::new(source));
+    lexer.remove_error_listeners();
     let mut depth: usize = 0;
-    let mut i = 0;
-    while i < bytes.len() {
-        match bytes[i] {
-            b'"' => {
-                // Skip to the closing quote; strings end with their line.
-                i += 1;
-                while i < bytes.len() && !matches!(bytes[i], b'"' | b'\n' | b'\r') {
-                    i += if bytes[i] == b'\\' { 2 } else { 1 };
-                }
-            }
-            b'/' if bytes[i..].starts_with(b"//") => {
-                while i < bytes.len() && !matches!(bytes[i], b'\n' | b'\r') {
-                    i += 1;
-                }
-            }
-            b'/' if bytes[i..].starts_with(b"/*") => {
-                i = source[i + 2..].find("*/").map_or(bytes.len(), |end| i + end + 3);
-            }
-            b'{' | b'[' | b'(' | b'<' => {
+    loop {
+        let token = lexer.next_token();
+        if token.get_token_type() == TOKEN_EOF {
+            return None;
+        }
+        match token.get_text() {
+            "{" | "[" | "(" | "<" => {
                 depth += 1;
                 if depth > MAX_NESTING {
-                    return Some(i);
+                    return Some(token.get_start() as usize);
                 }
             }
-            b'}' | b']' | b')' | b'>' => depth = depth.saturating_sub(1),
+            "}" | "]" | ")" | ">" => depth = depth.saturating_sub(1),
             _ => {}
         }
-        i += 1;
     }
-    None
 }
 
 /// Convert 1-based `line` and 0-based `column` (as reported by ANTLR) to a
-- 
2.43.0


From 102edc4beb3c42b70c69bf9cae67cddc455627ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:30 +0000
Subject: [PATCH 27/27] fix: give up on sources whose syntax errors hide
 nesting or never end

Recovering from a syntax error may drop closing brackets, so the parser can
nest more deeply than the brackets of the source do, and overflowed the stack.
It also took minutes for sources with thousands of errors, as each may look at
all of the rest of the source. Give up after 100 syntax errors, or when the
parser gets in too deep after one.
---
 src/reader.rs | 102 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 98 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 1affc4e..3ff476a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -23,11 +23,14 @@
 use std::cell::RefCell;
 use std::collections::HashSet;
 use std::rc::Rc;
+use std::sync::Arc;
 
 use std::borrow::Borrow;
 
 use antlr4rust::common_token_stream::CommonTokenStream;
 use antlr4rust::error_listener::ErrorListener;
+use antlr4rust::error_strategy::{DefaultErrorStrategy, ErrorStrategy};
+use antlr4rust::errors::ANTLRError;
 use antlr4rust::parser::Parser;
 use antlr4rust::recognizer::Recognizer;
 use antlr4rust::token::{Token, TOKEN_EOF};
@@ -1948,6 +1951,93 @@ impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
     }
 }
 
+/// How many syntax errors to look for in a source file.
+const MAX_SYNTAX_ERRORS: usize = 100;
+
+/// How deeply the rules of the grammar may be nested once there are syntax
+/// errors. A bracket takes up to three rules.
+const MAX_RULE_DEPTH: usize = 96;
+
+/// An error strategy that recovers from syntax errors like ANTLR's default one,
+/// but gives up once there are too many of them, or once recovery has led the
+/// parser into deeper nesting than the brackets of the source account for
+/// (e.g., `array<>array<>...`, where each `>` is dropped as superfluous).
+/// The errors reported until then are what is left of the parse.
+struct BoundedErrorStrategy<'input> {
+    inner: DefaultErrorStrategy<'input, IdlParserContextType>,
+    errors: Rc<RefCell<Vec<SyntaxError>>>,
+}
+
+antlr4rust::tid! { impl<'input> TidAble<'input> for BoundedErrorStrategy<'input> }
+
+impl<'input> BoundedErrorStrategy<'input> {
+    fn check_bounds<T>(&self, recognizer: &T) -> std::result::Result<(), ANTLRError>
+    where
+        T: Parser<'input, Node = IdlParserContextType>,
+    {
+        let errors = RefCell::borrow(&self.errors).len();
+        if errors == 0 {
+            return Ok(());
+        }
+        let mut depth = 0;
+        let mut ctx = Some(recognizer.get_parser_rule_context().clone());
+        while let Some(c) = ctx {
+            depth += 1;
+            ctx = c.get_parent_ctx();
+        }
+        if errors >= MAX_SYNTAX_ERRORS || depth > MAX_RULE_DEPTH {
+            // The only error that the generated parser does not recover from.
+            return Err(ANTLRError::FallThrough(Arc::new(std::io::Error::other(
+                "too many syntax errors",
+            ))));
+        }
+        Ok(())
+    }
+}
+
+impl<'input, T> ErrorStrategy<'input, T> for BoundedErrorStrategy<'input>
+where
+    T: Parser<'input, Node = IdlParserContextType>,
+{
+    fn reset(&mut self, recognizer: &mut T) {
+        self.inner.reset(recognizer)
+    }
+
+    fn recover_inline(
+        &mut self,
+        recognizer: &mut T,
+    ) -> std::result::Result<<T::TF as TokenFactory<'input>>::Tok, ANTLRError> {
+        self.check_bounds(recognizer)?;
+        self.inner.recover_inline(recognizer)
+    }
+
+    fn recover(
+        &mut self,
+        recognizer: &mut T,
+        error: &ANTLRError,
+    ) -> std::result::Result<(), ANTLRError> {
+        self.check_bounds(recognizer)?;
+        self.inner.recover(recognizer, error)
+    }
+
+    fn sync(&mut self, recognizer: &mut T) -> std::result::Result<(), ANTLRError> {
+        self.check_bounds(recognizer)?;
+        self.inner.sync(recognizer)
+    }
+
+    fn in_error_recovery_mode(&mut self, recognizer: &mut T) -> bool {
+        self.inner.in_error_recovery_mode(recognizer)
+    }
+
+    fn report_error(&mut self, recognizer: &mut T, error: &ANTLRError) {
+        self.inner.report_error(recognizer, error)
+    }
+
+    fn report_match(&mut self, recognizer: &mut T) {
+        self.inner.report_match(recognizer)
+    }
+}
+
 /// Logical type aliases that are also invalid as user-defined type names.
 /// Combined with `PRIMITIVE_TYPE_NAMES` from `schema.rs`, these form the full
 /// set of names that Java's `IdlReader.INVALID_TYPE_NAMES` rejects.
@@ -2114,11 +2204,12 @@ pub fn parse_idl_named(
         errors: Rc::clone(&syntax_errors),
         source: None,
     }));
+    parser.set_error_strategy(Box::new(BoundedErrorStrategy {
+        inner: DefaultErrorStrategy::new(),
+        errors: Rc::clone(&syntax_errors),
+    }));
 
-    let tree = parser
-        .idlFile()
-        .map_err(|e| miette::miette!("ANTLR parse error: {e:?}"))
-        .wrap_err_with(|| format!("parse `{source_name}`"))?;
+    let tree = parser.idlFile();
 
     // Convert any lexer errors into warnings. Lexer errors (e.g., unrecognized
     // characters) don't necessarily prevent a valid parse — the lexer skips the
@@ -2206,6 +2297,9 @@ pub fn parse_idl_named(
         .into());
     }
     drop(collected_errors);
+    let tree = tree
+        .map_err(|e| miette::miette!("ANTLR parse error: {e:?}"))
+        .wrap_err_with(|| format!("parse `{source_name}`"))?;
 
     // The parser's `input` field (on `BaseParser`, accessible through `Deref`)
     // holds the token stream. We need it for doc comment extraction (scanning
-- 
2.43.0

